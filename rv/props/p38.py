"""P38: robots described in URDF."""
from rv.worlds import *
from rv.urdf import *
import arboris.shapes as shp

RULE = 'random robot descriptions (trees of fixed, revolute and prismatic joints, any axis, optional parts left out, several spellings of the file), prefixes, suffixes, fixed and floating bases, several robots in a world; distinct by structure and options'
MONITORS = ['bodies', 'joints', 'joint-type', 'pose', 'root', 'mass', 'energy', 'shapes', 'shape-place', 'limits', 'limit-active', 'limit-table', 'effort-velocity', 'visual-table', 'collision-table', 'others-untouched', 'several', 'refused', 'rpy', 'mesh-file']
CLASSES = ['fixed-base', 'floating-base', 'prefix', 'suffix', 'H_init', 'no-inertial', 'slanted-axis', 'negative-axis', 'unnormalized-axis', 'no-axis', 'letter-axis', 'axis-numbers', 'no-limit', 'half-limit', 'zero-limit', 'no-origin', 'half-origin', 'light', 'two-robots', 'populated-world', 'limits-not-saved', 'near-axis', 'locked', 'box', 'sphere', 'cylinder', 'mesh', 'floating-joint', 'loaded-later']
SHAPE = dict(box=shp.Box, sphere=shp.Sphere, cylinder=shp.Cylinder)

def classes(ctx, R):
    for L in R.links:
        if L['inertial'] is None: ctx.cls('no-inertial')
        elif L['inertial']['mass'].x < 1e-6: ctx.cls('light')
        for w in ('visual', 'collision'):
            if L[w]: ctx.cls(L[w]['geometry']['kind'])
    for J in R.joints:
        a = J['axis']; o = J['origin']
        if o is None: ctx.cls('no-origin')
        elif (o[0] is None) != (o[1] is None): ctx.cls('half-origin')
        if J['type'] == 'fixed': continue
        if a is None: ctx.cls('no-axis')
        else:
            a = val(a)
            if np.sort(np.abs(a))[1] < 1e-2*norm(a) and np.count_nonzero(a) > 1: ctx.cls('near-axis')
            if np.count_nonzero(np.abs(a) > 1e-3) > 1: ctx.cls('slanted-axis')
            elif a.sum() < 0: ctx.cls('negative-axis')
            if abs(norm(a) - 1) > 1e-9: ctx.cls('unnormalized-axis')
        if J['limit'] is None: ctx.cls('no-limit')
        elif 0. in [v.x for v in (J['limit']['lower'], J['limit']['upper']) if v is not None]: ctx.cls('zero-limit')
        elif (J['limit']['lower'] is None) != (J['limit']['upper'] is None): ctx.cls('half-limit')

def table(ctx, R, path, T, which, full, monitor):
    """What get_visual_shapes and get_collision_shapes tell."""
    want = {full(L['name']): L[which] for L in R.links if L[which]}
    ctx.ok(sorted(t['frame'] for t in T) == sorted(want), monitor, '%s: %s' % (which, [t['frame'] for t in T]))
    for t in T:
        s = want[t['frame']]; g = s['geometry']; k = g['kind']; ctx.ok(t['shape'] == k, monitor, '%s shown as %s' % (k, t['shape'])); ctx.close(t['transform'], H_of(s['origin']), monitor, 'place', 1e-9)
        # the meshes of simple_shapes.dae: box and sphere of half extents 1, cylinder of radius 1 and length 1
        sc = dict(box=lambda: val(g['size'])/2., sphere=lambda: ones(3)*g['radius'].x, cylinder=lambda: array([g['radius'].x, g['radius'].x, g['length'].x]), mesh=lambda: ones(3) if g['scale'] is None else val(g['scale']))[k]()
        ctx.close(np.ones(3)*np.asarray(t['scale'], float), sc, monitor, '%s: displayed size' % k, 1e-9)
        f, _, node = t['mesh'].partition('#')
        if k == 'mesh': ctx.ok(os.path.normpath(f) == os.path.join(os.path.dirname(path), g['filename']) and not node, 'mesh-file', t['mesh'])
        else: ctx.ok(os.path.isfile(f) and node == 'simple_%s_node' % k, 'mesh-file', t['mesh'])

class Loaded(object):
    """A robot loaded in a world and what is expected of it."""
    def __init__(self, ctx, rng, w, k=0, lo=1, hi=8):
        self.R = R = Robot(rng, lo, hi); self.w = w; classes(ctx, R); path = R.write(); kw = {}; self.path = path
        self.prefix = '' if k == 0 and rng.random() < .5 else 'r%d_' % k; self.suffix = str(rng.choice(['', '', '.s', ' %d' % k])); self.root_name = 'root_joint'; self.H0 = eye(4); self.save = True; self.fixed = False
        if self.prefix: kw['prefix'] = self.prefix; ctx.cls('prefix')
        if self.suffix: kw['suffix'] = self.suffix; ctx.cls('suffix')
        if rng.random() < .5: self.fixed = bool(rng.random() < .8); kw['fixed_base'] = said(rng, self.fixed)
        if rng.random() < .5: self.H0 = rand_H(rng); kw['H_init'] = self.H0.copy(); ctx.cls('H_init')
        if rng.random() < .3: self.root_name = kw['root_joint_name'] = 'base!'
        if rng.random() < .3: self.save = bool(rng.random() < .3); kw['save_joint_limits'] = said(rng, self.save)
        if not self.save: ctx.cls('limits-not-saved')
        ctx.cls('fixed-base' if self.fixed else 'floating-base'); n0 = [len(list(x)) for x in (w.iterbodies(), w.iterjoints(), w.itershapes(), w.iterconstraints())]
        ctx.note(urdf=R.text, options={a: b for a, b in kw.items()}, prefix=self.prefix)
        old = list(w.iterconstraints())
        with silent():
            if rng.random() < .3:
                ctx.cls('loaded-later'); c = ur.URDFConverter(**kw)
                if rng.random() < .5: c.parseURDF(path)
                else: c = ur.URDFConverter(path, **kw)
                for J in R.joints: # a description made by a program may name the axis
                    if J['axis'] is not None and c.robot is not None and rng.random() < .5:
                        for a in 'xyz':
                            if np.array_equal(val(J['axis']), eye(3)['xyz'.index(a)]): c.robot.joints[J['name']].axis = a.upper() if rng.random() < .5 else a; ctx.cls('letter-axis')
                    if J['axis'] is not None and c.robot is not None and rng.random() < .3: c.robot.joints[J['name']].axis = [list, tuple, array][int(rng.integers(3))](val(J['axis'])); ctx.cls('axis-numbers')
                c.load_in_world(w)
            elif rng.random() < .5: c = ur.URDFConverter(path, w, **kw)
            else: c = ur.URDFConverter(urdf_file_name=path, world=w, **kw)
        self.c = c; full = self.full = lambda n: self.prefix + n + self.suffix; n1 = [len(list(x)) for x in (w.iterbodies(), w.iterjoints(), w.itershapes(), w.iterconstraints())]
        self.shapes = [(k, L['collision']) for k, L in enumerate(R.links) if L['collision'] and L['collision']['geometry']['kind'] != 'mesh']
        self.limited = [J for J in R.joints if J['type'] != 'fixed' and J['limit'] and J['limit']['lower'] is not None and J['limit']['upper'] is not None]
        ctx.ok(n1[0] - n0[0] == len(R.links), 'bodies', '%d bodies for %d links' % (n1[0] - n0[0], len(R.links))); ctx.ok(n1[1] - n0[1] == len(R.joints) + 1, 'joints', '%d joints for %d' % (n1[1] - n0[1], len(R.joints)))
        ctx.ok(n1[2] - n0[2] == len(self.shapes), 'shapes', '%d shapes for %d' % (n1[2] - n0[2], len(self.shapes))); ctx.ok(n1[3] - n0[3] == (len(self.limited) if self.save else 0), 'limits', '%d limits for %d' % (n1[3] - n0[3], len(self.limited)))
        B, JJ = list(w.iterbodies()), list(w.iterjoints()); self.bodies = {}; self.joints = {}
        for k, L in enumerate(R.links): x = [b for b in B if b.name == full(L['name'])]; ctx.ok(len(x) == 1, 'bodies', 'body %r' % full(L['name'])); self.bodies[k] = x[0]
        for J in R.joints + [None]:
            n = full(J['name'] if J else self.root_name); x = [j for j in JJ if j.name == n]; ctx.ok(len(x) == 1, 'joints', 'joint %r' % n); j = x[0]; ch = J['child'] if J else 0; self.joints[ch] = j
            ctx.ok(j.frame0.body is (self.bodies[J['parent']] if J else w.ground) and j.frame1.body is self.bodies[ch], 'joints', '%r links %s to %s' % (n, j.frame0.body.name, j.frame1.body.name))
            ctx.ok(j.ndof == (dict(fixed=0, revolute=1, prismatic=1)[J['type']] if J else (0 if self.fixed else 6)), 'joint-type', '%s for %s' % (type(j).__name__, J['type'] if J else 'root'))
        for k, b in self.bodies.items(): M = R.mass(k); ctx.close(b.mass, M, 'mass', 'mass of link %d' % k, 1e-9, max(np.abs(M).max(), 1e-9))
        self.new_constraints = [c for c in w.iterconstraints() if c not in old]
    def shake(self, rng):
        R = self.R; self.q = {}; self.v = {}
        for ch, j in self.joints.items():
            if ch == 0:
                if not self.fixed: j.gpos = self.q0 = rand_H(rng); j.gvel[:] = rng.normal(size=6)
                else: self.q0 = eye(4)
            elif j.ndof: x = float(rng.normal()); self.q[ch] = x; j.gpos[:] = x; j.gvel[:] = self.v.setdefault(ch, float(rng.normal()))
    def check(self, ctx, what=''):
        R = self.R; H = R.poses(dot(self.H0, self.q0), self.q); s = 1 + max(np.abs(h[:3, 3]).max() for h in H.values())
        for k, b in self.bodies.items(): ctx.close(b.pose, H[k], 'pose' if k else 'root', '%s link %d' % (what, k), 1e-9, s)
        S = [x for x in self.w.itershapes() if x.frame.body in self.bodies.values()]; ctx.ok(len(S) == len(self.shapes), 'shapes', 'shapes')
        for x in S:
            k = [k for k, b in self.bodies.items() if b is x.frame.body][0]; c = self.R.links[k]['collision']; g = c['geometry']; ctx.ok(type(x) is SHAPE[g['kind']], 'shapes', '%s for %s' % (type(x).__name__, g['kind']))
            ctx.close(x.frame.pose, dot(H[k], H_of(c['origin'])), 'shape-place', 'shape of link %d' % k, 1e-9, s)
            if g['kind'] == 'box': ctx.close(x.half_extents, val(g['size'])/2., 'shapes', 'box', 1e-12)
            elif g['kind'] == 'sphere': ctx.close(x.radius, g['radius'].x, 'shapes', 'sphere', 1e-12)
            else: ctx.close([x.radius, x.length], [g['radius'].x, g['length'].x], 'shapes', 'cylinder', 1e-12)
        self.H = H
    def energy(self, ctx):
        """Kinetic energy of the world's model against velocities obtained by moving along the joint velocities."""
        h = 1e-6; R = self.R; E = 0.; tw = array(self.joints[0].gvel) if not self.fixed else zeros(6)
        def at(s):
            X = eye(4); X[:3, :3] = rot(tw[:3]/max(norm(tw[:3]), 1e-300), norm(tw[:3])*s); X[:3, 3] = tw[3:]*s
            return R.poses(dot(self.H0, dot(self.q0, X)), {ch: q + self.v[ch]*s for ch, q in self.q.items()})
        A, B = at(-h), at(h)
        for k in self.bodies:
            H = self.H[k]; D = dot(np.linalg.inv(H), (B[k] - A[k])/(2*h)); t = array([D[2, 1], D[0, 2], D[1, 0], D[0, 3], D[1, 3], D[2, 3]]); E += .5*dot(t, dot(R.mass(k), t))
        return E

def load(ctx, rng, i):
    w = core.World(); n = 0; others = []
    if rng.random() < .3:
        ctx.cls('populated-world'); tree = gen_tree(ctx, rng, 1, 3); b = build(tree, world=w); others = [(j, np.array(j.gpos)) for j in b.joints.values() if j.ndof]; s = rand_shape(rng, b.bodies[0], 'old'); w.register(s)
    before = [list(x) for x in (w.iterbodies(), w.iterjoints(), w.itershapes(), w.iterconstraints())]
    robots = [Loaded(ctx, rng, w, k) for k in range(1 if rng.random() < .75 else 2)]
    if len(robots) > 1: ctx.cls('two-robots'); ctx.hit('several')
    now = [list(x) for x in (w.iterbodies(), w.iterjoints(), w.itershapes(), w.iterconstraints())]
    ctx.ok(all(all(any(e is f for f in N) for e in O) for O, N in zip(before, now)) and all(np.array_equal(j.gpos, q) for j, q in others), 'others-untouched', 'elements of the world before')
    for r in robots: r.q, r.v, r.q0 = {}, {}, eye(4)
    w.update_geometric()
    for r in robots: r.check(ctx, 'at rest')
    for _ in range(2):
        for r in robots: r.shake(rng)
        w.update_dynamic() if rng.random() < .5 else w.update_geometric()
        for r in robots: r.check(ctx, 'moved')
    if not others:
        w.update_dynamic(); E = sum(r.energy(ctx) for r in robots); v = w.gvel; ctx.close(.5*dot(v, dot(w.mass, v)), E, 'energy', 'kinetic energy', 1e-5, max(E, 1e-6))
    # limits
    for r in robots:
        full = r.full
        ctx.ok(r.c.get_joint_limits() == {full(J['name']): (J['limit']['lower'].x, J['limit']['upper'].x) for J in r.R.joints if J['limit'] and J['limit']['lower'] is not None and J['limit']['upper'] is not None}, 'limit-table', 'limits %s' % (r.c.get_joint_limits(),))
        ctx.ok(r.c.get_effort_limits() == {full(J['name']): J['limit']['effort'].x for J in r.R.joints if J['limit']}, 'effort-velocity', 'effort'); ctx.ok(r.c.get_velocity_limits() == {full(J['name']): J['limit']['velocity'].x for J in r.R.joints if J['limit']}, 'effort-velocity', 'velocity')
        table(ctx, r.R, r.path, r.c.get_visual_shapes(), 'visual', full, 'visual-table'); table(ctx, r.R, r.path, r.c.get_collision_shapes(), 'collision', full, 'collision-table')
        if not r.save or not r.limited: continue
        mid = {}
        for J in r.limited: lo, up_ = J['limit']['lower'].x, J['limit']['upper'].x; mid[J['child']] = (lo, up_); r.joints[J['child']].gpos[:] = (lo + up_)/2.
        def active():
            w.update_dynamic(); n = 0
            for c in r.new_constraints: c.update(1e-3); n += bool(c.is_active())
            return n
        locked = [ch for ch, (lo, hi) in mid.items() if lo == hi]; L = len(locked)
        if L: ctx.cls('locked')
        ctx.ok(active() == L, 'limit-active', 'limit active in the middle of the range')
        for ch, (lo, hi) in mid.items():
            j = r.joints[ch]
            if lo == hi:
                for x in (lo, lo - .1, lo + .1): j.gpos[:] = x; ctx.ok(active() == L, 'limit-active', 'locked joint %s at %g' % (j.name, x - lo))
                j.gpos[:] = lo; continue
            for x, y in ((lo, lo + .1), (hi, hi - .1)):
                j.gpos[:] = x; ctx.ok(active() == L + 1, 'limit-active', 'limit %g of joint %s' % (x, j.name)); j.gpos[:] = y; ctx.ok(active() == L, 'limit-active', 'no limit at %g for joint %s' % (y, j.name))
            j.gpos[:] = (lo + hi)/2.
    ctx.sig([(tuple((J['type'], J['parent'], J['axis'] is None) for J in r.R.joints), r.prefix, r.fixed) for r in robots])

def refuse(ctx, rng, i):
    def conv(xml, **kw):
        d = tempfile.mkdtemp(); p = os.path.join(d, 'x.urdf'); open(p, 'w').write(xml); w = core.World()
        with silent(): return ur.URDFConverter(p, w, **kw)
    L = '<link name="%s"/>'; J = '<joint name="%s" type="%s"><parent link="%s"/><child link="%s"/><axis xyz="0 0 1"/></joint>'
    for what, x in [('two roots', L % 'a' + L % 'b'), ('no root', L % 'a' + L % 'b' + J % ('j', 'fixed', 'a', 'b') + J % ('k', 'fixed', 'b', 'a')), ('nothing', ''), ('unknown link', L % 'a' + J % ('j', 'fixed', 'zz', 'a')), ('unknown joint type', L % 'a' + L % 'b' + J % ('j', 'magic', 'a', 'b')), ('null axis', L % 'a' + L % 'b' + (J % ('j', 'revolute', 'a', 'b')).replace('0 0 1', '0 0 0'))]:
        ctx.raises(Exception, lambda: conv('<robot name="r">%s</robot>' % x), 'refused', what)
    ctx.raises(Exception, lambda: conv('<robot name="r"><link name="a">'), 'refused', 'malformed file'); ctx.raises(Exception, lambda: ur.URDFConverter().load_in_world(core.World()), 'refused', 'no file')
    ctx.raises(Exception, lambda: ur.URDFConverter('/nonexistent/robot.urdf'), 'refused', 'missing file')
    # a floating joint inside the tree
    with silent(): c = conv('<robot name="r">%s</robot>' % (L % 'a' + L % 'b' + J % ('j', 'floating', 'a', 'b')), fixed_base=True)
    ctx.cls('floating-joint')

def angles(ctx, rng, i):
    r, p, y = rng.uniform(-np.pi, np.pi, 3); R = ur.roll_pitch_yaw_to_rotation_matrix(r, p, y); E = dot(rot((0, 0, 1), y), dot(rot((0, 1, 0), p), rot((1, 0, 0), r)))
    ctx.close(R, E, 'rpy', 'rotation of roll, pitch and yaw', 1e-12); a = ur.rotation_matrix_to_roll_pitch_yaw(E); ctx.close(ur.roll_pitch_yaw_to_rotation_matrix(*a), E, 'rpy', 'angles of a rotation', 1e-9)
    if abs(p) < 1.5: ctx.close(a, (r, p, y), 'rpy', 'angles', 1e-8)

FAMILIES = [('load', load, 220, 6000), ('refuse', refuse, 2, 10), ('angles', angles, 50, 1000)]
