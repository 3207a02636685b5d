"""P34: ready-made mechanisms."""
from rv.mech import *
import arboris.shapes as shp, arboris.controllers as ctl
sa, sn, ss = mod('arboris.robots.simplearm'), mod('arboris.robots.snake'), mod('arboris.robots.simpleshapes')

RULE = 'random sequences of arms, snakes (fixed and floating), spheres, boxes, cylinders and ground planes added to one world with random or default sizes, random postures and velocities; distinct by sequence and parameters'
MONITORS = ['structure', 'names', 'straight-at-rest', 'total-mass', 'kinematics', 'inertia', 'dynamics', 'shapes', 'initial-state', 'others-kept', 'motion', 'lookup', 'refused']
CTX, SCALE, WIDE = None, 1., True
CLASSES = ['wide', 'integers', 'arm', 'snake', 'floating-snake', 'sphere', 'box', 'cylinder', 'groundplane', 'defaults', 'with-shapes', 'several', 'initial-state', 'added-later', 'same-kind-twice', 'after-motion']

def solid(x2, y2, z2, m, c=(0, 0, 0)):
    """Eight points with the given mean squares: exactly the inertia of a homogeneous solid with these second moments."""
    a = np.sqrt([x2, y2, z2])
    return Cloud([np.array(c) + a * [i, j, k] for i in (-1, 1) for j in (-1, 1) for k in (-1, 1)], np.full(8, m / 8.))
def box_cloud(h, m, c=(0, 0, 0)): return solid(h[0]**2/3., h[1]**2/3., h[2]**2/3., m, c)

def size(rng):
    u = rng.random()
    if u < .85 or SCALE != 1.: return SCALE*float(10.**rng.uniform(-1.5, 1.))
    CTX.cls('integers'); return int(rng.integers(1, 6))
def weight(rng): return size(rng) if rng.random() < .8 or not WIDE else float(10.**rng.uniform(-5, 4))

class Model(object):
    """What the world should contain: reference links, shapes (kind, link index, placement, numbers), named frames."""
    def __init__(self): self.links, self.shapes, self.frames, self.names = [], [], [], []

def seq(rng, x): return [tuple, list, np.array][int(rng.integers(3))](x)
def small_ints(rng, n): CTX.cls('integers'); return [int(k) for k in rng.integers(-2, 3, n)]

def add(ctx, rng, w, m, kind, k, wide=True):
    global CTX, SCALE, WIDE; CTX = ctx; SCALE = 1.; WIDE = wide
    if wide and rng.random() < .2: SCALE = float(10.**rng.uniform(-4, 3)); ctx.cls('wide')
    n0 = len(m.links); default = rng.random() < .2; kw = {}
    if default: ctx.cls('defaults')
    if kind == 'arm':
        name = '' if rng.random() < .4 else 'r%d ' % k; L, M = (.5, .4, .2), (1., .8, .2)
        if not default: L, M = [size(rng) for _ in range(3)], [weight(rng) for _ in range(3)]; kw.update(lengths=seq(rng, L), masses=seq(rng, M))
        wsh = bool(rng.random() < .5); kw.update(with_shapes=said(rng, wsh))
        if name: kw.update(name=name)
        sa.add_simplearm(w, **kw)
        for q, (bn, jn) in enumerate([('Arm', 'Shoulder'), ('Forearm', 'Elbow'), ('Hand', 'Wrist')]):
            h = (L[q]/20., L[q]/2., L[q]/20.)
            m.links.append(Link('x%d_%d' % (k, q), n0 + q - 1 if q else -1, 'RzJoint', [0.], [0.], tra([0, L[q - 1], 0]) if q else eye(4), eye(4), box_cloud(h, M[q], (0, L[q]/2., 0))))
            m.names.append((name + bn, name + jn))
            if wsh: m.shapes.append(('Box', n0 + q, tra([0, L[q]/2., 0]), h)); ctx.cls('with-shapes')
        m.frames += [(name + 'ElbowBaseFrame', n0, [0, L[0], 0]), (name + 'WristBaseFrame', n0 + 1, [0, L[1], 0]), (name + 'EndEffector', n0 + 2, [0, L[2], 0])]
        return ('arm', L, M, wsh), sum(M)
    if kind == 'snake':
        n = int(rng.integers(1, 7)) if rng.random() < .9 or not wide else int(rng.integers(10, 25)); L, M, q0, v0 = [.5]*n, [2.]*n, [0.]*n, [0.]*n; fixed = bool(rng.random() < .5)
        if not default:
            if rng.random() < .7: L = [size(rng) for _ in range(n)]; kw.update(lengths=seq(rng, L))
            if rng.random() < .7: M = [weight(rng) for _ in range(n)]; kw.update(masses=seq(rng, M))
            if rng.random() < .6: q0 = list(rng.normal(size=n)) if rng.random() < .8 else small_ints(rng, n); kw.update(gpos=seq(rng, q0)); ctx.cls('initial-state')
            if rng.random() < .6: v0 = list(rng.normal(size=n)) if rng.random() < .8 else small_ints(rng, n); kw.update(gvel=seq(rng, v0)); ctx.cls('initial-state')
        if not (fixed and rng.random() < .5): kw.update(is_fixed=said(rng, fixed))
        sn.add_snake(w, n, **kw); total = sum(M)
        if not fixed:
            ctx.cls('floating-snake'); m.links.append(Link('x%d_b' % k, -1, 'FreeJoint', eye(4), zeros(6), eye(4), eye(4), box_cloud([L[0]/2.]*3, M[0]))); m.names.append((None, None)); total += M[0]
        for q in range(n):
            r = L[q]/5.; par = len(m.links) - 1 if (q or not fixed) else -1
            m.links.append(Link('x%d_%d' % (k, q), par, 'RzJoint', [float(q0[q])], [float(v0[q])], tra([0, L[q - 1], 0]) if q else eye(4), eye(4), solid(r*r/4., L[q]**2/12., r*r/4., M[q], (0, L[q]/2., 0)))); m.names.append((None, None))
        m.frames.append((None, len(m.links) - 1, [0, L[-1], 0]))
        return ('snake', L, M, q0, v0, fixed), total
    if kind == 'groundplane':
        u = tilt(ctx, rng, w); old = w.ground.mass[5, 5]; w.ground.mass = w.ground.mass if rng.random() < .7 else np.diag([1., 1., 1.] + [float(rng.uniform(.1, 9))]*3); ss.add_groundplane(w); m.shapes.append(('Plane', -1, eye(4), tuple(u) + (0.,), 'Ground shape')); return ('groundplane',), w.ground.mass[5, 5] - old
    M, r, l, h = 1., 1., 1., (1., 1., 1.); name = {'sphere': None, 'box': 'Box', 'cylinder': 'Cylinder'}[kind]
    if not default:
        M, r, l, h = weight(rng), size(rng), size(rng), [size(rng) for _ in range(3)]; kw.update(mass=M)
        if kind == 'box': kw.update(half_extents=seq(rng, h))
        else: kw.update(radius=r)
        if kind == 'cylinder': kw.update(length=l)
        if rng.random() < .6: name = kw['name'] = 'n%d' % k
    getattr(ss, 'add_' + kind)(w, **kw)
    c = dict(sphere=lambda: solid(r*r/5., r*r/5., r*r/5., M), box=lambda: box_cloud(h, M), cylinder=lambda: solid(r*r/4., r*r/4., l*l/12., M))[kind]()
    m.links.append(Link('x%d' % k, -1, 'FreeJoint', eye(4), zeros(6), eye(4), eye(4), c)); m.names.append((name, None))
    m.shapes.append(dict(sphere=('Sphere', n0, eye(4), (r,)), box=('Box', n0, eye(4), h), cylinder=('Cylinder', n0, eye(4), (l, r)))[kind])
    return (kind, M, r, l, list(h)), M

def numbers(s):
    if isinstance(s, shp.Sphere): return (s.radius,)
    if isinstance(s, shp.Box): return tuple(s.half_extents)
    if isinstance(s, shp.Cylinder): return (s.length, s.radius)
    if isinstance(s, shp.Plane): return tuple(s.coeffs)

class B(object): pass
def bind(w, m):
    """Associate world elements to reference links (all mechanisms are chains from the ground, in order)."""
    b = B(); b.world = w; js = list(w.iterjoints()); bodies = list(w.iterbodies())[1:]
    b.joints = dict(enumerate(js)); b.bodies = dict(enumerate(bodies)); b.bodies[-1] = w.ground
    return b

def check(ctx, w, m, what, dyn=True):
    tree = Tree([l.copy() for l in m.links]); b = bind(w, m)
    ctx.ok(len(b.joints) == len(m.links) == len(b.bodies) - 1, 'structure', '%s: %d joints, %d bodies instead of %d' % (what, len(b.joints), len(b.bodies) - 1, len(m.links)))
    ctx.ok(w.ndof == tree.ndof, 'structure', 'number of dof')
    for k, l in enumerate(m.links):
        j = b.joints[k]; ctx.ok(type(j).__name__ == l.jt and j.frame0.body is b.bodies[l.parent] and j.frame1.body is b.bodies[k], 'structure', '%s: joint %d: %s' % (what, k, type(j).__name__))
        bn, jn = m.names[k]; ctx.ok(b.bodies[k].name == bn and j.name == jn, 'names', 'body %r joint %r instead of %r' % (b.bodies[k].name, j.name, (bn, jn)))
    return tree, b

def dynamics(ctx, w, m, tree, b, what):
    sync(tree, b); K = tree.compute(); s = kscale(tree, K); w.update_dynamic()
    for k in range(len(m.links)):
        ctx.close(b.bodies[k].pose, K['H'][k], 'kinematics', '%s: pose of body %d' % (what, k), 1e-10, s)
        Mk = tree.M(k); c = m.links[k].cloud; U = np.diag([1/np.abs(c.pts).max()]*3 + [1.]*3)/np.sqrt(c.mass); ctx.close(dot(U, dot(b.bodies[k].mass, U)), dot(U, dot(Mk, U)), 'inertia', '%s: inertia of body %d' % (what, k), 1e-12)
    if tree.ndof: D = tree.dynamics(K); Mw = both(tree, b, w.mass); d = np.sqrt(np.maximum(np.diag(D['M']), 1e-300))
    if tree.ndof: ctx.close(Mw / np.outer(d, d), D['M'] / np.outer(d, d), 'dynamics', what + ': mass matrix', 1e-9)
    if tree.ndof: n = dot(both(tree, b, w.nleffects), tree.v); A = np.abs; sc = 1e-300 + max(dot(A(K['J'][k]).T, dot(A(tree.M(k)), dot(A(K['dJ'][k]), A(tree.v)) + (1 + A(K['T'][k]).max()) * dot(A(K['J'][k]), A(tree.v)))).max() for k in range(len(m.links)))
    if tree.ndof: ctx.close(n, D['h'], 'dynamics', what + ': nonlinear effects', 1e-8, sc)
    for s_, ref_ in zip(w.itershapes(), m.shapes):
        ctx.ok(type(s_).__name__ == ref_[0] and s_.frame.body is b.bodies[ref_[1]], 'shapes', '%s on %s' % (type(s_).__name__, s_.frame.body.name))
        ctx.close(numbers(s_), ref_[3], 'shapes', '%s: sizes' % ref_[0], 1e-12, max(1e-300, np.abs(ref_[3]).max())); ctx.close(s_.frame.pose, dot(K['H'][ref_[1]], ref_[2]), 'shapes', '%s: place' % ref_[0], 1e-10, s)
        if len(ref_) > 4: ctx.ok(s_.name == ref_[4], 'names', 'ground shape')
    ctx.ok(len(list(w.itershapes())) == len(m.shapes), 'shapes', 'number of shapes')
    frames = [f for f in w.iterframes() if not isinstance(f, core.Body)]
    for name, k, p in m.frames:
        f = [x for x in frames if x.body is b.bodies[k] and x.name == name and np.abs(x.bpose - tra(p)).max() < 1e-12 * (1 + np.abs(p).max())]
        ctx.ok(len(f) == 1, 'structure', 'frame %r at %s on body %d' % (name, p, k)); ctx.close(f[0].pose, dot(K['H'][k], tra(p)), 'kinematics', 'frame %r' % name, 1e-10, s)
    return K

def zoo(ctx, rng, i):
    w = core.World(); m = Model(); kinds = ['arm', 'snake', 'sphere', 'box', 'cylinder', 'groundplane']; desc = []; tot = 0.
    for k in range(int(rng.integers(1, 5))):
        kind = kinds[i % 6] if k == 0 else str(rng.choice(kinds)); old = bind(w, m); before = [(j, np.array(j.gpos), np.array(j.gvel)) for j in w.iterjoints()]; bodies = list(w.iterbodies())
        if kind in [d[0] for d in desc]: ctx.cls('same-kind-twice')
        d, mass = add(ctx, rng, w, m, kind, k); ctx.cls(kind); desc.append(d); tot += mass
        if k: ctx.cls('several')
        now = list(w.iterjoints()); ctx.ok(now[:len(before)] == [x[0] for x in before] and list(w.iterbodies())[:len(bodies)] == bodies and all(np.array_equal(j.gpos, q) and np.array_equal(j.gvel, v) for j, q, v in before), 'others-kept', 'adding a %s' % kind)
        tree, b = check(ctx, w, m, kind)
        for q in range(len(before), len(now)):
            if m.links[q].jt != 'FixedJoint': ctx.ok(np.array_equal(now[q].gpos.ravel(), m.links[q].q.ravel()) and np.array_equal(now[q].gvel, m.links[q].v), 'initial-state', '%s: joint %d' % (kind, q))
        dynamics(ctx, w, m, tree, b, kind)
        if rng.random() < .5 and m.links:
            for l in m.links: l.q, l.v = rand_q(rng, l.jt), rng.normal(size=l.v.shape)
            set_state(b, Tree(m.links)); ctx.cls('added-later')
            for j in w.iterjoints(): pass
            tree, b = check(ctx, w, m, kind + ' moved'); dynamics(ctx, w, m, tree, b, kind + ' moved')
        if rng.random() < .3:       # time has passed since
            ctx.cls('after-motion'); t0 = w.current_time if rng.random() < .5 else float(rng.normal())
            try: quiet(core.simulate, w, t0 + np.arange(3)*1e-4)
            except np.linalg.LinAlgError: pass
        for l, j in zip(m.links, w.iterjoints()): l.q, l.v = np.array(j.gpos), np.array(j.gvel)
    ctx.ok(abs(sum(x.mass[5, 5] for x in w.iterbodies()) - tot) <= 1e-12 * (tot + 1e-300), 'total-mass', 'total mass')
    # straight at rest: joint origins one link length apart, along the same direction
    if m.links:
        b = bind(w, m); keep = [(j, np.array(j.gpos), np.array(j.gvel)) for j in w.iterjoints()]
        for l, j in zip(m.links, w.iterjoints()): j.gpos = eye(4) if l.jt == 'FreeJoint' else np.zeros_like(np.asarray(j.gpos))
        w.update_geometric(); q = 0
        for d in desc:
            if d[0] == 'groundplane': continue
            nb = len(d[1]) if d[0] in ('arm', 'snake') else 1
            if d[0] == 'snake' and not d[5]: q += 1
            if d[0] in ('arm', 'snake'):
                for r in range(nb): ctx.close(b.bodies[q + r].pose, tra([0, sum(d[1][:r]), 0]), 'straight-at-rest', '%s body %d' % (d[0], r), 1e-12, 1 + sum(d[1]))
            ctx.hit('straight-at-rest'); q += nb
        # lookup by name
        names = [x[0] for x in m.names if x[0]] + [x[1] for x in m.names if x[1]]
        for k, (bn, jn) in enumerate(m.names):
            if bn and names.count(bn) == 1: ctx.ok(w.getbodies()[bn] is b.bodies[k], 'lookup', bn)
            if jn and names.count(jn) == 1: ctx.ok(w.getjoints()[jn] is b.joints[k], 'lookup', jn)
        for j, qq, vv in keep: j.gpos = qq
    ctx.hit('lookup'); ctx.note(mechanisms=desc); ctx.sig(desc)

def motion(ctx, rng, i):
    """Several mechanisms in one world move as each of them alone."""
    def one():
        st = [int(rng.integers(1 << 40)) for _ in range(3)]; m = Model(); w = core.World(); desc = []; solo = []
        kinds = [str(k) for k in rng.choice(['arm', 'snake', 'sphere', 'box', 'cylinder'], int(rng.integers(2, 4)))]
        for k, kind in enumerate(kinds):
            d = add(ctx, np.random.default_rng(st[k]), w, m, kind, k, False); desc.append(d[0])
            m1 = Model(); w1 = core.World(); add(Ctx('x', 'quick', 0), np.random.default_rng(st[k]), w1, m1, kind, k, False); solo.append((w1, m1))
        try: well_posed(Tree([l.copy() for l in m.links]), None, 1e8)
        except np.linalg.LinAlgError: raise Skip()
        js = list(w.iterjoints()); k = 0
        for w1, m1 in solo:
            for j in w1.iterjoints():
                v = rng.normal(size=j.ndof)*.5; j.gvel[:] = v; js[k].gvel[:] = v; k += 1
        for x in [w] + [s[0] for s in solo]: x.register(ctl.WeightController()); x.init()
        for _ in range(20):
            for x in [w] + [s[0] for s in solo]: quiet(step, x, 1e-3)
        k = 0
        for w1, m1 in solo:
            for j in w1.iterjoints():
                ctx.close(js[k].gpos, j.gpos, 'motion', 'position of joint %d (%s)' % (k, kinds), 1e-7); ctx.close(js[k].gvel, j.gvel, 'motion', 'velocity of joint %d (%s)' % (k, kinds), 1e-6); k += 1
        ctx.sig(desc)
    ctx.retry(one)

def refuse(ctx, rng, i):
    n = int(rng.integers(1, 5))
    for kw in (dict(lengths=[1.]*(n + 1)), dict(masses=[1.]*(n + 1)), dict(gpos=[1.]*(n + 1)), dict(gvel=[1.]*(n + 1)), dict(lengths=[1.]*(n - 1))):
        w = core.World(); ctx.raises(Exception, lambda: sn.add_snake(w, n, **kw), 'refused', 'snake of %d with %s' % (n, kw)); ctx.ok(len(list(w.iterjoints())) == 0, 'refused', 'refused snake left elements')
    for f in (sa.add_simplearm, ss.add_box, ss.add_sphere, ss.add_cylinder): ctx.raises(Exception, lambda: f(None), 'refused', 'no world')

FAMILIES = [('zoo', zoo, 240, 6000), ('motion', motion, 40, 1000), ('refuse', refuse, 4, 20)]
