"""P16: bookkeeping of the world, shadow model over random construction histories."""
from rv.mech import *
import arboris.controllers as ctl, arboris.constraints as cst, arboris.shapes as shp
NOL, DNE = core.NamedObjectsList, core.DuplicateNameError

RULE = 'random histories of construction, registration, refused operations and initialisations, compared with a shadow tree after every operation; distinct by history'
MONITORS = ['iter-bodies', 'iter-joints', 'iter-frames', 'iter-shapes', 'iter-constraints', 'iter-controllers', 'mirror', 'ancestors', 'dof', 'gvel-kept', 'gvel-live', 'refused', 'dof-before-init', 'lookup', 'as-dict', 'twice', 'naming']
CLASSES = ['malformed', 'loop', 'self-link', 'ground-child', 'reuse-joint', 'multi-link', 'reinit', 'duplicate-name', 'late-branch', 'fixed', 'all-ops', 'odd-names', 'empty-name', 'naming-refused', 'naming-unique', 'crowd']

class Shadow(object):
    """What the world should contain, kept with plain lists only."""
    def __init__(self, w):
        self.w = w; self.bodies = [w.ground]; self.kids = {w.ground: []}; self.up = {w.ground: None}
        self.joints = {}; self.sub, self.shapes, self.cons, self.ctrls = [], [], [], []; self.dirty = True; self.nd = {}
        self.vel = {}
    def add(self, f0, j, f1, nd):
        b0, b1 = f0.body, f1.body
        self.bodies.append(b1); self.kids.setdefault(b1, []); self.kids[b0].append(j); self.up[b1] = j; self.joints[j] = (f0, f1); self.nd[j] = nd; self.dirty = True
        for f in (f0, f1): self.frame(f)
    def frame(self, f):
        if not isinstance(f, core.Body) and not any(f is x for x in self.sub): self.sub.append(f)
    def dfs(self):
        B, J = [], []
        def rec(b):
            B.append(b)
            for j in self.kids[b]: J.append(j); rec(self.joints[j][1].body)
        rec(self.w.ground); return B, J
    def anc(self, b):
        B, J = [], []
        while self.up[b] is not None: J.append(self.up[b]); b = self.joints[self.up[b]][0].body; B.append(b)
        return B, J
    def below(self, b):
        B, J = [], []
        for j in self.kids[b]:
            c = self.joints[j][1].body; J.append(j); B.append(c); x, y = self.below(c); B += x; J += y
        return B, J

def same(ctx, got, exp, mon, what, ordered=True):
    got = list(got)
    if ordered: ok = len(got) == len(exp) and all(a is b for a, b in zip(got, exp))
    else: ok = len(got) == len(exp) and set(map(id, got)) == set(map(id, exp))
    ctx.ok(ok, mon, '%s: got %s, expected %s' % (what, [getattr(x, 'name', x) for x in got], [getattr(x, 'name', x) for x in exp]))

def check(ctx, S, rng):
    w = S.w; B, J = S.dfs()
    same(ctx, w.iterbodies(), B, 'iter-bodies', 'bodies depth first'); same(ctx, w.getbodies(), B, 'iter-bodies', 'list of bodies')
    same(ctx, w.iterjoints(), J, 'iter-joints', 'joints depth first')
    same(ctx, w.iterframes(), B + S.sub, 'iter-frames', 'frames', False); same(ctx, w.getframes(), B + S.sub, 'iter-frames', 'list of frames', False)
    same(ctx, w.itersubframes(), S.sub, 'iter-frames', 'subframes', False)
    same(ctx, w.itermovingsubframes(), [f for f in S.sub if isinstance(f, core.MovingSubFrame)], 'iter-frames', 'moving subframes', False)
    same(ctx, w.itershapes(), S.shapes, 'iter-shapes', 'shapes', False); same(ctx, w.getshapes(), S.shapes, 'iter-shapes', 'list of shapes', False)
    same(ctx, w.iterconstraints(), S.cons, 'iter-constraints', 'constraints', False); same(ctx, w.getconstraints(), S.cons, 'iter-constraints', 'constraint list', False)
    same(ctx, w.getcontrollers(), S.ctrls, 'iter-controllers', 'controllers', False)
    for b in B:
        same(ctx, b.childrenjoints, S.kids[b], 'mirror', 'children joints of %s' % b.name)
        ctx.ok(b.parentjoint is S.up[b], 'mirror', 'parent joint of %s' % b.name)
        x, y = S.anc(b); same(ctx, b.iter_ancestor_bodies(), x, 'ancestors', 'ancestor bodies'); same(ctx, b.iter_ancestor_joints(), y, 'ancestors', 'ancestor joints')
        x, y = S.below(b); same(ctx, b.iter_descendant_bodies(), x, 'ancestors', 'descendant bodies'); same(ctx, b.iter_descendant_joints(), y, 'ancestors', 'descendant joints')
    for j in J:
        f0, f1 = S.joints[j]
        ctx.ok(j.frame0 is f0 and j.frame1 is f1 and j.frames[0] is f0 and j.frames[1] is f1, 'mirror', 'frames of a joint')
        if id(j) in S.vel: ctx.close(j.gvel, S.vel[id(j)], 'gvel-kept', 'velocity of a joint', 0, 1.)
    # without an initialisation since the last link
    if S.dirty:
        for j in J:
            if id(j) not in S.seen: ctx.raises(ValueError, lambda: j.dof, 'dof-before-init', 'dof of a joint before init')

def dofs(ctx, S, rng):
    w = S.w; B, J = S.dfs(); k = 0
    for j in J:
        d = j.dof; ctx.ok((d.start, d.stop, d.step) in ((k, k + S.nd[j], None), (k, k + S.nd[j], 1)), 'dof', 'dof %s of joint %s, expected %d:%d' % (d, j.name, k, k + S.nd[j])); k += S.nd[j]
        ctx.close(w.gvel[d], S.vel[id(j)], 'gvel-kept', 'world velocity of a joint', 0, 1.)
    ctx.ok(w.ndof == k and w.gvel.shape == (k,) and w.gforce.shape == (k,) and w.mass.shape == w.viscosity.shape == w.nleffects.shape == (k, k), 'dof', 'size of the world model')
    jl = w.getjoints(); same(ctx, jl, J, 'iter-joints', 'list of joints')
    idx = np.arange(k)[jl.dof] if k else []
    ctx.ok(list(idx) == list(range(k)), 'dof', 'dof of the whole joints list')
    if J:
        sel = [J[int(a)] for a in rng.permutation(len(J))[:int(rng.integers(1, len(J) + 1))]]
        ctx.ok(list(np.arange(k)[core.JointsList(sel).dof]) == [a for j in sel for a in range(j.dof.start, j.dof.stop)], 'dof', 'dof of a joints list')
        for j in [x for x in J if S.nd[x] and rng.random() < .6]:
            v = rng.normal(size=S.nd[j]); j.gvel[:] = v; ctx.close(w.gvel[j.dof], v, 'gvel-live', 'write through the joint', 0, 1.); S.vel[id(j)] = v
            g = w.gvel; g[:] = 77.
            ctx.close(j.gvel, v, 'gvel-live', 'the velocity handed out is a copy', 0, 1.)
    w.update_dynamic()

def lookups(ctx, L, names):
    look = {y for x in names if x for y in (x.upper(), x.lower(), x.strip(), x + ' ', x[:-1], x + x[-1])}
    for n in set(names) | {'absent', ''} | set(sorted(look)[::1 + len(look)//12]):
        m = [o for o in L if isinstance(o, core.NamedObject) and o.name == n]
        same(ctx, L.find(n), m, 'lookup', 'find(%r)' % (n,))
        if n is None: continue
        if m: ctx.ok(L[n] is m[0] and L[np.str_(n)] is m[0], 'lookup', 'index by name %r' % (n,)); same(ctx, L.find(np.str_(n)), m, 'lookup', 'find(numpy string %r)' % (n,))
        else: ctx.raises(KeyError, lambda: L[n], 'lookup', 'missing name')
    nn = [o.name for o in L if isinstance(o, core.NamedObject) and o.name is not None]
    if len(set(nn)) < len(nn): ctx.cls('duplicate-name'); ctx.raises(DNE, L.as_dict, 'as-dict', 'duplicated names')
    else:
        d = L.as_dict(); ctx.ok(sorted(d) == sorted(nn) and all(d[o.name] is o for o in L if isinstance(o, core.NamedObject) and o.name is not None), 'as-dict', 'dictionary of names')

OPS = ['link', 'multi', 'loop', 'selfloop', 'groundchild', 'malformed', 'reuse', 'frame', 'shape', 'constraint', 'controller', 'twice', 'joint', 'unknown', 'init', 'velocity', 'lookup']
def history(ctx, rng, i):
    wname = [None, 'world', '', 'my world'][int(rng.integers(4))]; w = core.World() if wname is None else core.World(wname) if rng.random() < .5 else core.World(name=wname); S = Shadow(w); S.seen = set(); n = [0]; pool = (['a', 'b', 'c', None] if rng.random() < .4 else odd_names(rng, 3) + [None] if rng.random() < .6 else ['', 'b', 'c', None]) if i % 3 == 0 else None; odd = odd_names(rng, 40) if i % 3 == 1 else []
    if odd and rng.random() < .5: odd[int(rng.integers(1, 7))] = ''; ctx.cls('empty-name')
    if odd or pool and 'a' not in pool: ctx.cls('odd-names')
    if i % 4 == 0: w.init(); w.update_geometric()
    def name():
        n[0] += 1
        return str(rng.choice(pool[:3])) if pool and rng.random() < .8 else (None if pool else odd[n[0]] if n[0] < len(odd) else 'n%d' % n[0])
    def joint(jt=None):
        jt = jt or str(rng.choice(sorted(JOINTS))); cls = getattr(joints, jt); nd = jndof(jt)
        if jt == 'FixedJoint': ctx.cls('fixed'); j = cls(name=name()); S.vel[id(j)] = zeros(0); return j, 0
        v = rng.normal(size=nd)*(rng.random() > .3); j = cls(gpos=rand_q(rng, jt), gvel=v, name=name()); S.vel[id(j)] = v.copy(); return j, nd
    def frame(b):
        u = rng.random()
        if u < .4: return b
        if u < .6:
            c = [f for f in S.sub if f.body is b]
            if c: return c[int(rng.integers(len(c)))]
        return (core.SubFrame if u < .9 else core.MovingSubFrame)(b, rand_H(rng), name=name())
    def body(): return core.Body(name=name(), mass=rand_cloud(rng).matrix())
    hold, ops = [], []
    for step_ in range(int(rng.integers(8, 40 if not ctx.thorough else 90))):
        op = str(rng.choice(OPS, p=[.2] + [.05]*16)); pick = lambda: S.bodies[int(rng.integers(len(S.bodies)))]
        if len(S.bodies) > 12 and op in ('link', 'multi'): op = 'init'
        if len(S.bodies) == 1 and op in ('loop', 'reuse', 'joint', 'twice', 'velocity', 'groundchild'): op = 'link'
        ops.append(op)
        if op == 'link':
            p = pick()
            if p is not S.bodies[-1]: ctx.cls('late-branch')
            (j, nd), f0, f1 = joint(), frame(p), frame(body())
            w.add_link(f0, j, f1); S.add(f0, j, f1, nd)
        elif op == 'multi':
            ctx.cls('multi-link'); args, b = [], pick(); new = []
            for _ in range(int(rng.integers(2, 4))):
                (j, nd), f0, f1 = joint(), frame(b), frame(body()); args += [f0, j, f1]; new.append((f0, j, f1, nd))
                b = f1.body if rng.random() < .7 else b
            w.add_link(*args)
            for x in new: S.add(*x)
        elif op == 'loop':
            b1 = S.bodies[int(rng.integers(1, len(S.bodies)))]; j, nd = joint(); f0, f1 = frame(pick()), frame(b1)
            ctx.cls('loop'); ctx.raises(ValueError, lambda: w.add_link(f0, j, f1), 'refused', 'closing a loop')
            ctx.ok(j.frame0 is None and j.frame1 is None, 'refused', 'joint of a refused link stays free')
            if rng.random() < .5:
                f0, f1 = frame(pick()), frame(body()); w.add_link(f0, j, f1); S.add(f0, j, f1, nd)
        elif op == 'selfloop':
            b = pick() if rng.random() < .5 else body(); j, nd = joint()
            ctx.cls('self-link'); ctx.raises(ValueError, lambda: w.add_link(frame(b) if b in S.kids else b, j, b), 'refused', 'linking a body to itself')
            ctx.ok(j.frame0 is None and j.frame1 is None, 'refused', 'joint of a refused link stays free')
        elif op == 'groundchild':
            j, nd = joint(); ctx.cls('ground-child'); ctx.raises(ValueError, lambda: w.add_link(frame(pick()), j, w.ground), 'refused', 'ground as a child')
            ctx.ok(w.ground.parentjoint is None, 'refused', 'the ground has no parent')
        elif op == 'malformed':
            ctx.cls('malformed'); b, (j, nd), p = body(), joint(), pick(); k = len(p.childrenjoints); sh = shp.Point(b)
            for args in ((p, j, b, p), (p, j, b, b, joint()[0]), (None, j, b), (p, None, b), (p, j, None), (j, p, b), (p, b, j), (p, j, sh), ('ground', j, b), (p, core.Joint, b), (p, j)):
                ctx.raises(Exception, lambda: w.add_link(*args), 'refused', 'malformed link')
                ctx.ok(j.frame0 is None and j.frame1 is None and b.parentjoint is None and not b.childrenjoints and len(p.childrenjoints) == k, 'refused', 'world altered by a malformed link')
            for T in (shp.Sphere, shp.Point): ctx.raises(Exception, lambda: T(j) if rng.random() < .5 else T(None), 'refused', 'shape which is not on a frame')
            if len(S.bodies) > 1:    # several links, one of which is refused
                c, f1, old = body(), frame(b), frame(S.bodies[int(rng.integers(1, len(S.bodies)))]); k = len(p.childrenjoints); nf = len(list(w.iterframes())); j2 = joint()[0]
                for args in ((p, j, f1, b, j2, old), (p, j, f1, f1, j2, c, c, joint()[0], b), (p, j, f1, b, j, c), (p, j, b, b, None, c), (p, j, c, b, j2, c)):
                    ctx.raises(Exception, lambda: w.add_link(*args), 'refused', 'one of several links')
                    ctx.ok(j.frame0 is None and j2.frame0 is None and b.parentjoint is None and c.parentjoint is None and not b.childrenjoints and not c.childrenjoints and len(p.childrenjoints) == k and len(list(w.iterframes())) == nf, 'refused', 'something remains of refused links')
        elif op == 'reuse':
            j = list(S.joints)[int(rng.integers(len(S.joints)))]; b = body(); ctx.cls('reuse-joint')
            ctx.raises((AssertionError, ValueError), lambda: w.add_link(pick(), j, b), 'refused', 'joint used twice'); ctx.ok(b.parentjoint is None, 'refused', 'body of a refused link stays free')
        elif op == 'frame':
            f = (core.SubFrame if rng.random() < .5 else core.MovingSubFrame)(pick(), rand_H(rng), name=name()); w.register(f); S.frame(f)
        elif op == 'shape':
            f = frame(pick()); s = [lambda: shp.Sphere(f, .1, name()), lambda: shp.Point(f, name()), lambda: shp.Box(f, (.1, .2, .3), name()), lambda: shp.Plane(f, (0, 1, 0, 0), name()), lambda: shp.Cylinder(f, .2, .1, name())][int(rng.integers(5))]()
            w.register(s); S.shapes.append(s); S.frame(f); hold.append(s)
        elif op == 'constraint':
            lim = [j for j in S.joints if base(j).__name__ in LINEAR]
            if rng.random() < .4 and lim:
                j = lim[int(rng.integers(len(lim)))]; c = cst.JointLimits(j, -ones(S.nd[j])*4, ones(S.nd[j])*4, name=name())
            elif rng.random() < .5:
                c = cst.BallAndSocketConstraint(frames=(frame(pick()), frame(pick())), name=name())
            else:
                s0, s1 = shp.Plane(pick(), (0, 1, 0, 0)), shp.Sphere(pick(), .1); m = set(map(id, S.sub)); c = cst.SoftFingerContact((s0, s1), .5, name=name())
            before = len(list(w.itersubframes())); w.register(c); S.cons.append(c)
            if isinstance(c, cst.PointContact):
                new = [f for f in w.itersubframes() if not any(f is g for g in S.sub)]
                ctx.ok(len(new) == 2 and all(isinstance(f, core.MovingSubFrame) for f in new) and {f.body for f in new} == {s0.frame.body, s1.frame.body}, 'iter-frames', 'frames moved by a contact are registered with it'); S.sub += new
        elif op == 'controller':
            c = ctl.WeightController(name=name()); w.register(c); S.ctrls.append(c)
        elif op == 'twice':
            for o in [x[int(rng.integers(len(x)))] for x in (S.sub, S.shapes, S.cons, S.ctrls) if x] + [pick()]: w.register(o)
            ctx.hit('twice')
        elif op == 'joint':
            ctx.raises(ValueError, lambda: w.register(list(S.joints)[0] if rng.random() < .5 else joint()[0]), 'refused', 'registering a joint')
        elif op == 'unknown':
            for o in (3, None, 'x', core.World()): ctx.raises(ValueError, lambda: w.register(o), 'refused', 'registering %r' % (o,))
        elif op == 'init':
            if not S.dirty: ctx.cls('reinit')
            w.init(); S.dirty = False; S.seen = set(map(id, S.joints)); dofs(ctx, S, rng)
        elif op == 'velocity':
            j = list(S.joints)[int(rng.integers(len(S.joints)))]
            if S.nd[j]: v = rng.normal(size=S.nd[j])*(rng.random() > .3); j.gvel[:] = v; S.vel[id(j)] = v
        elif op == 'lookup':
            for L in (w.getbodies(), w.getframes(), w.getshapes(), w.getconstraints(), w.getcontrollers()): lookups(ctx, L, [o.name for o in L])
            L = NOL([3, 'x', w.ground] + list(S.joints)); lookups(ctx, L, [o.name for o in L[2:]]); ctx.ok(L[0] == 3 and L[-1] is (list(S.joints) or [w.ground])[-1], 'lookup', 'integer indices')
        check(ctx, S, rng)
    w.init(); S.dirty = False; S.seen = set(map(id, S.joints)); dofs(ctx, S, rng); check(ctx, S, rng)
    if S.joints: lookups(ctx, w.getjoints(), [j.name for j in S.joints])
    if i % 3:
        lists = (w.getjoints(), w.getframes(), w.getshapes(), w.getconstraints(), w.getcontrollers()); old = {id(o): o.name for L in lists for o in L}; named = lambda L: [old[id(o)] for o in L if old[id(o)] is not None]; dup = any(len(set(named(L))) < len(named(L)) for L in lists); u = int(rng.integers(3))
        if u == 0: w.name_all_elements()
        elif dup: ctx.raises(DNE, (lambda: w.name_all_elements(True)) if u == 1 else lambda: w.name_all_elements(check_unicity=True), 'naming', 'elements of one kind with the same name'); ctx.cls('naming-refused')
        else: w.name_all_elements(*[True][:u == 1], **({} if u == 1 else {'check_unicity': True})); ctx.cls('naming-unique')
        ctx.ok(all(o.name == old[id(o)] for L in lists for o in L if old[id(o)] is not None), 'naming', 'names given by the user are kept')
        if u == 0 or not dup:
            for L in lists: new = [o.name for o in L]; ctx.ok(all(isinstance(x, str) for x in new) and len(set(new)) == len(new) - len(named(L)) + len(set(named(L))), 'naming', 'elements without a name get one of their own: %s' % new)
    ctx.ok(w.name == wname and w.ground.name == 'ground', 'naming', 'names of the world and of the ground: %r, %r' % (w.name, w.ground.name))
    ctx.note(ops=ops); ctx.sig(tuple(ops)); ctx.cls('all-ops' if len(set(ops)) > 10 else 'some-ops')

def crowd(ctx, rng, i):
    """Hundreds of elements, all registered again."""
    w = core.World(); S = Shadow(w); n = int(rng.integers(20, 90)); name = lambda: str(rng.choice(['e%d' % rng.integers(500), 'same'])) if rng.random() < .8 else None; ctx.sig('crowd', n)
    for k in range(n):
        f0, b1 = S.bodies[int(rng.integers(len(S.bodies)))], core.Body(name()); j = getattr(joints, str(rng.choice(['RzJoint', 'TxJoint', 'RzRyJoint'])))(name=name()); w.add_link(f0, j, b1); S.add(f0, j, b1, j.ndof)
    pick = lambda: S.bodies[int(rng.integers(len(S.bodies)))]
    for k in range(int(rng.integers(50, 150))): f = (core.SubFrame if rng.random() < .5 else core.MovingSubFrame)(pick(), name=name()); w.register(f); S.frame(f)
    for k in range(int(rng.integers(20, 100))): s = shp.Sphere(S.sub[int(rng.integers(len(S.sub)))] if rng.random() < .5 else pick(), name=name()); w.register(s); S.shapes.append(s)
    for k in range(int(rng.integers(5, 60))):
        j = list(S.joints)[int(rng.integers(n))]; c = cst.JointLimits(j, -ones(j.ndof), ones(j.ndof), name=name()); w.register(c); S.cons.append(c)
    for k in range(int(rng.integers(5, 60))): c = ctl.WeightController(name=name()); w.register(c); S.ctrls.append(c)
    L = S.sub + S.shapes + S.cons + S.ctrls + S.bodies
    for k in rng.permutation(len(L)): w.register(L[int(k)])
    w.init(); S.dirty = False; S.seen = set(map(id, S.joints)); S.vel = {id(j): zeros(j.ndof) for j in S.joints}; dofs(ctx, S, rng); check(ctx, S, rng); ctx.cls('crowd')
    for M in (w.getbodies(), w.getframes(), w.getshapes(), w.getconstraints(), w.getcontrollers(), w.getjoints()): lookups(ctx, M, [o.name for o in M])

FAMILIES = [('history', history, 150, 4000), ('crowd', crowd, 5, 60)]
