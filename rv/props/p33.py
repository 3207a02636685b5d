"""P33: observation is pure, arrays are not shared."""
from rv.worlds import *
from rv import scene
obs = mod('arboris.observers')
import arboris.collisions as col

RULE = 'random worlds with frames, shapes, constraints and controllers, random histories of queries, updates, parses, drawings and contact generation, with every array handed out or taken overwritten; distinct by mechanism, state and history'
MONITORS = ['query-pure', 'update-idempotent', 'same-result-again', 'same-future', 'returned-own', 'list-own', 'given-creation', 'given-later', 'frames-independent', 'read-kept']
CLASSES = ['geometric', 'dynamic', 'contacts', 'parse', 'draw', 'lists', 'models', 'constraints', 'controllers', 'before-update', 'moving']

class Sink(object):
    def init_parse(self, *a): pass
    def add_link(self, *a): pass
    def register(self, o): pass

def make(ctx, seed, count):
    """The same world each time for one seed."""
    rng = np.random.default_rng(seed)
    tree = gen_tree(ctx if count else Ctx('x', 'quick', 0), rng, 1, 7); well_posed(tree, None, 1e5)
    b = build(tree); R = populate(ctx, rng, b, tree); b.world.init(); b.R = R
    return tree, b

def queries(ctx, rng, w, b, fresh, played):
    """List of (name, function returning comparable numbers)."""
    A = lambda x: np.array(x, float)
    def joints(): return [A(x) for j in w.iterjoints() for x in (j.gpos, j.gvel, j.pose, quiet(getattr, j, 'ipose') if hasattr(j, 'ipose') else 0., j.twist, j.jacobian, j.djacobian, j.ndof)]
    def frames(): return [A(x) for f in w.iterframes() for x in ((f.bpose,) if not fresh else (f.pose, f.bpose, f.twist, f.jacobian, f.djacobian))]
    def models(): return [A(x) for x in (w.mass, w.viscosity, w.nleffects, w.gvel, w.gforce, w.admittance, w.ndof, w.current_time, w.up)]
    def lists():
        out = []
        for l in (w.getbodies(), w.getframes(), w.getjoints(), w.getshapes(), w.getconstraints(), w.getcontrollers(), w.getsubframes() if hasattr(w, 'getsubframes') else []):
            out.append(A([id(x) for x in l]))
            for x in l:
                if x.name and sum(y.name == x.name for y in l) == 1: out.append(A(id(l[x.name]))); l.find(x.name)
        w.getjoints().dof; list(w.iterbodies()); list(w.ground.iter_descendant_joints())
        for x in w.iterbodies(): out.append(A([id(y) for y in x.iter_ancestor_bodies()] + [id(y) for y in x.iter_ancestor_joints()] + [id(y) for y in x.iter_descendant_bodies()]))
        return out
    def contacts(): cst.get_all_contacts(w, friction_coeff=.5); return []
    def parse(): w.parse(Sink()); return []
    def draw():
        d = scene.wd.Drawer(scene.Driver(), bool(draw_flat)); w.parse(d); d.finish(); return []
    draw_flat = rng.random() < .5
    def collide():
        out = []; s = list(w.itershapes())
        for x in s:
            for y in s:
                if x is not y:
                    try: pair, f = col.choose_solver(x, y)
                    except NotImplementedError: continue
                    d = quiet(f, pair); out += [A(d[0]), A(d[1]), A(d[2])]
        return out
    def constr(): return [A([c.is_enabled(), c.is_active() or 0]) for c in w.iterconstraints()] + [A(c.gforce) for c in w.iterconstraints() if c.is_active() and fresh and np.ndim(getattr(c, '_force', 0)) and c.jacobian.shape[0] == np.size(c._force)]
    Q = [('joints', joints), ('frames', frames), ('models', models), ('lists', lists), ('parse', parse), ('contacts', contacts)]
    if fresh: Q += [('draw', draw), ('collide', collide)]
    if played: Q += [('constraint state', constr)]
    return Q

def hold(w):
    """Arrays as a caller who logs them keeps them, and what they are."""
    return [(f, n, v, np.array(v)) for o in (w.iterframes(), w.iterjoints()) for f in o for n in ('pose', 'bpose', 'twist', 'jacobian', 'djacobian') if hasattr(type(f), n) for v in [getattr(f, n)]]

def history(ctx, rng, i):
    seed = int(rng.integers(1 << 60)); tree, b = make(ctx, seed, True); w = b.world; cont = Ctx('x', 'quick', 0)
    cont.classes = {}; tree2, b2 = make(cont, seed, False); w2 = b2.world
    if rng.random() < .5: ctx.cls('before-update'); fresh = False
    else: w.update_dynamic(); w2.update_dynamic(); fresh = True
    for c in b.R['cons'][:1]: ctx.cls('constraints')
    for c in b.R['ctrls'][:1]: ctx.cls('controllers')
    names = []; played = False
    for r in range(int(rng.integers(2, 6))):
        kept = hold(w) if fresh else []
        for k in range(int(rng.integers(1, 5))):
            if rng.random() < .3:
                what = str(rng.choice(['geometric', 'dynamic'])); names.append(what); ctx.cls(what)
                (w.update_geometric if what == 'geometric' else w.update_dynamic)()
                if what == 'dynamic': fresh = True
                s = snap(w); (w.update_geometric if what == 'geometric' else w.update_dynamic)()
                same_snap(ctx, s, snap(w), 'update-idempotent', 'update_%s again' % what)
                if not fresh: continue
                w.update_dynamic()
                s = snap(w); w.update_geometric(); same_snap(ctx, s, snap(w), 'update-idempotent', 'update_geometric after update_dynamic', 1e-11); continue
            Q = queries(ctx, rng, w, b, fresh, played); n, q = Q[int(rng.integers(len(Q)))]; names.append(n); ctx.cls(n)
            s = snap(w); a = q(); same_snap(ctx, s, snap(w), 'query-pure', 'query %s' % n)
            c = q(); ctx.ok(len(a) == len(c) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, c)), 'same-result-again', 'query %s' % n)
        # a queried world and an untouched one live the same future
        n = int(rng.integers(1, 4)); ra, rb = quiet(play, w, n), quiet(play, w2, n); fresh = played = True
        names.append(n); ctx.ok(ra == rb, 'same-future', 'motion after %s' % names)
        w.update_dynamic(); w2.update_dynamic()
        for o, n, v, c in kept: ctx.ok(np.array_equal(v, c), 'read-kept', '%s.%s read earlier changed as the world moved on' % (type(o).__name__, n))
    ctx.note(history=names); ctx.sig(names)

def scribble(x):
    x = np.asarray(x); x[...] = 7.25e3; 

def returned(ctx, rng, i):
    """Overwrite what is handed out as the caller's own."""
    seed = int(rng.integers(1 << 60)); tree, b = make(ctx, seed, True); w = b.world
    cont = Ctx('x', 'quick', 0); w2 = make(cont, seed, False)[1].world
    quiet(play, w, 2); quiet(play, w2, 2); w.update_dynamic(); w2.update_dynamic()
    s = snap(w); s2 = w.gforce.tobytes(), w.admittance.tobytes()
    for n in ('gvel', 'gforce', 'admittance'):
        scribble(getattr(w, n)); same_snap(ctx, s, snap(w), 'returned-own', 'overwriting world.%s' % n)
    ctx.ok(s2 == (w.gforce.tobytes(), w.admittance.tobytes()), 'returned-own', 'world.gforce, world.admittance')
    for f in w.iterframes():
        if isinstance(f, core.Body): scribble(f.bpose); same_snap(ctx, s, snap(w), 'returned-own', 'overwriting body.bpose'); ctx.ok(np.array_equal(f.bpose, eye(4)), 'returned-own', 'body.bpose'); continue
        if isinstance(f, core.MovingSubFrame): ctx.cls('moving')
        for n in ('bpose', 'pose', 'twist', 'jacobian', 'djacobian'):
            v = np.array(getattr(f, n)); scribble(getattr(f, n)); same_snap(ctx, s, snap(w), 'returned-own', 'overwriting %s.%s' % (type(f).__name__, n))
            ctx.ok(np.array_equal(v, getattr(f, n)), 'returned-own', '%s.%s' % (type(f).__name__, n))
    for j in w.iterjoints():
        for n in ('pose', 'twist', 'jacobian', 'djacobian'):
            v = np.array(getattr(j, n)); scribble(getattr(j, n)); same_snap(ctx, s, snap(w), 'returned-own', 'overwriting %s.%s' % (type(j).__name__, n))
            ctx.ok(np.array_equal(v, getattr(j, n)), 'returned-own', '%s.%s' % (type(j).__name__, n))
    for n in ('getbodies', 'getjoints', 'getframes', 'getshapes', 'getconstraints', 'getcontrollers'):
        l = getattr(w, n)(); k = len(l); l.reverse(); l.append(l[0] if l else None); del l[:max(1, k // 2)]; ctx.hit('list-own')
        same_snap(ctx, s, snap(w), 'list-own', 'changing the list of world.%s()' % n); ctx.ok(len(getattr(w, n)()) == k, 'list-own', n)
    bodies = list(w.iterbodies()); group = [bodies[k] for k in rng.permutation(len(bodies)) if np.asarray(bodies[k].mass)[5, 5] > 0]
    if group:
        s = snap(w); c = obs.CoMObserver(group); c.init(w, [0., 1.]); c.update(1.)
        for n in ('get_CoMPosition', 'get_CoMJacobian', 'get_CoMdJacobian'):
            v = np.array(getattr(c, n)()); scribble(getattr(c, n)()); ctx.ok(np.array_equal(v, getattr(c, n)()), 'returned-own', n)
        same_snap(ctx, s, snap(w), 'returned-own', 'centre of mass observer')
    ctx.ok(quiet(play, w, 3) == quiet(play, w2, 3), 'same-future', 'motion after overwriting returned arrays'); ctx.sig(len(group))

def given(ctx, rng, i):
    """Arrays given by the caller are free for reuse."""
    w = core.World(); rep = []; kinds = []; made = []; parent = w.ground; mats = []
    def mk(v): v = np.array(v, float); mats.append(v); return v
    def use(how, v):
        """Give the value as an array, a list, or a view of a larger array."""
        if how == 0: return mk(v)
        big = mk(np.zeros((2,) + np.shape(v))); big[1] = v; return big[1]
    how = lambda: int(rng.integers(2))
    expect = []
    for k in range(int(rng.integers(1, 6))):
        jt = str(rng.choice([n for n in ref.JOINTS if n != 'FixedJoint']))
        n = getattr(joints, jt)().ndof
        q = rand_H(rng) if jt == 'FreeJoint' else rng.normal(size=n)*.3; v = rng.normal(size=n)*.3
        qa, va, Ha = use(how(), q), use(how(), v), use(how(), rand_H(rng)); H = np.array(Ha)
        j = getattr(joints, jt)(gpos=qa, gvel=va); body = core.Body(mass=rand_cloud(rng).matrix())
        moving = rng.random() < .3
        f = (core.MovingSubFrame if moving else core.SubFrame)(body, Ha)
        w.add_link(parent, j, body if moving else f); w.register(f); kinds.append((jt, moving)); expect.append((j, q, v, f, H)); parent = body
        if moving:
            ctx.cls('moving'); g = core.MovingSubFrame(body, Ha); made.append((f, g, H))
    co = use(how(), np.append(rand_unit(rng), .3)); P = shp.Plane(w.ground, co); w.register(P); coeffs = np.array(P.coeffs)
    lin = [(j, q) for j, q, _, _, _ in expect if not isinstance(j, joints.FreeJoint)]
    w.init(); w.update_dynamic()
    lim = []
    for j, q in lin[:2]:
        lo, hi, px = mk(q - 5.), mk(q + 5.), mk(np.full(j.ndof, .01)); c = cst.JointLimits(j, lo, hi, px); w.register(c); lim.append((c, np.array(lo), np.array(hi)))
    pd = None
    if lin:
        n = sum(j.ndof for j, _ in lin); kp, kd, gd, vd = mk(eye(n)*3.), mk(eye(n)*.5), mk(rng.normal(size=n)), mk(rng.normal(size=n)); pd = ctl.ProportionalDerivativeController([j for j, _ in lin], kp, kd, gd, vd); w.register(pd); w.init(); w.update_dynamic()
        ref_pd = [x.copy() for x in pd.update(1e-3)]
    s = snap(w)
    for m in mats: m[...] = -3.5e4
    same_snap(ctx, s, snap(w), 'given-creation', 'reusing the arrays given at creation (%s)' % kinds)
    w.update_dynamic(); same_snap(ctx, s, snap(w), 'given-creation', 'update after reusing the arrays given at creation (%s)' % kinds)
    for j, q, v, f, H in expect:
        ctx.ok(np.array_equal(np.asarray(j.gpos).ravel(), np.ravel(q)) and np.array_equal(j.gvel, v) and np.array_equal(f.bpose, H), 'given-creation', '%s: position, velocity and frame' % type(j).__name__)
    ctx.ok(np.array_equal(P.coeffs, coeffs), 'given-creation', 'plane coefficients')
    for c, lo, hi in lim: c.update(1e-3); ctx.ok(not c.is_active() and np.array_equal(getattr(c, '_min', lo), lo) and np.array_equal(getattr(c, '_max', hi), hi), 'given-creation', 'joint limits')
    if pd is not None:
        now = pd.update(1e-3); ctx.ok(all(np.array_equal(x, y) for x, y in zip(now, ref_pd)), 'given-creation', 'gains and goals of the PD controller')
    # initial arrays are the caller's: simulating does not write in them
    before = [m.copy() for m in mats]
    for _ in range(3): quiet(step, w, 1e-3)
    ctx.ok(all(np.array_equal(x, y) for x, y in zip(before, mats)), 'given-later', 'simulation wrote in the arrays of the caller')
    # moving frames
    for f, g, H in made:
        B = rand_H(rng); B0 = B.copy(); f.bpose = B; ctx.ok(np.array_equal(f.bpose, B0) and np.array_equal(g.bpose, H), 'frames-independent', 'frames created from the same array')
        g.bpose = B; B[...] = 9.; ctx.ok(np.array_equal(f.bpose, B0) and np.array_equal(g.bpose, B0), 'given-later', 'pose assigned to a moving frame')
        C = rand_H(rng); g.bpose = C; ctx.ok(np.array_equal(f.bpose, B0) and np.array_equal(g.bpose, C), 'frames-independent', 'frames assigned from the same array')
        f.bpose = g.bpose; g.bpose = H; ctx.ok(np.array_equal(f.bpose, C), 'frames-independent', 'frame assigned from another frame')
    ctx.hit('frames-independent'); ctx.hit('given-later'); ctx.note(joints=kinds); ctx.sig(kinds, [np.round(q, 6).tolist() for _, q, _, _, _ in expect])

def retried(f):
    return lambda ctx, rng, i: ctx.retry(lambda: f(ctx, rng, i))
MULT = 2
FAMILIES = [('history', retried(history), 120, 4000), ('returned', retried(returned), 60, 2000), ('given', given, 200, 5000)]
