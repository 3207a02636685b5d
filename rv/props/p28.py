"""P28: recorders."""
from rv.worlds import *
from rv import geom
obs = mod('arboris.observers')

RULE = 'random mechanisms with frames, shapes, constraints and controllers; every recorder on every element, several simulations in a row on irregular time lines; distinct by mechanism and time lines'
MONITORS = ['one-entry-per-step', 'joint-gpos', 'joint-gvel', 'frame-pose', 'frame-twist', 'moving-frame', 'constraint-force', 'force-applied', 'distance', 'com', 'snapshots', 'afresh', 'old-record-kept', 'motion-unchanged', 'before-simulation', 'bitwise']
CLASSES = ['free-joint', 'several-runs', 'irregular', 'one-step', 'no-step', 'force', 'distance', 'massless', 'other-world', 'refused-pair', 'mass-changed', 'resized', 'put-back']

class Spy(object):
    """Shadow log taken at the start of each integration, independently of the observers."""
    def __init__(self, tree, b, cons):
        self.tree, self.b, self.cons, self.log = tree, b, cons, []
        w = b.world; self.integrate, self.solve = w.integrate, w.update_constraints
        w.integrate, w.update_constraints = self._integrate, self._solve
    def _solve(self, dt, *a, **k):
        g = self.b.world.gforce.copy(); r = self.solve(dt, *a, **k); self.dg = self.b.world.gforce - g; return r
    def _integrate(self, dt):
        sync(self.tree, self.b); K = self.tree.compute(); w = self.b.world
        if w.ndof and not np.abs(w.gvel).max() < 500: raise Skip()      # a loop in a singular configuration
        e = dict(t=w.current_time, q=[np.array(j.gpos, float) for j in w.iterjoints()], v=[np.array(j.gvel, float) for j in w.iterjoints()], K=K, tree=self.tree.copy(), bpose={id(f): f.bpose.copy() for f in w.iterframes()},
                 dg=self.dg, J=[(c.jacobian.copy() if np.any(np.asarray(c._force)) else None) for c in self.cons])
        self.log.append(e); return self.integrate(dt)

LONG = .015     # how often a simulation has hundreds of steps
def timeline(ctx, rng, t0=None):
    n = int(rng.choice([1, 2, 3, 6, 12])); u = rng.random()
    if rng.random() < LONG: n = int(rng.integers(150, 450)); ctx.cls('long')
    t0 = (0. if u < .5 else rng.normal()) if t0 is None else t0
    if rng.random() < .5: tl = t0 + 1e-3*np.arange(n + 1)
    else: tl = t0 + np.append(0., np.cumsum(10.**rng.uniform(-4, -2.3, n))); ctx.cls('irregular')
    if n == 1: ctx.cls('one-step')
    return [float(x) for x in tl] if rng.random() < .5 else tl

def record(ctx, rng, i):
    t = gen_tree(ctx, rng, 1, 5, vscale=.5); well_posed(t); seed = int(rng.integers(1 << 30))
    def make():
        r = np.random.default_rng(seed); b = build(t); MADE.append(b.world); R = populate(ctx, r, b, t); b.world.init(); return b, R
    (b, R), (b2, R2) = make(), make(); w, w2 = b.world, b2.world; tree = t.copy()
    for l in t.links:
        if l.jt == 'FreeJoint': ctx.cls('free-joint')
    J, F, C = list(w.iterjoints()), list(w.iterframes()), list(w.iterconstraints()); S = list(w.itershapes())
    spy = Spy(tree, b, C); idx = {id(x): k for k, x in b.bodies.items()}
    O, pairs = [], []
    for k, j in enumerate(J): O += [('q', k, obs.RecordJointGpos(j)), ('v', k, obs.RecordJointGvel(j, name='v%d' % k))]
    for f in F: O += [('H', f, obs.RecordFramePose(f)), ('T', f, obs.RecordFrameTwist(f))]
    for k, c in enumerate(C): O.append(('f', k, obs.RecordConstForce(c)))
    for x in range(len(S)):
        for y in range(x + 1, len(S)):
            a, c = (S[x], S[y]) if rng.random() < .5 else (S[y], S[x]); kk = (base(a).__name__, base(c).__name__)
            if kk in geom.PAIRS or kk[::-1] in geom.PAIRS: O.append(('d', (a, c), obs.RecordDistance(a, c))); ctx.cls('distance')
            else: ctx.raises(NotImplementedError, lambda: obs.RecordDistance(a, c), 'before-simulation', 'pair without solver'); ctx.cls('refused-pair')
    with_mass = [k for k in range(len(t.links)) if t.links[k].cloud is not None]
    for _ in range(2):
        g = [int(x) for x in rng.permutation(len(t.links))[:int(rng.integers(1, len(t.links) + 1))]]
        if not any(k in with_mass for k in g): g.append(with_mass[0])
        if any(k not in with_mass for k in g): ctx.cls('massless')
        O.append(('c', g, obs.RecordCoMPosition([b.bodies[k] for k in g])))
    for o in O: ctx.ok(len(o[2].get_record()) == 0, 'before-simulation', 'record before any simulation')
    runs = int(rng.choice([1, 2, 3])); old = []; t0 = None
    if runs > 1: ctx.cls('several-runs')
    for run in range(runs):
        tl = timeline(ctx, rng, t0 if rng.random() < .5 else None); t0 = float(tl[-1]); ctx.sig('tl', np.round(tl, 8).tobytes())
        if run and rng.random() < .5:       # other masses, or another position, since the last simulation
            k = int(rng.choice(with_mass)); c = rand_cloud(rng); tree.links[k].cloud = c; ctx.cls('mass-changed')
            for x in (b, b2): x.bodies[k].mass = c.matrix()
        if run and rng.random() < .6 and S:       # shapes of other sizes since the last simulation, perhaps with nothing moved
            ctx.cls('resized'); S2 = list(w2.itershapes())
            for x, y in zip(S, S2):
                if rng.random() < .7: resize(rng, x, y)
        if run and rng.random() < .5 and spy.log:
            ctx.cls('put-back')
            for bb in (b, b2):
                for jj, q, v in zip(bb.world.iterjoints(), spy.log[-1]['q'], spy.log[-1]['v']):
                    if jj.ndof: jj.gpos[...] = q; jj.gvel[:] = v
        spy.log = []; perm = [O[k] for k in rng.permutation(len(O))]; ol = [o[2] for o in perm]
        core.simulate(w, tl, ol if rng.random() < .5 else {('k%d' % k): o for k, o in enumerate(ol)} if rng.random() < .5 else tuple(ol))
        core.simulate(w2, tl); n = len(tl) - 1
        if len(spy.log) != n: raise Skip()
        end = [np.asarray(j.gpos).tobytes() + np.asarray(j.gvel).tobytes() for j in w.iterjoints()]
        ctx.ok(end == [np.asarray(j.gpos).tobytes() + np.asarray(j.gvel).tobytes() for j in w2.iterjoints()], 'motion-unchanged', 'motion with recorders differs from the motion without')
        for o, rec, copy in old:
            ctx.ok(len(rec) == len(copy) and all(np.array_equal(np.asarray(x), y) for x, y in zip(rec, copy)), 'old-record-kept', 'record of an earlier simulation was altered (%s)' % o[0])
        for kind, arg, r in O:
            rec = r.get_record(); ctx.ok(len(rec) == n, 'one-entry-per-step' if run == 0 else 'afresh', '%d entries for %d steps (%s)' % (len(rec), n, kind))
            for a in range(n):
                e = spy.log[a]; x = rec[a]; K = e['K']; sc = kscale(tree, K); last = a
                if kind == 'q': ctx.ok(np.asarray(x).shape == e['q'][arg].shape and np.array_equal(x, e['q'][arg]), 'joint-gpos', 'position of a joint at step %d' % a)
                elif kind == 'v': ctx.ok(np.array_equal(x, e['v'][arg]), 'joint-gvel', 'velocity of a joint at step %d' % a)
                elif kind in 'HT':
                    B = e['bpose'][id(arg)] if arg.body is not arg else eye(4); k = idx[id(arg.body)]
                    m = 'moving-frame' if isinstance(arg, core.MovingSubFrame) else 'frame-pose' if kind == 'H' else 'frame-twist'
                    if kind == 'H': ctx.close(x, dot(K['H'][k], B), m, 'pose of a frame at step %d' % a, 1e-9, sc + norm(B[:3, 3]))
                    else: ctx.close(x, dot(Ad(hinv(B)), K['T'][k]), m, 'twist of a frame at step %d' % a, 1e-9, (1 + norm(K['T'][k]))*(1 + norm(B[:3, 3])))
                elif kind == 'd':
                    G = [solid(s, e, idx) for s in arg]; ctx.close(x, geom.dist(*G), 'distance', 'distance of %s at step %d' % ([g.kind for g in G], a), 1e-8, 1 + sum(g.scale() for g in G))
                elif kind == 'c': ctx.close(x, e['tree'].com(K, arg)[0], 'com', 'centre of mass at step %d' % a, 1e-9, sc)
            old.append(((kind, arg), rec, [np.array(x) for x in rec]))
        # the constraint forces are those which were applied during the step
        fr = {arg: r.get_record() for kind, arg, r in O if kind == 'f'}
        for a in range(n):
            e = spy.log[a]; tot = zeros(w.ndof)
            for k in range(len(C)):
                f = np.asarray(fr[k][a], float); ctx.ok(f.ndim == 1 and np.isfinite(f).all(), 'constraint-force', 'force of a constraint: %s' % f)
                if e['J'][k] is not None: tot += dot(e['J'][k].T, f); ctx.cls('force')
                else: ctx.ok(not f.any(), 'constraint-force', 'force %s recorded for a constraint which applied none' % f)
            if C: ctx.close(tot, e['dg'], 'force-applied', 'generalized force of the recorded forces', 1e-9, 1 + np.abs(e['dg']).max())
        # later motion leaves the entries as they are, even without simulate()
        step(w, 1e-3); step(w2, 1e-3)
        for o, rec, copy in old: ctx.ok(len(rec) == len(copy) and all(np.array_equal(np.asarray(x), y) for x, y in zip(rec, copy)), 'snapshots', 'later steps alter recorded entries (%s)' % o[0])
        ctx.ok([np.asarray(j.gpos).tobytes() for j in J] == [np.asarray(j.gpos).tobytes() for j in w2.iterjoints()], 'bitwise', 'motion after the simulation')

def resize(rng, *shapes):
    u = rng.uniform(.3, 2., 4)
    for s in shapes:
        if hasattr(s, 'radius'): s.radius = s.radius*u[0]
        if hasattr(s, 'length'): s.length = s.length*u[1]
        if hasattr(s, 'half_extents'): s.half_extents = np.asarray(s.half_extents)*u[:3] if u[3] < 1 else tuple(np.asarray(s.half_extents)*u[:3])
        if hasattr(s, 'coeffs'): c = np.array(s.coeffs, float); c[3] += u[1] - 1.; s.coeffs = c

def solid(s, e, idx):
    f = s.frame; B = e['bpose'][id(f)] if f.body is not f and id(f) in e['bpose'] else eye(4) if f.body is f else np.array(f.bpose)
    H = dot(e['K']['H'][idx[id(f.body)]], B); k = base(s).__name__
    if k == 'Plane': c = np.asarray(s.coeffs, float); c = c/norm(c[:3]); return geom.Solid(k, H, c)
    return geom.Solid(k, H, 0. if k == 'Point' else np.asarray(s.half_extents, float) if k == 'Box' else s.radius)

def edge(ctx, rng, i):
    """No step at all, and one recorder moved to another world."""
    t = gen_tree(ctx, rng, 1, 3); well_posed(t); b = build(t); w = b.world; r = [obs.RecordJointGpos(b.joints[0]), obs.RecordFramePose(b.bodies[0]), obs.RecordCoMPosition([b.bodies[k] for k in range(len(t.links))])]
    core.simulate(w, [1.]); core.simulate(w, [2.], r); ctx.cls('no-step')
    for x in r: ctx.ok(list(x.get_record()) == [], 'one-entry-per-step', 'record of a simulation without step')
    t2 = gen_tree(ctx, rng, 2, 4); well_posed(t2); b2 = build(t2); x = r[1]; core.simulate(w, [0., 1e-3, 2e-3], [x]); a = [np.array(y) for y in x.get_record()]
    core.simulate(b2.world, [0., 1e-4], [x]); ctx.cls('other-world')
    ctx.ok(len(x.get_record()) == 1, 'afresh', 'second simulation, in another world, leaves %d entries' % len(x.get_record()))

def steady(ctx, rng, i):
    """A loop in a singular configuration makes the motion diverge: outside the precondition."""
    del MADE[:]
    try: record(ctx, rng, i)
    except np.linalg.LinAlgError:
        if any(not (np.all(np.isfinite(w.gvel)) and (w.ndof == 0 or np.abs(w.gvel).max() < 50)) for w in MADE): raise Skip()
        raise
MADE = []

FAMILIES = [('record', lambda c, r, i: c.retry(lambda: steady(c, r, i)), 60, 3000), ('edge', lambda c, r, i: c.retry(lambda: edge(c, r, i)), 10, 200)]
