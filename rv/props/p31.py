"""P31: centre-of-mass observer."""
from rv.worlds import *
obs = mod('arboris.observers')

RULE = 'random mechanisms and groups of bodies (one, several, all, with and without mass), random states and mass distributions, through simulate and by direct calls; distinct by mechanism, state and group'
MONITORS = ['position', 'jacobian', 'velocity', 'jacobian-rate', 'acceleration', 'finite-difference', 'order', 'own-arrays', 'no-jacobian', 'simulated', 'again', 'additive', 'massless-ignored', 'world-untouched']
CLASSES = ['iterator', 'massless', 'one-body', 'all-bodies', 'point-mass', 'rod', 'equal-moments', 'ground', 'massless-first', 'nothing-moves', 'tuple', 'very-light', 'very-heavy', 'mixed', 'mass-in-place', 'rotor']

def com_jac(t, K, g):
    """Reference jacobian of the centre of mass of a group, and its rate."""
    n = t.ndof; J, dJ, m = zeros((3, n)), zeros((3, n)), 0.
    for i in g:
        c = t.links[i].cloud
        if c is None or c.mass == 0.: continue
        R = K['H'][i][:3, :3]; W = skew(K['T'][i][:3]); C = skew(c.com); A = K['J'][i][3:] - dot(C, K['J'][i][:3]); dA = K['dJ'][i][3:] - dot(C, K['dJ'][i][:3])
        J += c.mass*dot(R, A); dJ += c.mass*dot(R, dot(W, A) + dA); m += c.mass
    return J/m, dJ/m

def com(ctx, rng, i):
    t = gen_tree(ctx, rng, 1, 6, vscale=1., types=['FixedJoint'] if i % 40 == 3 else None)
    for l in t.links:
        if l.cloud is not None and rng.random() < .4: mass_kind(ctx, rng, l)
    u = rng.random()
    if u < .3:      # masses of any size, as in other units, or spread over many sizes
        k = rng.uniform(-12, 9); mixed = rng.random() < .3; ctx.cls('mixed' if mixed else 'very-light' if k < 0 else 'very-heavy')
        for l in t.links:
            if l.cloud is not None: l.cloud = l.cloud.times(10.**(rng.uniform(-9, 0) if mixed else k))
    if t.ndof == 0: ctx.cls('nothing-moves')
    b = build(t); w = b.world; n = len(t.links); g = [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    heavy = [k for k in range(n) if t.links[k].cloud is not None and t.links[k].cloud.mass > 0]
    if not heavy: raise Skip()
    if not any(k in heavy for k in g): g.append(heavy[int(rng.integers(len(heavy)))])
    if any(k not in heavy for k in g): ctx.cls('massless'); ctx.cls('massless-first' if g[0] not in heavy else 'massless-later')
    if len(g) == 1: ctx.cls('one-body')
    if len(g) == n: ctx.cls('all-bodies')
    if rng.random() < .15: g = g + [-1]; ctx.cls('ground')
    ctx.sig(tuple(g)); K = t.compute(); s = kscale(t, K) + max(np.abs(t.links[k].cloud.pts).max() for k in heavy); bodies = [b.bodies[k] for k in g]; inp = list(bodies) if rng.random() < .8 else tuple(bodies)
    if isinstance(inp, tuple): ctx.cls('tuple')
    elif rng.random() < .3: inp = iter(inp); ctx.cls('iterator')
    O = obs.CoMObserver(inp) if rng.random() < .5 else obs.CoMObserver(inp, said(rng, True), name='com')
    w.update_dynamic(); before = snap(w); O.init(w) if rng.random() < .5 else O.init(w, [0., 1.]); O.update(1e-3); same_snap(ctx, before, snap(w), 'world-untouched', 'observing')
    gg = [k for k in g if k >= 0]; x, J, dJ = O.get_CoMPosition(), O.get_CoMJacobian(), O.get_CoMdJacobian(); rx = t.com(K, gg)[0]; rJ, rdJ = com_jac(t, K, gg); v = t.v; vs = 1 + norm(v); tol = 1e-11
    ctx.close(x, rx, 'position', 'centre of mass', 1e-9, s); got = lambda M: cols(t, b, M) if t.ndof else M
    ctx.ok(J.shape == (3, t.ndof) == dJ.shape, 'jacobian', 'shapes %s %s' % (J.shape, dJ.shape))
    ctx.close(got(J), rJ, 'jacobian', 'jacobian of the centre of mass', tol, s); ctx.close(got(dJ), rdJ, 'jacobian-rate', 'rate of the jacobian', tol, s*vs)
    P = sum((l.cloud.mass*0 + dot(l.cloud.ms, l.cloud.velocities(K['H'][k], K['T'][k])) for k, l in enumerate(t.links) if k in gg and k in heavy), zeros(3)); m = sum(t.links[k].cloud.mass for k in gg if k in heavy)
    if t.ndof:
        ctx.close(dot(J, w.gvel), P/m, 'velocity', 'momentum over mass', tol, s*vs)
        e = 1e-5; ts, Ks = {}, {}
        for q in (-2, -1, 1, 2): ts[q] = t.flow(q*e)
        f = lambda q: com_jac(ts[q], ts[q].compute(), gg)[0]; fd = (8*(f(1) - f(-1)) - (f(2) - f(-2)))/(12*e); ctx.close(got(dJ), fd, 'finite-difference', 'rate of the jacobian along the motion', 2e-7, s*vs**2)
        p = lambda q: ts[q].com(ts[q].compute(), gg)[0]; acc = dot(rdJ, v); ctx.close(dot(got(dJ), v), acc, 'acceleration', 'acceleration at constant generalized velocity', tol, s*vs**2)
        ctx.close(dot(got(J), v), (8*(p(1) - p(-1)) - (p(2) - p(-2)))/(12*e), 'finite-difference', 'velocity of the centre of mass', 1e-7, s*vs)
    # order of the bodies, arrays of the caller
    perm = [bodies[k] for k in rng.permutation(len(bodies))]; O2 = obs.CoMObserver(perm); O2.init(w); O2.update(1e-3)
    for a, c in ((x, O2.get_CoMPosition()), (J, O2.get_CoMJacobian()), (dJ, O2.get_CoMdJacobian())): ctx.close(c, a, 'order', 'bodies in another order', 1e-10, s*vs)
    O3 = obs.CoMObserver([z for z, k in zip(bodies, g) if k in heavy]); O3.init(w); O3.update(1e-3); ctx.close(O3.get_CoMJacobian(), J, 'massless-ignored', 'without the bodies without mass', 1e-10, s)
    c0 = [x.copy(), J.copy(), dJ.copy()]; x[:] = 7; J[:] = 7; dJ[:] = 7
    for a, c in zip(c0, (O.get_CoMPosition(), O.get_CoMJacobian(), O.get_CoMdJacobian())): ctx.ok(np.array_equal(a, c), 'own-arrays', 'modifying a returned array reaches the observer')
    O.update(1e-3)
    for a, c in zip(c0, (O.get_CoMPosition(), O.get_CoMJacobian(), O.get_CoMdJacobian())): ctx.ok(np.array_equal(a, c), 'own-arrays', 'updating again changes the result')
    O4 = obs.CoMObserver(bodies if rng.random() < .7 else (z for z in bodies), compute_Jacobians=said(rng, False)); O4.init(w); O4.update(1e-3); ctx.close(O4.get_CoMPosition(), c0[0], 'no-jacobian', 'position without jacobians', 1e-12, s)
    # two groups make one
    if len(gg) > 1:
        k = int(rng.integers(1, len(gg))); A, B = gg[:k], gg[k:]; ma, mb = (sum(t.links[z].cloud.mass for z in G if z in heavy) for G in (A, B))
        if ma > 0 and mb > 0:
            R = []
            for G in (A, B): q = obs.CoMObserver([b.bodies[z] for z in G]); q.init(w); q.update(1e-3); R.append((q.get_CoMPosition(), q.get_CoMJacobian(), q.get_CoMdJacobian()))
            for z in range(3): ctx.close((ma*R[0][z] + mb*R[1][z])/(ma + mb), c0[z], 'additive', 'two groups make one', 1e-9, s*vs)

def simulated(ctx, rng, i):
    """As an observer of a simulation, twice, with a mass changed in between, arrays handed out stay as they are."""
    t = gen_tree(ctx, rng, 1, 5, vscale=.5); well_posed(t); b = build(t); w = b.world; heavy = [k for k in range(len(t.links)) if t.links[k].cloud is not None]; g = [int(k) for k in rng.permutation(heavy)[:int(rng.integers(1, len(heavy) + 1))]]
    gb = [b.bodies[k] for k in g]; O = obs.CoMObserver(gb if rng.random() < .6 else iter(gb)); log = []
    class Spy(core.Observer):
        def init(self, world, timeline): pass
        def update(self, dt): sync(t, b); K = t.compute(); log.append((t.com(K, g)[0], com_jac(t, K, g), O.get_CoMPosition(), O.get_CoMJacobian(), O.get_CoMdJacobian(), kscale(t, K)*(1 + norm(t.v))))
        def finish(self): pass
    for run in range(3):
        del log[:]; core.simulate(w, np.arange(6)*2e-3, [O, Spy()])
        for (x, (J, dJ), gx, gJ, gdJ, s) in log:
            m = 'simulated' if run == 0 else 'again'; ctx.close(gx, x, m, 'centre of mass during a simulation', 1e-9, s); ctx.close(cols(t, b, gJ), J, m, 'jacobian during a simulation', 1e-11, s); ctx.close(cols(t, b, gdJ), dJ, m, 'rate during a simulation', 1e-11, s)
        k = g[0]; t.links[k].cloud = rand_cloud(rng, mass=2.); M = t.links[k].cloud.matrix()
        if rng.random() < .6: b.bodies[k].mass[...] = M; ctx.cls('mass-in-place')
        else: b.bodies[k].mass = M
        sync(t, b); well_posed(t)

FAMILIES = [('com', lambda c, r, i: c.retry(lambda: com(c, r, i)), 150, 6000), ('simulated', lambda c, r, i: c.retry(lambda: simulated(c, r, i)), 25, 600)]
