"""P10: velocity-dependent forces."""
from rv.mech import *
from rv import arb; arb.MOVING = .2

RULE = 'random trees with off-centre bodies with products of inertia, random positions and velocities; distinct by structure and state'
MONITORS = ['newton-euler', 'power-balance', 'rest', 'reversal', 'body-bias', 'history', 'units']

def rne(tree, K, v):
    """Recursive Newton-Euler on point masses: generalized forces at zero generalized acceleration."""
    h = zeros(tree.ndof)
    for k, l in enumerate(tree.links):
        if l.cloud is None: continue
        H, T = K['H'][k], K['T'][k]; a = dot(K['dJ'][k], v)
        for p, m in zip(l.cloud.pts, l.cloud.ms):
            vp = T[3:] + np.cross(T[:3], p)
            acc = a[3:] + np.cross(a[:3], p) + np.cross(T[:3], vp)   # acceleration of the particle, body axes
            f = m*acc
            Jp = K['J'][k][3:] - dot(skew(p), K['J'][k][:3])
            h += dot(Jp.T, f)
    return h

def nl(ctx, rng, i):
    tree = gen_tree(ctx, rng, 1, 12 if ctx.thorough else 7, bare=.4, vscale=10.**rng.uniform(-1, .7))
    if not tree.ndof: raise Skip()
    special(ctx, rng, tree)
    b = build(tree, order=topo_order(rng, tree)); w = b.world
    if rng.random() < .3: w.update_dynamic()
    w.update_dynamic()
    K = tree.compute(); v = tree.v
    h = rne(tree, K, v); D = tree.dynamics(K)
    s = 1e-6 + (np.abs(D['M']).max() + 1) * kscale(tree, K)**2 * dot(v, v) * len(tree.links)
    N = both(tree, b, w.nleffects)
    got = dot(N, v)
    ctx.close(got, h, 'newton-euler', 'N gvel', 1e-10, s)
    for k, x in b.bodies.items():
        if k < 0 or tree.links[k].cloud is None: continue
        T = K['T'][k]; M = tree.links[k].cloud.matrix()
        ctx.close(dot(x.nleffects, T), -dot(ad(T).T, dot(M, T)), 'body-bias', 'body %d' % k, 1e-10, s + np.abs(M).max()*dot(T, T))
    # power balance, from observed mass matrices along the motion at constant gvel
    gv = w.gvel; p = dot(gv, dot(w.nleffects, gv))
    E = []; hh = 1e-4 / (1 + np.abs(v).max() * len(tree.links))
    for sg in (1, -1):
        set_state(b, tree.flow(sg*hh)); w.update_dynamic(); g = w.gvel; E.append(.5*dot(g, dot(w.mass, g)))
    ctx.close(p, (E[0] - E[1])/(2*hh), 'power-balance', 'power of nonlinear effects', 2e-8, s*(1 + np.abs(v).max()))
    # reversal and rest
    t2 = tree.copy()
    for l in t2.links: l.v = -l.v
    set_state(b, t2); w.update_dynamic()
    ctx.close(dot(both(tree, b, w.nleffects), -v), got, 'reversal', 'velocities reversed', 1e-10, s)
    for l in t2.links: l.v = 0*l.v
    set_state(b, t2); w.update_dynamic()
    ctx.close(w.nleffects, zeros((tree.ndof,)*2), 'rest', 'at rest', 1e-12, 1 + np.abs(D['M']).max())
    set_state(b, tree); w.update_dynamic()
    ctx.close(dot(both(tree, b, w.nleffects), v), got, 'history', 'after other states', 1e-11, s)

def units(ctx, rng, i):
    """The same motion in other units (tiny to huge masses, sizes and durations)."""
    tree = special(ctx, rng, gen_tree(ctx, rng, 1, 6))
    if not tree.ndof: raise Skip()
    U = rand_units(ctx, rng, 1. if rng.random() < .5 else 2.); t2 = U.tree(tree); b = build(t2); w = b.world; w.update_dynamic(); K = tree.compute(); v = tree.v; D = tree.dynamics(K)
    s = 1e-9 + np.abs(D['M']).max()*kscale(tree, K)**2*dot(v, v)*len(tree.links)
    ctx.close(U.force(tree, cols(t2, b, dot(w.nleffects, w.gvel))), rne(tree, K, v), 'units', 'velocity-dependent forces in other units', 1e-9, s)
    for k, l in enumerate(tree.links):
        if l.cloud is None: continue
        T = K['T'][k]; T2 = b.bodies[k].twist; D6 = array([1.]*3 + [U.L]*3); M = l.cloud.matrix()
        ctx.close(dot(b.bodies[k].nleffects, T2)*D6/(U.M*U.L**2)*U.T**2, -dot(ad(T).T, dot(M, T)), 'units', 'body %d in other units' % k, 1e-9, 1e-9 + np.abs(M).max()*dot(T, T))

CLASSES = ['light', 'heavy', 'small', 'large', 'point-mass', 'rod', 'far', 'rotor']
FAMILIES = [('newton-euler', nl, 110, 4000), ('units', lambda c, r, i: c.retry(lambda: units(c, r, i)), 80, 2500)]
