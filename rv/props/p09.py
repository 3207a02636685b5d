"""P09: generalized mass and viscosity."""
from rv.mech import *
from rv import arb; arb.MOVING = .2

RULE = 'random trees with off-centre point-mass bodies, massless links and viscosities; distinct by structure and state'
MONITORS = ['kinetic-energy', 'mass-matrix', 'symmetric', 'positive', 'definite', 'dissipation', 'viscosity-matrix', 'velocity-independent', 'history', 'gvel', 'units']

def mv(ctx, rng, i):
    tree = gen_tree(ctx, rng, 1, 16 if ctx.thorough else 8, p_visc=.5, p_massless=.25, bare=.4)
    if not tree.ndof: raise Skip()
    special(ctx, rng, tree)
    if rng.random() < .3:
        for l in tree.links:
            if l.visc is not None: A = rng.normal(size=(6, 6)); l.visc = l.visc + (A - A.T)*np.abs(l.visc).max(); ctx.cls('asymmetric')
    b = build(tree, order=topo_order(rng, tree)); w = b.world
    if rng.random() < .5:      # stale results of another state must leave no trace
        other = tree.copy()
        for l in other.links:
            if l.jt != 'FixedJoint': l.q = rand_q(rng, l.jt); l.v = rng.normal(size=l.v.shape)
        set_state(b, other); w.update_dynamic(); set_state(b, tree); ctx.cls('stale state')
    w.update_dynamic()
    K = tree.compute(); D = tree.dynamics(K); v = tree.v
    M, B = both(tree, b, w.mass), both(tree, b, w.viscosity)
    sM, sB = 1e-3 + np.abs(D['M']).max(), 1e-3 + np.abs(D['B']).max()
    ctx.close(cols(tree, b, w.gvel), v, 'gvel', 'world velocity', 1e-15)
    ctx.close(M, M.T, 'symmetric', 'mass', 1e-11, sM); ctx.close(B - B.T, D['B'] - D['B'].T, 'symmetric', 'viscosity', 1e-11, sB)
    e = np.linalg.eigvalsh((M + M.T)/2); ctx.ok(e[0] >= -1e-9*sM, 'positive', 'mass matrix', eig=e)
    er = np.linalg.eigvalsh(D['M'])
    if er[0] > 1e-8*sM: ctx.ok(e[0] > 0, 'definite', 'mass matrix', eig=e)
    ctx.close(M, D['M'], 'mass-matrix', 'mass matrix', 1e-10, sM)
    ctx.close(B, D['B'], 'viscosity-matrix', 'viscosity matrix', 1e-10, sB)
    T0 = tree.kinetic(K); ctx.close(.5*dot(v, dot(M, v)), T0, 'kinetic-energy', 'of the current motion', 1e-10, 1e-6 + sM*(1 + dot(v, v)))
    for _ in range(3):
        u = rng.normal(size=tree.ndof); Ku = tree.compute(u)
        ctx.close(.5*dot(u, dot(M, u)), tree.kinetic(Ku), 'kinetic-energy', 'of a random motion', 1e-10, sM*(1 + dot(u, u)))
        P = sum(dot(Ku['T'][k], dot(l.visc, Ku['T'][k])) for k, l in enumerate(tree.links) if l.visc is not None)
        ctx.close(dot(u, dot(B, u)), P, 'dissipation', 'power of viscosity', 1e-10, sB*(1 + dot(u, u)))
    # other velocities, repeated updates
    t2 = tree.copy()
    for l in t2.links: l.v = rng.normal(size=l.v.shape) * 3
    set_state(b, t2); w.update_dynamic()
    ctx.close(both(tree, b, w.mass), M, 'velocity-independent', 'mass', 1e-11, sM)
    ctx.close(both(tree, b, w.viscosity), B, 'velocity-independent', 'viscosity', 1e-11, sB)
    w.update_dynamic(); w.update_geometric(); w.update_dynamic()
    ctx.close(both(tree, b, w.mass), M, 'history', 'mass after several updates', 1e-11, sM)
    w.init(); w.update_dynamic()
    ctx.close(both(tree, b, w.mass), M, 'history', 'mass after init', 1e-11, sM)
    ctx.close(both(tree, b, w.viscosity), B, 'history', 'viscosity after init', 1e-11, sB)

def units(ctx, rng, i):
    """The same mechanism in other units (tiny to huge masses, sizes and durations)."""
    tree = special(ctx, rng, gen_tree(ctx, rng, 1, 6, p_visc=.5))
    if not tree.ndof: raise Skip()
    U = rand_units(ctx, rng); t2 = U.tree(tree); b = build(t2); w = b.world; w.update_dynamic(); D = tree.dynamics(); u = U.u(tree)
    ctx.close(U.inertia(tree, both(t2, b, w.mass)), D['M'], 'units', 'mass matrix in other units', 1e-9, 1e-9 + np.abs(D['M']).max())
    ctx.close(U.inertia(tree, both(t2, b, w.viscosity))*U.T, D['B'], 'units', 'viscosity matrix in other units', 1e-9, 1e-9 + np.abs(D['B']).max())
    v = tree.v; ctx.close(.5*dot(w.gvel, dot(w.mass, w.gvel))/(U.M*U.L**2)*U.T**2, tree.kinetic(D['K']), 'units', 'kinetic energy in other units', 1e-9, 1e-9 + np.abs(D['M']).max()*(dot(v, v)))

CLASSES = ['stale state', 'light', 'heavy', 'small', 'large', 'point-mass', 'rod', 'far', 'asymmetric', 'rotor']
FAMILIES = [('energy', mv, 120, 4000), ('units', lambda c, r, i: c.retry(lambda: units(c, r, i)), 60, 2000)]
