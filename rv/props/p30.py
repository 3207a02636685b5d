"""P30: energy monitor."""
from rv.worlds import *
from rv.props.p28 import timeline
obs = mod('arboris.observers'); mm = mod('arboris.massmatrix')

RULE = 'random mechanisms, mass distributions of all ranks (solids, rods, point masses, no mass) anywhere in the body frame, several simulations in a row; distinct by mechanism, state and time line'
MONITORS = ['one-entry-per-step', 'time', 'kinetic', 'potential', 'mechanical', 'afresh', 'same-energy', 'conservation', 'old-record-kept', 'bodies-changed', 'plot']
CLASSES = ['massless', 'point-mass', 'rod', 'solid', 'builder', 'several-runs', 'irregular', 'one-step', 'displaced', 'equal-moments', 'far', 'several-worlds', 'rotor']

def simulate(t, b, tl, O):
    """Simulate; a mechanism which meets a singular configuration is outside the precondition."""
    try: core.simulate(b.world, tl, O)
    except np.linalg.LinAlgError:
        sync(t, b); well_posed(t, cond=1e10); raise

def energy(ctx, rng, i):
    t = gen_tree(ctx, rng, 1, 6, vscale=.5)
    for l in t.links:
        if l.cloud is None: ctx.cls('massless')
        elif rng.random() < .5: mass_kind(ctx, rng, l)
    well_posed(t, cond=1e9); seed = int(rng.integers(1 << 30)); b = build(t); w = b.world; up = tilt(ctx, rng, w)
    if rng.random() < .3: populate(ctx, rng, b, t); w.init()
    tree = t.copy(); log = []; integrate = w.integrate
    def spy(dt):
        sync(tree, b); K = tree.compute(); log.append((w.current_time, tree.kinetic(K), tree.potential(9.81, w.up, K), scale(tree, K))); return integrate(dt)
    w.integrate = spy; E = obs.EnergyMonitor() if rng.random() < .5 else obs.EnergyMonitor('energy'); old = None
    # the same motion described with other body frames
    X = {k: rand_H(rng, .5) for k in range(len(t.links))}; t2 = t.copy()
    for k, l in enumerate(t2.links):
        iX = hinv(X[k]); l.cloud = l.cloud.moved(iX) if l.cloud is not None else None; l.H_cn = dot(iX, l.H_cn); l.sub1 = True
        if l.visc is not None: l.visc = dot(Ad(X[k]).T, dot(l.visc, Ad(X[k])))
        for c in t2.children[k]: t2.links[c].H_pr = dot(iX, t2.links[c].H_pr); t2.links[c].sub0 = True
    runs = int(rng.choice([1, 1, 2, 3]))
    if runs > 1: ctx.cls('several-runs')
    for run in range(runs):
        tl = timeline(ctx, rng); del log[:]; up = tilt(ctx, rng, w) if run else up; start = state(b); simulate(tree, b, tl, [E]); n = len(tl) - 1; ctx.sig('tl', np.round(tl, 8).tobytes())
        for name in ('time', 'kinetic_energy', 'potential_energy', 'mechanichal_energy'):
            ctx.ok(len(getattr(E, name)) == n, 'one-entry-per-step' if run == 0 else 'afresh', '%d entries in %s for %d steps' % (len(getattr(E, name)), name, n))
        for k, (tm, ke, pe, sc) in enumerate(log):
            ctx.ok(E.time[k] == tm, 'time', 'time of step %d: %r instead of %r' % (k, E.time[k], tm))
            ctx.close(E.kinetic_energy[k], ke, 'kinetic', 'kinetic energy at step %d' % k, 1e-11, sc[0]); ctx.close(E.potential_energy[k], pe, 'potential', 'potential energy at step %d' % k, 1e-11, sc[1]); ctx.close(E.mechanichal_energy[k], ke + pe, 'mechanical', 'mechanical energy at step %d' % k, 1e-11, sc[0] + sc[1])
        C, shown = curves(E.plot); C = {c[2]: c for c in C}; ctx.ok(shown == 1 and set(C) == {'kinetic', 'potential', 'mechanical'}, 'plot', 'curves %s, shown %d times' % (list(C), shown))
        for k, y in (('kinetic', E.kinetic_energy), ('potential', E.potential_energy), ('mechanical', E.mechanichal_energy)): ctx.ok(np.array_equal(C[k][0], E.time) and np.array_equal(C[k][1], y), 'plot', 'curve of %s energy' % k)
        if old: ctx.ok(all(list(x) == y for x, y in old), 'old-record-kept', 'records of the previous simulation changed')
        old = [(x, list(x)) for x in (E.time, E.kinetic_energy, E.potential_energy, E.mechanichal_energy)]
    # frames in which mass is expressed
    b2 = build(t2); E2, E1 = obs.EnergyMonitor(), obs.EnergyMonitor(); b1 = build(t); b1.world.up[:] = up; b2.world.up[:] = up; up = np.array(b1.world.up); core.simulate(b2.world, [0., 1e-3], [E2]); core.simulate(b1.world, [0., 1e-3], [E1]); ctx.cls('displaced')
    sc = scale(t, t.compute()); sc2 = scale(t2, t2.compute())
    ctx.close(E2.kinetic_energy, E1.kinetic_energy, 'same-energy', 'kinetic energy with other body frames', 1e-11, sc[0] + sc2[0]); ctx.close(E2.potential_energy, E1.potential_energy, 'same-energy', 'potential energy with other body frames', 1e-11, sc[1] + sc2[1])
    # new masses are taken into account by the next simulation
    k = int(rng.integers(len(t.links)))
    if t.links[k].cloud is not None:
        t1 = t.copy(); sync(t1, b1); c = rand_cloud(rng, mass=1.); t1.links[k].cloud = c; b1.bodies[k].mass = c.matrix()
        K = t1.compute(); sc = scale(t1, K)
        try: well_posed(t1, cond=1e9)
        except Skip: return
        core.simulate(b1.world, [0., 1e-3], [E1]); ctx.close([E1.kinetic_energy[0], E1.potential_energy[0]], [t1.kinetic(K), t1.potential(9.81, w.up, K)], 'bodies-changed', 'energies after changing the mass of a body', 1e-11, sum(sc))

def reused(ctx, rng, i):
    """One monitor for simulations of several worlds, of all magnitudes of mass."""
    E = obs.EnergyMonitor(); ctx.cls('several-worlds')
    for k in range(int(rng.integers(2, 4))):
        t = special(ctx, rng, gen_tree(ctx, rng, 1, 4, vscale=.5)); well_posed(t, cond=1e9); U = Units(1., 10.**rng.uniform(-7, 7), 1.); t2 = U.tree(t); b = build(t2); K = t.compute(); sc = scale(t, K); tilt(ctx, rng, b.world)
        core.simulate(b.world, [0., 1e-4], [E]); ctx.ok(len(E.time) == len(E.kinetic_energy) == len(E.potential_energy) == 1, 'afresh', 'entries of a previous simulation are left')
        ctx.close(E.kinetic_energy[0]/U.M, t.kinetic(K), 'kinetic', 'kinetic energy over mass, world %d' % k, 1e-11, sc[0]); ctx.close(E.potential_energy[0]/U.M, t.potential(9.81, b.world.up, K), 'potential', 'potential energy over mass, world %d' % k, 1e-11, sc[1])

def scale(t, K):
    """Magnitudes the energies are the result of."""
    a = sum(l.cloud.size*(1 + norm(K['T'][i]))**2*(1 + np.abs(l.cloud.pts).max())**2 for i, l in enumerate(t.links) if l.cloud is not None); c = sum(9.81*l.cloud.size*(1 + np.abs(K['H'][i][:3, 3]).max() + np.abs(l.cloud.pts).max()) for i, l in enumerate(t.links) if l.cloud is not None)
    return 1e-3 + a, 1e-3 + c

def conserve(ctx, rng, i):
    """A body in free fall, or a pendulum: mechanical energy hardly changes while both others do; a body made by a builder weighs what it should."""
    w = core.World(); m = 10.**rng.uniform(-1, 1); h = rng.normal(); dims = rng.uniform(.1, .5, 3); kind = i % 4; ctx.cls('builder')
    M = [lambda: mm.box(dims, m), lambda: mm.sphere(dims[0], m), lambda: mm.cylinder(dims[0], dims[1], m), lambda: mm.ellipsoid(dims, m)][kind]()
    c = rng.normal(size=3)*.3; X = tra(-c) if rng.random() < .5 else dot(rand_H(rng), tra(-c)); body = core.Body(mass=mm.transport(M, X)); T = zeros(6); T[3:] = rng.normal(size=3)
    H = hom(rand_rot(rng), rng.normal(size=3)); w.add_link(w.ground, joints.FreeJoint(gpos=H, gvel=T), body); g = rng.uniform(5, 12); w.register(__import__('arboris.controllers', fromlist=['x']).WeightController(-9.81)); E = obs.EnergyMonitor(); n = 20; dt = 1e-3
    com = dot(dot(H, hinv(X)), [0, 0, 0, 1.])[:3]; core.simulate(w, np.arange(n + 1)*dt, [E]); e = np.array(E.mechanichal_energy); p = np.array(E.potential_energy); ctx.sig(kind, M.round(9).tobytes())
    ctx.close(p[0], m*9.81*com[1], 'conservation', 'weight times height of the centre of mass', 1e-9, 1e-9 + m*9.81*(1 + np.abs(com).max()))
    ctx.close(E.kinetic_energy[0], .5*m*norm(T[3:])**2, 'conservation', 'half the mass times the squared speed', 1e-9)
    if X is not None: ctx.ok(np.abs(e - e[0]).max() < 2*n*m*(9.81*dt)**2*4 + 1e-9*abs(e[0]), 'conservation', 'mechanical energy changes by %g in free fall' % np.abs(e - e[0]).max())

FAMILIES = [('energy', lambda c, r, i: c.retry(lambda: energy(c, r, i)), 80, 4000), ('conserve', conserve, 20, 500), ('reused', lambda c, r, i: c.retry(lambda: reused(c, r, i)), 40, 1500)]
