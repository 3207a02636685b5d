"""P12: conservation laws in the limit of small steps."""
from rv.mech import *
from rv import arb; arb.MOVING = .2
import arboris.controllers as ctl

RULE = 'random floating or anchored trees, random states, three step sizes per history extrapolated to zero step; distinct by mechanism and state'
MONITORS = ['linear-momentum', 'angular-momentum', 'free-energy', 'weight-energy', 'viscous-decay', 'gain-decay', 'vanishing-drift']
CLASSES = ['floating', 'anchored', 'rotor']
ASSUMPTIONS = ['drift of the extrapolated trajectory below 1e-6 (with damping 2e-4) of the scale of the motion; mechanisms whose mass matrix is worse conditioned than 1e4 are left out']

def run(tree, T, n, setup=None, hist=None):
    b = build(tree); w = b.world
    if setup: setup(b)
    w.init(); t = tree.copy(); E = []
    for k in range(n):
        step(w, T/n)
        if np.abs(w.gvel).max() > 20.: raise Skip()
        if hist is not None: sync(t, b); hist.append(t.kinetic())
    sync(t, b); return t

def extrapolate(X):
    """Richardson, first-order method, steps h, h/2, h/4."""
    a, b = 2*X[1] - X[0], 2*X[2] - X[1]
    return (4*b - a)/3

def three(ctx, tree, T, n, f, setup=None):
    X = [np.asarray(f(run(tree, T, n*k, setup)), float) for k in (1, 2, 4)]
    return X, extrapolate(X)

def scale(tree):
    K = tree.compute(); m = sum(l.cloud.size for l in tree.links if l.cloud is not None)
    return m, kscale(tree, K), 1 + np.abs(tree.v).max()

def gen(ctx, rng, base):
    kw = dict(base='FreeJoint', types=LINEAR + ['FixedJoint']) if base else dict(types=LINEAR + ['FixedJoint'])
    tree = gen_tree(ctx, rng, 1, 4, p_visc=0., p_massless=.1, vscale=.6, **kw)
    for l in tree.links:
        if l.cloud is not None and rng.random() < .25: l.cloud = tidy_cloud(rng) if rng.random() < .6 else rotor(rng); ctx.cls('rotor' if l.cloud.mass == 0 else 'tidy')
    tree.index(); well_posed(tree, cond=1e4); ctx.cls('floating' if base else 'anchored')
    return tree

TF, NF = .04, 20
def drift(ctx, X, ext, ref, s, mon, tol):
    ctx.close(ext, ref, mon, 'extrapolated to zero step', tol, s)
    d = [np.abs(x - ref).max()/s for x in X]
    ctx.ok(d[2] <= .7*d[0] + 1e-5, 'vanishing-drift', '%s: drifts %s' % (mon, d))

def floating(ctx, rng, i):
    tree = gen(ctx, rng, True); m, r, v = scale(tree)
    P0, L0 = tree.momentum(); E0 = tree.kinetic()
    f = lambda t: np.hstack((t.momentum()[0], t.momentum()[1], t.kinetic()))
    X, ext = three(ctx, tree, TF, NF, f)
    drift(ctx, [x[:3] for x in X], ext[:3], P0, m*v*r, 'linear-momentum', 1e-6)
    drift(ctx, [x[3:6] for x in X], ext[3:6], L0, m*v*r*r, 'angular-momentum', 1e-6)
    drift(ctx, [x[6] for x in X], ext[6], E0, m*v*v*r*r, 'free-energy', 1e-6)

def weight(ctx, rng, i):
    tree = gen(ctx, rng, i % 2); m, r, v = scale(tree); g = rng.uniform(-15, 15)
    up = array([0., 1., 0.])
    f = lambda t: t.kinetic() - t.potential(g, up)
    X, ext = three(ctx, tree, TF, NF, f, lambda b: b.world.register(ctl.WeightController(g)))
    drift(ctx, X, ext, f(tree), m*(v*v*r*r + abs(g)*r), 'weight-energy', 1e-6)

def viscous(ctx, rng, i):
    tree = gen(ctx, rng, i % 2); m, r, v = scale(tree)
    for l in tree.links:
        if rng.random() < .7: l.visc = rand_visc(rng)
    E = [tree.kinetic()]; run(tree, TF, 4*NF, None, E)
    rate = power(tree)
    ctx.ok(E[-1] <= E[0] + 2e-3*m*v*v*r*r*TF, 'viscous-decay', 'kinetic energy grows: %s' % [E[0], E[-1]])
    X, ext = three(ctx, tree, TF, NF, lambda t: t.kinetic() + 0, None)
    W = [work(tree, TF, NF*k) for k in (1, 2, 4)]; 
    ctx.close(ext + extrapolate(W), E[0], 'viscous-decay', 'kinetic energy + dissipated energy', 2e-4, m*v*v*r*r + abs(W[0]))

def power(t):
    K = t.compute(); return sum(dot(K['T'][k], dot(l.visc, K['T'][k])) for k, l in enumerate(t.links) if l.visc is not None)

def work(tree, T, n):
    b = build(tree); w = b.world; w.init(); t = tree.copy(); W = 0.; p = power(t)
    for k in range(n):
        step(w, T/n); sync(t, b); q = power(t); W += (p + q)/2*T/n; p = q
    return np.asarray(W)

def gain(ctx, rng, i):
    tree = gen(ctx, rng, i % 2); m, r, v = scale(tree)
    if not any(l.jt in LINEAR for l in tree.links): raise Skip()
    box = {}
    def setup(b):
        js = [b.joints[k] for k, l in enumerate(tree.links) if l.jt in LINEAR]; n = sum(j.ndof for j in js)
        if 'kd' not in box: A = rng.normal(size=(n, n)); box['kd'] = dot(A, A.T)*10.**rng.uniform(-1, 1)
        b.world.register(ctl.ProportionalDerivativeController(js, kd=box['kd']))
    E = [tree.kinetic()]; run(tree, TF, 4*NF, setup, E)
    ctx.ok(E[-1] <= E[0] + 2e-3*m*v*v*r*r*TF, 'gain-decay', 'kinetic energy grows: %s' % [E[0], E[-1]])

MULT = 2
FAMILIES = [('floating', floating, 24, 700), ('weight', weight, 24, 700), ('viscous', viscous, 12, 300), ('gain', gain, 12, 300)]
