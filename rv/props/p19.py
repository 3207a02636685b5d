"""P19: ball-and-socket constraints."""
from rv.mech import *
import arboris.controllers as ctl, arboris.constraints as cst

RULE = 'anchored, floating and multi-body-pair mechanisms with one to three ball-and-socket constraints between bodies or to the ground, closed or slightly open, simulated at several steps; distinct by mechanism, anchors and state'
MONITORS = ['predicted-closure', 'gap-closes', 'gap-vanishes-with-dt', 'force-direction', 'no-net-action', 'momentum', 'energy', 'equivalent-joint']
CLASSES = ['rest', 'one', 'several', 'to-ground', 'between-bodies', 'open', 'closed', 'floating', 'two-floating', 'gravity', 'turned-frames', 'rank-1', 'rank-2', 'far', 'near', 'body-frame']

class Loop(object):
    """Anchor points (body, local point) of a constraint."""
    def __init__(self, i, p, j, r): self.i, self.p, self.j, self.r = i, p, j, r
    def pts(self, K): return [dot(K['H'][k], np.append(x, 1.))[:3] for k, x in ((self.i, self.p), (self.j, self.r))]
    def gap(self, K): a, b = self.pts(K); return b - a
    def jac(self, K):
        """Relative velocity of anchor 1 wrt anchor 0, ground axes."""
        return sum(s*dot(K['H'][k][:3, :3], K['J'][k][3:] - dot(skew(x), K['J'][k][:3])) for s, k, x in ((-1, self.i, self.p), (1, self.j, self.r)))

def gen(ctx, rng, *a): return ctx.retry(lambda: gen1(ctx, rng, *a))
def gen1(ctx, rng, n, base, open_=None, n_extra=None, vscale=.5):
    types = LINEAR + ['FreeJoint', 'FixedJoint'] if base is None else LINEAR
    tree = gen_tree(ctx, rng, 2, 3 + 2*n, p_massless=.05, p_visc=0., vscale=vscale, base=base, types=types)
    if n_extra:     # a second floating body
        t2 = rand_tree(rng, n_extra, types=LINEAR, base='FreeJoint', p_visc=0., p_massless=0., vscale=vscale); m = len(tree.links)
        for l in t2.links:
            l.name = 'z' + l.name; l.parent = -1 if l.parent < 0 else l.parent + m; tree.links.append(l)
        tree.index()
    K = tree.compute(); M = well_posed(tree, K, 1e4); loops = []
    for c in range(n):
        j = int(rng.integers(len(tree.links))); i = int(rng.integers(-1, len(tree.links)))
        if base == 'FreeJoint' and i == -1: i = 0
        if n_extra and c == 0: i, j = 0, m
        if i == j: i = 0 if base == 'FreeJoint' else -1
        if i == j: raise Skip()
        r = rng.normal(size=3)*.4 if rng.random() < .8 else zeros(3); x = dot(K['H'][j], np.append(r, 1.))[:3]
        if not r.any(): ctx.cls('body-frame')
        if open_: x = x + rand_unit(rng)*open_
        p = dot(hinv(K['H'][i]), np.append(x, 1.))[:3]
        if rng.random() < .5: i, p, j, r = j, r, i, p
        loops.append(Loop(i, p, j, r))
        ctx.cls('to-ground' if -1 in (i, j) else 'between-bodies')
    J = np.vstack([l.jac(K) for l in loops]); A = dot(J, np.linalg.solve(M, J.T)); e = np.linalg.eigvalsh(A)
    # a point the joints already hold leaves the constraint nothing to act on
    if not e[0] > e[-1]*(1e-3 if n == 1 else 2e-2) or e[-1] < 1e-9: raise Skip()
    ctx.cls('one' if n == 1 else 'several'); ctx.cls('open' if open_ else 'closed'); ctx.sig([(l.i, l.j) for l in loops], [l.p.round(6).tobytes() for l in loops])
    return tree, loops, K

def project(tree, loops, K):
    """Velocities compatible with the constraints."""
    J = np.vstack([l.jac(K) for l in loops]); v = tree.v - dot(np.linalg.pinv(J), dot(J, tree.v))
    for i in tree.order: tree.links[i].v = v[tree.dof[i]]

def mk(ctx, rng, tree, loops, g=None, order=None):
    b = build(tree, order=order); w = b.world; cs = []
    if g: w.register(ctl.WeightController(g))
    for l in loops:
        fr = []
        for k, p in ((l.i, l.p), (l.j, l.r)):
            if norm(p) == 0: fr.append(b.bodies[k]); continue
            fr.append(core.SubFrame(b.bodies[k], hom(rand_rot(np.random.default_rng(len(cs) + 3*k + 9)), p)))
        cs.append(cst.BallAndSocketConstraint(frames=tuple(fr))); w.register(cs[-1])
    ctx.cls('turned-frames'); w.init(); return b, cs

def reldiff(K, l, v):
    return dot(l.jac(K), v)

def online(ctx, rng, i):
    """Every step: predicted end-of-step gap, direction and balance of the forces."""
    base = [None, 'FreeJoint', 'FreeJoint'][i % 3]; n = int(rng.integers(1, 3)); op = 10.**rng.uniform(-4, -2) if rng.random() < .4 else None
    tree, loops, K = gen(ctx, rng, n, base, op, int(rng.integers(1, 3)) if i % 3 == 2 else None)
    if not op: project(tree, loops, K)
    rest = bool(op) and rng.random() < .3
    if rest:    # only the gap itself pulls
        ctx.cls('rest')
        for l in tree.links: l.v = l.v*0.
        tree.index()
    g = rng.uniform(-10, 10) if rng.random() < .6 and i % 3 == 0 and not rest else None
    if g: ctx.cls('gravity')
    if base: ctx.cls('two-floating' if i % 3 == 2 else 'floating')
    b, cs = mk(ctx, rng, tree, loops, g); w = b.world; t = tree.copy(); dt = 10.**rng.uniform(-3.5, -2)
    for s in range(8):
        sync(t, b); K = t.compute(); v0 = t.v
        w.update_dynamic(); w.update_controllers(dt); before = w.gforce; w.update_constraints(dt); f = cols(t, b, w.gforce - before)
        J = np.vstack([l.jac(K) for l in loops]); F, _, _, _ = np.linalg.lstsq(J.T, f, rcond=None); gap0 = np.hstack([l.gap(K) for l in loops])
        fs = 1 + np.abs(f).max() + np.abs(F).max(); opn = np.abs(gap0).max()
        if opn < 1e-6:      # with a gap the action point is at one of the anchors
            ctx.close(dot(J.T, F), f, 'force-direction', 'generalized force is that of forces at the anchors', 1e-5, fs*kscale(t, K)**2)
        if base:    # virtual rigid motions of the floating system
            N = zeros(6)
            for k in t.children[-1]: N += dot(Ad(hinv(dot(K['H'][k], t.links[k].H_cn))).T, f[t.dof[k]])
            ctx.close(N, zeros(6), 'no-net-action', 'net wrench of the constraint forces', 1e-11, fs*kscale(t, K)**2)
        w.integrate(dt); sync(t, b); v1 = t.v
        if not np.isfinite(v1).all() or np.abs(v1).max() > 50: raise Skip()
        pred = np.hstack([l.gap(K) + dt*dot(l.jac(K), v1) for l in loops]); vs = 1 + np.abs(v1).max()
        # second-order terms of an open gap are outside the linear prediction
        slack = dt*(1e-7 if n == 1 else 2e-3) + 2*dt*np.abs(v1).max()*opn*len(t.links)
        ctx.ok(np.abs(pred).max() <= slack*vs, 'predicted-closure', 'predicted gap %g, allowed %g' % (np.abs(pred).max(), slack*vs))
        gap1 = np.abs(np.hstack([l.gap(t.compute()) for l in loops])).max()
        bound = slack*vs + 4*dt*dt*(len(t.links)*np.abs(v1).max() + .1)**2*kscale(t, K) + 1e-9
        ctx.ok(gap1 <= bound, 'gap-closes', 'gap %g after a step, allowed %g (%g before)' % (gap1, bound, opn))

def conv(ctx, rng, i):
    """Gap, momentum and energy in the limit of small steps."""
    base = [None, 'FreeJoint'][i % 2]; tree, loops, K = gen(ctx, rng, 1, base, None, 1 if i % 4 == 3 else None); project(tree, loops, K)
    g = rng.uniform(-10, 10) if i % 2 == 0 and rng.random() < .7 else None; up = array([0., 1., 0.])
    if g: ctx.cls('gravity')
    T, N = .03, 12; P0, L0 = tree.momentum(); f = lambda t: t.kinetic() - (t.potential(g, up) if g else 0.); E0 = f(tree)
    m = sum(l.cloud.mass for l in tree.links if l.cloud is not None); R = []; r = kscale(tree, K); v = 1 + np.abs(tree.v).max()
    for n in (N, 2*N, 4*N):
        b, cs = mk(ctx, rng, tree, loops, g); t = tree.copy(); gap = 0.
        for _ in range(n):
            step(b.world, T/n); sync(t, b); K1 = t.compute(); gap = max(gap, np.abs(loops[0].gap(K1)).max())
            if np.abs(t.v).max() > 20: raise Skip()
        P, L = t.momentum(K1); v = max(v, 1 + np.abs(t.v).max()); R.append((gap, np.hstack((P - P0, L - L0)), f(t) - E0))
    ctx.ok(R[1][0] <= .6*R[0][0] + 1e-8 and R[2][0] <= .6*R[1][0] + 1e-8, 'gap-vanishes-with-dt', 'gaps %s' % [x[0] for x in R])
    ex = lambda k: (4*(2*R[2][k] - R[1][k]) - (2*R[1][k] - R[0][k]))/3
    if base:
        ctx.close(ex(1), zeros(6), 'momentum', 'momentum drift extrapolated to zero step', 1e-6, m*v*r*r)
        ctx.ok(np.abs(R[2][1]).max() <= .7*np.abs(R[0][1]).max() + 1e-5*m*v*r*r, 'momentum', 'momentum drift does not vanish: %s' % [np.abs(x[1]).max() for x in R])
    ctx.close(ex(2), 0., 'energy', 'energy drift extrapolated to zero step', 1e-6, m*(v*v*r*r + abs(g or 0)*r))
    ctx.ok(abs(R[2][2]) <= .7*abs(R[0][2]) + 1e-5*m*(v*v*r*r + abs(g or 0)*r), 'energy', 'energy drift does not vanish: %s' % [x[2] for x in R])

def pendulum(ctx, rng, i):
    """A free body held at a point moves as on a spherical joint."""
    cl = rand_cloud(rng); H0 = rand_H(rng); p = rng.normal(size=3)*.4; w0 = rng.normal(size=3); g = rng.uniform(-10, 10)
    tw = np.append(w0, -np.cross(w0, p))     # velocity zero at p
    A = Tree([Link('b', -1, 'FreeJoint', H0, tw, eye(4), eye(4), cl)])
    x = dot(H0, np.append(p, 1.))[:3]; lp = [Loop(-1, x, 0, p)]; ctx.sig(p.tobytes())
    # the same on a RzRyRx joint at the point, started away from its singularity
    R = H0[:3, :3]; ang = [0.]*3
    B = Tree([Link('b', -1, 'RzRyRxJoint', zeros(3), zeros(3), hom(R, x), tra(p), cl)]); KB = B.compute(zeros(3))
    B.links[0].v = np.linalg.solve(dot(Ad(eye(4)), KB['J'][0])[:3], w0)
    if norm(w0) > 3: raise Skip()
    T = .05; out = []
    for tr, lo in ((A, lp), (B, [])):
        X = []
        for n in (10, 20, 40):
            b, cs = mk(ctx, rng, tr, lo, g)
            for _ in range(n): step(b.world, T/n)
            b.world.update_dynamic(); X.append(np.append(b.bodies[0].pose[:3].ravel(), b.bodies[0].twist))
        out.append((4*(2*X[2] - X[1]) - (2*X[1] - X[0]))/3)
    ctx.close(out[0], out[1], 'equivalent-joint', 'free body on a ball and socket against a spherical joint', 2e-6, (1 + np.abs(out[1]).max())**2)

def few_dof(ctx, rng, i):
    """Mechanisms which cannot move the point in every direction (planar linkages, one or two joints)."""
    if i % 2:   # planar
        n = int(rng.integers(2, 5)); R = hom(rand_rot(rng), rng.normal(size=3)); L = []
        for k in range(n):
            q, v = rng.uniform(-2, 2, 1), rng.normal(size=1)
            L.append(Link('l%d' % k, k - 1, 'RzJoint', q, v, R if k == 0 else tra(np.append(rng.normal(size=2)*.4, rng.normal()*.1)), eye(4), rand_cloud(rng)))
        tree = Tree(L); p = np.append(rng.normal(size=2)*.4, 0.)
    else: tree = rand_tree(rng, int(rng.integers(1, 3)), types=LINEAR, p_visc=0., p_massless=0.); p = rng.normal(size=3)*.4
    if not tree.ndof: raise Skip()
    K = tree.compute(); M = well_posed(tree, K, 1e4); j = len(tree.links) - 1; l = Loop(-1, dot(K['H'][j], np.append(p, 1.))[:3], j, p); J = l.jac(K); s = np.linalg.svd(dot(J, np.linalg.solve(M, J.T)))[1]; r = int((s > 1e-9*s[0]).sum()) if s[0] > 1e-9 else 0
    if r == 0 or r > 2 or s[r - 1] < 1e-3*s[0]: raise Skip()
    ctx.cls('rank-%d' % r); ctx.sig(i % 2, r, p.tobytes()); g = rng.uniform(-10, 10) if rng.random() < .6 else None; b, cs = mk(ctx, rng, tree, [l], g); w = b.world; dt = 10.**rng.uniform(-3.5, -2)
    step(w, dt); t = tree.copy(); sync(t, b); v1 = t.v; ctx.ok(np.isfinite(v1).all(), 'predicted-closure', 'velocities %s' % v1)
    ctx.close(dot(J, v1), zeros(3), 'predicted-closure', 'velocity of the closed point', 1e-6, (1 + np.abs(tree.v).max() + dt*10)*kscale(tree, K))

def far(ctx, rng, i):
    """Bodies which only translate: the point closes exactly in one step, however far, with any step."""
    n = int(rng.integers(1, 4)); L = []
    for k in range(n):
        jt = str(rng.choice(['TxTyTzJoint', 'TxJoint', 'TyJoint', 'TzJoint'])) if k else 'TxTyTzJoint'; p = int(rng.integers(-1, k)) if k else -1
        L.append(Link('t%d' % k, p, jt, rand_q(rng, jt), rng.normal(size=jndof(jt)), rand_H(rng), rand_H(rng), rand_cloud(rng)))
    tree = Tree(L); well_posed(tree, cond=1e4); K = tree.compute(); j = int(rng.integers(n)); i_ = int(rng.integers(-1, n)); anc = lambda k: set(tree.ancestors(k)) if k >= 0 else set()
    if i_ == j: i_ = -1
    r = rng.normal(size=3)*.4; gap = rand_unit(rng)*10.**rng.uniform(-6, 3); x = dot(K['H'][j], np.append(r, 1.))[:3] + gap; p = dot(hinv(K['H'][i_]), np.append(x, 1.))[:3]; l = Loop(i_, p, j, r)
    if rng.random() < .5: l = Loop(j, r, i_, p)
    J = l.jac(K); M = tree.dynamics(K)['M']; e = np.linalg.eigvalsh(dot(J, np.linalg.solve(M, J.T)))
    if not e[0] > e[-1]*1e-3: raise Skip()
    g = rng.uniform(-10, 10) if rng.random() < .5 else None; dt = 10.**rng.uniform(-4, 0); b, cs = mk(ctx, rng, tree, [l], g); t = tree.copy(); ctx.cls('far' if norm(gap) > 1. else 'near'); ctx.sig('far', sig_tree(tree), gap.tobytes()); ctx.note(gap=gap, dt=dt)
    for s in range(3): step(b.world, dt); sync(t, b); ctx.close(l.gap(t.compute()), zeros(3), 'predicted-closure', 'gap after %d steps of %g' % (s + 1, dt), 1e-9, norm(gap) + dt + kscale(tree, K))

MULT = 2
FAMILIES = [('online', online, 110, 5000), ('limit', conv, 28, 1500), ('pendulum', pendulum, 10, 500), ('far', lambda c, r, i: c.retry(lambda: far(c, r, i)), 60, 2000), ('few-dof', lambda c, r, i: c.retry(lambda: few_dof(c, r, i)), 60, 2000)]
