"""P23: soft-finger contact law."""
from rv.mech import *
import arboris.controllers as ctl, arboris.constraints as cst, arboris.shapes as shp

RULE = 'successive solver calls on contacts of random gap with random admittances (random, physical, diagonal, asymmetric, ill conditioned), velocities, steps and friction, plus every call made by simulations with several contacts; distinct by admittance, velocity and previous iterate'
MONITORS = ['separating', 'normal', 'gap', 'cone', 'stick', 'slip-bound', 'slip-opposed', 'stored-force', 'inputs-kept', 'in-simulation', 'few-dof']
CLASSES = ['sep', 'stick', 'slip', 'first-iterate', 'later-iterate', 'frictionless', 'grazing', 'penetrating', 'apart', 'touching', 'asymmetric', 'physical', 'diagonal', 'random', 'pure-torsion', 'release', 'pull-if-stuck', 'rank-1', 'rank-2', 'rank-3', 'cannot-separate', 'any-friction']
ASSUMPTIONS = ['the ellipsoid is the default one (unit normalisation coefficients)', 'within 3e-5 (relative) of the boundary between separating and pressing only the sign of the force and the gap are looked at up to rounding', 'admittances are positive definite up to an antisymmetric part of 1%']

def law(ctx, f, f0, vel, Y, sd, dt, mu, where, gs=1., fm=0.):
    """Contact law evaluated at force f; vel is the velocity with the previous force f0."""
    v0 = vel - dot(Y, f0); free = sd + dt*v0[3]; vs = np.abs(vel).max() + dt**-1*abs(sd) + np.abs(dot(np.abs(Y), np.abs(f0))).max() + 1e-300
    kap = np.linalg.cond(Y); eps = 1e-12*max(kap, 1e2)
    edge = abs(free) <= 3e-5*dt*vs      # neither separating nor pressing: which of several solutions is found depends on rounding
    gtol = 1e-14*(gs + abs(sd))
    if free > 0 and not edge or (edge and np.abs(f).max() <= 1e-13*fm):
        ctx.close(f, zeros(4), 'separating', '%s: force although the bodies separate by themselves' % where, 1e-12, 1 + max(fm, np.abs(f0).max())); ctx.cls('sep')
        return 'sep'
    v = v0 + dot(Y, f); sf = np.abs(f).max() + np.abs(f0).max() + fm; ft = norm(f[:3]); vt = norm(v[:3])
    ftol = eps*sf + vs*1e-9 + gtol/dt/np.linalg.eigvalsh((Y + Y.T)/2)[0]     # the sliding rate is limited to 1e10
    ctx.ok(f[3] >= -ftol, 'normal', '%s: normal force %g' % (where, f[3]), f=f)
    ctx.ok(abs(sd + dt*v[3]) <= gtol + dt*(eps*(vs + np.abs(dot(np.abs(Y), np.abs(f))).max())), 'gap', '%s: predicted gap %g' % (where, sd + dt*v[3]), f=f, v=v)
    if edge: ctx.cls('edge'); return 'edge'
    ctx.ok(ft <= mu*f[3] + 10*(1 + mu)*ftol + 1e-6*mu*abs(f[3]), 'cone', '%s: tangential %g, bound %g' % (where, ft, mu*f[3]), f=f)
    below = ft < mu*f[3]*(1 - 1e-5) - 10*(1 + mu)*ftol
    vtol = gtol/dt*kap + 10*eps*(vs + np.abs(dot(np.abs(Y), np.abs(f))).max())
    if below:
        ctx.ok(vt <= vtol, 'stick', '%s: slips at %g although the friction force %g is below the bound %g' % (where, vt, ft, mu*f[3]), f=f, v=v); ctx.cls('stick')
    if vt > max(vtol, 1e-7*vs):
        ctx.ok(abs(ft - mu*f[3]) <= 10*(1 + mu)*ftol + 1e-5*mu*abs(f[3]), 'slip-bound', '%s: slips with tangential force %g, bound %g' % (where, ft, mu*f[3]), f=f, v=v)
        ctx.ok(norm(v[:3]*ft + f[:3]*vt) <= 1e-4*vt*ft + 10*(1 + mu)*ftol*vt + vtol*ft, 'slip-opposed', '%s: friction does not oppose slip' % where, f=f, v=v); ctx.cls('slip')
        st = np.linalg.solve(Y, -(v0 + array([0, 0, 0, sd/dt])))
        if st[3] < 0 and norm(st[:3]) < -mu*st[3]: ctx.cls('pull-if-stuck')
        return 'slip'
    return 'stick'

def setup(rng, mu, gap):
    """A sphere (or point) at the given gap of a plane, both turned and offset."""
    w = core.World(); b0, b1 = core.Body(mass=eye(6)), core.Body(mass=eye(6))
    H0, H1 = rand_H(rng), hom(rand_rot(rng)); n = rand_unit(rng); o = rng.normal(); r = rng.choice([0., rng.uniform(.05, .5)])
    q = n*(o + gap + r) + np.cross(n, rng.normal(size=3)); H1[:3, 3] = dot(H0, np.append(q, 1.))[:3]
    w.add_link(w.ground, joints.FreeJoint(gpos=H0), b0); w.add_link(w.ground, joints.FreeJoint(gpos=H1), b1)
    s = [shp.Plane(b0, np.append(n, o)), shp.Sphere(b1, r) if r else shp.Point(b1)]
    if rng.random() < .5: s.reverse()
    c = cst.SoftFingerContact(tuple(s), mu); w.register(c); w.init(); w.update_dynamic()
    return w, c

def admittance(ctx, rng):
    u = rng.integers(5); sc = 10.**rng.uniform(-4, 2)
    if u == 0: A = rng.normal(size=(4, 4)); ctx.cls('random'); return (dot(A, A.T) + 1e-2*eye(4))*sc
    if u == 1:
        J = zeros((4, 12)); k = 0; M = zeros((12, 12))
        for s in (-1, 1):
            R, p = rand_rot(rng), rng.normal(size=3)*.4
            J[:, k:k + 6] = s*np.vstack([np.hstack([R[2:3], zeros((1, 3))]), dot(R, np.hstack([-skew(p), eye(3)]))]); M[k:k + 6, k:k + 6] = rand_cloud(rng).matrix(); k += 6
        ctx.cls('physical'); Y = dot(J, np.linalg.solve(M, J.T))*10.**rng.uniform(-4, -1); return (Y + Y.T)/2
    if u == 2: ctx.cls('diagonal'); return np.diag(10.**rng.uniform(-2, 1, 4))*sc
    A = rng.normal(size=(4, 4)); Y = dot(A, A.T) + .1*eye(4)
    if u == 3: ctx.cls('random'); return Y*sc
    N = rng.normal(size=(4, 4))*.01; ctx.cls('asymmetric'); return (Y + (N - N.T)*np.abs(Y).max()*.3)*sc

def friction(ctx, rng):
    u = rng.random()
    if u < .07: return 0 if u < .02 else 0.
    if u < .2: ctx.cls('any-friction'); return int(rng.integers(1, 5)) if u < .11 else 10.**rng.uniform(-3, 2)
    return rng.uniform(.02, 2.)

def direct(ctx, rng, i):
    mu = friction(ctx, rng); gap = 0. if rng.random() < .2 else rng.normal()*.01 if rng.random() < .6 else rng.choice([-1, 1])*10.**rng.uniform(-6, 0); dt = 10.**rng.uniform(-4, -1)
    if mu == 0: ctx.cls('frictionless')
    w, c = setup(rng, mu, gap); J = None; ctx.note(mu=mu, gap=gap, dt=dt); ctx.sig(mu, gap, dt)
    ctx.cls('penetrating' if gap < 0 else 'apart' if gap else 'touching')
    Y = admittance(ctx, rng)
    for rep in range(4):
        c.update(dt); f = zeros(4); fm = 1e-300; J = np.array(c.jacobian)
        # the gap seen by the contact, to rounding
        for k in range(3):
            if rng.random() < .3: Y = admittance(ctx, rng)
            if np.linalg.cond(Y) > 1e5: continue
            vs = 10.**rng.uniform(-3, 1); vel = rng.normal(size=4)*vs
            u = rng.random()
            if u < .15: vel[3] = -gap/dt + dot(Y, f)[3]; vel[3] += rng.choice([0, 0, -1, 1])*vs*10.**rng.uniform(-8, -2); ctx.cls('grazing')
            elif u < .22: vel[3] = dot(Y, f)[3] - gap/dt*rng.uniform(.2, 1.8)      # reaches the other surface in about one step, or does not
            elif u < .25: vel = array([rng.normal(), 0, 0, -abs(rng.normal())])*vs + dot(Y, f); ctx.cls('pure-torsion')
            elif u < .35 and f.any(): vel = vel + dot(Y, f); vel[3] = dot(Y, f)[3] + abs(rng.normal()) + abs(gap)/dt; ctx.cls('release')
            elif u < .5:     # a state which only a pulling force could hold
                g = np.append(rng.normal(size=3)*.2*mu, -1)*rng.uniform(.1, 10); vel = -dot(Y, g - f); vel[3] -= gap/dt; ctx.cls('pull-wanted')
            v_, Y_ = vel.copy(), Y.copy()
            df = np.array(quiet(c.solve, v_, Y_, dt), float)
            ctx.ok((v_ == vel).all() and (Y_ == Y).all(), 'inputs-kept', 'solve modified its arguments')
            ctx.ok(df.shape == (4,) and np.isfinite(df).all(), 'stored-force', 'reported change %r' % (df,))
            f0, f = f, f + df; fm = max(fm, np.abs(f).max()); ctx.cls('first-iterate' if k == 0 else 'later-iterate'); ctx.sig(vel.tobytes())
            law(ctx, f, f0, vel, Y, gap, dt, mu, 'call %d' % k, fm=fm)
            ctx.close(np.array(c.gforce), dot(J.T, f), 'stored-force', 'generalized force held after the call', 1e-9, (1 + np.abs(J).max())*fm)

def could_stick(Y, al, mu):
    """Is there a force of the cone which stops the contact? (random search in the null space)"""
    f0 = -dot(np.linalg.pinv(Y, 1e-10), al); U, sv, V = np.linalg.svd(Y); N = V[sv < 1e-9*sv[0]].T; r = np.random.default_rng(0)
    g = lambda z: norm((f0 + dot(N, z))[:3]) - mu*(f0 + dot(N, z))[3]
    if N.shape[1] == 0: return g(zeros(0)) < 0
    z, h = zeros(N.shape[1]), norm(f0)*10
    for k in range(400):
        c = z + h*r.normal(size=len(z))*10.**r.uniform(-4, 0)
        if g(c) < g(z): z = c
        if g(z) < 0: return True
    return g(z) < 1e-2*norm(f0)

def few_dof(ctx, rng, i):
    """Contacts of mechanisms with less mobility than the contact has directions."""
    mu = friction(ctx, rng); gap = 0. if rng.random() < .7 else rng.normal()*.01; dt = 10.**rng.uniform(-3, -1); w, c = setup(rng, mu, gap); k = int(rng.integers(1, 4))
    J = rng.normal(size=(4, k)); u = rng.random()
    if u < .25: J[rng.integers(0, 3, 2)] = 0.
    elif u < .4: J[3] = 0.; ctx.cls('cannot-separate')
    A = rng.normal(size=(k, k)); Y = dot(J, dot(dot(A, A.T) + .2*eye(k), J.T)); Y = (Y + Y.T)/2*10.**rng.uniform(-3, 1); f = zeros(4); ctx.cls('rank-%d' % k); ctx.sig(mu, gap, dt, Y.tobytes()); c.update(dt); vs = 10.**rng.uniform(-.5, 1); v0 = dot(J, rng.normal(size=k))*vs
    if u >= .25 and u < .4 and rng.random() < .5: v0[3] = 0.
    elif J[3].any() and rng.random() < .3: v0 = v0 - J[:, 0]*(v0[3] + gap/dt)/(J[3, 0] or 1.) - J[:, 0]*vs/(J[3, 0] or 1.)
    for it in range(3):
        vel = v0 + dot(Y, f); df = np.array(quiet(c.solve, vel.copy(), Y.copy(), dt), float); ctx.ok(df.shape == (4,) and np.isfinite(df).all(), 'few-dof', 'reported change %r' % (df,)); f = f + df; v = v0 + dot(Y, f); free = gap + dt*v0[3]; S = np.abs(v0).max() + abs(gap)/dt + 1e-9
        if abs(free) < 1e-5*dt*S: return
        if free > 0 or not J[3].any(): ctx.close(f, zeros(4), 'few-dof', 'force %s' % ('although the bodies separate' if free > 0 else 'which cannot change the normal velocity'), 1e-9, 1 + S/Y.max()); continue
        if Y[3, 3] < 1e-4*np.abs(Y).max(): return
        F = np.abs(f).max() + S/np.abs(Y).max(); al = v0; g = np.linalg.solve(Y + 1e-9*norm(Y)*np.diag([1, 1, 1, 0.]), -al)
        if gap == 0 and norm(g[:3]) > .99*mu*g[3] and could_stick(Y, al, mu): ctx.cls('hidden-stick'); return      # held only by a force which is not the smallest one: several outcomes
        ctx.ok(f[3] >= -1e-8*F, 'few-dof', 'normal force %g' % f[3], f=f)
        if gap: ctx.cls('few-dof-gap'); continue     # closing the gap may require to slip whatever the friction: no solution in general
        ctx.ok(abs(gap + dt*v[3]) <= 1e-6*dt*S*(1 + F*np.abs(Y).max()/S*1e-3) + 1e-13, 'few-dof', 'predicted gap %g' % (gap + dt*v[3]), v=v, f=f)
        ft, vt = norm(f[:3]), norm(v[:3]); ctx.ok(ft <= mu*f[3]*(1 + 1e-4) + 1e-6*F, 'few-dof', 'tangential %g, bound %g' % (ft, mu*f[3]), f=f)
        if vt > 1e-5*S:
            ctx.ok(abs(ft - mu*f[3]) <= 1e-3*mu*f[3] + 1e-6*F, 'few-dof', 'slips at %g with tangential force %g, bound %g' % (vt, ft, mu*f[3]), f=f, v=v)
            if mu: ctx.ok(norm(v[:3]*ft + f[:3]*vt) <= 1e-3*vt*ft + 1e-6*F*vt + 1e-6*S*ft, 'few-dof', 'friction does not oppose slip', f=f, v=v)

class Watch(object):
    """Follows the solver calls of one contact."""
    def __init__(self, ctx, c, mu, gap): self.ctx, self.c, self.mu, self.gap, self.f, self.n = ctx, c, mu, gap, zeros(4), 0; self.orig = c.solve; c.solve = self.solve; self.up = c.update; c.update = self.update
    def update(self, dt): self.f = zeros(4); self.sd = self.gap(); return self.up(dt)
    def solve(self, vel, adm, dt):
        v, Y = np.array(vel), np.array(adm); df = np.array(self.orig(vel, adm, dt)); f0 = self.f; self.f = f0 + df
        if np.linalg.cond(Y) < 1e6:
            self.n += 1; self.ctx.hit('in-simulation'); law(self.ctx, self.f, f0, v, Y, self.sd, dt, self.mu, 'in simulation'); self.ctx.sig(v.tobytes())
        return df

def simulated(ctx, rng, i):
    """Spheres joined in a chain thrown on a turned plane."""
    def gen():
        t = gen_tree(ctx, rng, 1, 3, types=['RzRyRxJoint', 'RzJoint', 'RxJoint', 'RyJoint'], base='FreeJoint', p_massless=0., p_visc=0., vscale=.5)
        well_posed(t, cond=1e4); return t
    tree = ctx.retry(gen); b = build(tree); w = b.world; K = tree.compute(); n = EY + rng.uniform(0, .9)*rand_unit(rng); n = n/norm(n); W = []; rad = []
    low = 1e9
    for k in range(len(tree.links)):
        r = rng.uniform(.05, .2); rad.append(r); low = min(low, dot(n, K['H'][k][:3, 3]) - r)
    pl = shp.Plane(w.ground, np.append(n, low - rng.choice([0., .003])))
    for k in range(len(tree.links)):
        mu = rng.uniform(.05, 1.5); c = cst.SoftFingerContact((pl, shp.Sphere(b.bodies[k], rad[k])), mu); w.register(c)
        W.append(Watch(ctx, c, mu, lambda k=k: dot(n, np.array(b.bodies[k].pose)[:3, 3]) - rad[k] - pl_off))
    pl_off = float(np.array(pl.coeffs)[3])
    w.register(ctl.WeightController()); w.init()
    dt = 10.**rng.uniform(-3, -2)
    for s in range(12):
        step(w, dt)
        if np.abs(w.gvel).max() > 20 or not np.isfinite(w.gvel).all(): break
    ctx.note(solver_calls=[x.n for x in W])

MULT = 2
FAMILIES = [('direct', direct, 700, 60000), ('few-dof', few_dof, 300, 20000), ('simulated', simulated, 40, 2000)]
