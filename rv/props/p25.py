"""P25: simultaneous solving, inactive and disabled constraints."""
from rv.mech import *
from rv.props.p19 import Loop
from rv.props.p20 import Push
import arboris.controllers as ctl, arboris.constraints as cst, arboris.shapes as shp

RULE = 'mechanisms carrying ball-and-socket, joint-limit and contact constraints at once, stepped with random pushes, enable and disable schedules and registration orders; distinct by mechanism, constraint set and state'
MONITORS = ['ball-closed', 'limit-kept', 'limit-force', 'contact-gap', 'contact-force', 'contact-slip', 'force-once', 'velocity-from-force', 'absent', 'order', 'enable-acts', 'is-enabled', 'disabled-not-touched', 'converged', 'iterations']
CLASSES = ['ball+limit', 'ball+contact', 'limit+contact', 'three-kinds', 'four-or-more', 'coupled', 'disabled', 'reenabled', 'inactive-present', 'reordered', 'floating', 'all-disabled', 'disabled-at-start', 'disabled-at-init', 'slow', 'very-slow', 'few-iterations', 'tighter', 'looser']
ASSUMPTIONS = ['the relaxation converges linearly: cases whose linear rate is above 0.9 are left out', 'the residual allowed is the documented stopping tolerance divided by one minus the rate']

class Law(object):
    """Reference description of one constraint."""
    def __init__(self, kind, **k): self.kind = kind; self.__dict__.update(k)
    def jac(self, t, K):
        if self.kind == 'ball': return self.loop.jac(K)
        if self.kind == 'limit': J = zeros((len(self.lo), t.ndof)); J[:, t.dof[self.k]] = eye(len(self.lo)); return J
        J6 = K['J'][self.k]; R = K['H'][self.k][:3, :3]; Jp = dot(R, J6[3:]) + dot(skew(self.n*(self.rad + self.offset(t, K))), dot(R, J6[:3])); B = np.vstack([self.t, self.u, self.n])
        return np.vstack([dot(self.n, dot(R, J6[:3]))[None], dot(B, Jp)])
    def offset(self, t, K):
        if self.kind == 'ball': return self.loop.gap(K)
        if self.kind == 'limit': return np.array(t.links[self.k].q)
        return dot(self.n, K['H'][self.k][:3, 3]) - self.rad - self.off
    def active(self, t, K, dt):
        if self.kind == 'ball': return True
        o = self.offset(t, K)
        if self.kind == 'limit':
            if min(np.abs(o - self.lo - .01).min(), np.abs(self.hi - o - .01).min()) < 1e-9: raise Skip()
            return bool((o - self.lo < .01).any() or (self.hi - o < .01).any())
        p = o + dt*dot(self.jac(t, K)[3], t.v)
        if abs(p - .02) < 1e-9: raise Skip()
        return p < .02

def make(rng, b, l):
    if l.kind == 'ball':
        return cst.BallAndSocketConstraint(frames=tuple(core.SubFrame(b.bodies[k], tra(p)) for k, p in ((l.loop.i, l.loop.p), (l.loop.j, l.loop.r))), name=l.name)
    if l.kind == 'limit': return cst.JointLimits(b.joints[l.k], l.lo, l.hi, name=l.name)
    return cst.SoftFingerContact((shp.Plane(b.world.ground, np.append(l.n, l.off)), shp.Sphere(b.bodies[l.k], l.rad)), l.mu, name=l.name)

def gen(ctx, rng): return ctx.retry(lambda: gen1(ctx, rng), 60)
def gen1(ctx, rng):
    base = 'FreeJoint' if rng.random() < .4 else None; t = gen_tree(ctx, rng, 3, 8, types=LINEAR, base=base, p_massless=.0, p_visc=.1, vscale=.4, branch=.5); K = t.compute(); well_posed(t, K, 1e4); L = []
    lin = [k for k, l in enumerate(t.links) if l.jt in LINEAR]; rng.shuffle(lin)
    for c in range(int(rng.choice([0, 1, 1, 2]))):
        j = int(rng.integers(len(t.links))); i = int(rng.integers(-1, len(t.links)))
        if i == j: continue
        r = rng.normal(size=3)*.4; x = dot(K['H'][j], np.append(r, 1.))[:3] + rand_unit(rng)*rng.choice([0, 1e-3]); L.append(Law('ball', loop=Loop(i, dot(hinv(K['H'][i]), np.append(x, 1.))[:3], j, r)))
    for k in lin[:int(rng.choice([0, 1, 1, 2]))]:
        q = t.links[k].q; n = len(q); s = rng.random(n) < .5; d = rng.uniform(-.002, .009, n); far = rng.random(n) < .2; d[far] += 3.; L.append(Law('limit', k=k, lo=np.where(s, q - d, q - 5), hi=np.where(s, q + 5, q + d)))
    cb = list(rng.permutation(len(t.links)))[:int(rng.choice([0, 1, 2]))]
    for k in cb:
        n = rand_unit(rng); tt = np.cross(n, rand_unit(rng)); tt /= norm(tt); rad = rng.uniform(.03, .2); far = rng.random() < .15; L.append(Law('contact', k=int(k), n=n, t=tt, u=np.cross(n, tt), rad=rad, mu=rng.uniform(.1, 1.), off=dot(n, K['H'][k][:3, 3]) - rad - rng.uniform(-.002, .002) - 3*far))
    if len(L) < 2: raise Skip()
    for c, l in enumerate(L): l.name = 'c%d' % c
    dt = 10.**rng.uniform(-3, -2); rate(t, K, [l for l in L if l.active(t, K, dt)], raise_=.6)
    kinds = set(l.kind for l in L)
    for a, b in (('ball', 'limit'), ('ball', 'contact'), ('limit', 'contact')):
        if a in kinds and b in kinds: ctx.cls(a + '+' + b)
    if len(kinds) == 3: ctx.cls('three-kinds')
    if len(L) > 3: ctx.cls('four-or-more')
    if base: ctx.cls('floating')
    push = rng.normal(size=t.ndof)*10.**rng.uniform(-1, 1.3)
    ctx.note(kinds=[l.kind for l in L], dt=dt); ctx.sig([l.kind for l in L], push.tobytes()); return t, L, dt, push

def rate(t, K, L, raise_=.9):
    """Linear rate of the block relaxation, from the reference model."""
    if len(L) < 1: return 0.
    J = np.vstack([l.jac(t, K) for l in L]); D = t.dynamics(K); Y = dot(J, np.linalg.solve(D['M'], J.T)); e = np.linalg.eigvalsh(Y)
    low = zeros(Y.shape); k = 0; r = []
    for l in L:
        n = l.jac(t, K).shape[0]; r.append((slice(k, k + n), l.kind == 'limit')); k += n
    for s, lim in r: low[s, :s.stop] = Y[s, :s.stop]
    for s, lim in r:
        if lim: low[s, s] = np.tril(Y[s, s])
        ee = np.linalg.eigvalsh(Y[s, s])
        if ee[0] < ee[-1]*1e-4: raise Skip()      # a constraint which is singular by itself
    R = np.abs(np.linalg.eigvals(np.linalg.solve(low, Y - low))).max()
    if R > raise_ or e[0] < 1e-4*e[-1]: raise Skip()
    return R

def world(rng, t, L, push, names=None, order=None, hook=None):
    b = build(t); w = b.world; cs = {}
    for l in (L if order is None else [L[k] for k in order]):
        if names is None or l.name in names: cs[l.name] = make(rng, b, l); w.register(cs[l.name])
    f = zeros(t.ndof)
    for k in t.order: f[b.joints[k].dof] = push[t.dof[k]]
    w.register(Push(f)); w.init(); return b, cs

def checked_step(ctx, t, b, cs, L, dt):
    """One step; evaluates every law at the velocity of the end of the step."""
    w = b.world; sync(t, b); K = t.compute(); on = [l for l in L if l.name in cs and cs[l.name].is_enabled()]; act = [l for l in on if l.active(t, K, dt)]; R = rate(t, K, act)
    if len(act) > 1: ctx.cls('coupled')
    if len(act) < len(on): ctx.cls('inactive-present')
    w.update_dynamic(); w.update_controllers(dt); before = w.gforce.copy(); Y = np.array(w.admittance); M = np.array(w.mass); v0 = w.gvel.copy(); w.update_constraints(dt); after = w.gforce.copy(); tot = cols(t, b, after - before); Yt = both(t, b, Y)
    G = {l.name: cols(t, b, np.array(cs[l.name].gforce)) for l in act}; S = 1 + np.abs(tot).max() + sum(np.abs(g).max() for g in G.values()) + np.abs(before).max()
    ctx.close(tot, sum(G.values()) if G else zeros(t.ndof), 'force-once', 'constraint forces in the world force', 1e-10, S)
    w.integrate(dt); ctx.close(w.gvel, dot(Y, dot(M, v0/dt) + after), 'velocity-from-force', 'velocity of the end of the step', 1e-10, S*(1 + np.abs(Y).max()) + np.abs(v0).max()/dt*0 + np.abs(w.gvel).max())
    v1 = cols(t, b, w.gvel); vs = 1 + np.abs(v1).max()
    if not np.isfinite(v1).all() or np.abs(v1).max() > 100: raise Skip()
    TOL = (1e-3 + 1e-3/(1 - R))*vs
    for l in act:
        J = l.jac(t, K); o = l.offset(t, K); g = G[l.name]; F = np.linalg.lstsq(J.T, g, rcond=None)[0]; Yc = dot(J, dot(Yt, J.T)); ftol = 1e-8*S + TOL/np.linalg.eigvalsh((Yc + Yc.T)/2)[0]*2; vc = dot(J, v1)
        if l.kind == 'ball':
            lim = TOL + 2*np.abs(v1).max()*norm(o)*len(t.links); ctx.ok(np.abs(o/dt + vc).max() <= lim, 'ball-closed', 'ball-and-socket of %d constraints: residual velocity %g, allowed %g' % (len(act), np.abs(o/dt + vc).max(), lim), name=l.name)
        elif l.kind == 'limit':
            q1 = o + dt*vc; ctx.ok((q1 >= l.lo - dt*TOL).all() and (q1 <= l.hi + dt*TOL).all(), 'limit-kept', 'limits of %d constraints: %s outside [%s, %s]' % (len(act), q1, l.lo, l.hi), name=l.name)
            for i in range(len(o)):
                if F[i] > ftol: ctx.ok(q1[i] - l.lo[i] <= dt*TOL, 'limit-force', 'upward force %g, %g away from the lower limit' % (F[i], q1[i] - l.lo[i]))
                elif F[i] < -ftol: ctx.ok(l.hi[i] - q1[i] <= dt*TOL, 'limit-force', 'downward force %g, %g away from the upper limit' % (F[i], l.hi[i] - q1[i]))
                else: ctx.hit('limit-force')
        else:
            lim = TOL*dt; gp = o + dt*vc[3]; ctx.ok(gp >= -lim, 'contact-gap', 'contact of %d constraints: predicted gap %g' % (len(act), gp))
            ctx.ok(F[3] >= -1e-8*S, 'contact-force', 'pulling contact %g' % F[3]); ctx.ok(norm(F[:3]) <= l.mu*F[3]*(1 + 1e-4) + 1e-6*S, 'contact-force', 'friction %g, normal %g' % (norm(F[:3]), F[3]))
            if F[3] > ftol: ctx.ok(gp <= lim, 'contact-force', 'normal force %g at a predicted gap of %g' % (F[3], gp))
            if norm(F[:3]) < l.mu*F[3]*.999 - 1e-6*S - ftol*0: ctx.ok(norm(vc[:3]) <= 2*TOL, 'contact-slip', 'slip %g under the friction bound' % norm(vc[:3]))
            else: ctx.hit('contact-slip')
    return v1, TOL, act, R

def simultaneous(ctx, rng, i):
    t, L, dt, push = gen(ctx, rng); b, cs = world(rng, t, L, push); t0 = t.copy(); t1 = t.copy(); first = None; bad = False
    for s in range(4):
        try: v1, TOL, act, R = checked_step(ctx, t1, b, cs, L, dt)
        except Skip:
            if s == 0: raise
            break
        if s == 0: first = v1, TOL, len(act)
        if np.abs(v1).max()*dt > .05: break
    # registration order: ball and limits have one solution only, friction may not
    o = list(rng.permutation(len(L)))
    if first and o != sorted(o) and not any(l.kind == 'contact' for l in L):
        b2, _ = world(rng, t0, L, push, order=o); step(b2.world, dt); ctx.cls('reordered'); K = t0.compute(); A = [l for l in L if l.active(t0, K, dt)]; J = np.vstack([l.jac(t0, K) for l in A] or [eye(t0.ndof)]); e = np.linalg.eigvalsh(dot(J, np.linalg.solve(t0.dynamics(K)['M'], J.T)))
        if e[0] > 1e-4*e[-1]: ctx.close(cols(t0, b2, b2.world.gvel), first[0], 'order', 'registration order of the constraints', 2*first[1]*(e[-1]/e[0]), 1 + np.abs(first[0]).max())

def toggles(ctx, rng, i):
    """A constraint that is disabled is as if it were not there, whatever its history."""
    t, L, dt, push = gen(ctx, rng); off = [l.name for l in L if rng.random() < .5] or [L[0].name]; t1, t2 = t.copy(), t.copy()
    if rng.random() < .2: off = [l.name for l in L]; ctx.cls('all-disabled')
    b, cs = world(rng, t, L, push); ctx.cls('disabled-at-start')
    for n in off: cs[n].disable()
    if rng.random() < .5: b.world.init(); ctx.cls('disabled-at-init')
    ctx.ok(all(cs[l.name].is_enabled() == (l.name not in off) for l in L), 'is-enabled', 'enabled state')
    b2, cs2 = world(rng, t, L, push, [l.name for l in L if l.name not in off]); calls = []
    for n in off:
        for m in ('solve', 'update'):
            def hooked(*a, _o=getattr(cs[n], m), _n=n, **k): calls.append(_n); return _o(*a, **k)
            setattr(cs[n], m, hooked)
    for s in range(3):
        step(b.world, dt); step(b2.world, dt); ctx.cls('disabled')
        if not np.abs(b.world.gvel).max() < 1e3: raise Skip()
        ctx.close(b.world.gvel, b2.world.gvel, 'absent', 'motion with disabled constraints and without them, step %d' % s, 1e-12, 1 + np.abs(b2.world.gvel).max())
        for k in b.joints: ctx.close(np.array(b.joints[k].gpos, float), np.array(b2.joints[k].gpos, float), 'absent', 'positions with disabled constraints and without them', 1e-12) if t.links[k].jt != 'FixedJoint' else None
    ctx.ok(not calls, 'disabled-not-touched', 'disabled constraints are solved')
    # enabled: the laws hold from the next step
    for n in off: cs[n].enable(); ctx.ok(cs[n].is_enabled(), 'is-enabled', 'enable')
    ctx.cls('reenabled')
    for s in range(2):
        try: _, _, act, _ = checked_step(ctx, t1, b, cs, L, dt)
        except Skip: return
        for l in act:
            if l.name in off: ctx.ok(l.name in calls, 'enable-acts', 'enabled constraint is not solved')
    # and disabled again: a single step against a fresh world in the same state
    for n in off: cs[n].disable()
    sync(t2, b); b3, _ = world(rng, t2, L, push, [l.name for l in L if l.name not in off]); ball = any(l.kind == 'ball' and l.name not in off for l in L); K = t2.compute()
    act = [l for l in L if l.name not in off and l.active(t2, K, dt)]; R = rate(t2, K, act) if act else 0.; calls[:] = []
    before = b.world.current_time; step(b.world, dt); step(b3.world, dt); exact = not ball
    if any(l.kind == 'contact' for l in act) and ball: return
    if act: J = np.vstack([l.jac(t2, K) for l in act]); e = np.linalg.eigvalsh(dot(J, np.linalg.solve(t2.dynamics(K)['M'], J.T))); c = e[-1]/e[0]
    else: c = 1.
    ctx.close(b.world.gvel, b3.world.gvel, 'absent', 'motion after disabling again and without them', 1e-11 if exact else 2*(1e-3 + 1e-3/(1 - R))*c, 1 + np.abs(b3.world.gvel).max()); ctx.ok(not calls, 'disabled-not-touched', 'constraints solved after being disabled again')

def slow1(ctx, rng):
    """Chains stretched against limits: strongly coupled constraints, which the relaxation satisfies in many iterations only."""
    n = int(rng.integers(3, 6)); a = str(rng.choice(['RxJoint', 'RyJoint', 'RzJoint'])); u = eye(3)[(['RxJoint', 'RyJoint', 'RzJoint'].index(a) + 1) % 3]; links = []
    for k in range(n):
        com = u*rng.uniform(.3, .7); pts = [com + s*rng.uniform(.02, .1)*e for e in eye(3) for s in (-1, 1)]; links.append(Link('b%d' % k, k - 1, a, [rng.uniform(-.2, .2)], [rng.uniform(0, 2.)], tra(u*rng.uniform(.5, 1.2)) if k else eye(4), eye(4), Cloud(pts, np.full(6, rng.uniform(.2, 1.)/6))))
    t = Tree(links); K = t.compute(); up = rng.random(n) < .8; side = np.where(up, 1., -1.) if rng.random() < .3 else np.ones(n); gap = rng.uniform(0, 1e-4, n); L = []
    for k, l in enumerate(links): q = l.q; L.append(Law('limit', k=k, lo=q - 1. if side[k] > 0 else q - gap[k], hi=q + gap[k] if side[k] > 0 else q + 1., name='c%d' % k)); l.v *= side[k]
    R = rate(t, K, L, .98)
    if R < .6: raise Skip()
    dt = 10.**rng.uniform(-3, -2); b, cs = world(rng, t, L, zeros(n)); w = b.world; w.update_dynamic(); w.update_controllers(dt); Y = np.array(w.admittance); vf = dot(Y, dot(w.mass, w.gvel)/dt + w.gforce); idx = [b.joints[k].dof.start for k in range(n)]; o = np.array([l.q[0] for l in links]); lo, hi = [np.array([np.ravel(getattr(l, s))[0] for l in L]) for s in ('lo', 'hi')]
    Y, vf = Y[np.ix_(idx, idx)], vf[idx]; f = zeros(n)      # the solution, by the same kind of iteration carried on to the end
    for it in range(6000):
        f0 = f.copy()
        for k in range(n):
            f[k] = 0.; p = o[k] + dt*(vf[k] + dot(Y[k], f)); x = min(max(p, lo[k]), hi[k]); f[k] = (x - p)/(dt*Y[k, k])
        if np.abs(f - f0).max() <= 1e-11*np.abs(f).max(): break
    else: raise Skip()
    if not (np.abs(f) > 0).sum() > 1: raise Skip()
    if it < 30: raise Skip()
    u = rng.random(); tol = 1e-4; n_calls = []; c0 = cs['c0']; orig = c0.solve
    def counted(*a, **k): n_calls.append(1); return orig(*a, **k)
    c0.solve = counted
    if u < .3: mx = int(rng.integers(1, 20)); w.update_constraints(dt, mx) if u < .15 else w.update_constraints(dt, maxiters=mx, tol=1e-9); ctx.ok(1 <= len(n_calls) <= mx, 'iterations', '%d iterations, at most %d asked for' % (len(n_calls), mx)); ctx.cls('few-iterations'); return
    want = vf + dot(Y, f)
    if u < .7: tol = 10.**rng.uniform(-9, -2); w.update_constraints(dt, 100000, tol) if u < .5 else w.update_constraints(dt, tol=tol, maxiters=100000); ctx.cls('tighter' if tol < 1e-4 else 'looser')
    else: w.update_constraints(dt)
    w.integrate(dt); got = w.gvel[idx]; lim = 10*tol/(1 - R) + 1e-9; ctx.cls('slow'); ctx.cls('very-slow' if R > .9 else 'slow'); ctx.sig(n, a, R); ctx.note(rate=R, iterations=it)
    ctx.ok(np.abs(got - want).max() <= lim, 'converged', '%d limits, rate %.3g: joint velocities %g away from the solution, allowed %g' % (n, R, np.abs(got - want).max(), lim))

def slow(ctx, rng, i): ctx.retry(lambda: slow1(ctx, rng), 200)

MULT = 2
FAMILIES = [('simultaneous', simultaneous, 120, 6000), ('toggles', toggles, 80, 4000), ('slow', slow, 40, 1500)]
