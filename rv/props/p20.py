"""P20: joint limits."""
from rv.mech import *
import arboris.controllers as ctl, arboris.constraints as cst

RULE = 'random mechanisms with limits on linear joints of 1 to 3 coordinates, random pushes toward one or several limits, starts inside, at and outside the limits, and long pushed runs; distinct by mechanism, limits and pushes'
MONITORS = ['stays-inside', 'complementarity', 'sign', 'own-dofs', 'inactive', 'not-held', 'brought-back', 'exact-single', 'refused', 'default-proximity', 'own-distance']
CLASSES = ['multi-dof', 'several-joints', 'lower', 'upper', 'both-at-once', 'outside', 'one-sided', 'leaving', 'inactive-far', 'locked', 'custom-proximity', 'own-distance']

class Push(core.Controller):
    def __init__(self, f): core.Controller.__init__(self); self.f = f
    def init(self, world): self.n = world.ndof
    def update(self, dt): return (np.array(self.f), zeros((self.n, self.n)))

def gen(ctx, rng, lo=1, hi=4):
    def f():
        t = gen_tree(ctx, rng, lo, hi, p_massless=.05, p_visc=.2, vscale=.6, types=LINEAR, base='FreeJoint' if rng.random() < .15 else None)
        well_posed(t, cond=2e3)
        if not any(l.jt in LINEAR for l in t.links): raise Skip()
        return t
    return ctx.retry(f)

def limits(ctx, rng, tree, n=None):
    lin = [k for k, l in enumerate(tree.links) if l.jt in LINEAR]; rng.shuffle(lin); L = []
    for k in lin[:n or int(rng.integers(1, 4))]:
        q = tree.links[k].q; lo, hi, px = [], [], []
        prox = None if rng.random() < .6 else rng.uniform(.002, .05, len(q)) if rng.random() < .5 else 10.**rng.uniform(-5, 1, len(q))
        for c in range(len(q)):
            u = rng.random(); w_ = rng.uniform(.02, 1.); p = .01 if prox is None else prox[c]
            if u < .3: a = q[c] - rng.uniform(0, p*.9); b = a + w_; ctx.cls('lower')                    # next to the lower limit
            elif u < .6: b = q[c] + rng.uniform(0, p*.9); a = b - w_; ctx.cls('upper')
            elif u < .7: a = q[c] + rng.uniform(0, .3); b = a + w_; ctx.cls('outside')
            elif u < .8: b = q[c] - rng.uniform(0, .3); a = b - w_; ctx.cls('outside')
            elif u < .9: a, b = q[c] - 5, q[c] + 5; ctx.cls('inactive-far')
            elif u < .95: a, b = (-np.inf, q[c] + p/2) if rng.random() < .5 else (q[c] - p/2, np.inf); ctx.cls('one-sided')
            else: a = b = q[c] + rng.uniform(-1, 1)*p*.5; ctx.cls('locked')
            lo.append(a); hi.append(b); px.append(p)
        if len(q) > 1: ctx.cls('multi-dof')
        if prox is not None: ctx.cls('custom-proximity')
        L.append((k, array(lo), array(hi), prox, array(px)))
    if len(L) > 1: ctx.cls('several-joints')
    return L

def mk(rng, tree, L, push, order=None):
    b = build(tree, order=order); w = b.world; cs = []
    for (k, lo, hi, prox, px) in L:
        c = cst.JointLimits(b.joints[k], lo, hi, prox if k % 2 else list(prox), 'limit %d' % k) if prox is not None else cst.JointLimits(b.joints[k], list(lo), tuple(hi)) if rng.random() < .5 else cst.JointLimits(b.joints[k], *[(lambda L: L[int(rng.integers(len(L)))][1])(forms(rng, x)) for x in (lo, hi)])
        cs.append(c)
        w.register(c)
    if push is not None:
        f = zeros(tree.ndof)
        for k in tree.order: f[b.joints[k].dof] = push[tree.dof[k]]
        w.register(Push(f))
    w.init(); return b, cs

def one_step(ctx, tree, b, cs, L, dt, first=False):
    w = b.world; w.update_dynamic(); w.update_controllers(dt); g0 = w.gforce; q0 = {k: b.joints[k].gpos.copy() for k, *_ in L}
    Y = w.admittance; free = dot(Y, dot(np.array(w.mass), w.gvel/dt) + g0)
    w.update_constraints(dt); f = w.gforce - g0; sf = 1 + np.abs(g0).max()
    own = np.zeros(w.ndof, bool)
    for (k, *_), c in zip(L, cs): own[b.joints[k].dof] = True
    if (~own).any(): ctx.close(f[~own], zeros((~own).sum()), 'own-dofs', 'force on other coordinates', 1e-9, sf + np.abs(f).max())
    w.integrate(dt); v1 = w.gvel
    if not np.isfinite(v1).all() or np.abs(v1).max() > 1e3: raise Skip()
    # the relaxation stops when an iteration moves velocities by less than 1e-4: what remains depends on its rate
    A = Y[np.ix_(own, own)]; rate = np.abs(np.linalg.eigvals(np.linalg.solve(np.tril(A), np.triu(A, 1)))).max()
    if rate > .98: raise Skip()
    TOL = 1e-3 + 1e-3/(1 - rate)
    vs = 1 + np.abs(v1).max(); slack = TOL*dt*vs
    act = []
    for (k, lo, hi, prox, px), c in zip(L, cs):
        j = b.joints[k]; q, q1, fj = q0[k], j.gpos, f[j.dof]
        near = (q - lo < px) | (hi - q < px); clear = ((q - lo > px + 1e-9) & (hi - q > px + 1e-9)).all()
        if clear: ctx.close(fj, zeros(len(q)), 'inactive', 'force of limits out of reach', 1e-9, sf + np.abs(f).max()); continue
        if not near.any(): continue
        for i in range(len(q)):
            ctx.ok(lo[i] - slack <= q1[i] <= hi[i] + slack, 'brought-back' if not lo[i] <= q[i] <= hi[i] else 'stays-inside', 'coordinate %d of %s: %.9g -> %.9g outside [%g, %g] (slack %g)' % (i, j.name, q[i], q1[i], lo[i], hi[i], slack))
            # force needed to move the coordinate by the slack
            ftol = (1e-9*sf + TOL*vs/max(abs(Y[j.dof, j.dof][i, i]), 1e-12))*1.
            if abs(fj[i]) > ftol:
                d = q1[i] - lo[i] if fj[i] > 0 else hi[i] - q1[i]
                ctx.ok(abs(d) <= slack, 'complementarity', 'force %g on coordinate %d of %s, %g away from its limit' % (fj[i], i, j.name, d))
                act.append((k, i, np.sign(fj[i])))
                if lo[i] < hi[i]: ctx.ok((abs(q1[i] - lo[i]) <= slack and fj[i] >= 0) or (abs(hi[i] - q1[i]) <= slack and fj[i] <= 0), 'sign', 'force %g at %g in [%g, %g]' % (fj[i], q1[i], lo[i], hi[i]))
            elif lo[i] + slack < q1[i] < hi[i] - slack:
                ctx.close(fj[i], 0., 'complementarity', 'force strictly inside the limits', 1e-9 if len(L) == 1 and len(q) == 1 else 1., sf*1e-3 + ftol); ctx.cls('leaving')
    if len(set(k for k, *_ in act)) > 1 or len(act) > 1: ctx.cls('both-at-once')
    # nothing to do: no force at all
    if all((q0[k] + dt*free[b.joints[k].dof] > lo).all() and (q0[k] + dt*free[b.joints[k].dof] < hi).all() for k, lo, hi, *_ in L):
        ctx.close(f, zeros(w.ndof), 'not-held', 'force although the free motion respects all limits', 1e-12, sf)
    return act

def single(ctx, rng, i):
    tree = gen(ctx, rng); L = limits(ctx, rng, tree); dt = 10.**rng.uniform(-3.5, -1.7)
    push = rng.normal(size=tree.ndof)*10.**rng.uniform(-1, 2)
    ctx.note(dt=dt, limits=[(k, lo, hi) for k, lo, hi, *_ in L]); ctx.sig([lo.round(8).tobytes() for _, lo, *_ in L])
    b, cs = mk(rng, tree, L, push, topo_order(rng, tree)); one_step(ctx, tree, b, cs, L, dt)
    if len(L) == 1 and len(L[0][1]) == 1:
        # a single coordinate: the step is known in closed form
        k, lo, hi, prox, px = L[0]; b2 = build(tree, order=None); w2 = b2.world
        f = zeros(tree.ndof)
        for q in tree.order: f[b2.joints[q].dof] = push[tree.dof[q]]
        w2.register(Push(f)); w2.init(); w2.update_dynamic(); w2.update_controllers(dt); Y = w2.admittance; fr = dot(Y, dot(np.array(w2.mass), w2.gvel/dt) + w2.gforce); d = b2.joints[k].dof
        q0 = tree.links[k].q; act = (q0 - lo < px) | (hi - q0 < px); e = q0 + dt*fr[d]
        if act.any(): e = np.clip(e, lo, hi)
        ctx.close(b.joints[k].gpos, e, 'exact-single', 'coordinate at the end of the step', 1e-9)
        dv = (e - q0)/dt - fr[d]; v = fr + Y[:, d.start]*dv/Y[d.start, d.start]
        ctx.close(cols(tree, b, b.world.gvel), cols(tree, b2, v), 'exact-single', 'velocities at the end of the step', 1e-8, 1 + np.abs(v).max())

def run(ctx, rng, i):
    """Long run with pushes that change direction: once reached, a limit is never left outward."""
    tree = gen(ctx, rng, 1, 3); L = []
    for k in [k for k, l in enumerate(tree.links) if l.jt in LINEAR]:
        q = tree.links[k].q; n = len(q); L.append((k, q - rng.uniform(.005, .1, n), q + rng.uniform(.005, .1, n), zeros(n) + .05, zeros(n) + .05))
    push = rng.normal(size=tree.ndof)*10.**rng.uniform(-.5, 1.5); b, cs = mk(rng, tree, L, push); w = b.world; dt = 10.**rng.uniform(-3, -2); n = 0
    p = w.getcontrollers()[0]; ctx.sig(push.round(6).tobytes())
    for s in range(20):
        if s % 7 == 6: p.f = -p.f*rng.uniform(.3, 1.5)
        if np.abs(w.gvel).max()*dt > .04 if w.ndof else False: return
        n += len(one_step(ctx, tree, b, cs, L, dt))
    ctx.note(limit_forces=n)

def reach(ctx, rng, i):
    """Each coordinate has its own activation distance: a fast one which is within its own is stopped."""
    def one():
        tree = gen(ctx, rng, 1, 3); k = [k for k, l in enumerate(tree.links) if l.jt in LINEAR]; k = max(k, key=lambda k: jndof(tree.links[k].jt)); n = jndof(tree.links[k].jt)
        if n < 2: raise Skip()
        q = tree.links[k].q; px = 10.**rng.uniform(-3, -1, n); c = int(rng.integers(n)); px[c] = rng.uniform(.2, .5); s = rng.choice([-1, 1]); gap = px[c]*rng.uniform(.3, .9); lo, hi = q - 3., q + 3.
        if s > 0: hi[c] = q[c] + gap
        else: lo[c] = q[c] - gap
        dt = .01; tree.links[k].v = tree.links[k].v*.1; tree.links[k].v[c] = s*gap/dt*rng.uniform(1.2, 3.); ctx.cls('own-distance')
        b = build(tree); w = b.world; lim = cst.JointLimits(b.joints[k], lo, hi, px); w.register(lim); w.init(); w.update_dynamic(); w.update_controllers(dt); Y = w.admittance; free = dot(Y, dot(np.array(w.mass), w.gvel/dt))[b.joints[k].dof]; u = w.gvel.copy()
        e = q + dt*free
        if not s*(e[c] - q[c]) > gap*1.05: raise Skip()
        # with large turns per step the admittance need not be positive, and the relaxation need not converge
        A = Y[b.joints[k].dof, b.joints[k].dof]; eg = np.linalg.eigvalsh(A + A.T)
        if eg[0] < eg[-1]*1e-4 or np.abs(np.linalg.eigvals(np.linalg.solve(np.tril(A), np.triu(A, 1)))).max() > .9: raise Skip()
        w.update_constraints(dt); w.integrate(dt); x = b.joints[k].gpos
        ctx.ok(lo[c] - 2e-3*gap <= x[c] <= hi[c] + 2e-3*gap, 'own-distance', 'coordinate %d: %g -> %g, limits [%g, %g], activation at %s' % (c, q[c], x[c], lo[c], hi[c], px))
    ctx.retry(one)

def misc(ctx, rng, i):
    j = joints.FreeJoint(); ctx.raises(ValueError, lambda: cst.JointLimits(j, zeros(6), ones(6)), 'refused', 'limits of a free joint')
    ctx.raises(ValueError, lambda: cst.JointLimits(joints.FixedJoint(), zeros(0), ones(0)), 'refused', 'limits of a fixed joint')
    # default activation distance
    for q, exp in ((.0099, True), (.0101, False)):
        for s in (1, -1):
            w = core.World(); jt = joints.TxJoint(gpos=[-s*q], gvel=[s*10.]); w.add_link(w.ground, jt, core.Body(mass=eye(6))); c = cst.JointLimits(jt, [-9. if s > 0 else 0.], [0. if s > 0 else 9.]); w.register(c); w.init(); step(w, .01)
            ctx.close(jt.gpos, [0.] if exp else [-s*q + s*.1], 'default-proximity', 'default activation distance', 1e-9)

FAMILIES = [('step', single, 260, 9000), ('run', run, 40, 1500), ('reach', reach, 40, 1000), ('misc', misc, 1, 1)]
