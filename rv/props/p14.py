"""P14: proportional-derivative controller."""
from rv.mech import *
from rv import arb; arb.MOVING = .2
import arboris.controllers as ctl

RULE = 'random trees, random subsets and permutations of linear joints of 1 to 3 dof, full gain matrices and targets; distinct by mechanism, selection and gains'
MONITORS = ['law', 'impedance', 'uncontrolled', 'end-of-step', 'defaults', 'refused', 'rebuilt', 'order', 'near-goal', 'kept']
CLASSES = ['iterator', 'stored otherwise', 'mixed sizes', 'permuted', 'rebuilt world', 'near the goal', 'same size', 'integers']

def gen(ctx, rng, cond=None):
    tree = gen_tree(ctx, rng, 2, 7, types=LINEAR + ['FixedJoint'], p_massless=.05)
    lin = [i for i, l in enumerate(tree.links) if l.jt in LINEAR]
    if not lin: raise Skip()
    if cond: well_posed(tree, cond=cond)
    sub = [i for i in lin if rng.random() < .6] or lin
    p = list(rng.permutation(sub)); 
    if p != sorted(p): ctx.cls('permuted')
    if len(set(jndof(tree.links[i].jt) for i in p)) > 1: ctx.cls('mixed sizes')
    ctx.note(controlled=p); ctx.sig(tuple(int(x) for x in p))
    return tree, [int(x) for x in p]

def gains(rng, n):
    return rng.normal(size=(n, n))*10.**rng.uniform(-1, 2), rng.normal(size=(n, n))*10.**rng.uniform(-1, 1), rng.normal(size=n), rng.normal(size=n)

def expected(w, js, kp, kd, qd, vd, dt):
    idx = np.concatenate([np.arange(w.ndof)[j.dof] for j in js]); q = np.concatenate([np.array(j.gpos) for j in js])
    f, Z = zeros(w.ndof), zeros((w.ndof,)*2)
    f[idx] = dot(kp, qd - q) + dot(kd, vd); Z[np.ix_(idx, idx)] = -(dt*kp + kd)
    return f, Z, idx

def compare(ctx, w, c, js, kp, kd, qd, vd, dt, mon='law'):
    f, Z = c.update(dt); rf, rZ, idx = expected(w, js, kp, kd, qd, vd, dt)
    ctx.close(f, rf, mon, 'force', 1e-12, 1 + (np.abs(kp).max() + np.abs(kd).max())*20); ctx.close(Z, rZ, 'impedance' if mon == 'law' else mon, 'impedance', 1e-12)
    other = np.ones(w.ndof, bool); other[idx] = False
    ctx.ok(not np.any(np.asarray(f)[other]) and not np.any(np.asarray(Z)[other]) and not np.any(np.asarray(Z)[:, other]), 'uncontrolled', 'other dofs')

def law(ctx, rng, i):
    tree, p = gen(ctx, rng)
    b = build(tree, order=topo_order(rng, tree)); w = b.world
    js = [b.joints[k] for k in p]; n = sum(j.ndof for j in js)
    kp, kd, qd, vd = gains(rng, n)
    given = [x.copy() for x in (kp, kd, qd, vd)]
    if rng.random() < .3: given = [kp.reshape(-1).tolist(), kd.tolist(), qd.reshape((n, 1)), vd.tolist()]
    elif rng.random() < .3:
        for k, x in enumerate(given): L = forms(rng, x); given[k] = L[int(rng.integers(len(L)))][1]
        ctx.cls('stored otherwise')
    jl = js if rng.random() < .5 else (tuple(js) if rng.random() < .5 else core.JointsList(js))
    if rng.random() < .25: jl = iter(js); ctx.cls('iterator')
    c = ctl.ProportionalDerivativeController(jl, *given)
    w.register(c); w.init(); w.update_dynamic()
    compare(ctx, w, c, js, kp, kd, qd, vd, 10.**rng.uniform(-4, 0))
    # other states, again and again
    for k in range(3):
        for j in js: j.gpos[:] = rng.normal(size=j.ndof); j.gvel[:] = rng.normal(size=j.ndof)
        compare(ctx, w, c, js, kp, kd, qd, vd, 10.**rng.uniform(-4, 0))
    # at the goal, or close to it, for some or all of the coordinates
    for k in range(3):
        near = qd + rng.choice([-1, 1], n)*10.**rng.uniform(-13, -1, n)*(rng.random(n) < .7); far = rng.random() < .5; at = 0; ctx.cls('near the goal')
        for j in js: j.gpos[:] = near[at:at + j.ndof] if not far or rng.random() < .6 else rng.normal(size=j.ndof); at += j.ndof
        compare(ctx, w, c, js, kp, kd, qd, vd, 10.**rng.uniform(-4, 0)); z = zeros(n); c0 = ctl.ProportionalDerivativeController(js, kp, kd, qd, z); c0.init(w)
        d = qd - np.concatenate([np.array(j.gpos) for j in js])
        f, idx = np.asarray(c0.update(.01)[0]), expected(w, js, kp, kd, qd, z, .01)[2]
        e = dot(kp, d); ctx.ok(np.all(np.abs(f[idx] - e) <= 1e-11*dot(np.abs(kp), np.abs(d))), 'near-goal', 'force %s, gains times errors %s' % (f[idx], e), errors=d)
    c.gpos_des = rng.normal(size=n); c.kp = rng.normal(size=(n, n))
    compare(ctx, w, c, js, c.kp, kd, c.gpos_des, vd, .01)
    # order of the joints: same law with everything permuted
    k = rng.permutation(len(js)); pos = np.cumsum([0] + [j.ndof for j in js])
    ix = np.concatenate([np.arange(pos[a], pos[a+1]) for a in k]); c2 = ctl.ProportionalDerivativeController([js[a] for a in k], kp[np.ix_(ix, ix)], kd[np.ix_(ix, ix)], qd[ix], vd[ix])
    c2.init(w); f2, Z2 = c2.update(.02); rf, rZ, _ = expected(w, js, kp, kd, qd, vd, .02)
    ctx.close(f2, rf, 'order', 'force', 1e-12, 1 + (np.abs(kp).max() + np.abs(kd).max())*20); ctx.close(Z2, rZ, 'order', 'impedance', 1e-12)
    # defaults
    for args in ((None, None, None, None), (kp, None, None, None), (None, kd, None, None), (kp, kd, None, None), (kp, kd, qd, None), (kp, kd, None, vd), (None, None, qd, vd)):
        c3 = ctl.ProportionalDerivativeController(js, *args); c3.init(w)
        full = [x if x is not None else zeros((n, n) if a < 2 else n) for a, x in enumerate(args)]
        compare(ctx, w, c3, js, *full, dt=.01, mon='defaults')
    c4 = ctl.ProportionalDerivativeController(js, kp=kp, gvel_des=vd, name='x'); c4.init(w)
    compare(ctx, w, c4, js, kp, zeros((n, n)), zeros(n), vd, .01, 'defaults')
    bad = joints.FreeJoint() if i % 2 else joints.FixedJoint()
    w.add_link(w.ground, bad, core.Body()); w.init()
    ctx.raises(ValueError, lambda: ctl.ProportionalDerivativeController([js[0], bad]), 'refused', 'joint without linear coordinates')

def rebuilt(ctx, rng, i):
    """The world grows after the controller was made: indices move."""
    tree, p = gen(ctx, rng); b = build(tree); w = b.world; ctx.cls('rebuilt world')
    js = [b.joints[k] for k in p]; n = sum(j.ndof for j in js); kp, kd, qd, vd = gains(rng, n)
    c = ctl.ProportionalDerivativeController(js, kp, kd, qd, vd); w.register(c); w.init()
    for k in range(3):
        at = b.bodies[int(rng.integers(-1, len(tree.links)))]
        jt = str(rng.choice(sorted(JOINTS)))
        j = getattr(joints, jt)(); w.add_link(at, j, core.Body(mass=rand_cloud(rng).matrix()))
        if rng.random() < .3:
            old = b.joints[[a for a in range(len(tree.links)) if a not in p][0]] if len(p) < len(tree.links) else None
            if old is not None and old.frame0 is not None: w.replace_joint(old, joints.RzRyRxJoint())
        w.init(); w.update_dynamic()
        compare(ctx, w, c, js, kp, kd, qd, vd, .01, 'rebuilt')

def moved(ctx, rng, i):
    """As many dofs as before, but elsewhere."""
    tree, p = gen(ctx, rng); free = [k for k in range(len(tree.links)) if k not in p and tree.ndof and jndof(tree.links[k].jt)]
    if not free: raise Skip()
    b = build(tree); w = b.world; js = [b.joints[k] for k in p]; n = sum(j.ndof for j in js); kp, kd, qd, vd = gains(rng, n); c = ctl.ProportionalDerivativeController(js, kp, kd, qd, vd); w.register(c); w.init(); N = w.ndof; at = [j.dof.start for j in js]
    for k in range(4):
        o = [j for j in w.iterjoints() if j not in js and j.ndof]
        if not o: break
        old = o[int(rng.integers(len(o)))]; jt = str(rng.choice([t for t in JOINTS if jndof(t) == old.ndof])); bod = list(w.iterbodies())
        w.add_link(bod[int(rng.integers(len(bod)))], getattr(joints, jt)(), core.Body(mass=rand_cloud(rng).matrix())); w.replace_joint(old, joints.FixedJoint())
        if rng.random() < .5: w.init()
        w.update_dynamic();
        ctx.ok(w.ndof == N, 'rebuilt', 'dofs of the world')
        compare(ctx, w, c, js, kp, kd, qd, vd, .01, 'rebuilt')
    if [j.dof.start for j in js] != at: ctx.cls('same size')

def whole(ctx, rng, i):
    """Gains and targets given as integers, then changed in place."""
    tree, p = gen(ctx, rng); b = build(tree); w = b.world; js = [b.joints[k] for k in p]; n = sum(j.ndof for j in js); g = [rng.integers(-5, 6, s) for s in ((n, n), (n, n), (n,), (n,))]
    c = ctl.ProportionalDerivativeController(js, *[x if rng.random() < .5 else x.tolist() for x in g]); w.register(c); w.init(); ctx.cls('integers'); compare(ctx, w, c, js, *g, dt=.01)
    new = gains(rng, n)
    for k, a in enumerate(('kp', 'kd', 'gpos_des', 'gvel_des')):
        if rng.random() < .7: getattr(c, a)[...] = new[k]; g[k] = new[k]
        ctx.close(getattr(c, a), g[k], 'kept', a, 1e-15)
    compare(ctx, w, c, js, *g, dt=.01)

def endstep(ctx, rng, i):
    """Applied force recovered from the motion equals gains times the errors at the end of the step."""
    tree, p = gen(ctx, rng, 1e4); b = build(tree); w = b.world
    js = [b.joints[k] for k in p]; n = sum(j.ndof for j in js)
    A, B_ = rng.normal(size=(n, n)), rng.normal(size=(n, n)); kp, kd = dot(A, A.T)*10.**rng.uniform(-1, 2), dot(B_, B_.T); qd, vd = rng.normal(size=n), rng.normal(size=n)
    w.register(ctl.ProportionalDerivativeController(js, kp, kd, qd, vd)); w.init()
    for k in range(4):
        dt = 10.**rng.uniform(-3.5, -2)
        w.update_dynamic(); M, N, v0 = np.array(w.mass), np.array(w.nleffects) + np.array(w.viscosity), w.gvel
        w.update_controllers(dt); w.update_constraints(dt); w.integrate(dt)
        v1 = w.gvel; idx = expected(w, js, kp, kd, qd, vd, dt)[2]; q1 = np.concatenate([np.array(j.gpos) for j in js])
        f = zeros(w.ndof); f[idx] = dot(kp, qd - q1) + dot(kd, vd - v1[idx])
        lhs = dot(M, v1 - v0)/dt + dot(N, v1)
        ctx.close(lhs, f, 'end-of-step', 'applied force', 1e-8, 1 + np.abs(M).max()*(np.abs(v1).max() + np.abs(v0).max())/dt + (np.abs(kp).max()+np.abs(kd).max())*(3 + np.abs(q1).max() + np.abs(v1).max())*n)

FAMILIES = [('law', law, 70, 2500), ('rebuilt', rebuilt, 40, 1200), ('moved', lambda c, r, i: c.retry(lambda: moved(c, r, i)), 60, 1500), ('integers', whole, 30, 800), ('end-of-step', endstep, 50, 1500)]
