"""P13: weight."""
from rv.mech import *
from rv import arb; arb.MOVING = .2
import arboris.controllers as ctl

RULE = 'random trees, gravity in -20..20 (0 included), configurations; distinct by mechanism, configuration and gravity'
MONITORS = ['virtual-work', 'gradient-fd', 'impedance', 'velocity-independent', 'linear', 'massless', 'free-fall', 'default', 'units']

def force(w, c, dt=.01):
    f, Z = c.update(dt); return np.array(f), np.array(Z)

def weight(ctx, rng, i):
    tree = special(ctx, rng, gen_tree(ctx, rng, 1, 9, p_massless=.3, bare=.4))
    if not tree.ndof: raise Skip()
    g = float(rng.choice([0., -9.81, 9.81])) if rng.random() < .3 else rng.uniform(-20, 20) if rng.random() < .7 else int(rng.integers(-20, 20)) if rng.random() < .5 else np.sign(rng.normal())*10.**rng.uniform(-4, 4)
    ctx.note(gravity=g); ctx.sig(g)
    c = ctl.WeightController(gravity=g) if rng.random() < .8 else ctl.WeightController(gravity=g, name='weight')
    known = rng.random() < .5; b = build(tree, early=(lambda w: w.register(c)) if known else None); w = b.world; ctx.close(w.up, [0, 1, 0], 'default', 'up', 1e-15); up = tilt(ctx, rng, w)
    if known: ctx.cls('early')
    else: w.register(c)
    w.init(); w.update_dynamic()
    K = tree.compute(); ctx.close(w.up, up, 'default', 'up', 1e-15)
    f, Z = force(w, c)
    ref_ = zeros(tree.ndof)
    for k, l in enumerate(tree.links):
        if l.cloud is None: continue
        R = K['H'][k][:3, :3]
        for p, m in zip(l.cloud.pts, l.cloud.ms):
            ref_ += m*g*dot(dot(R, K['J'][k][3:] - dot(skew(p), K['J'][k][:3])).T, up)
    m = sum(l.cloud.size for l in tree.links if l.cloud is not None); s = (abs(g) + .1)*(m + .1)*kscale(tree, K)
    ctx.close(cols(tree, b, f), ref_, 'virtual-work', 'generalized force', 1e-10, s)
    ctx.close(Z, zeros((tree.ndof,)*2), 'impedance', 'impedance', 1e-15)
    # minus the gradient of the potential energy (g is signed along up: U = -g*sum(m h))
    for k in range(tree.ndof):
        e = zeros(tree.ndof); e[k] = 1.; U = []
        for sg in (1, -1):
            t = tree.copy()
            for a in t.order: t.links[a].v = e[t.dof[a]]
            U.append(-t.flow(sg*1e-5).potential(g, up))
        ctx.close(f[b.joints[[a for a in tree.order if tree.dof[a].start <= k < tree.dof[a].stop][0]].dof.start + k - [tree.dof[a].start for a in tree.order if tree.dof[a].start <= k < tree.dof[a].stop][0]],
                  -(U[0] - U[1])/2e-5, 'gradient-fd', 'dof %d' % k, 1e-7, s)
    # independent of velocities and step
    t2 = tree.copy()
    for l in t2.links: l.v = rng.normal(size=l.v.shape)*5
    set_state(b, t2); w.update_dynamic()
    ctx.close(force(w, c, 1.)[0], f, 'velocity-independent', 'other velocities, other step', 1e-11, s)
    # linear in gravity
    a = rng.uniform(-3, 3)
    for gg, k in ((a*g, a), (-g, -1.), (0., 0.)):
        c2 = ctl.WeightController(gravity=gg); c2.init(w); ctx.close(force(w, c2)[0], k*f, 'linear', 'gravity times %g' % k, 1e-11, s*4)
    if i % 5 == 0:
        c3 = ctl.WeightController(); c3.init(w)
        if g: ctx.close(force(w, c3)[0], f*(-9.81/g), 'default', 'default gravity', 1e-11, s*abs(9.81/g) + 10)
    # another configuration, same controller
    t3 = tree.copy()
    for l in t3.links:
        if l.jt != 'FixedJoint': l.q = rand_q(rng, l.jt)
    set_state(b, t3); w.update_dynamic(); K3 = t3.compute()
    r3 = zeros(tree.ndof)
    for k, l in enumerate(t3.links):
        if l.cloud is not None: r3 += l.cloud.mass*g*dot(dot(K3['H'][k][:3, :3], K3['J'][k][3:] - dot(skew(l.cloud.com), K3['J'][k][:3])).T, up)
    ctx.close(cols(tree, b, force(w, c)[0]), r3, 'virtual-work', 'after a move', 1e-10, (abs(g)+.1)*(m+.1)*kscale(t3, K3))

def fall(ctx, rng, i):
    """Free bodies fall with the gravity acceleration wherever their frame is."""
    g = rng.uniform(-15, 15); n = int(rng.integers(1, 4)); w = core.World(); B = []
    for k in range(n):
        cl = rand_cloud(rng); H0 = rand_H(rng)
        j = joints.FreeJoint(gpos=H0); bd = core.Body(mass=cl.matrix()); w.add_link(w.ground, j, bd); B.append((cl, H0, j))
    heavy = core.Body(); w.add_link(B[0][2].frame1, joints.FixedJoint(), heavy)     # massless passenger
    w.register(ctl.WeightController(gravity=g)); w.init()
    dt = 1e-3; N = 10
    for k in range(N): step(w, dt)
    ctx.note(gravity=g, bodies=n); ctx.sig(g, n)
    for cl, H0, j in B:
        c0 = dot(H0[:3, :3], cl.com) + H0[:3, 3]; c1 = dot(j.gpos[:3, :3], cl.com) + j.gpos[:3, 3]
        ctx.close(c1 - c0, array([0., 1, 0])*g*dt*dt*N*(N+1)/2, 'free-fall', 'fall of the centre of mass', 1e-9, abs(g)*1e-2 + 1e-6)
        ctx.close(j.gpos[:3, :3], H0[:3, :3], 'free-fall', 'no rotation', 1e-9)
    w.update_dynamic()

def massless(ctx, rng, i):
    """A massless link added to a tree receives no weight of its own."""
    tree = gen_tree(ctx, rng, 1, 4, p_massless=0.)
    t2 = tree.copy(); jt = str(rng.choice(LINEAR))
    t2 = Tree(t2.links + [Link('x', len(tree.links) - 1, jt, rand_q(rng, jt), zeros(jndof(jt)), rand_H(rng), rand_H(rng), None)])
    F = []
    for t in (tree, t2):
        b = build(t); c = ctl.WeightController(); b.world.register(c); b.world.init(); b.world.update_dynamic(); F.append((b, force(b.world, c)[0]))
    for k in range(len(tree.links)):
        ctx.close(F[1][1][F[1][0].joints[k].dof], F[0][1][F[0][0].joints[k].dof], 'massless', 'joint %d' % k, 1e-10)
    ctx.close(F[1][1][F[1][0].joints[len(tree.links)].dof], zeros(jndof(jt)), 'massless', 'massless link', 1e-12)

def units(ctx, rng, i):
    """The same mechanism in other units (tiny to huge masses, sizes and durations)."""
    tree = special(ctx, rng, gen_tree(ctx, rng, 1, 6))
    if not tree.ndof: raise Skip()
    g = rng.uniform(-20, 20); U = rand_units(ctx, rng); t2 = U.tree(tree); b = build(t2); c = ctl.WeightController(gravity=g*U.L/U.T**2); b.world.register(c); b.world.init(); b.world.update_dynamic()
    K = tree.compute(); up = array([0., 1., 0.]); r = zeros(tree.ndof)
    for k, l in enumerate(tree.links):
        if l.cloud is not None: r += l.cloud.mass*g*dot(dot(K['H'][k][:3, :3], K['J'][k][3:] - dot(skew(l.cloud.com), K['J'][k][:3])).T, up)
    ctx.close(U.force(tree, cols(t2, b, force(b.world, c)[0])), r, 'units', 'weight in other units', 1e-9, abs(g)*sum(l.cloud.size*(1 + np.abs(l.cloud.pts).max()) for l in tree.links if l.cloud is not None)*kscale(tree, K))

CLASSES = ['light', 'heavy', 'small', 'large', 'point-mass', 'rod', 'far', 'early', 'rotor']
FAMILIES = [('weight', weight, 90, 3000), ('units', lambda c, r, i: c.retry(lambda: units(c, r, i)), 60, 2000), ('fall', fall, 30, 800), ('massless', massless, 20, 500)]
