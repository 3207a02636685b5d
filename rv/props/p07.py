"""P07: twists and jacobians."""
from rv.mech import *
from rv import arb; arb.MOVING = .2

RULE = 'random trees, positions and velocities, random frames on bodies; distinct by structure and state'
MONITORS = ['twist', 'jacobian', 'jacobian-velocity', 'finite-difference', 'ancestors', 'frame-transport', 'ground', 'units']

def frames_of(rng, tree, b):
    fr = []
    for i in range(-1, len(tree.links)):
        fr.append((b.bodies[i], i, eye(4)))
        if rng.random() < .5:
            H = rand_H(rng, .5); u = rng.random(); f = (core.SubFrame if u < .5 else core.MovingSubFrame)(b.bodies[i], H if u < .75 else rand_H(rng)); fr.append((f, i, H))
            if u >= .75: f.bpose = H
    for i, l in enumerate(tree.links):
        fr.append((b.f0[i], l.parent, l.H_pr)); fr.append((b.f1[i], i, l.H_cn))
    return fr

def vel(ctx, rng, i):
    tree = gen_tree(ctx, rng, 1, 16 if ctx.thorough else 8, bare=.5, vscale=10.**rng.uniform(-1, 1))
    b = build(tree, order=topo_order(rng, tree)); w = b.world
    fr = frames_of(rng, tree, b)
    w.update_dynamic()
    K = tree.compute(); v = tree.v
    s = kscale(tree, K); sv = s * (1 + np.abs(v).max() if v.size else 1.) * len(tree.links)
    gv = w.gvel
    for f, k, H in fr:
        A = Ad(hinv(H))
        T, J = dot(A, K['T'][k]), dot(A, K['J'][k])
        ctx.ok(np.shape(f.jacobian) == (6, tree.ndof), 'jacobian', 'shape')
        Jf = cols(tree, b, f.jacobian)
        ctx.close(f.twist, T, 'twist', 'frame on body %d' % k, 1e-10, sv*5)
        ctx.close(Jf, J, 'jacobian', 'frame on body %d' % k, 1e-10, s*5)
        ctx.close(dot(f.jacobian, gv), f.twist, 'jacobian-velocity', 'J gvel', 1e-10, sv*5)
        anc = set(tree.ancestors(k))
        for m in range(len(tree.links)):
            if m not in anc and jndof(tree.links[m].jt):
                ctx.ok(not np.any(Jf[:, tree.dof[m]]), 'ancestors', 'column of joint %d in body %d' % (m, k))
        if k == -1: ctx.ok(not np.any(f.twist) and not np.any(f.jacobian), 'ground', 'ground moves')
    for f, k, H in fr:
        body = b.bodies[k]
        ctx.close(f.twist, dot(Ad(hinv(H)), body.twist), 'frame-transport', 'twist', 1e-11, sv*5)
        ctx.close(f.jacobian, dot(Ad(hinv(H)), body.jacobian), 'frame-transport', 'jacobian', 1e-11, s*5)
    # observed velocity: differences of observed poses along the motion
    if not tree.ndof: return
    got = [(np.array(f.twist), np.array(f.pose)) for f, k, H in fr]
    h = 1e-4 / (1 + np.abs(v).max() * len(tree.links))
    P = []
    for sg in (1, -1):
        set_q(b, tree.flow(sg*h)); w.update_geometric(); P.append([np.array(f.pose) for f, k, H in fr])
    for (T, H0), Hp, Hm, (f, k, H) in zip(got, P[0], P[1], fr):
        fd = vee(dot(hinv(H0), (Hp - Hm) / (2*h)))
        ctx.close(fd, T, 'finite-difference', 'twist of a frame on body %d' % k, 3e-8, sv*5)

CLASSES = ['light', 'heavy', 'small', 'large', 'point-mass', 'rod', 'far']
FAMILIES = [('velocity', vel, 130, 4000), ('units', lambda c, r, i: c.retry(lambda: in_units(c, r, 'twist')), 60, 2000)]
