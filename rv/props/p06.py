"""P06: forward kinematics."""
from rv.mech import *
from rv import arb; arb.MOVING = .2

RULE = 'random trees (all joint types, attachment frames on either side, several branches), random positions; distinct by structure and positions'
MONITORS = ['body-pose', 'subframe-pose', 'moving-pose', 'link-relative-pose', 'both-updates-agree', 'history', 'branch-order', 'rigid', 'units', 'not-yet', 'refused']

def check(ctx, tree, b, extra, what):
    K = tree.compute(); s = kscale(tree, K)
    for i in range(-1, len(tree.links)):
        ctx.close(b.bodies[i].pose, K['H'][i], 'body-pose', '%s: body %d' % (what, i), 1e-11, s)
        ctx.close(b.bodies[i].pose[3], [0, 0, 0, 1], 'rigid', 'last row', 1e-15)
    for i, l in enumerate(tree.links):
        ctx.close(b.f0[i].pose, dot(K['H'][l.parent], l.H_pr), 'subframe-pose', '%s: frame 0 of joint %d' % (what, i), 1e-11, s)
        ctx.close(b.f1[i].pose, dot(K['H'][i], l.H_cn), 'subframe-pose', '%s: frame 1 of joint %d' % (what, i), 1e-11, s)
        rel = dot(hinv(b.f0[i].pose), b.f1[i].pose)
        ctx.close(rel, b.joints[i].pose, 'link-relative-pose', '%s: joint %d' % (what, i), 1e-10, s)
    for f, i, H, mon in extra:
        ctx.close(f.pose, dot(K['H'][i], H), mon, '%s: %s on body %d' % (what, mon, i), 1e-11, s)
        ctx.close(f.bpose, H, mon, 'bpose', 1e-15)
        ctx.ok(f.body is b.bodies[i], mon, 'body of the frame')

def make_extra(rng, tree, b):
    extra = []
    for i in range(-1, len(tree.links)):
        if rng.random() < .4:
            H = rand_H(rng, .5); extra.append([core.SubFrame(b.bodies[i], H, 'e%d' % i), i, H, 'subframe-pose'])
        if rng.random() < .3:
            H = rand_H(rng, .5); extra.append([core.MovingSubFrame(b.bodies[i], H, 'm%d' % i), i, H, 'moving-pose'])
    H = rand_H(rng, .5); extra.append([core.MovingSubFrame(b.bodies[-1], H, 'mg'), -1, H, 'moving-pose'])
    for e in extra:
        if rng.random() < .7: b.world.register(e[0])
    return extra

def near_q(rng, l, e):
    q = np.asarray(l.q, float)
    return dot(q, se3exp(e*rng.normal(size=6))) if q.shape == (4, 4) else q + e*rng.normal(size=q.shape)

def fk(ctx, rng, i):
    tree = gen_tree(ctx, rng, 1, 40 if ctx.thorough else 14, bare=.5)
    b = build(tree, order=topo_order(rng, tree), init=rng.random() < .5)
    w = b.world
    if not len(b.joints): raise Skip()
    extra = make_extra(rng, tree, b)
    w.update_geometric(); check(ctx, tree, b, extra, 'geometric')
    poses = {k: np.array(x.pose) for k, x in b.bodies.items()}
    w.init(); w.update_dynamic(); check(ctx, tree, b, extra, 'dynamic')
    for k, x in b.bodies.items():
        ctx.close(x.pose, poses[k], 'both-updates-agree', 'body %d' % k, 1e-12, kscale(tree, tree.compute()))
    # a history of moves and updates
    first = tree.copy()
    for k in range(int(rng.integers(1, 5))):
        moved = [l for l in tree.links if rng.random() < .6]; tiny = rng.random() < .4; e_ = 10.**rng.uniform(-10, -3)
        if tiny: ctx.cls('tiny-moves')
        for l in moved:
            if l.jt != 'FixedJoint': l.q = near_q(rng, l, e_) if tiny else rand_q(rng, l.jt)
        set_q(b, tree)
        for e in extra:
            if e[3] == 'moving-pose' and rng.random() < .6:
                e[2] = dot(e[2], se3exp(e_*rng.normal(size=6))) if tiny else rand_H(rng, .5); e[0].bpose = e[2]
        if rng.random() < .5: w.update_geometric()
        else: w.update_dynamic()
        check(ctx, tree, b, extra, 'after %d moves' % (k + 1))
    set_q(b, first); w.update_geometric()
    for k, x in b.bodies.items():
        ctx.close(x.pose, poses[k], 'history', 'back at the first position, body %d' % k, 1e-12, kscale(tree, first.compute()))
    # same mechanism built in another order
    b2 = build(first, order=topo_order(rng, tree)); b2.world.update_geometric()
    for k, x in b2.bodies.items():
        ctx.close(x.pose, poses[k], 'branch-order', 'body %d' % k, 1e-12, kscale(tree, first.compute()))

def deep(ctx, rng, i):
    """Long chains through the real simulation."""
    tree = gen_tree(ctx, rng, 3, 6, branch=.3, p_massless=0., base='FreeJoint')
    b = build(tree); w = b.world; extra = make_extra(rng, tree, b)
    well_posed(tree)
    for k in range(5):
        step(w, 1e-3)
        if np.abs(w.gvel).max() > 100: break
        sync(tree, b); w.update_geometric() if k % 2 else w.update_dynamic()
        check(ctx, tree, b, extra, 'simulation')

def early(ctx, rng, i):
    """Frames of what has not been updated yet say so, and places which are no rigid displacements are refused."""
    w = core.World(); tree = rand_tree(rng, int(rng.integers(1, 4))); b = build(tree, init=rng.random() < .5, past=False)
    k = int(rng.integers(len(tree.links))); H = rand_H(rng); F = [c(b.bodies[k], H) for c in (core.SubFrame, core.MovingSubFrame)]
    for f in F:
        for a in ('pose', 'twist', 'jacobian', 'djacobian'): ctx.raises(Exception, lambda: getattr(f, a), 'not-yet', '%s before any update' % a)
    b.world.update_geometric(); K = tree.compute()
    for f in F:
        ctx.close(f.pose, dot(K['H'][k], H), 'not-yet', 'pose after the first update', 1e-11, kscale(tree, K))
        for a in ('twist', 'jacobian', 'djacobian'): ctx.raises(Exception, lambda: getattr(f, a), 'not-yet', '%s before a dynamic update' % a)
    H = np.array(H); n = int(rng.integers(4))
    if n == 0: H[3, int(rng.integers(4))] += rng.choice([-1, 1])*10.**rng.uniform(-3, 1)
    elif n == 1: H[:3, :3] *= 1 + rng.choice([-1, 1])*10.**rng.uniform(-3, -.1)
    elif n == 2: H[:3, int(rng.integers(3))] *= -1
    else: H = H[:3]
    for c in (core.SubFrame, core.MovingSubFrame): ctx.raises(Exception, lambda: c(b.bodies[k], H), 'refused', 'place %s' % n)
    keep = F[1].bpose.copy()
    def put(): F[1].bpose = H
    ctx.raises(Exception, put, 'refused', 'moved to %s' % n); ctx.ok(np.array_equal(F[1].bpose, keep), 'refused', 'a refused move leaves the frame where it is')
    for x in (None, w, F[0], b.joints[k]): ctx.raises(Exception, lambda: core.SubFrame(x), 'refused', 'frame of %s' % type(x).__name__)

CLASSES = ['tiny-moves', 'light', 'heavy', 'small', 'large', 'point-mass', 'rod', 'far']
MULT = 2
FAMILIES = [('fk', fk, 120, 2500), ('simulated', deep, 20, 600), ('early', early, 30, 400), ('units', lambda c, r, i: c.retry(lambda: in_units(c, r, 'pose')), 60, 2000)]
