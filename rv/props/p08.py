"""P08: jacobian rates."""
from rv.mech import *
from rv import arb; arb.MOVING = .2

RULE = 'random trees with attachment frames on both sides, random positions and velocities; distinct by structure and state'
MONITORS = ['rate', 'rate-fd', 'acceleration', 'subframe-rate', 'ground', 'units']

def rates(ctx, rng, i):
    tree = gen_tree(ctx, rng, 1, 14 if ctx.thorough else 7, bare=.5, vscale=10.**rng.uniform(-1, .5))
    if not tree.ndof: raise Skip()
    b = build(tree, order=topo_order(rng, tree)); w = b.world
    sf = []
    for k in range(-1, len(tree.links)):
        H = rand_H(rng, .5); sf.append((core.SubFrame(b.bodies[k], H), k, H))
    for k, l in enumerate(tree.links): sf.append((b.f0[k], l.parent, l.H_pr)); sf.append((b.f1[k], k, l.H_cn))
    w.update_dynamic()
    K = tree.compute(); v = tree.v; gv = w.gvel
    s = kscale(tree, K)**2 * (1 + np.abs(v).max()) * len(tree.links)
    for k, x in b.bodies.items():
        ctx.close(cols(tree, b, x.djacobian), K['dJ'][k], 'rate', 'body %d' % k, 1e-10, s*5)
    ctx.ok(not np.any(b.bodies[-1].djacobian), 'ground', 'ground accelerates')
    for f, k, H in sf:
        ctx.close(cols(tree, b, f.djacobian), dot(Ad(hinv(H)), K['dJ'][k]), 'subframe-rate', 'frame on body %d' % k, 1e-10, s*10)
    fr = [(x, k) for k, x in b.bodies.items()] + [(f, k) for f, k, H in sf]
    got = [(np.array(f.djacobian), np.array(f.twist)) for f, k in fr]
    h = 1e-4 / (1 + np.abs(v).max() * len(tree.links))
    P = []
    for sg in (1, -1):
        set_state(b, tree.flow(sg*h)); w.update_dynamic(); P.append([(np.array(f.jacobian), np.array(f.twist)) for f, k in fr])
    for (dJ, T), (Jp, Tp), (Jm, Tm), (f, k) in zip(got, P[0], P[1], fr):
        ctx.close((Jp - Jm)/(2*h), dJ, 'rate-fd', 'jacobian of a frame on body %d' % k, 2e-8, s*10)
        ctx.close((Tp - Tm)/(2*h), dot(dJ, gv), 'acceleration', 'frame on body %d' % k, 2e-8, s*10*(1+np.abs(v).max()))

CLASSES = ['light', 'heavy', 'small', 'large', 'point-mass', 'rod', 'far']
FAMILIES = [('rates', rates, 130, 4000), ('units', lambda c, r, i: c.retry(lambda: in_units(c, r, 'rate')), 60, 2000)]
