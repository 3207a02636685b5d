"""P21: signed distances."""
from rv.geom import *

RULE = 'all supported pairs of shapes, random sizes over decades, carriers and poses, from far apart to deep overlap; distinct by pair, sizes and poses'
MONITORS = ['distance', 'swapped', 'displaced', 'refused', 'solver', 'sampled', 'active', 'standard-shape', 'degenerate', 'size-refused']
CLASSES = ['%s-%s' % p for p in PAIRS] + REGIMES + ['box-face', 'box-edge-or-corner', 'box-inside', 'below-plane', 'scaled-plane', 'concentric']

def solve(w, s0, s1):
    w.init(); w.update_geometric()
    (shapes, f) = col.choose_solver(s0, s1)
    return shapes, quiet(f, shapes)

def pair(ctx, rng, i):
    kinds = PAIRS[i % 6]; size = 10.**rng.uniform(-4, 3) if rng.random() < .5 else 1.; a, b, regime = rand_pair(rng, kinds, size)
    ref = dist(a, b)
    if kinds[0] == 'Sphere' and norm(a.center() - b.center()) < 1e-6*size: ctx.cls('concentric')
    ctx.cls('%s-%s' % kinds); ctx.cls(regime); ctx.note(pair=kinds, regime=regime, size=size); ctx.sig(kinds, ref, a.H.round(9).tobytes(), b.H.round(9).tobytes())
    if kinds[0] == 'Box':
        q = np.abs(dot(hinv(a.H), np.append(b.center(), 1))[:3]) - a.dim; ctx.cls('box-inside' if (q <= 0).all() else 'box-face' if (q > 0).sum() == 1 else 'box-edge-or-corner')
    if kinds[0] == 'Plane' and a.sdf(b.center()) < 0: ctx.cls('below-plane')
    if kinds[0] == 'Plane': ctx.cls('scaled-plane')
    s = a.scale() + b.scale() + .1*size
    w = core.World(); sa, sb = carry(rng, w, a), carry(rng, w, b); shapes, (sd, H0, H1) = solve(w, sa, sb)
    ctx.ok(set(map(id, shapes)) == {id(sa), id(sb)}, 'solver', 'shapes of the solver')
    ctx.close(sd, ref, 'distance', 'signed distance of %s' % (kinds,), 1e-9, s)
    shapes2, (sd2, *_) = solve(w, sb, sa); ctx.close(sd2, ref, 'swapped', 'signed distance, pair swapped', 1e-9, s)
    G = rand_H(rng, size*3); w = core.World(); sd3 = solve(w, carry(rng, w, a.moved(G)), carry(rng, w, b.moved(G)))[1][0]
    ctx.close(sd3, ref, 'displaced', 'signed distance, both displaced', 1e-8, s + np.abs(G[:3, 3]).max())
    if i % 3 == 0 and kinds[0] != 'Plane':
        # no point of the ball is closer than the distance, and some overlap exists exactly when it is negative
        r = b.dim; best = min(a.sdf(b.center() + r*rand_unit(rng)) for _ in range(60))
        ctx.ok(best >= sd - 1e-9*s, 'sampled', 'a point of the second shape is at %g, closer than %g' % (best, sd))
    if i % 3 == 1:
        # through a contact: active exactly when the distance predicted at the end of the step is below the activation distance
        import arboris.constraints as cst
        w = core.World(); sa, sb = carry(rng, w, a), carry(rng, w, b); prox = max(ref + rng.choice([-1, 1])*rng.uniform(.01, 1.)*size, 1e-3*size)
        if abs(ref - prox) < 1e-6*s: return
        c = cst.SoftFingerContact((sa, sb), .5, proximity=prox); w.register(c); w.init(); w.update_dynamic(); quiet(c.update, 1e-3)
        ctx.ok(bool(c.is_active()) == bool(ref < prox), 'active', 'contact at rest at %g, activation distance %g' % (ref, prox))

def refuse(ctx, rng, i):
    ok = set(frozenset(p) for p in PAIRS)
    for x in KINDS:
        for y in KINDS:
            w = core.World(); fx, fy = Solid(x, eye(4), .1), Solid(y, rand_H(rng), .1)
            for f in (fx, fy):
                if f.kind == 'Plane': f.dim = array([0, 1., 0, 0])
                if f.kind == 'Box': f.dim = array([.1, .2, .3])
            sx, sy = carry(rng, w, fx), carry(rng, w, fy); sup = frozenset((x, y)) in ok and not (x == y != 'Sphere')
            if not sup: ctx.raises(NotImplementedError, lambda: col.choose_solver(sx, sy), 'refused', '%s/%s' % (x, y))
            else: ctx.ok(col.choose_solver(sx, sy) is not None, 'solver', '%s/%s' % (x, y))

def standard(ctx, rng, i):
    """Shapes whose dimensions are not given: unit box half extents, sphere and cylinder, plane through the origin with normal y; spheres of no radius are points, of negative radius are refused."""
    fr = lambda w, H: (lambda f: (w.register(f), f)[1])(core.SubFrame(w.ground, H))
    H, G = rand_H(rng), rand_H(rng); w = core.World(); fa, fb = fr(w, H), fr(w, G); pt, sp, pl, bx, cy = shp.Point(fb), shp.Sphere(fb), shp.Plane(fa), shp.Box(fa), shp.Cylinder(fa); ctx.sig(H.round(9).tobytes(), G.round(9).tobytes()); sc = 3 + np.abs(H).max() + np.abs(G).max()
    A = lambda kind, dim, X: Solid(kind, X, dim)
    P, B, S0, S1, Q = A('Plane', array([0, 1., 0, 0]), H), A('Box', array([1., 1, 1]), H), A('Sphere', 1., H), A('Sphere', 1., G), A('Point', 0., G)
    for x, y, a, b in ((pl, sp, P, S1), (bx, sp, B, S1), (shp.Sphere(fa), sp, S0, S1), (pl, pt, P, Q), (bx, pt, B, Q), (shp.Sphere(fa), pt, S0, Q)): ctx.close(solve(w, x, y)[1][0], dist(a, b), 'standard-shape', '%s and %s' % (a.kind, b.kind), 1e-9, sc)
    ctx.ok((cy.length, cy.radius) == (1., 1.), 'standard-shape', 'cylinder %s %s' % (cy.length, cy.radius))
    z = shp.Sphere(fb, 0.) if rng.random() < .5 else shp.Sphere(fb, radius=0)
    for x in (pl, bx, shp.Sphere(fa, .3)):
        a, b = solve(w, x, z)[1], solve(w, x, pt)[1]; ctx.close(a[0], b[0], 'degenerate', 'sphere of no radius and point', 1e-12, sc)
        for u, v in zip(a[1:], b[1:]): ctx.close(u, v, 'degenerate', 'contact frames', 1e-9, sc)
    r = -10.**rng.uniform(-12, 2); ctx.raises((AssertionError, ValueError), lambda: shp.Sphere(fb, r), 'size-refused', 'sphere of radius %r' % r); ctx.raises((AssertionError, ValueError), lambda: shp.Cylinder(fb, 1., r), 'size-refused', 'cylinder of radius %r' % r); shp.Cylinder(fb, 1., 0.)

FAMILIES = [('pair', pair, 900, 40000), ('refuse', refuse, 2, 10), ('standard', standard, 100, 3000)]
