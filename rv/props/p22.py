"""P22: contact frames."""
from rv.geom import *

RULE = 'all supported pairs of shapes, random sizes, carriers and poses, from far apart to deep overlap; distinct by pair, sizes and poses'
MONITORS = ['rotation', 'same-orientation', 'along-normal', 'on-surface', 'closest', 'outward', 'expected-normal', 'contact-frames', 'no-alias', 'own-solver']
CLASSES = ['%s-%s' % p for p in PAIRS] + REGIMES + ['apart', 'overlap', 'center-on-surface', 'concentric', 'moved', 'own-solver', 'own-solver-active', 'own-solver-inactive']
ASSUMPTIONS = ['at points equidistant from several faces only the invariants are checked, not a particular normal']

def frames(ctx, rng, i):
    kinds = PAIRS[i % 6]; size = 10.**rng.uniform(-4, 3) if rng.random() < .4 else 1.; a, b, regime = rand_pair(rng, kinds, size)
    if kinds[0] == 'Box' and rng.random() < .12:
        y = rng.uniform(-1, 1, 3)*a.dim; k = int(rng.integers(3)); y[k] = rng.choice([-1, 1])*a.dim[k]; b.H[:3, 3] = dot(a.H, np.append(y, 1.))[:3]; ctx.cls('center-on-surface')
    if kinds[0] == 'Sphere' and norm(a.center() - b.center()) < 1e-6*size: ctx.cls('concentric')
    ctx.cls('%s-%s' % kinds); ctx.cls(regime); ctx.note(pair=kinds, regime=regime, size=size); ctx.sig(kinds, a.H.round(9).tobytes(), b.H.round(9).tobytes())
    w = core.World(); sa, sb = carry(rng, w, a), carry(rng, w, b); w.init(); w.update_dynamic()
    args = (sa, sb) if rng.random() < .5 else (sb, sa); (shapes, f) = col.choose_solver(*args); sd, H0, H1 = quiet(f, shapes)
    A, B = (a, b) if shapes[0] is sa else (b, a); s = a.scale() + b.scale() + .1*size; tol = 1e-8
    ref = dist(a, b); ctx.cls('apart' if ref > 0 else 'overlap')
    for H in (H0, H1):
        ctx.close(dot(H[:3, :3].T, H[:3, :3]), eye(3), 'rotation', 'orientation', 1e-9, 1.); ctx.ok(np.linalg.det(H[:3, :3]) > 0 and np.array_equal(H[3], [0, 0, 0, 1]), 'rotation', 'right-handed frame')
    ctx.close(H1[:3, :3], H0[:3, :3], 'same-orientation', 'orientation of the two frames', 1e-12, 1.)
    n, p0, p1 = H0[:3, 2], H0[:3, 3], H1[:3, 3]
    ctx.close(p1, p0 + sd*n, 'along-normal', 'second frame is the first one moved along the normal by the distance', tol, s)
    ctx.close(A.sdf(p0), 0., 'on-surface', 'first origin on the surface of the first shape', tol, s); ctx.close(B.sdf(p1), 0., 'on-surface', 'second origin on the surface of the second shape', tol, s)
    if ref > 0 or (kinds[0] != 'Box' and ref > -.5*min(x.dim if x.kind in ('Sphere', 'Point') else 1e9 for x in (A, B))):
      ctx.close(B.sdf(p0), ref, 'closest', 'first origin is at the signed distance of the second shape', tol, s); ctx.close(A.sdf(p1), ref, 'closest', 'second origin is at the signed distance of the first shape', tol, s)
    e = 1e-3*size
    ctx.close(A.sdf(p0 + e*n), e, 'outward', 'normal leaves the first shape', 1e-6, e + 1e-6*s); ctx.close(B.sdf(p1 - e*n), e, 'outward', 'opposite normal leaves the second shape', 1e-6, e + 1e-6*s)
    # the normal, when it is unique
    c0, c1 = A.center(), B.center()
    if kinds[0] == 'Sphere' and norm(c1 - c0) < 1e-6*size: pass
    elif kinds[0] == 'Sphere': ctx.close(n, (c1 - c0)/norm(c1 - c0), 'expected-normal', 'line of centres', 1e-8*s/norm(c1 - c0) + 1e-9, 1.)
    elif A.kind == 'Plane': ctx.close(n, dot(A.H[:3, :3], A.dim[:3]), 'expected-normal', 'normal of the plane', 1e-9, 1.)
    else:
        y = dot(hinv(A.H), np.append(c1, 1.))[:3]; q = np.abs(y) - A.dim
        if (q > 1e-5*s).any(): v = np.where(q > 0, q*np.sign(y), 0); ctx.close(n, dot(A.H[:3, :3], v/norm(v)), 'expected-normal', 'normal of the box', 1e-8*s/norm(v) + 1e-9, 1.)
        elif (q < -1e-9*s).all():
            k = np.argsort(q)
            if q[k[2]] - q[k[1]] > 1e-9*s and abs(y[k[2]]) > 1e-9*s: v = zeros(3); v[k[2]] = np.sign(y[k[2]]); ctx.close(n, dot(A.H[:3, :3], v), 'expected-normal', 'normal of the nearest face', 1e-9, 1.)
    # the arrays handed out are not those of the next call nor of the world
    K0 = np.array(H0); H0[:] = 7.; H1[:] = 7.; sd2, G0, G1 = quiet(f, shapes); ctx.close(G0, K0, 'no-alias', 'frames computed again', 1e-15, s)
    if i % 2:
        import arboris.constraints as cst
        c = cst.SoftFingerContact(args, .5); w.register(c); w.init(); w.update_dynamic(); quiet(c.update, 1e-3); fr = [x for x in w.itermovingsubframes() if x.name is None][-2:]
        for r in range(int(rng.integers(0, 3))):      # moved, by any amount, and updated again
            amp = 10.**rng.uniform(-12, -2)
            for o in (shapes[0].frame, shapes[1].frame):
                if isinstance(o, core.MovingSubFrame): o.bpose = dot(o.bpose, se3exp(amp*rng.normal(size=6)))
            for j in w.iterjoints(): g = np.asarray(j.gpos); j.gpos[...] = dot(g, se3exp(amp*rng.normal(size=6))) if g.shape == (4, 4) else g + amp*rng.normal(size=g.shape)
            w.update_dynamic(); quiet(c.update, 1e-3); sd2, G0, G1 = quiet(f, shapes); ctx.cls('moved')
        m = [x for x in fr if x.body is shapes[0].frame.body], [x for x in fr if x.body is shapes[1].frame.body]
        if len(m[0]) == len(m[1]) == 1:
            ctx.close(m[0][0].pose, G0, 'contact-frames', 'frame moved by the contact, first body', 1e-8, s); ctx.close(m[1][0].pose, G1, 'contact-frames', 'frame moved by the contact, second body', 1e-8, s)
            ctx.close(m[1][0].pose[:3, 3] - m[0][0].pose[:3, 3], ref*n if False else (G1 - G0)[:3, 3], 'contact-frames', 'relative position', 1e-8, s)

def own(ctx, rng, i):
    """A contact given its own collision solver, between any shapes."""
    import arboris.constraints as cst, arboris.shapes as shp
    w = core.World(); J = [joints.FreeJoint(gpos=rand_H(rng), gvel=rng.normal(size=6)) for _ in range(2)]; B = [core.Body(mass=eye(6)) for _ in J]
    w.add_link(w.ground, J[0], B[0]); w.add_link(w.ground if rng.random() < .5 else B[0], J[1], B[1])
    S = [getattr(shp, str(rng.choice(['Point', 'Sphere', 'Box', 'Cylinder', 'Plane'])))(f if rng.random() < .5 else core.SubFrame(f, rand_H(rng))) for f in B]; calls = []; ans = []
    def solver(shapes): calls.append(tuple(shapes)); return ans[-1][0], ans[-1][1].copy(), ans[-1][2].copy()
    mu, px = rng.uniform(.1, 1.), rng.choice([.02, 10.**rng.uniform(-4, 1)]); c = cst.SoftFingerContact(tuple(S) if rng.random() < .5 else list(S), mu, solver, float(px)) if rng.random() < .5 else cst.SoftFingerContact(shapes=tuple(S), friction_coeff=mu, collision_solver=solver, proximity=float(px)); w.register(c); w.init(); ctx.cls('own-solver'); ctx.sig(mu, px, [type(s).__name__ for s in S])
    for r in range(3):
        H0 = rand_H(rng); sd = rng.normal()*10.**rng.uniform(-3, 0); H1 = dot(H0, hom(eye(3), [0, 0, sd])); ans.append((sd, H0, H1)); dt = 10.**rng.uniform(-4, -1); w.update_dynamic(); n = len(calls); c.update(dt)
        ctx.ok(len(calls) > n and all(len(x) == 2 and x[0] is S[0] and x[1] is S[1] for x in calls), 'own-solver', 'calls of the solver: %d' % (len(calls) - n))
        fr = [[x for x in w.itermovingsubframes() if x.body is k and not isinstance(x, core.Body) and isinstance(x, core.MovingSubFrame)][-1] for k in B]; s = 1 + np.abs(H0).max() + abs(sd)
        for f, H in zip(fr, (H0, H1)): ctx.close(f.pose, H, 'own-solver', 'frame of the contact', 1e-12, s*s)
        # normal velocity of the second point seen from the first one
        V = lambda k, H: dot(Ad(dot(hinv(H), np.array(k.pose))), np.array(k.twist)); pred = sd + dt*(V(B[1], H1)[5] - V(B[0], H0)[5])
        if abs(pred - px) > 1e-9*(1 + abs(pred)): ctx.ok(bool(c.is_active()) == bool(pred < px), 'own-solver', 'activation distance %g, predicted distance %g, active %s' % (px, pred, c.is_active())); ctx.cls('own-solver-active' if pred < px else 'own-solver-inactive')
        W = dot(Ad(dot(hinv(H1), np.array(B[1].pose))), np.array(B[1].jacobian)) - dot(Ad(dot(hinv(H1), np.array(B[0].pose))), np.array(B[0].jacobian)); ctx.close(np.array(c.jacobian)[3], W[5], 'own-solver', 'normal row of the jacobian', 1e-9, s*s*(1 + np.abs(W).max()))
        if rng.random() < .5: w.update_controllers(dt); w.integrate(dt)

FAMILIES = [('frames', frames, 900, 40000), ('own', own, 60, 3000)]
