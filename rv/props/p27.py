"""P27: mass matrices."""
from rv.mech import *
mm = mod('arboris.massmatrix')

RULE = 'random solids, displacements and mass distributions (distinct, nearly equal and equal principal moments, aligned or not, planar, far from the frame), masses over eight decades; distinct by the random matrix'
MONITORS = ['box', 'ellipsoid', 'cylinder', 'sphere', 'energy', 'transport-energy', 'compose', 'undo', 'principal-rotation', 'principal-com', 'principal-diagonal', 'recognised', 'refused', 'semi', 'inputs-kept', 'physical', 'storage']
CLASSES = ['equal-two', 'equal-three', 'nearly-equal', 'aligned', 'turned', 'planar', 'far', 'tiny', 'huge', 'point-mass', 'rod', 'integers', 'far-frame']

def gl(n, a, b): x, w = np.polynomial.legendre.leggauss(n); return (b - a)/2*x + (a + b)/2, (b - a)/2*w
def solid(kind, d, m):
    """Quadrature of the homogeneous solid as a set of point masses (exact for second moments)."""
    P, W = [], []
    if kind == 'box':
        X = [gl(3, -h, h) for h in d]
        for x, a in zip(*X[0]):
            for y, b in zip(*X[1]):
                for z, c in zip(*X[2]): P.append((x, y, z)); W.append(a*b*c)
    elif kind in ('ellipsoid', 'sphere'):
        r, wr = gl(4, 0, 1); c, wc = gl(4, -1, 1); ph = np.arange(8)*np.pi/4 + .1
        for a, wa in zip(r, wr):
            for b, wb in zip(c, wc):
                s = np.sqrt(1 - b*b)
                for p in ph: P.append(np.array([a*s*np.cos(p), a*s*np.sin(p), a*b])*d); W.append(wa*wb*a*a)
    else:
        r, wr = gl(4, 0, d[0]); z, wz = gl(3, -d[2]/2, d[2]/2); ph = np.arange(8)*np.pi/4 + .1
        for a, wa in zip(r, wr):
            for b, wb in zip(z, wz):
                for p in ph: P.append((a*np.cos(p), a*np.sin(p), b)); W.append(wa*wb*a)
    W = np.array(W); return Cloud(P, W/W.sum()*m)

def builders(ctx, rng, i):
    m = 10.**rng.uniform(-4, 4); d = 10.**(rng.uniform(-2, 1.5, 3) if rng.random() < .6 else rng.uniform(-1, 1, 3) + rng.uniform(-7, 5)); 
    if i % 7 == 3: m = int(rng.integers(1, 9)); d = rng.integers(1, 9, 3); ctx.cls('integers')
    ctx.note(mass=m, dims=d); ctx.sig(m, d.tobytes())
    for k, got, c in (('box', mm.box(d if i % 2 else tuple(d), m), solid('box', d, m)), ('ellipsoid', mm.ellipsoid(tuple(d) if i % 2 else list(d), m), solid('ellipsoid', d, m)), ('sphere', mm.sphere(d[0], m), solid('sphere', zeros(3) + d[0], m)), ('cylinder', mm.cylinder(d[2], d[0], m), solid('cylinder', d, m))):
        E = c.matrix(); sc = np.abs(E[:3, :3]).max(); got = np.array(got, float)
        ctx.close(got[:3, :3], E[:3, :3], k, 'rotational inertia of a %s' % k, 1e-10, sc); ctx.close(got[3:, 3:], m*eye(3), k, 'mass of a %s' % k, 1e-12, m); ctx.close(got[:3, 3:], zeros((3, 3)), k, 'coupling', 1e-12, m*d.max()); ctx.close(got, got.T, k, 'symmetry', 1e-15, sc + m)
        T = rng.normal(size=6); ctx.close(.5*dot(T, dot(got, T)), c.energy(T), 'energy', 'kinetic energy of a %s' % k, 1e-9, c.energy(T)); ctx.ok(mm.ismassmatrix(got), 'recognised', k)
        e = np.linalg.eigvalsh(got[:3, :3]); ctx.ok(e[2] <= (e[0] + e[1])*(1 + 1e-9), 'physical', 'triangle inequality of %s' % k)

def cloud(ctx, rng):
    """Mass distribution with chosen principal moments, turned and shifted."""
    u = int(rng.integers(7)); m = 10.**rng.uniform(-3, 3)
    if u == 0: a = zeros(3) + rng.uniform(.01, 2); ctx.cls('equal-three')
    elif u == 1: a = array([1., 1., rng.uniform(.05, 1.9)])*rng.uniform(.05, 2); a = rng.permutation(a); ctx.cls('equal-two')
    elif u == 2: a = rng.uniform(.05, 2)*(1 + rng.normal(size=3)*10.**rng.uniform(-16, -5)); ctx.cls('nearly-equal')
    elif u == 3: a = rng.permutation(array([1., 1., rng.uniform(.3, 1.5)])); a = a*(1 + rng.normal(size=3)*10.**rng.uniform(-16, -8)); ctx.cls('nearly-equal')
    elif u == 4: a = rng.permutation(array([0., 1., rng.uniform(.3, 1.5)]))*rng.uniform(.1, 2); ctx.cls('planar')
    else: a = 10.**rng.uniform(-1.5, .5, 3)
    p = np.vstack([s*e*x for e, x in zip(eye(3), a) for s in (1, -1)]); k = 10.**rng.uniform(-1.5, 1)
    if rng.random() < .3: R = eye(3) if rng.random() < .5 else rodrigues(EX, 0)[:, rng.permutation(3)]; R = R if np.linalg.det(R) > 0 else -R; ctx.cls('aligned')
    else: R = rand_rot(rng); ctx.cls('turned')
    s = rng.choice([0., .3, 3., 10.**rng.uniform(-12, -2)]);
    if s == 3: ctx.cls('far')
    if m < .1: ctx.cls('tiny')
    if m > 10: ctx.cls('huge')
    c = Cloud(p*k, zeros(6) + m/6); return c.moved(hom(R, rng.normal(size=3)*s*k)), R

def moves(ctx, rng, i):
    c, _ = cloud(ctx, rng); M = c.matrix(); H, G = rand_H(rng), rand_H(rng)
    if rng.random() < .15: H[:3, 3] = rand_unit(rng)*10.**rng.uniform(-6, 5); ctx.cls('far-frame')
    M0, H0 = M.copy(), H.copy(); ctx.note(M=M); ctx.sig(M.tobytes())
    ctx.ok(mm.ismassmatrix(M), 'recognised', 'mass matrix of points', M=M)
    A = mm.transport(M, H); ctx.ok((M == M0).all() and (H == H0).all(), 'inputs-kept', 'transport modified its arguments'); sc = np.abs(M).max()*(1 + np.abs(H[:3, 3]).max())**2
    T = rng.normal(size=6); ctx.close(.5*dot(T, dot(A, T)), c.moved(hinv(H)).energy(T), 'transport-energy', 'kinetic energy after transport', 1e-10, sc*10)
    ctx.close(A, c.moved(hinv(H)).matrix(), 'transport-energy', 'mass matrix after transport', 1e-11, sc*3); ctx.close(mm.transport(A, G), mm.transport(M, dot(H, G)), 'compose', 'transport twice', 1e-10, sc*(1 + np.abs(G).max())**2*3)
    ctx.close(mm.transport(A, hinv(H)), M, 'undo', 'transport back', 1e-10, sc*(1 + np.abs(H).max())**2*3)
    for X, cc in ((M, c), (A, c.moved(hinv(H)))):
        X0 = X.copy(); P = np.array(mm.principalframe(X)); ctx.ok((X == X0).all(), 'inputs-kept', 'principalframe modified its argument')
        R = P[:3, :3]; L = 1 + np.abs(cc.pts).max(); I = np.abs(cc.matrix()[:3, :3]).max() + cc.mass*L*L*1e-6
        ctx.close(dot(R.T, R), eye(3), 'principal-rotation', 'orthonormal axes', 1e-11, M=X); ctx.close(np.linalg.det(R), 1., 'principal-rotation', 'right-handed', 1e-11, M=X); ctx.close(P[3], [0, 0, 0, 1.], 'principal-rotation', 'last row', 1e-15)
        ctx.close(P[:3, 3], cc.com, 'principal-com', 'centre of mass', 1e-13, np.abs(cc.pts).max() + norm(X[:3, 3:])/cc.mass, M=X); D = dot(Ad(P).T, dot(X, Ad(P))); Ic = np.abs(cc.moved(hinv(hom(None, cc.com))).matrix()[:3, :3]).max()
        ctx.close(D - np.diag(np.diag(D)), zeros((6, 6)), 'principal-diagonal', 'matrix in the principal frame', 1e-10, Ic + cc.mass*L*L*1e-2 + cc.mass*L*1e-1, M=X)
        if L < 3: ctx.ok(mm.ismassmatrix(mm.transport(X, P)), 'recognised', 'matrix in the principal frame')

def storage(ctx, rng, i):
    """The numbers matter, not how they are stored."""
    c, _ = cloud(ctx, rng); M, H = c.matrix(), rand_H(rng)
    if i % 2: M = np.diag(array([3, 4, 5, 1, 1, 1])*float(rng.integers(1, 9))); H = hom(np.round(rot(eye(3)[int(rng.integers(3))], np.pi/2*int(rng.integers(4)))[:3, :3]), rng.integers(-9, 10, 3).astype(float)); ctx.cls('integers')
    ctx.note(M=M, H=H); ctx.sig('s', M.tobytes()); A = dot(Ad(H).T, dot(M, Ad(H))); sc = np.abs(M).max()*(1 + np.abs(H[:3, 3]).max())**2; P = np.array(mm.principalframe(M))
    for what, m in forms(rng, M):
        k = m.copy(); ctx.ok(mm.ismassmatrix(m), 'recognised', 'mass matrix, %s' % what); Q = np.array(mm.principalframe(m)); D = dot(Ad(Q).T, dot(M, Ad(Q))); ctx.close(D - np.diag(np.diag(D)), zeros((6, 6)), 'storage', 'principal frame, %s' % what, 1e-9, np.abs(M).max())
        for w2, h in forms(rng, H): ctx.close(mm.transport(m, h), A, 'storage', 'transport, %s, %s' % (what, w2), 1e-11, sc)
        ctx.ok(np.array_equal(m, k), 'inputs-kept', 'argument modified, %s' % what)

def recognise(ctx, rng, i):
    c, _ = cloud(ctx, rng); M = c.matrix(); e = np.linalg.eigvalsh(M); ctx.ok(mm.ismassmatrix(M) and mm.ismassmatrix(M, semi=True), 'recognised', 'mass matrix', M=M); s = np.abs(M).max(); ctx.sig(M.round(9).tobytes())
    bad = M.copy(); a, b = [int(x) for x in rng.permutation(6)[:2]]; bad[a, b] += s*.01 + .01; ctx.ok(not mm.ismassmatrix(bad) and not mm.ismassmatrix(bad, semi=True), 'refused', 'asymmetric matrix', M=bad)
    k = int(rng.integers(3, 6)); bad = M.copy(); bad[k, k] *= 1.1; ctx.ok(not mm.ismassmatrix(bad) and not mm.ismassmatrix(bad, True), 'refused', 'different masses along the axes', M=bad)
    bad = M.copy(); p, q = [3 + int(x) for x in rng.permutation(3)[:2]]; bad[p, q] = bad[q, p] = M[5, 5]*rng.uniform(.05, .9)*rng.choice([-1, 1]); ctx.ok(not mm.ismassmatrix(bad) and not mm.ismassmatrix(bad, True), 'refused', 'masses which differ along oblique axes', M=bad)
    ctx.ok(not mm.ismassmatrix(-M) and not mm.ismassmatrix(-M, semi=True), 'refused', 'negative definite'); k = int(rng.integers(3)); bad = M - 1.2*dot(M, np.outer(eye(6)[k], eye(6)[k]).dot(M))/M[k, k]
    bad = M.copy(); bad[k, k] = -abs(bad[k, k]) - .01*s; ctx.ok(not mm.ismassmatrix(bad) and not mm.ismassmatrix(bad, semi=True), 'refused', 'indefinite matrix', M=bad)
    for f in (lambda X: mm.transport(X, eye(4)), mm.principalframe):
        for what, X in (('indefinite', bad), ('negative', -M), ('misshaped', M[:5, :5]), ('column missing', M[:, :5])): ctx.raises(Exception, lambda: f(X), 'refused', '%s matrix' % what)
    ctx.raises(Exception, lambda: mm.transport(M, 2*eye(4)), 'refused', 'transport by something else than a displacement'); ctx.raises(Exception, lambda: mm.principalframe(zeros((6, 6))), 'refused', 'principal frame of nothing')
    for sh in ((3, 3), (6, 5), (5, 6), (4, 4), (7, 7), (6,)): ctx.ok(not mm.ismassmatrix(eye(9)[:sh[0], :sh[-1]] if len(sh) > 1 else zeros(6)), 'refused', 'shape %s' % (sh,))
    # semi-definite ones
    m = 10.**rng.uniform(-2, 2); p = rng.normal(size=3)*rng.choice([0, .1, 1]); pm = Cloud([p], [m]).matrix(); ctx.cls('point-mass'); ctx.ok(mm.ismassmatrix(pm, semi=True), 'semi', 'point mass', M=pm)
    q = rng.normal(size=3); rod = Cloud([p - q, p + q], [m, m*rng.uniform(.2, 3)]).matrix(); ctx.cls('rod'); ctx.ok(mm.ismassmatrix(rod, semi=True), 'semi', 'two point masses', M=rod)
    ctx.ok(mm.ismassmatrix(zeros((6, 6)), semi=True) and not mm.ismassmatrix(zeros((6, 6))), 'semi', 'null matrix'); pm = Cloud([zeros(3)], [m]).matrix(); ctx.ok(not mm.ismassmatrix(pm), 'semi', 'a point mass is not positive definite')

MULT = 2
FAMILIES = [('storage', storage, 30, 2000), ('builders', builders, 250, 20000), ('moves', moves, 500, 50000), ('recognise', recognise, 200, 20000)]
