"""P03: exponential map and adjacency."""
from rv.arb import *
from rv.ref import *
import arboris.twistvector as tv

RULE = 'twists with angle from 0 to 50 rad (log-uniform, dense around the small-angle switch), linear part 0..1e3, any pitch; distinct by twist'
MONITORS = ['matrix-exponential', 'rigid', 'group-law', 'inverse', 'continuity', 'adjacency', 'flow', 'storage']

def twist(rng):
    u = rng.random()
    if u < .3: t = 10.**rng.uniform(-4, -2)
    elif u < .4: t = 1e-3 * (1 + rng.choice([-1, 1]) * 10.**rng.uniform(-15, -1))
    elif u < .6: t = 10.**rng.uniform(-12, -3)
    elif u < .85: t = rng.uniform(0, 4)
    elif u < .95: t = rng.uniform(0, 50)
    else: t = 0.
    w = rand_unit(rng) if rng.random() < .7 else eye(3)[int(rng.integers(3))] * rng.choice([-1, 1])
    v = rng.normal(size=3) * 10.**rng.uniform(-3, 3)
    if rng.random() < .1: v = zeros(3)
    if rng.random() < .1: v = w * norm(v)
    if rng.random() < .1: v = np.cross(w, v)
    return np.hstack((w*t, v))

def tol_for(T):
    """Truncation of the documented small-angle series, plus rounding: (rotation, translation)."""
    t, v = norm(T[:3]), norm(T[3:])
    return 3e-14 * (1 + t), (1e-12 if t < 2e-2 else 1e-13*(1 + t)) * (1e-12 + v)

def same(ctx, got, ref, T, monitor, msg, k=1.):
    r, p = tol_for(T)
    ctx.close(got[:3, :3], ref[:3, :3], monitor, msg + ' (rotation)', k*r, 1.)
    ctx.close(got[:3, 3], ref[:3, 3], monitor, msg + ' (translation)', k, p)
    ctx.close(got[3], [0, 0, 0, 1], monitor, msg + ' (last row)', 1e-15)

def exponential(ctx, rng, i):
    for _ in range(40):
        T = twist(rng); ctx.note(T=T); ctx.sig(T.tobytes())
        keep = T.copy()
        t = norm(T[:3])
        ctx.cls('small angle' if t < 1e-3 else 'large angle')
        H = tv.exp(T)
        ctx.ok((T == keep).all(), 'rigid', 'argument modified')
        same(ctx, H, se3exp(T), T, 'matrix-exponential', 'exp, closed form')
        if _ < 8: same(ctx, H, expm(hat(T)), T, 'matrix-exponential', 'exp, series', 2.)
        ctx.close(dot(H[:3, :3].T, H[:3, :3]), eye(3), 'rigid', 'orthonormal', 3e-14*(1+t))
        ctx.close(np.linalg.det(H[:3, :3]), 1., 'rigid', 'determinant', 3e-14*(1+t))
        same(ctx, tv.exp(-T), hinv(H), T, 'inverse', 'exp(-T)', 2.)
        a = rng.uniform(-1, 1)
        same(ctx, dot(tv.exp(a*T), tv.exp((1-a)*T)), H, 4*T, 'group-law', 'exp(aT)exp((1-a)T)', 4.)
        # flow: derivative of exp(sT) is exp(sT) hat(T)
        if t < 10:
            h = 1e-3 if t < .05 else 1e-5 / (1 + t)
            fd = (tv.exp((1+h)*T) - tv.exp((1-h)*T)) / (2*h)
            ctx.close(fd, dot(H, hat(T)), 'flow', 'derivative along the flow', 1e-6, (1 + t)**3 * (1 + norm(T[3:])))
        # an independent displacement is carried to its conjugate
        X = rand_H(rng)
        ctx.close(tv.exp(dot(Ad(X), T)), dot(X, dot(H, hinv(X))), 'group-law', 'conjugation', 1e-9, (1+norm(T[3:]))*(1+norm(X[:3, 3]))**2)

def continuity(ctx, rng, i):
    """Scan of the angle across decades: no jump larger than the motion itself."""
    w, v = rand_unit(rng), rng.normal(size=3)
    prev = None
    for t in np.logspace(-5, -1, 200) * (1 + rng.uniform(0, .01)):
        T = np.hstack((w*t, v)); H = tv.exp(T)
        ref = se3exp(T)
        ctx.sig(T.tobytes())
        if prev is not None:
            dH, dref = H - prev[0], ref - prev[1]
            ctx.close(dH, dref, 'continuity', 'jump across angle %g' % t, 2e-10, 1 + norm(v))
        prev = (H, ref)

def bracket(ctx, rng, i):
    for _ in range(30):
        A, B, C = rng.normal(size=6)*10.**rng.uniform(-2, 2), rng.normal(size=6), rng.normal(size=6)
        ctx.sig(A.tobytes())
        ctx.note(A=A, B=B)
        s = (1+norm(A))*(1+norm(B))
        adA = tv.adjacency(A)
        ctx.close(adA, ad(A), 'adjacency', 'adjacency', 1e-15)
        ctx.close(hat(dot(adA, B)), dot(hat(A), hat(B)) - dot(hat(B), hat(A)), 'adjacency', 'Lie bracket', 1e-12, s)
        ctx.close(dot(adA, B), -dot(tv.adjacency(B), A), 'adjacency', 'antisymmetric', 1e-12, s)
        ctx.close(dot(adA, A), zeros(6), 'adjacency', 'own bracket', 1e-12, s**2)
        T = A / (1 + norm(A))
        ctx.close(Hg.adjoint(tv.exp(T)), expm(tv.adjacency(T)), 'adjacency', 'Ad(exp T) = exp(ad T)', 1e-9)
        h = 1e-6
        ctx.close((Hg.adjoint(tv.exp(h*T)) - Hg.adjoint(tv.exp(-h*T)))/(2*h), tv.adjacency(T), 'adjacency', 'derivative of Ad', 1e-7)

def storage(ctx, rng, i):
    """The numbers matter, not how they are stored."""
    for _ in range(5):
        T = rng.integers(-4, 5, 6).astype(float) if i % 2 else twist(rng)
        if i % 2 and rng.random() < .3: T[:3] = 0
        ctx.note(T=T); ctx.sig('s', T.tobytes())
        for what, t in forms(rng, T): k = t.copy(); ctx.cls(what); same(ctx, tv.exp(t), se3exp(T), T, 'storage', 'exp, ' + what); ctx.close(tv.adjacency(t), ad(T), 'storage', 'adjacency, ' + what, 1e-15); ctx.ok(np.array_equal(t, k), 'storage', 'argument modified, ' + what)

CLASSES = ['small angle', 'large angle', 'integers', 'strided', 'read-only']
FAMILIES = [('storage', storage, 30, 900), ('exp', exponential, 150, 6000), ('continuity', continuity, 30, 1500), ('bracket', bracket, 60, 2500)]
