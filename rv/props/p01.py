"""P01: rigid-motion algebra."""
from rv.arb import *
from rv.ref import *
import arboris.homogeneousmatrix as Hg, arboris.adjointmatrix as Adm, arboris.twistvector as tv

RULE = 'random displacements (special, tiny, half-turn and generic rotations; translations 1e-6..1e6), points and twists; every case is a distinct displacement pair'
MONITORS = ['inverse', 'compose', 'points', 'adjoint', 'adjoint-product', 'adjoint-inverse', 'conjugation', 'dadjoint', 'recognise', 'refuse', 'storage']

def gen_H(rng):
    H = rand_H(rng, 10.**rng.uniform(-6, 6))
    for _ in range(int(rng.integers(0, 3)) if rng.random() < .4 else 0):
        H = dot(H, rand_H(rng, 10.**rng.uniform(-3, 3)))
    return H

def algebra(ctx, rng, i):
    for _ in range(20):
        A, B = gen_H(rng), gen_H(rng)
        ctx.note(A=A, B=B); ctx.sig(A.round(9).tobytes())
        s = 1 + max(np.abs(A).max(), np.abs(B).max()); s2 = s*s
        keep = A.copy()
        iA = Hg.inv(A)
        ctx.close(iA, hinv(A), 'inverse', 'inv', 1e-13, s)
        ctx.close(dot(iA, A), eye(4), 'inverse', 'inv(H) H', 1e-12, s)
        ctx.close(dot(A, iA), eye(4), 'inverse', 'H inv(H)', 1e-12, s)
        ctx.close(Hg.inv(iA), A, 'inverse', 'inv(inv(H))', 1e-12, s)
        AB = dot(A, B)
        ctx.close(Hg.inv(AB), dot(Hg.inv(B), iA), 'compose', 'inv(AB)', 1e-12, s2)
        p = rng.normal(size=3) * 10.**rng.uniform(-3, 3); v = rng.normal(size=3) * 10.**rng.uniform(-3, 3)
        sp = s * (1 + np.abs(p).max())
        ctx.close(Hg.pdot(A, p), A[:3, :3].dot(p) + A[:3, 3], 'points', 'pdot', 1e-12, sp)
        ctx.close(Hg.vdot(A, v), A[:3, :3].dot(v), 'points', 'vdot', 1e-12, 1 + np.abs(v).max())
        ctx.close(Hg.pdot(iA, Hg.pdot(A, p)), p, 'points', 'pdot undone', 1e-12, sp)
        ctx.close(Hg.vdot(iA, Hg.vdot(A, v)), v, 'points', 'vdot undone', 1e-12, 1 + np.abs(v).max())
        ctx.close(Hg.pdot(A, Hg.pdot(B, p)), Hg.pdot(AB, p), 'compose', 'pdot(A, pdot(B, p))', 1e-12, s2*(1+np.abs(p).max()))
        AdA, AdB = Hg.adjoint(A), Hg.adjoint(B)
        ctx.close(AdA, Ad(A), 'adjoint', 'adjoint', 1e-12, s)
        ctx.close(dot(AdA, AdB), Hg.adjoint(AB), 'adjoint-product', 'Ad(A)Ad(B)', 1e-12, s2)
        ctx.close(Hg.iadjoint(A), Ad(hinv(A)), 'adjoint-inverse', 'iadjoint', 1e-12, s)
        ctx.close(dot(Hg.iadjoint(A), AdA), eye(6), 'adjoint-inverse', 'iadjoint Ad', 1e-12, s2)
        ctx.close(Adm.inv(AdA), Ad(hinv(A)), 'adjoint-inverse', 'adjointmatrix.inv', 1e-12, s)
        T = rng.normal(size=6)
        ctx.close(hat(dot(AdA, T)), dot(A, dot(hat(T), hinv(A))), 'conjugation', 'hat(Ad T)', 1e-12, s*10)
        dAd = Hg.dAdjoint(AdA, T)
        ctx.close(dAd, dot(Ad(A), ad(T)), 'dadjoint', 'dAdjoint', 1e-12, 10*s)
        h = 1e-5
        fd = (Ad(dot(A, se3exp(h*T))) - Ad(dot(A, se3exp(-h*T)))) / (2*h)
        ctx.close(dAd, fd, 'dadjoint', 'dAdjoint vs finite difference', 1e-6, 10*s*(1+norm(T))**3)
        ctx.ok((A == keep).all(), 'inverse', 'argument modified')

def predicates(ctx, rng, i):
    for _ in range(20):
        A = gen_H(rng); ctx.note(A=A); ctx.sig('p', A.round(9).tobytes())
        ctx.ok(bool(Hg.ishomogeneousmatrix(A)), 'recognise', 'displacement not recognised', A=A)
        ctx.ok(bool(Hg.ishomogeneousmatrix(Hg.inv(A))), 'recognise', 'inverse not recognised')
        ctx.ok(bool(Adm.isadjointmatrix(Hg.adjoint(A))), 'recognise', 'adjoint not recognised', A=A)
        ctx.ok(bool(Adm.isadjointmatrix(Adm.inv(Hg.adjoint(A)))), 'recognise', 'inverse adjoint not recognised')
        bad = []
        k = 10.**rng.uniform(-6, 1) * rng.choice([-1, 1]); 
        B = A.copy(); B[:3, :3] *= 1 + k if abs(1+k) > 1e-3 else 2.; bad.append(('scaled', B))
        B = A.copy(); B[:3, int(rng.integers(3))] *= -1; bad.append(('mirror', B))
        B = A.copy(); B[3, int(rng.integers(3))] = k; bad.append(('last row', B))
        B = A.copy(); B[3, 3] = 1 + k; bad.append(('corner', B))
        bad.append(('3x4', A[:3])); bad.append(('3x3', A[:3, :3])); bad.append(('5x5', np.eye(5)))
        for what, B in bad:
            ctx.ok(not Hg.ishomogeneousmatrix(B), 'refuse', '%s accepted' % what, B=B)
            for f in (Hg.inv, Hg.adjoint, Hg.iadjoint, Hg.rotzyx_angles, lambda X: Hg.pdot(X, zeros(3)), lambda X: Hg.vdot(X, zeros(3))):
                ctx.raises(Exception, lambda: f(B), 'refuse', '%s accepted by %s' % (what, getattr(f, '__name__', f)))
        X = Hg.adjoint(A)
        bad = []
        B = X.copy(); B[:3, :3] *= 1 + k if abs(1+k) > 1e-3 else 2.; B[3:, 3:] = B[:3, :3]; bad.append(('scaled', B))
        B = X.copy(); B[:3, :3] = -B[:3, :3]; B[3:, 3:] = B[:3, :3]; bad.append(('mirror', B))
        B = X.copy(); B[3:, 3:] = dot(rodrigues(rand_unit(rng), .1 + rng.random()), B[3:, 3:]); bad.append(('blocks differ', B))
        B = X.copy(); B[int(rng.integers(3)), 3 + int(rng.integers(3))] = k; bad.append(('upper block', B))
        bad.append(('4x4', eye(4)))
        for what, B in bad:
            ctx.ok(not Adm.isadjointmatrix(B), 'refuse', 'adjoint: %s accepted' % what, B=B)

def storage(ctx, rng, i):
    """The numbers matter, not how they are stored: memory layout, read-only arrays, whole numbers."""
    for _ in range(4):
        if i % 2: H = hom(np.round(rot(eye(3)[int(rng.integers(3))], np.pi/2*int(rng.integers(4)))[:3, :3]), rng.integers(-9, 10, 3).astype(float)); ctx.cls('whole numbers'); p = rng.integers(-9, 10, 3).astype(float); T = rng.integers(-9, 10, 6).astype(float)
        else: H = gen_H(rng); p = rng.normal(size=3); T = rng.normal(size=6)
        X = Ad(H); ctx.note(H=H, p=p, T=T); ctx.sig('s', H.round(9).tobytes()); s = 1 + np.abs(H).max()
        for what, A in forms(rng, H):
            k = A.copy()
            ctx.close(Hg.inv(A), hinv(H), 'storage', 'inv, %s' % what, 1e-13, s); ctx.close(Hg.adjoint(A), X, 'storage', 'adjoint, %s' % what, 1e-12, s); ctx.close(Hg.iadjoint(A), Ad(hinv(H)), 'storage', 'iadjoint, %s' % what, 1e-12, s)
            ctx.ok(bool(Hg.ishomogeneousmatrix(A)), 'storage', 'not recognised, %s' % what)
            for w2, q in forms(rng, p):
                ctx.close(Hg.pdot(A, q), H[:3, :3].dot(p) + H[:3, 3], 'storage', 'pdot, %s, %s' % (what, w2), 1e-12, s*(1 + np.abs(p).max())); ctx.close(Hg.vdot(A, q), H[:3, :3].dot(p), 'storage', 'vdot, %s, %s' % (what, w2), 1e-12, 1 + np.abs(p).max())
            ctx.ok(np.array_equal(A, k), 'storage', 'argument modified, %s' % what)
        for what, A in forms(rng, X):
            ctx.close(Adm.inv(A), Ad(hinv(H)), 'storage', 'adjointmatrix.inv, %s' % what, 1e-12, s); ctx.ok(bool(Adm.isadjointmatrix(A)), 'storage', 'not recognised, %s' % what)
            for w2, t in forms(rng, T): ctx.close(Hg.dAdjoint(A, t), dot(X, ad(T)), 'storage', 'dAdjoint, %s, %s' % (what, w2), 1e-12, s*(1 + norm(T)))

CLASSES = ['whole numbers']
FAMILIES = [('storage', storage, 20, 600), ('algebra', algebra, 150, 6000), ('predicates', predicates, 20, 600)]
