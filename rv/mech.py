"""Shared workload helpers for mechanisms."""
from rv.arb import *
from numpy import ones
from rv.ref import *
import warnings

BIG = .02
def gen_tree(ctx, rng, lo=1, hi=7, **kw):
    n = int(rng.integers(lo, hi + 1))
    if hi >= 5 and rng.random() < BIG:      # mechanisms with many bodies, spread wide rather than deep
        n = int(rng.integers(13, 26)); kw = dict(kw, branch=.75, vscale=.5*kw.get('vscale', 1.)); count('worlds of many bodies')
    t = rand_tree(rng, n, **kw)
    ctx.note(tree=describe(t))
    ctx.sig(sig_tree(t), t.v.round(6).tobytes(), b''.join(np.round(l.q, 6).tobytes() for l in t.links))
    return t

def set_q(b, tree):
    for i, l in enumerate(tree.links):
        if l.jt != 'FixedJoint': b.joints[i].gpos = np.array(l.q, float)

def set_state(b, tree):
    set_q(b, tree)
    for i, l in enumerate(tree.links):
        if l.jt != 'FixedJoint': b.joints[i].gvel[:] = l.v

def cols(tree, b, X):
    """Reorder the columns of a matrix in world order to reference order."""
    R = zeros(X.shape)
    for i in tree.order: R[..., tree.dof[i]] = X[..., b.joints[i].dof]
    return R

def both(tree, b, X):
    return cols(tree, b, cols(tree, b, X).T).T if X.ndim == 2 else cols(tree, b, X)

def topo_order(rng, tree):
    """Random construction order, parents first."""
    left, done, out = list(range(len(tree.links))), {-1}, []
    while left:
        ok = [i for i in left if tree.links[i].parent in done]
        i = ok[int(rng.integers(len(ok)))]
        out.append(i); done.add(i); left.remove(i)
    return out

def kscale(tree, K):
    """Magnitude of the kinematics, for tolerances."""
    return 1 + max(np.abs(H[:3, 3]).max() for H in K['H'].values())

def well_posed(tree, K=None, cond=1e6):
    M = tree.dynamics(K)['M']
    if tree.ndof == 0: raise Skip()
    e = np.linalg.eigvalsh(M)
    if not e[0] > max(e[-1] / cond, 1e-10): raise Skip()
    return M

def tilt(ctx, rng, w, p=.4):
    """Another upward direction, the way the examples do it (the monitors read the one in force)."""
    if rng.random() >= p: return np.array(w.up, float)
    u = eye(3)[int(rng.integers(3))] if rng.random() < .5 else rng.normal(size=3); w.up[:] = u/norm(u); ctx.cls('other-up')
    return np.array(w.up, float)

def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)

# ------------------------------------------------------------------ special mass distributions
def rotor(rng):
    """A rotational inertia without mass (the geared rotor of a motor): pairs of points and the opposite mass in the middle."""
    R = eye(3) if rng.random() < .5 else rand_rot(rng); d = rng.uniform(.05, .5)*(ones(3) if rng.random() < .4 else array([1., 1., 2.]) if rng.random() < .5 else rng.uniform(.5, 2., 3)); m = 2.**int(rng.integers(-5, 4))
    return Cloud([s*d[k]*R[:, k] for k in range(3) for s in (-1, 1)] + [zeros(3)], np.append(ones(6)*m, -6*m))

def mass_kind(ctx, rng, l):
    """Replace the mass distribution of a link by a degenerate or special one."""
    if rng.random() < .12: l.cloud = rotor(rng); ctx.cls('rotor'); return
    u = rng.random(); m = 10.**rng.uniform(-2, 1.5); off = rng.normal(size=3)*.3*rng.integers(0, 2)
    if u < .2: l.cloud = Cloud([off], [m]); ctx.cls('point-mass')
    elif u < .35: a = rand_unit(rng)*rng.uniform(.05, .5); l.cloud = Cloud([off - a, off + a], [m/2, m/2]); ctx.cls('rod')
    elif u < .5:
        R = rand_rot(rng); d = rng.uniform(.05, .4)*(ones(3) if rng.random() < .5 else array([1., 1., 3.])); P = [dot(R, s*d[k]*eye(3)[k]) + off for k in range(3) for s in (-1, 1)]; l.cloud = Cloud(P, ones(6)*m/6); ctx.cls('equal-moments')
    elif u < .6: l.cloud = rand_cloud(rng, mass=m).moved(tra(rng.normal(size=3)*10)); ctx.cls('far')
    elif u < .8: l.cloud = tidy_cloud(rng); ctx.cls('tidy')
    else: ctx.cls('solid')

def rotors(ctx, rng, tree, p=.1):
    """Turn some bodies into rotational inertias without mass."""
    for l in tree.links:
        if l.cloud is not None and rng.random() < p: l.cloud = rotor(rng); ctx.cls('rotor')
    tree.index(); return tree

def special(ctx, rng, tree, p=.25):
    """Give some bodies a special mass distribution."""
    for l in tree.links:
        if l.cloud is not None and rng.random() < p: mass_kind(ctx, rng, l)
    tree.index(); return tree

# ------------------------------------------------------------------ change of units
class Units(object):
    """The same mechanism in other units: one metre is L new units of length, one kilogram M, one second T."""
    def __init__(self, L, M, T): self.L, self.M, self.T = L, M, T
    def hom(self, H): H = np.array(H, float); H[:3, 3] *= self.L; return H
    def dofs(self, jt): return ones(6)*[1, 1, 1, self.L, self.L, self.L] if JOINTS[jt] == 'free' else array([self.L if a[0] == 'T' else 1. for a in JOINTS[jt]])
    def u(self, t):
        r = ones(t.ndof)
        for i in t.order: r[t.dof[i]] = self.dofs(t.links[i].jt)
        return r
    def q(self, jt, q): return self.hom(q) if JOINTS[jt] == 'free' else np.asarray(q, float)*self.dofs(jt)
    def tree(self, t):
        r = t.copy(); D = array([self.L]*3 + [1.]*3)
        for l in r.links:
            l.q = self.q(l.jt, l.q); l.v = l.v*self.dofs(l.jt)/self.T; l.H_pr, l.H_cn = self.hom(l.H_pr), self.hom(l.H_cn)
            if l.cloud is not None: l.cloud = l.cloud.times(self.M, self.L)
            if l.visc is not None: l.visc = l.visc*np.outer(D, D)*self.M/self.T
        r.index(); return r
    def inertia(self, t, X):
        """A generalized inertia read in the new units, back in the first ones."""
        u = self.u(t); return X*np.outer(u, u)/(self.M*self.L**2)
    def force(self, t, f): return f*self.u(t)/(self.M*self.L**2)*self.T**2
    def vel(self, t, v): return v/self.u(t)*self.T

def rand_units(ctx, rng, wide=1.):
    U = Units(*10.**(rng.uniform(-1, 1, 3)*array([2., 7., 2.])*wide))
    if np.ndim(wide) == 0 and wide > 1 and rng.random() < .4: U.L = 10.**rng.uniform(-10, 8)       # only lengths and speeds: nothing may depend on their magnitude
    ctx.note(units=[U.L, U.M, U.T]); ctx.sig('units', U.L)
    ctx.cls('light' if U.M < 1e-4 else 'heavy' if U.M > 1e4 else 'ordinary'); ctx.cls('small' if U.L < .1 else 'large' if U.L > 10 else 'human size')
    return U

def in_units(ctx, rng, what):
    """Poses, twists, jacobians or rates of the same motion in other units (microscopic to huge sizes, fast to slow)."""
    tree = special(ctx, rng, gen_tree(ctx, rng, 1, 6, bare=.4)); U = rand_units(ctx, rng, 2.); t2 = U.tree(tree); b = build(t2, order=topo_order(rng, tree)); w = b.world; sf = []
    for k in range(-1, len(tree.links)):
        H = rand_H(rng, .5); u = rng.random(); f = (core.SubFrame if u < .6 else core.MovingSubFrame)(b.bodies[k], U.hom(H if u < .8 else rand_H(rng)))
        if u >= .8: f.bpose = U.hom(H)
        sf.append((f, k, H)); sf.append((b.bodies[k], k, eye(4)))
    for k, l in enumerate(tree.links): sf.append((b.f0[k], l.parent, l.H_pr)); sf.append((b.f1[k], k, l.H_cn))
    w.update_dynamic(); K = tree.compute(); v = tree.v; s = kscale(tree, K)**2*(1 + np.abs(v).max(initial=0.))*len(tree.links)*10; u = U.u(tree); D = array([1.]*3 + [U.L]*3)
    for f, k, H in sf:
        A = Ad(hinv(H)); n = 'frame on body %d' % k
        if what == 'pose':
            P = np.array(f.pose); P[:3, 3] /= U.L; ctx.close(P, dot(K['H'][k], H), 'units', n, 1e-9, s)
        elif what == 'twist':
            ctx.close(f.twist*U.T/D, dot(A, K['T'][k]), 'units', n, 1e-9, s); ctx.close(cols(t2, b, f.jacobian)*u/D[:, None], dot(A, K['J'][k]), 'units', 'jacobian, ' + n, 1e-9, s)
        elif not isinstance(f, core.MovingSubFrame):
            ctx.close(cols(t2, b, f.djacobian)*u/D[:, None]*U.T, dot(A, K['dJ'][k]), 'units', 'rate, ' + n, 1e-9, s)
