# -*- coding: utf-8 -*-
"""Independent reference model: rigid motions, elementary screws, trees, Newton-Euler.

Nothing here imports the code under test.
"""
import numpy as np
from numpy import array, zeros, ones, eye, dot, sin, cos
from numpy.linalg import norm

def skew(p):
    return array([[0., -p[2], p[1]], [p[2], 0., -p[0]], [-p[1], p[0], 0.]])

def rodrigues(axis, angle):
    a = np.asarray(axis, float) / norm(axis)
    K = skew(a)
    return eye(3) + sin(angle) * K + (1. - cos(angle)) * dot(K, K)

def hom(R=None, p=None):
    H = eye(4)
    if R is not None: H[:3, :3] = R
    if p is not None: H[:3, 3] = p
    return H

def rot(axis, angle): return hom(rodrigues(axis, angle))
def tra(p): return hom(None, p)
EX, EY, EZ = eye(3)

def hinv(H):
    return hom(H[:3, :3].T, -dot(H[:3, :3].T, H[:3, 3]))

def Ad(H):
    A = zeros((6, 6))
    A[:3, :3] = A[3:, 3:] = H[:3, :3]
    A[3:, :3] = dot(skew(H[:3, 3]), H[:3, :3])
    return A

def ad(T):
    A = zeros((6, 6))
    A[:3, :3] = A[3:, 3:] = skew(T[:3])
    A[3:, :3] = skew(T[3:])
    return A

def hat(T):
    M = zeros((4, 4)); M[:3, :3] = skew(T[:3]); M[:3, 3] = T[3:]
    return M

def vee(X):
    return array([X[2, 1] - X[1, 2], X[0, 2] - X[2, 0], X[1, 0] - X[0, 1], 2*X[0, 3], 2*X[1, 3], 2*X[2, 3]]) / 2.

def expm(M):
    """Scaling and squaring in extended precision."""
    M = np.asarray(M, np.longdouble)
    n = max(0, int(np.ceil(np.log2(max(float(np.abs(M).sum(1).max()), 1e-300)))) + 8)
    A = M / np.longdouble(2) ** n
    n_ = M.shape[0]
    # work on E = exp(A) - I to keep the small part accurate
    E = np.zeros((n_, n_), np.longdouble); term = np.eye(n_, dtype=np.longdouble)
    for k in range(1, 24):
        term = np.dot(term, A) / k
        E = E + term
    for _ in range(n):
        E = np.dot(E, E) + 2 * E
    return np.asarray(E + np.eye(n_), float)

def se3exp(T):
    """Closed form (sinc based), accurate at all angles."""
    w, v = np.asarray(T[:3], float), np.asarray(T[3:], float)
    t = norm(w); W = skew(w)
    if t < 0.1:
        t2 = t*t
        a = 1 - t2/6*(1 - t2/20*(1 - t2/42*(1 - t2/72)))
        b = .5*(1 - t2/12*(1 - t2/30*(1 - t2/56*(1 - t2/90))))
        c = 1./6*(1 - t2/20*(1 - t2/42*(1 - t2/72*(1 - t2/110))))
    else:
        a, b, c = sin(t)/t, (1 - cos(t))/t**2, (t - sin(t))/t**3
    WW = dot(W, W)
    return hom(eye(3) + a*W + b*WW, dot(eye(3) + b*W + c*WW, v))

# ------------------------------------------------------------------ joints
PRIM = {'Rx': array([1., 0, 0, 0, 0, 0]), 'Ry': array([0., 1, 0, 0, 0, 0]), 'Rz': array([0., 0, 1, 0, 0, 0]),
        'Tx': array([0., 0, 0, 1, 0, 0]), 'Ty': array([0., 0, 0, 0, 1, 0]), 'Tz': array([0., 0, 0, 0, 0, 1])}
JOINTS = {'FreeJoint': 'free', 'FixedJoint': [], 'RzRyRxJoint': ['Rz', 'Ry', 'Rx'], 'RzRyJoint': ['Rz', 'Ry'],
          'RzRxJoint': ['Rz', 'Rx'], 'RyRxJoint': ['Ry', 'Rx'], 'RzJoint': ['Rz'], 'RyJoint': ['Ry'],
          'RxJoint': ['Rx'], 'TxTyTzJoint': ['Tx', 'Ty', 'Tz'], 'TzJoint': ['Tz'], 'TyJoint': ['Ty'], 'TxJoint': ['Tx'],
          'UserJoint': ['Ty', 'Rz', 'Tx', 'Ry']}    # the last one is defined in arb.py, as a user would
LINEAR = sorted(k for k, v in JOINTS.items() if v != 'free' and len(v) > 0)

def jndof(jt): return 6 if JOINTS[jt] == 'free' else len(JOINTS[jt])

def joint_kin(jt, q, v):
    """pose, jacobian, djacobian of one joint (body twist of frame 1 w.r.t. frame 0)."""
    if JOINTS[jt] == 'free':
        return np.array(q, float), eye(6), zeros((6, 6))
    prims = JOINTS[jt]; n = len(prims)
    G, T = eye(4), zeros(6); frames = []
    for k in range(n):
        S = PRIM[prims[k]]
        E = se3exp(S * q[k])
        G = dot(G, E); T = dot(Ad(hinv(E)), T) + S * v[k]
        frames.append((S, G, T))
    J, dJ = zeros((6, n)), zeros((6, n))
    iG = hinv(G)
    for k, (S, Gk, Tk) in enumerate(frames):
        X = Ad(dot(iG, Gk))
        J[:, k] = dot(X, S)
        dJ[:, k] = -dot(ad(T - dot(X, Tk)), J[:, k])
    return G, J, dJ

# ------------------------------------------------------------------ bodies
class Cloud(object):
    """Mass distribution given as point masses, in the body frame."""
    def __init__(self, pts, ms):
        self.pts, self.ms = np.asarray(pts, float).reshape(-1, 3), np.asarray(ms, float)
    @property
    def mass(self): return float(self.ms.sum())
    @property
    def size(self): return float(np.abs(self.ms).sum())
    @property
    def com(self): return dot(self.ms, self.pts) / self.mass if self.mass > 0 else zeros(3)
    def matrix(self):
        M = zeros((6, 6))
        for p, m in zip(self.pts, self.ms):
            K = skew(p)
            M[:3, :3] -= m * dot(K, K); M[:3, 3:] += m * K; M[3:, :3] -= m * K; M[3:, 3:] += m * eye(3)
        return (M + M.T) / 2.
    def energy(self, T):
        if self.mass == 0.: T = np.append(T[:3], zeros(3))      # translation and rotation do not mix, and the former costs nothing
        return sum(.5 * m * norm(T[3:] + np.cross(T[:3], p))**2 for p, m in zip(self.pts, self.ms))
    def positions(self, H): return dot(self.pts, H[:3, :3].T) + H[:3, 3]
    def velocities(self, H, T):
        return dot(T[3:] + np.cross(T[:3], self.pts), H[:3, :3].T)
    def times(self, k, L=1.):
        """Other masses; what has no mass has exactly none."""
        ms = self.ms*k; return Cloud(self.pts*L, np.append(ms[:-1], -np.cumsum(ms[:-1])[-1]) if self.mass == 0. else ms)
    def moved(self, H):
        """Same solid described in another frame: points p -> H p."""
        return Cloud(self.positions(H), self.ms)

class Link(object):
    """One body and the joint that links it to its parent."""
    def __init__(self, name, parent, jt, q, v, H_pr, H_cn, cloud=None, visc=None, sub0=True, sub1=True):
        self.name, self.parent, self.jt = name, parent, jt
        self.q, self.v = np.array(q, float), np.array(v, float).reshape(-1)
        self.H_pr, self.H_cn, self.cloud, self.visc = np.array(H_pr, float), np.array(H_cn, float), cloud, visc
        self.sub0, self.sub1 = sub0, sub1
    def copy(self):
        return Link(self.name, self.parent, self.jt, self.q.copy(), self.v.copy(), self.H_pr, self.H_cn, self.cloud,
                    self.visc, self.sub0, self.sub1)

class Tree(object):
    """List of links; parents come first; children of a body are in list order."""
    def __init__(self, links):
        self.links = links
        self.index()
    def index(self):
        n = len(self.links); self.children = {i: [] for i in range(-1, n)}
        for i, l in enumerate(self.links): self.children[l.parent].append(i)
        self.order = []
        def rec(i):
            for c in self.children[i]:
                self.order.append(c); rec(c)
        rec(-1)
        self.dof, k = {}, 0
        for i in self.order:
            d = jndof(self.links[i].jt); self.dof[i] = slice(k, k + d); k += d
        self.ndof = k
    @property
    def v(self):
        r = zeros(self.ndof)
        for i in self.order: r[self.dof[i]] = self.links[i].v
        return r
    def ancestors(self, i):
        r = []
        while i >= 0: r.append(i); i = self.links[i].parent
        return r
    def copy(self): return Tree([l.copy() for l in self.links])
    def flow(self, t):
        """The tree after following constant generalized velocities during t."""
        r = self.copy()
        for l in r.links:
            if JOINTS[l.jt] == 'free': l.q = dot(l.q, se3exp(l.v * t))
            elif JOINTS[l.jt]: l.q = l.q + t * l.v
        return r
    def compute(self, v=None):
        """poses, twists, jacobians, jacobian rates of all bodies (index -1: ground)."""
        if v is None: v = self.v
        n = self.ndof
        K = dict(H={-1: eye(4)}, T={-1: zeros(6)}, J={-1: zeros((6, n))}, dJ={-1: zeros((6, n))}, path={-1: []})
        for i in self.order:
            l = self.links[i]; p = l.parent
            G = dot(K['H'][p], l.H_pr); T = dot(Ad(hinv(l.H_pr)), K['T'][p])
            path = list(K['path'][p]); d = self.dof[i].start
            vi = v[self.dof[i]]
            if JOINTS[l.jt] == 'free':
                G = dot(G, l.q); T = dot(Ad(hinv(l.q)), T) + vi
                for k in range(6): path.append((d + k, eye(6)[k], G, T))
            else:
                for k, a in enumerate(JOINTS[l.jt]):
                    E = se3exp(PRIM[a] * l.q[k])
                    G = dot(G, E); T = dot(Ad(hinv(E)), T) + PRIM[a] * vi[k]
                    path.append((d + k, PRIM[a], G, T))
            H = dot(G, hinv(l.H_cn)); Tb = dot(Ad(l.H_cn), T)
            J, dJ = zeros((6, n)), zeros((6, n)); iH = hinv(H)
            for (k, S, Gk, Tk) in path:
                X = Ad(dot(iH, Gk)); c = dot(X, S)
                J[:, k] = c; dJ[:, k] = -dot(ad(Tb - dot(X, Tk)), c)
            K['H'][i], K['T'][i], K['J'][i], K['dJ'][i], K['path'][i] = H, Tb, J, dJ, path
        return K
    def M(self, i):
        c = self.links[i].cloud
        return zeros((6, 6)) if c is None else c.matrix()
    def dynamics(self, K=None, v=None):
        """mass, viscosity matrices, bias forces h(q,v), and N matrix in the documented form."""
        if v is None: v = self.v
        if K is None: K = self.compute(v)
        n = self.ndof; Mg, B, N, h = zeros((n, n)), zeros((n, n)), zeros((n, n)), zeros(n)
        for i in self.order:
            l = self.links[i]; J, dJ, T = K['J'][i], K['dJ'][i], K['T'][i]
            if l.cloud is not None:
                M = l.cloud.matrix()
                Mg += dot(J.T, dot(M, J))
                h += dot(J.T, dot(M, dot(dJ, v)) - dot(ad(T).T, dot(M, T)))
                # documented body matrix: rotation about the centre of mass only
                c, m = l.cloud.com, l.cloud.mass
                W = skew(T[:3]); Nb = zeros((6, 6)); Nb[:3, :3] = W; Nb[3:, 3:] = W
                Nb[:3, 3:] = dot(skew(c), W) - dot(W, skew(c))
                N += dot(J.T, dot(M, dJ) + dot(dot(Nb, M), J))
            if l.visc is not None: B += dot(J.T, dot(l.visc, J))
        return dict(M=Mg, B=B, N=N, h=h, K=K)
    def kinetic(self, K=None):
        K = K or self.compute()
        return sum(l.cloud.energy(K['T'][i]) for i, l in enumerate(self.links) if l.cloud is not None)
    def potential(self, g, up, K=None):
        K = K or self.compute()
        return sum(g * dot(l.cloud.ms, dot(l.cloud.positions(K['H'][i]), up)) for i, l in enumerate(self.links) if l.cloud is not None and l.cloud.mass)
    def momentum(self, K=None):
        """linear and angular (about the ground origin) momentum of the point masses."""
        K = K or self.compute(); P, L = zeros(3), zeros(3)
        for i, l in enumerate(self.links):
            if l.cloud is None: continue
            x, u = l.cloud.positions(K['H'][i]), l.cloud.velocities(K['H'][i], K['T'][i])
            P += dot(l.cloud.ms, u); L += dot(l.cloud.ms, np.cross(x, u))
        return P, L
    def com(self, K=None, which=None):
        K = K or self.compute(); m, s = 0., zeros(3)
        for i, l in enumerate(self.links):
            if l.cloud is None or l.cloud.mass == 0. or (which is not None and i not in which): continue
            s += dot(l.cloud.ms, l.cloud.positions(K['H'][i])); m += l.cloud.mass
        return s / m, m

def rand_unit(rng, n=3):
    while True:
        a = rng.normal(size=n)
        if norm(a) > 1e-3: return a / norm(a)

def rand_rot(rng, special=.2):
    u = rng.random()
    if u < special:
        k = rng.integers(0, 4, 3)
        return dot(rodrigues(EZ, k[0]*np.pi/2), dot(rodrigues(EY, k[1]*np.pi/2), rodrigues(EX, k[2]*np.pi/2)))
    if u < special + .1: return rodrigues(rand_unit(rng), 10.**rng.uniform(-12, -2))
    if u < special + .2: return rodrigues(rand_unit(rng), np.pi - 10.**rng.uniform(-12, -2))
    q = rand_unit(rng, 4); w, x, y, z = q
    return array([[1-2*(y*y+z*z), 2*(x*y-z*w), 2*(x*z+y*w)], [2*(x*y+z*w), 1-2*(x*x+z*z), 2*(y*z-x*w)], [2*(x*z-y*w), 2*(y*z+x*w), 1-2*(x*x+y*y)]])

def rand_H(rng, scale=1., special=.2):
    u = rng.random()
    if u < .1: return eye(4)
    if u < .2: return tra(rand_p(rng) * scale)
    if u < .3: return hom(rand_rot(rng, special))
    return hom(rand_rot(rng, special), rand_p(rng) * scale)

def rand_p(rng):
    """A point, sometimes a tidy one (on an axis, in a plane, round numbers)."""
    return rng.integers(-2, 3, 3)*.5 if rng.random() < .15 else rng.normal(size=3)

def rand_cloud(rng, mass=None, size=.3, n=7):
    if mass is None and rng.random() < .1: return tidy_cloud(rng)
    m = 10.**rng.uniform(-1, 1.3) if mass is None else mass
    w = rng.uniform(.3, 1., n); w *= m / w.sum()
    return Cloud(rng.normal(size=(n, 3)) * size + rng.normal(size=3) * size * rng.integers(0, 2), w)

def tidy_cloud(rng):
    """Round numbers, so that moments are exactly equal, and products exactly zero, when they should."""
    d = 2.**rng.integers(-3, 0, 3)
    if rng.random() < .5: d[:] = d[0]
    u = rng.random(); o = zeros(3) if u < .4 else .25*rng.integers(-1, 2, 3) if u < .7 else .25*rng.choice([-1, 1], 3)
    return Cloud([s*d[k]*eye(3)[k] + o for k in range(3) for s in (-1, 1)], ones(6)*2.**int(rng.integers(-3, 2)))

def rand_q(rng, jt):
    if JOINTS[jt] == 'free': return rand_H(rng)
    q = array([rng.choice([0., np.pi/2, -np.pi/2, np.pi]) if rng.random() < .15 else
               (rng.uniform(-4, 4) if a[0] == 'R' else rng.normal()) for a in JOINTS[jt]])
    if rng.random() < .05:      # joints which made many turns, or went far
        for k, a in enumerate(JOINTS[jt]): q[k] *= 10.**rng.uniform(.5, 2.5 if a[0] == 'R' else 1.3)
    return q

def rand_visc(rng):
    A = rng.normal(size=(6, 6)); return dot(A, A.T) * 10.**rng.uniform(-2, 0)

def rand_tree(rng, n, types=None, p_massless=.15, p_visc=.3, vscale=1., size=.4, base=None, branch=.35, bare=0.):
    """Random mechanism. base: joint type of the first link (others never free unless in types)."""
    types = types or sorted(JOINTS)
    links = []
    for i in range(n):
        if i == 0: parent = -1
        elif rng.random() < branch: parent = int(rng.integers(-1, i)) if base is None else int(rng.integers(0, i))
        else: parent = i - 1
        jt = base if (i == 0 and base is not None) else str(rng.choice(types))
        sub0, sub1 = rng.random() < .6, rng.random() < .5
        links.append(Link('b%d' % i, parent, jt, rand_q(rng, jt), (rng.normal(size=jndof(jt)) if rng.random() < .85 else 1.*rng.integers(-1, 2, jndof(jt))) * vscale,
                          rand_H(rng, size) if sub0 else eye(4), rand_H(rng, size) if sub1 else eye(4),
                          None if rng.random() < p_massless else rand_cloud(rng, size=size*.7),
                          rand_visc(rng) if rng.random() < p_visc else None, sub0, sub1))
    par = set(l.parent for l in links); bare = rng.random() < bare
    for i, l in enumerate(links):       # last bodies have a mass, unless asked otherwise or fixed to one which has
        if i not in par and l.cloud is None and not bare and not (l.jt == 'FixedJoint' and l.parent >= 0 and links[l.parent].cloud is not None): l.cloud = rand_cloud(rng, size=size*.7)
    return Tree(links)
