"""P04: joint kinematics."""
from rv.arb import *
from rv.ref import *

RULE = 'each of the 13 joint types, random and special coordinates and velocities; distinct by type, coordinates and velocity'
MONITORS = ['pose', 'twist', 'jacobian', 'djacobian', 'jacobian-fd', 'djacobian-fd', 'inverse', 'adjoint', 'rate', 'ndof']
TYPES = sorted(set(JOINTS) - {'UserJoint'})

def mk(jt, q, v):
    c = getattr(joints, jt)
    return c() if jt == 'FixedJoint' else c(gpos=np.array(q, float), gvel=np.array(v, float))

def moved(jt, q, v, t):
    if JOINTS[jt] == 'free': return dot(q, se3exp(v*t))
    return q + t*v if len(JOINTS[jt]) else q

def one(ctx, rng, i):
    jt = TYPES[i % len(TYPES)]
    for _ in range(12):
        q = rand_q(rng, jt); n = jndof(jt)
        v = rng.normal(size=n) * 10.**rng.uniform(-2, 1) if rng.random() < .9 else zeros(n)
        ctx.note(joint=jt, q=q, v=v); ctx.sig(jt, np.round(q, 9).tobytes(), np.round(v, 9).tobytes())
        ctx.cls(jt)
        j = mk(jt, q, v)
        G, J, dJ = joint_kin(jt, q, v)
        s = 1 + np.abs(G).max(); sv = 1 + (np.abs(v).max() if n else 0); s2 = s*s*sv*10
        T = dot(J, v) if n else zeros(6)
        ctx.ok(j.ndof == n, 'ndof', '%s ndof %s' % (jt, j.ndof))
        ctx.close(j.pose, G, 'pose', jt, 1e-13, s)
        ctx.close(j.jacobian, J, 'jacobian', jt, 1e-13, s)
        ctx.close(j.djacobian, dJ, 'djacobian', jt, 1e-13, s2)
        ctx.close(j.twist, T, 'twist', jt, 1e-13, s2)
        if n: ctx.close(dot(j.jacobian, v), j.twist, 'twist', jt + ' J v', 1e-13, s2)
        # finite differences of the observed pose and jacobian along the motion
        h = 1e-5 / sv
        jp, jm = mk(jt, moved(jt, q, v, h), v), mk(jt, moved(jt, q, v, -h), v)
        fd = vee(dot(hinv(j.pose), (jp.pose - jm.pose) / (2*h)))
        ctx.close(fd, j.twist, 'jacobian-fd', jt + ' twist vs pose', 1e-7, s2*sv*sv)
        ctx.close((jp.jacobian - jm.jacobian)/(2*h), j.djacobian, 'djacobian-fd', jt, 1e-7, s2*sv*sv)
        for k in range(n):
            e = zeros(n); e[k] = 1.
            jp, jm = mk(jt, moved(jt, q, e, 1e-5), v), mk(jt, moved(jt, q, e, -1e-5), v)
            ctx.close(vee(dot(hinv(j.pose), (jp.pose - jm.pose)/2e-5)), j.jacobian[:, k], 'jacobian-fd', jt + ' column %d' % k, 1e-7, s)
        # derived quantities
        iG = hinv(G)
        ctx.close(j.ipose, iG, 'inverse', 'ipose', 1e-13, s)
        iT = -dot(Ad(G), T)
        ctx.close(j.itwist, ITW(G, T), 'inverse', 'itwist', 1e-12, s2)
        ctx.close(j.adjoint, Ad(G), 'adjoint', 'adjoint', 1e-13, s)
        ctx.close(j.iadjoint, Ad(iG), 'adjoint', 'iadjoint', 1e-13, s)
        ctx.close(j.adjacency, ad(T), 'adjoint', 'adjacency', 1e-13, s2)
        ctx.close(j.iadjacency, ad(ITW(G, T)), 'adjoint', 'iadjacency', 1e-12, s2)
        ctx.close(j.dadjoint, dot(Ad(G), ad(T)), 'rate', 'dadjoint', 1e-12, s2*s)
        ctx.close(j.idadjoint, RATE(G, T), 'rate', 'idadjoint', 1e-12, s2*s2)

def ITW(G, T): return -dot(Ad(G), T)
def RATE(G, T): return -dot(ad(T), Ad(hinv(G)))   # d/dt Ad(G^-1) when G' = G hat(T)

CLASSES = TYPES
FAMILIES = [('joint', one, 130, 6000)]
