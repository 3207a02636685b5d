"""P36: iCub."""
from rv.mech import *
from rv.props.p34 import box_cloud, solid
import json, os
import arboris.shapes as shp
from arboris.massmatrix import ismassmatrix
ic = mod('arboris.robots.icub')
REF = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'icub.json')))

RULE = 'all combinations of fixed or floating base, shapes and contacts, random and mirrored postures and velocities, random base motions; distinct by options and posture'
MONITORS = ['structure', 'tables', 'tables-fresh', 'limits', 'torques', 'kinematics', 'inertia', 'valid-inertia', 'total-mass', 'shapes', 'contacts', 'variants', 'fixed-is-held', 'mirror-poses', 'mirror-inertia', 'mirror-shapes', 'mirror-energy', 'dh']
CLASSES = ['fixed', 'floating', 'shapes', 'contacts', 'bare', 'other-robot']
S4 = np.diag([1., -1, 1, 1])
FLIPPED = ('torso_roll', 'torso_yaw', 'head_roll', 'head_yaw')

def cloud(solids):
    P, M = [], []
    for d, m, H in solids:
        c = box_cloud(d, m) if len(d) == 3 else solid(d[1]**2/4., d[1]**2/4., d[0]**2/12., m) if len(d) == 2 else solid(*[d[0]**2/5.]*3, m)
        c = c.moved(array(H)); P.append(c.pts); M.append(c.ms)
    return Cloud(np.concatenate(P), np.concatenate(M))

def ref_tree(fixed):
    """Reference tree: published kinematics and inertia, joints in the order of the table."""
    links, idx = [], {'waist': -1}
    if not fixed: links.append(Link('waist', -1, 'FreeJoint', eye(4), zeros(6), eye(4), eye(4), cloud(REF['bodies']['waist']))); idx['waist'] = 0
    left = dict(REF['joints'])
    while left:
        for n, (p, H, c) in list(left.items()):
            if p in idx: idx[c] = len(links); links.append(Link(c, idx[p], 'RzJoint', [0.], [0.], array(H), eye(4), cloud(REF['bodies'][c]))); left.pop(n)
    return Tree(links), idx

class Robot(object):
    def __init__(self, ctx, w, fixed, **kw):
        self.w, self.fixed = w, fixed; ic.add(w, is_fixed=fixed, **kw); self.tree, self.idx = ref_tree(fixed); J, B = w.getjoints(), w.getbodies()
        self.body = {n: (w.ground if fixed and n == 'waist' else B[n]) for n in REF['bodies']}; self.joint = {n: J[n] for n in REF['joints']}
        if not fixed: self.joint['root'] = J['root']
        self.jk = {n: self.idx[REF['joints'][n][2]] for n in REF['joints']}
        if not fixed: self.jk['root'] = 0
        for n, (p, H, c) in REF['joints'].items():
            j = self.joint[n]; ctx.ok(type(j).__name__ == 'RzJoint' and j.frame0.body is self.body[p] and j.frame1 is self.body[c], 'structure', 'joint %s' % n)
        if not fixed: ctx.ok(type(J['root']).__name__ == 'FreeJoint' and J['root'].frame1 is self.body['waist'] and J['root'].frame0 is w.ground, 'structure', 'root')
    def set(self, P):
        for n, (q, v) in P.items():
            if n in self.joint: l = self.tree.links[self.jk[n]]; l.q, l.v = np.array(q, float), np.array(v, float); self.joint[n].gpos = l.q.copy(); self.joint[n].gvel[:] = l.v

def rand_posture(rng, small=False):
    P = {n: (rng.uniform(*np.deg2rad(REF['limits'][n]), size=1), rng.normal(size=1)) for n in REF['joints']}; P['root'] = (rand_H(rng), rng.normal(size=6)); return P

def com_inertia(b):
    M = b.mass; m = M[5, 5]; K = M[:3, 3:] / m; c = array([K[2, 1], K[0, 2], K[1, 0]]); return c, m, M[:3, :3] + m * dot(skew(c), skew(c))
def other(n): return {'l': 'r', 'r': 'l'}[n[0]] + n[1:] if n[:2] in ('l_', 'r_') or n in REF['contacts'] else n

def model(ctx, rng, i):
    fixed, sh, co = bool(i & 1), bool(i & 2), bool(i & 4); ctx.cls('fixed' if fixed else 'floating')
    if sh: ctx.cls('shapes')
    if co: ctx.cls('contacts')
    if not sh and not co: ctx.cls('bare')
    w = core.World(); before = 0
    if rng.random() < .3: mod('arboris.robots.simplearm').add_simplearm(w); ctx.cls('other-robot'); before = 3
    kw = dict(create_shapes=said(rng, sh), create_contacts=said(rng, co)); fixed = said(rng, fixed)
    if sh and rng.random() < .5: kw.pop('create_shapes')
    if co and rng.random() < .5: kw.pop('create_contacts')
    R = Robot(ctx, w, fixed, **kw); nb = len(REF['bodies']); ctx.ok(len(list(w.iterbodies())) == nb + before + (0 if fixed else 1) and len(list(w.iterjoints())) == 32 + before + (0 if fixed else 1) and w.ndof == 32 + before + (0 if fixed else 6), 'structure', '%d bodies, %d dof' % (len(list(w.iterbodies())), w.ndof))
    P = rand_posture(rng) if i >= 8 else {n: (eye(4), zeros(6)) if n == 'root' else ([0.], [0.]) for n in list(REF['joints']) + ['root']}
    R.set(P); w.update_dynamic(); K = R.tree.compute(); s = kscale(R.tree, K)
    for n, b in R.body.items():
        k = R.idx[n]; ctx.close(b.pose, K['H'][k], 'kinematics', n, 1e-10, s)
        ctx.close(b.twist, K['T'][k], 'kinematics', 'twist of ' + n, 1e-9, 1 + np.abs(K['T'][k]).max())
        if fixed and n == 'waist': continue
        M = R.tree.M(k); ctx.close(b.mass, M, 'inertia', n, 1e-11, np.abs(M).max()); ctx.ok(ismassmatrix(b.mass), 'valid-inertia', n); e = np.linalg.eigvalsh(com_inertia(b)[2]); ctx.ok(e[0] > 0 and e[2] <= (e[0] + e[1]) * (1 + 1e-9), 'valid-inertia', 'moments of %s' % n)
    tot = sum(m for n, l in REF['bodies'].items() for _, m, _ in l if not (fixed and n == 'waist')); ctx.close(sum(b.mass[5, 5] for n, b in R.body.items()), tot, 'total-mass', 'total mass', 1e-12, tot)
    # mass matrix of the mechanism
    D = R.tree.dynamics(K); perm = np.concatenate([np.arange(R.tree.dof[R.jk[n]].start, R.tree.dof[R.jk[n]].stop) for n in R.joint]).astype(int); cols_ = np.concatenate([np.arange(j.dof.start, j.dof.stop) for j in R.joint.values()]).astype(int)
    ctx.close(w.mass[np.ix_(cols_, cols_)], D['M'][np.ix_(perm, perm)], 'inertia', 'mass matrix of the robot', 1e-9)
    # shapes
    E = []
    if sh:
        for n, l in REF['bodies'].items(): E += [(n + '.body_shape', n, d, array(H), 'shapes') for d, _, H in l]
        E += [('head.body_shape', 'head', [.02], tra([x, -.054, .0825]), 'shapes') for x in (-.034, .034)]
    if co: E += [(n, b, d, array(H), 'contacts') for n, (b, d, H) in REF['contacts'].items()]
    S = list(w.itershapes()); ctx.ok(len(S) == len(E), 'shapes', '%d shapes instead of %d' % (len(S), len(E)))
    for n, b, d, H, mon in E:
        def same(x):
            kind = {3: shp.Box, 2: shp.Cylinder, 1: shp.Sphere, 0: shp.Point}[len(d)]; num = lambda: list(x.half_extents) if len(d) == 3 else [x.length, x.radius] if len(d) == 2 else [x.radius] if len(d) == 1 else []
            return x.name == n and isinstance(x, kind) and np.allclose(num(), d, 1e-12, 0) and x.frame.body is R.body[b] and np.abs(x.frame.bpose - H).max() < 1e-12
        f = [x for x in S if same(x)]; ctx.ok(len(f) >= 1, mon, 'shape %s %s on %s' % (n, d, b)); ctx.close(f[0].frame.pose, dot(R.body[b].pose, H), mon, 'place of %s' % n, 1e-10, s); S.remove(f[0])
        if mon == 'contacts': g = [x for x in w.iterframes() if x.name == n and not isinstance(x, core.Body)]; ctx.ok(len(g) == 1 and g[0] is f[0].frame, 'contacts', 'frame named %s' % n)
    ctx.hit('contacts'); ctx.note(fixed=fixed, shapes=sh, contacts=co); ctx.sig(fixed, sh, co, round(float(P['head_yaw'][0][0]), 9))
    # the same posture in the bare floating variant
    w2 = core.World(); R2 = Robot(ctx, w2, False, create_shapes=False, create_contacts=False); P2 = dict(P)
    if fixed: P2['root'] = (eye(4), zeros(6))
    R2.set(P2); w2.update_dynamic()
    for n in R.body: ctx.close(R.body[n].pose, R2.body[n].pose, 'variants', n, 1e-11, s); ctx.close(R.body[n].twist, R2.body[n].twist, 'variants', 'twist of ' + n, 1e-10, 1 + np.abs(R2.body[n].twist).max())
    names = list(REF['joints']); a = [R.joint[n].dof.start for n in names]; b = [R2.joint[n].dof.start for n in names]
    ctx.close(w.mass[np.ix_(a, a)], w2.mass[np.ix_(b, b)], 'fixed-is-held' if fixed else 'variants', 'mass matrix of the hinges', 1e-11)
    for n in R.body: ctx.close(R.body[n].jacobian[:, a], R2.body[n].jacobian[:, b], 'fixed-is-held' if fixed else 'variants', 'jacobian of ' + n, 1e-11, s)

def mirror(ctx, rng, i):
    w = core.World(); R = Robot(ctx, w, False); P = rand_posture(rng); A = np.diag([-1., 1, -1, 1, -1, 1])  # mirrored twist of y -> -y
    R.set(P); w.update_dynamic(); s = kscale(R.tree, R.tree.compute()); keep = {n: (dot(b.pose, np.append(com_inertia(b)[0], 1.)), dot(b.pose[:3, :3], dot(com_inertia(b)[2], b.pose[:3, :3].T)), b.pose[:, 3].copy(), .5*dot(b.twist, dot(b.mass, b.twist))) for n, b in R.body.items()}
    sk = {n: [f for f in w.iterframes() if f.name == n][0] for n in REF['contacts']}; shapes = {n: (f.pose[:3, 3].copy(), f.pose[:3, :2].copy()) for n, f in sk.items()}
    bs = [(x.frame.body, type(x), dot(S4[:3, :3], x.frame.pose[:3, 3])) for x in w.itershapes() if x.name.endswith('body_shape')]
    Q = {}
    for n, (q, v) in P.items():
        if n == 'root': Q[n] = (dot(S4, dot(q, S4)), dot(A, v))
        else: g = -1. if n in FLIPPED else 1.; Q[other(n)] = (g*np.array(q), g*np.array(v))
    R.set(Q); w.update_dynamic()
    for n, b in R.body.items():
        c, I, o, e = keep[other(n)]
        if n[:2] in ('l_', 'r_') : ctx.close(b.pose[:, 3], dot(S4, o), 'mirror-poses', 'origin of ' + n, 1e-9, s)
        ctx.close(dot(b.pose, np.append(com_inertia(b)[0], 1.)), dot(S4, c), 'mirror-poses', 'centre of mass of ' + n, 1e-9, s)
        ctx.close(dot(b.pose[:3, :3], dot(com_inertia(b)[2], b.pose[:3, :3].T)), dot(S4[:3, :3], dot(I, S4[:3, :3])), 'mirror-inertia', n, 1e-9, np.abs(I).max())
        ctx.close(.5*dot(b.twist, dot(b.mass, b.twist)), e, 'mirror-energy', n, 1e-9, 1e-12 + e)
    for n, f in sk.items():          # numbered points are mirrored as a set
        x = dot(S4[:3, :3], f.pose[:3, 3]); m = [other(n)] if n[1] == '_' else [k for k in shapes if k[:2] == other(n)[:2]]
        ctx.close(min(np.abs(shapes[k][0] - x).max() for k in m), 0., 'mirror-shapes', n, 1e-9, s)
    for n in ('l_sole', 'r_sole'): ctx.close(sk[n].pose[:3, :2], dot(S4[:3, :3], shapes[other(n)][1]), 'mirror-shapes', 'axes of ' + n, 1e-9)
    now = [(x.frame.body, type(x), x.frame.pose[:3, 3]) for x in w.itershapes() if x.name.endswith('body_shape')]
    for body, t, p in bs:
        ctx.ok(any(x[0].name == other(body.name) and x[1] is t and np.abs(x[2] - p).max() < 1e-9 * s for x in now), 'mirror-shapes', 'shape of %s' % body.name)
    ctx.sig(round(float(P['head_yaw'][0][0]), 9))

def tables(ctx, rng, i):
    J = ic.get_joints_data(); ctx.ok(set(J) == set(REF['joints']), 'tables', 'joints')
    for n, (p, H, c) in REF['joints'].items(): ctx.ok(J[n][0] == p and J[n][2] == c, 'tables', n); ctx.close(J[n][1], H, 'tables', 'place of %s' % n, 1e-12)
    B = ic.get_bodies_data(); ctx.ok(set(B) == set(REF['bodies']), 'tables', 'bodies')
    for n, l in REF['bodies'].items():
        ctx.ok(len(l) == len(B[n]), 'tables', n)
        for (d, m, H), (d2, m2, H2) in zip(l, B[n]): ctx.close(d2, d, 'tables', n, 1e-12); ctx.close(m2, m, 'tables', n, 1e-12); ctx.close(H2, H, 'tables', n, 1e-12)
    Lr, Ld = ic.get_joint_limits(), ic.get_joint_limits(False); ctx.ok(set(Lr) == set(Ld) == set(J), 'limits', 'one interval per hinge')
    for n in J:
        ctx.ok(Ld[n][0] < Ld[n][1], 'limits', n); ctx.close(Ld[n], REF['limits'][n], 'limits', n, 1e-12); ctx.close(Lr[n], np.deg2rad(Ld[n]), 'limits', n + ' in radian', 1e-12); ctx.close(ic.get_joint_limits(True)[n], Lr[n], 'limits', n, 1e-15)
        ctx.ok(Ld[n] == Ld[other(n)], 'limits', '%s and %s' % (n, other(n)))
    T = ic.get_torque_limits(); ctx.ok(set(T) == set(J) and all(x > 0 for x in T.values()) and all(T[n] == T[other(n)] == REF['torques'][n] for n in T), 'torques', 'torque limits')
    C = ic.get_contact_data(); ctx.ok(set(C) == set(REF['contacts']), 'tables', 'contacts')
    # tables are the caller's own
    for f in (ic.get_joints_data, ic.get_bodies_data, ic.get_contact_data, ic.get_joint_limits, ic.get_torque_limits, ic.get_bodies_shapes_data):
        t = f(); keys = sorted(t); t.pop(keys[0])
        for k in keys[1:]:
            if isinstance(t[k], list): t[k][-1] = None
        u = f(); ctx.ok(sorted(u) == keys and not any(isinstance(v, list) and v[-1] is None for v in u.values()), 'tables-fresh', f.__name__)
    ic.add(core.World()); ctx.hit('tables-fresh')
    for _ in range(20):
        d, t, r, a = rng.normal(size=4); ctx.close(ic.T_DH(d, t, r, a), dot(dot(rot(ref.EZ, t), tra([0, 0, d])), dot(tra([r, 0, 0]), rot(ref.EX, a))), 'dh', 'Denavit-Hartenberg matrix', 1e-12)
    ctx.sig(i)

FAMILIES = [('model', model, 40, 1500), ('mirror', mirror, 30, 1000), ('tables', tables, 2, 10)]
