"""P35: human36."""
from rv.mech import *
import json, os
import arboris.shapes as shp, arboris.controllers as ctl
from arboris.massmatrix import ismassmatrix
hu = mod('arboris.robots.human36')
REF = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'human36.json')))

RULE = 'heights and masses over several decades, symmetric and asymmetric custom lengths, prefixes, several humans in a world, random and mirrored postures and velocities; distinct by parameters and posture'
MONITORS = ['lengths', 'height-roundtrip', 'legs-refused', 'total-mass', 'masses', 'reference-inertia', 'inertia-scaling', 'valid-inertia', 'structure', 'kinematics', 'landmarks', 'standing-height', 'mirror-poses', 'mirror-com', 'mirror-inertia', 'mirror-energy', 'mirror-lengths', 'names', 'several', 'default', 'motion', 'caller-lengths']
CLASSES = ['asymmetric', 'prefix', 'two-humans', 'extreme-height', 'reference-size', 'refused-legs', 'moving', 'same-prefix']

# joint name: (parent body, child body, joint type, function of the lengths giving the place of the joint in the parent body)
def table(L):
    T = [('Root', None, 'LPT', 'FreeJoint', (0, L['yfootL'] + L['ytibiaL'] + L['yfemurL'], 0))]
    for s, z in (('R', 1), ('L', -1)):
        T += [('Hip' + s, 'LPT', 'Thigh' + s, 'RzRyRxJoint', (0, 0, z*L['zhip']/2.)),
              ('Knee' + s, 'Thigh' + s, 'Shank' + s, 'RzJoint', (0, -L['yfemur' + s], 0)),
              ('Ankle' + s, 'Shank' + s, 'Foot' + s, 'RzRxJoint', (0, -L['ytibia' + s], 0))]
    T += [('Back', 'LPT', 'UPT', 'RzRyRxJoint', (-L['xvT10'], L['yvT10'], 0))]
    for s, z in (('R', 1), ('L', -1)):
        T += [('Torso-Scap' + s, 'UPT', 'Scapula' + s, 'RyRxJoint', (L['xsternoclav' + s], L['ysternoclav' + s], z*L['zsternoclav' + s])),
              ('Arm-Scap' + s, 'Scapula' + s, 'Arm' + s, 'RzRyRxJoint', (-L['xshoulder' + s], L['yshoulder' + s], z*L['zshoulder' + s])),
              ('Elbow' + s, 'Arm' + s, 'Forearm' + s, 'RzRyJoint', (0, -L['yhumerus' + s], 0)),
              ('Wrist' + s, 'Forearm' + s, 'Hand' + s, 'RzRxJoint', (0, -L['yforearm' + s], 0))]
    T += [('Neck', 'UPT', 'Head', 'RzRyRxJoint', (L['xvT10'], L['yvC7'], 0))]
    return T
# length to which the inertia of each body is proportional (squared)
SEGMENT = dict(LPT='yvT10', UPT='ysternoclav', Head='yhead', Thigh='yfemur', Shank='ytibia', Foot='xfoot', Arm='yhumerus', Forearm='yforearm', Hand='yhand')
FLIP = dict(FreeJoint=None, RzRyRxJoint=[1, -1, -1], RzJoint=[1], RzRxJoint=[1, -1], RyRxJoint=[-1, -1], RzRyJoint=[1, -1])
S4 = np.diag([1., 1, -1, 1]); D6 = np.diag([-1., -1, 1, 1, 1, -1])
def swap(n): return n[:-1] + {'R': 'L', 'L': 'R'}[n[-1]] if n[-1] in 'RL' and n not in ('LPT', 'UPT') else n
def swap_tag(n):
    if n == 'Femoral lateral epicondyle': return 'Left femoral lateral epicondyle'
    if n == 'Left femoral lateral epicondyle': return 'Femoral lateral epicondyle'
    return n.replace('Right', 'LEFT').replace('Left', 'Right').replace('LEFT', 'Left')

class Human(object):
    """A human added to the world and the reference tree built from its lengths."""
    def __init__(self, ctx, w, L, prefix, skip=()):
        self.w, self.L, self.p = w, L, prefix; T = table(L); B, J = [{o.name: o for o in it if id(o) not in skip} for it in (w.iterbodies(), w.iterjoints())]; names = [t[2] for t in T]
        self.body = {n: B[prefix + n] for n in names}; self.joint = {t[0]: J[prefix + t[0]] for t in T}; links = []; self.T = T
        for jn, par, child, jt, pos in T:
            j = self.joint[jn]; ctx.ok(type(j).__name__ == jt and j.frame1 is self.body[child] and j.frame0.body is (self.body[par] if par else w.ground), 'structure', '%s joint %s' % (jt, jn))
            links.append(Link(child, names.index(par) if par else -1, jt, eye(4) if jt == 'FreeJoint' else zeros(jndof(jt)), zeros(jndof(jt)), tra(pos), eye(4)))
        self.tree = Tree(links); self.names = names
        self.tags = {t: [f for f in w.iterframes() if f.name == prefix + t and id(f) not in skip] for t in REF['tags']}
        for t, f in self.tags.items(): ctx.ok(len(f) == 1, 'names', 'landmark %r' % (prefix + t)); self.tags[t] = f[0]
        own = set(id(b) for b in self.body.values()) | {id(w.ground)}; E = expected_tags(L, hu.height_from_anat_lengths(L)); sh = [s for s in w.itershapes() if id(s) not in skip]
        for t, f in self.tags.items(): ctx.ok(f.body is self.body[E[t][0]], 'several' if skip else 'landmarks', 'body of %s' % t)
        ctx.ok(sorted(prefix + a + ' foot ' + b for a in ('Right', 'Left') for b in ('toe tip', 'heel', 'phalange 5', 'phalange 1')) == sorted(s.name for s in sh) and all(s.frame.body is self.body['Foot' + s.name[len(prefix)]] for s in sh), 'several' if skip else 'structure', 'points under the feet')
        for o in list(w.iterframes()) + list(w.itershapes()): ctx.ok(id(o) in skip or id((o if isinstance(o, core.Frame) else o.frame).body) in own, 'several', '%s belongs to another human' % o.name)
    def set(self, posture):
        """posture: joint name -> (q, v)"""
        for (jn, _, _, jt, _), l in zip(self.T, self.tree.links):
            l.q, l.v = [np.array(x, float) for x in posture[jn]]; self.joint[jn].gpos = l.q.copy(); self.joint[jn].gvel[:] = l.v
    def read(self):
        for (jn, _, _, jt, _), l in zip(self.T, self.tree.links): l.q, l.v = np.array(self.joint[jn].gpos), np.array(self.joint[jn].gvel)

def rand_posture(rng, L, near=None):
    P = {}
    for jn, _, _, jt, _ in table(L): n = jndof(jt); P[jn] = (rand_H(rng) if jt == 'FreeJoint' else rng.normal(size=n)*.6, rng.normal(size=n))
    return P
def mirror_posture(P, L):
    M = {}
    for jn, _, _, jt, _ in table(L):
        q, v = P[jn]; s = swap(jn)
        M[s] = (dot(S4, dot(q, S4)), dot(D6, v)) if jt == 'FreeJoint' else (np.array(FLIP[jt])*q, np.array(FLIP[jt])*v)
    return M
def com(body):
    M = body.mass; m = M[5, 5]; K = M[:3, 3:] / m; return np.array([K[2, 1], K[0, 2], K[1, 0]]), m
def central(body):
    c, m = com(body); return body.mass[:3, :3] + m * dot(skew(c), skew(c))

def expected_lengths(h):
    r = REF['lengths']; return {n: a + (b - a) * h / 1.741 for n, (a, b) in r.items()}

def lengths_of(rng, h):
    L = hu.anat_lengths_from_height(h); asym = rng.random() < .5
    if asym:
        for n in L:
            if n[1:-1] not in ('foot', 'tibia', 'femur') or n in ('xfootR', 'xfootL'): L[n] *= rng.uniform(.6, 1.4)
        for n in ('yfoot', 'ytibia', 'yfemur'): L[n + 'L'] = L[n + 'R'] = L[n + 'R'] * rng.uniform(.6, 1.4)
    return L, asym

def check(ctx, H, what):
    """Poses of bodies and of the landmarks in the current posture."""
    H.read(); K = H.tree.compute(); s = kscale(H.tree, K)
    for k, n in enumerate(H.names): ctx.close(H.body[n].pose, K['H'][k], 'kinematics', '%s: %s' % (what, n), 1e-10, s)
    for t, f in H.tags.items(): ctx.close(f.pose, dot(f.body.pose, f.bpose), 'landmarks', t, 1e-10, s)

def expected_tags(L, h):
    """Landmarks which are ends of segments, in the frame of their body."""
    E = {'Suprasternale': ('UPT', ((L['xsternoclavL'] + L['xsternoclavR'])/2., (L['ysternoclavL'] + L['ysternoclavR'])/2., 0)), 'Cervicale': ('UPT', (L['xvT10'], L['yvC7'], 0)), 'Vertex': ('Head', (0, L['yhead'], 0)), 'Substernale (Xyphoid)': ('UPT', (.1219*h, 0, 0))}
    for n, s, z in (('Right', 'R', 1), ('Left', 'L', -1)):
        E[n + ' foot heel'] = ('Foot' + s, (-L['xheel' + s], -L['yfoot' + s], 0)); E[n + ' foot toe tip'] = ('Foot' + s, (L['xfoot' + s] - L['xheel' + s] + 1e-4*h, -L['yfoot' + s], 0))
        E[n + ' foot phalange 5'] = ('Foot' + s, (.0662*h, -L['yfoot' + s], z*.0305*h)); E[n + ' foot phalange 1'] = ('Foot' + s, (.0662*h, -L['yfoot' + s], -z*.0305*h))
        E[n + ' foot lateral malleolus'] = ('Shank' + s, (0, -L['ytibia' + s], z*.0249*h)); E[n + ' great trochanter'] = ('Thigh' + s, (0, 0, z*(.0941*h - L['zhip']/2.)))
        E['Femoral lateral epicondyle' if s == 'R' else 'Left femoral lateral epicondyle'] = ('Thigh' + s, (0, -L['yfemur' + s], z*.0290*h)); E[n + ' iliac crest'] = ('LPT', (.0271*h, .0366*h, z*.0697*h))
        E[n + ' acromion'] = ('Scapula' + s, (-L['xshoulder' + s], .0198*h + L['yshoulder' + s], z*L['zshoulder' + s])); E[n + ' humeral lateral epicondyle (radiale)'] = ('Arm' + s, (0, -L['yhumerus' + s], z*.0211*h))
        E[n + ' stylion'] = ('Forearm' + s, (0, -.1533*h, z*.0331*h)); E[n + ' 3rd dactylion'] = ('Hand' + s, (0, -L['yhand' + s], 0))
    return E

def model(ctx, rng, i):
    h = float(rng.uniform(1.2, 2.2)) if rng.random() < .6 else float(10.**rng.uniform(-1, 1)); m = float(rng.uniform(20, 150)) if rng.random() < .6 else float(10.**rng.uniform(-2, 3))
    if not .5 < h < 3: ctx.cls('extreme-height')
    if i % 8 == 0: h, m = 1.741, 73.; ctx.cls('reference-size')
    L, asym = lengths_of(rng, h)
    if i % 8 == 0: L, asym = hu.anat_lengths_from_height(h), False
    if asym: ctx.cls('asymmetric')
    prefix = '' if rng.random() < .4 else str(rng.choice(["Bob's ", 'x', 'R', 'h1:']))
    if prefix: ctx.cls('prefix')
    w = core.World(); L0 = dict(L)
    if not asym and rng.random() < .5: hu.add_human36(w, height=h, mass=m, prefix=prefix)
    else: hu.add_human36(w, height=float(rng.uniform(.1, 9)), mass=m, anat_lengths=L, prefix=prefix)
    ctx.ok(L == L0, 'caller-lengths', 'lengths given by the caller changed'); hh = hu.height_from_anat_lengths(L)
    H = Human(ctx, w, L0, prefix); ctx.ok(len(list(w.iterbodies())) == 18 and w.ndof == 42 and len(list(w.iterjoints())) == 17, 'structure', 'bodies and dof')
    ctx.ok(all((x.name or '').startswith(prefix) for x in list(w.iterbodies())[1:] + list(w.iterjoints()) + list(w.itershapes())), 'names', 'prefix')
    # mass
    ctx.close(sum(b.mass[5, 5] for b in H.body.values()), m, 'total-mass', 'total mass', 1e-12, m)
    for n, b in H.body.items():
        R = array(REF['masses'][n]); ctx.close(b.mass[3:, 3:], R[3:, 3:] * m / 73., 'masses', n, 1e-9, m); sg = SEGMENT.get(n if n in SEGMENT else n[:-1])
        if R[5, 5] == 0: ctx.ok(np.all(b.mass == 0), 'masses', n); continue
        ctx.ok(ismassmatrix(b.mass), 'valid-inertia', n); ci = central(b); e = np.linalg.eigvalsh(ci); ctx.ok(e[0] > 0 and e[2] <= (e[0] + e[1]) * (1 + 1e-9), 'valid-inertia', '%s: principal moments %s' % (n, e))
        # inertia of the reference human, scaled by mass and squared segment length
        ln = (L['ysternoclavR'] + L['ysternoclavL'])/2. if n == 'UPT' else L[sg] if sg in L else L[sg + n[-1]]; r0 = REF['lengths'][sg if sg in REF['lengths'] else sg + ('R' if n == 'UPT' else n[-1])][1]
        Rb = type('b', (), dict(mass=R)); ref_i = central(Rb) * (m/73.) * (ln/r0)**2; ctx.close(ci, ref_i, 'inertia-scaling' if i % 8 else 'reference-inertia', 'inertia of %s' % n, 1e-9, np.abs(ref_i).max())
    for n in ('Thigh', 'Shank', 'Arm', 'Forearm', 'Hand'):
        for s in 'RL':
            sg = SEGMENT[n] + s; R = type('b', (), dict(mass=array(REF['masses'][n + s]))); c0 = com(R)[0]; ctx.close(com(H.body[n + s])[0], c0 * L[sg] / REF['lengths'][sg][1], 'inertia-scaling', 'centre of mass of %s' % (n + s), 1e-9, L[sg])
    for n in ('Foot' + s for s in 'RL'): ctx.close(com(H.body[n])[0], [.4415*L['xfoot' + n[-1]] - L['xheel' + n[-1]], -L['yfoot' + n[-1]]/2., 0], 'inertia-scaling', 'centre of mass of %s' % n, 1e-9)
    ctx.close(com(H.body['LPT'])[0], [0, .5108*L['yvT10'], 0], 'inertia-scaling', 'centre of mass of the pelvis', 1e-9, hh); ctx.close(com(H.body['Head'])[0], [0, .4998*L['yhead'], 0], 'inertia-scaling', 'centre of mass of the head', 1e-9, hh)
    ctx.close(com(H.body['UPT'])[0], [(L['xsternoclavR'] + L['xsternoclavL'])/4., .7001*(L['ysternoclavR'] + L['ysternoclavL'])/2., 0], 'inertia-scaling', 'centre of mass of the trunk', 1e-9, hh)
    if i % 8 == 0:
        for n, b in H.body.items(): ctx.close(b.mass, REF['masses'][n], 'reference-inertia', n, 1e-9)
    # rest posture, landmarks
    w.update_geometric(); check(ctx, H, 'rest'); E = expected_tags(L, hh)
    ctx.ok(set(E) == set(REF['tags']), 'landmarks', 'expected landmarks')
    for t, (bn, p) in E.items(): ctx.ok(H.tags[t].body is H.body[bn], 'landmarks', 'body of %s' % t); ctx.close(H.tags[t].bpose, tra(p), 'landmarks', t, 1e-9, hh)
    if i % 8 == 0:
        for t, (_, p, x) in REF['tags'].items(): ctx.close(H.tags[t].bpose[:3, 3], p, 'landmarks', 'reference place of %s' % t, 1e-10); ctx.close(H.tags[t].pose[:3, 3], x, 'landmarks', 'reference position of %s' % t, 1e-10)
    top, low = H.tags['Vertex'].pose[1, 3], min(H.tags[t].pose[1, 3] for t in H.tags); ctx.close([top, low], [hh, 0.], 'standing-height', 'top of the head and soles', 1e-9, hh)
    sh = {s.frame.name: s for s in w.itershapes()}; feet = [prefix + a + ' foot ' + b for a in ('Right', 'Left') for b in ('toe tip', 'heel', 'phalange 5', 'phalange 1')]
    ctx.ok(sorted(sh) == sorted(feet) and len(list(w.itershapes())) == 8 and all(isinstance(s, shp.Point) and s.name == n for n, s in sh.items()), 'structure', 'points under the feet')
    # any posture, and the mirrored one
    P = rand_posture(rng, L); H.set(P); w.update_dynamic(); check(ctx, H, 'posture')
    if not asym:
        poses = {n: b.pose.copy() for n, b in H.body.items()}; tags = {t: f.pose.copy() for t, f in H.tags.items()}; tw = {n: b.twist.copy() for n, b in H.body.items()}
        c1 = sum(com(b)[1] * dot(b.pose, np.append(com(b)[0], 1))[:3] for b in H.body.values() if b.mass[5, 5] > 0) / m; e1 = {n: .5*dot(t, dot(H.body[n].mass, t)) for n, t in tw.items()}
        H.set(mirror_posture(P, L))
        # the mirror plane is the one of the ground frame
        w.update_dynamic(); s = kscale(H.tree, H.tree.compute())
        for n, b in H.body.items(): ctx.close(b.pose, dot(S4, dot(poses[swap(n)], S4)), 'mirror-poses', n, 1e-9, s)
        for t, f in H.tags.items(): ctx.close(f.pose, dot(S4, dot(tags[swap_tag(t)], S4)), 'mirror-poses', t, 1e-9, s)
        c2 = sum(com(b)[1] * dot(b.pose, np.append(com(b)[0], 1))[:3] for b in H.body.values() if b.mass[5, 5] > 0) / m; ctx.close(c2, c1 * [1, 1, -1], 'mirror-com', 'centre of mass', 1e-9, s)
        for n, b in H.body.items():
            if 'Hand' in n:
                ctx.close(np.sort(np.diag(b.mass[:3, :3])), np.sort(np.diag(H.body[swap(n)].mass[:3, :3])), 'mirror-inertia', n, 1e-9, 1e-300 + np.abs(b.mass).max()); continue
            ctx.close(b.mass, dot(D6, dot(H.body[swap(n)].mass, D6)), 'mirror-inertia', n, 1e-9, 1e-300 + np.abs(b.mass).max()); t = b.twist
            ctx.close(.5*dot(t, dot(b.mass, t)), e1[swap(n)], 'mirror-energy', n, 1e-8, 1e-300 + sum(e1.values()))
    else:
        # left and right lengths exchanged: the mirrored human
        L2 = {swap(n): v for n, v in L0.items()}; w2 = core.World(); hu.add_human36(w2, mass=m, anat_lengths=L2, prefix=prefix); H2 = Human(ctx, w2, L2, prefix)
        H2.set(mirror_posture(P, L)); w2.update_dynamic(); s = kscale(H.tree, H.tree.compute())
        for n, b in H2.body.items(): ctx.close(b.pose, dot(S4, dot(H.body[swap(n)].pose, S4)), 'mirror-lengths', n, 1e-9, s)
        for n, b in H2.body.items():
            if 'Hand' not in n: ctx.close(b.mass, dot(D6, dot(H.body[swap(n)].mass, D6)), 'mirror-lengths', 'inertia of %s' % n, 1e-9, 1e-300 + np.abs(b.mass).max())
        for t, f in H2.tags.items(): ctx.close(f.pose, dot(S4, dot(H.tags[swap_tag(t)].pose, S4)), 'mirror-lengths', t, 1e-9, s)
    ctx.note(height=h, mass=m, prefix=prefix, asymmetric=asym); ctx.sig(h, m, prefix, asym)

def lengths(ctx, rng, i):
    h = float(rng.uniform(1., 2.5)) if rng.random() < .6 else float(10.**rng.uniform(-2, 2)); L = hu.anat_lengths_from_height(h); E = expected_lengths(h)
    ctx.ok(set(E) <= set(L) and set(L) - set(E) == {'xheelR', 'xheelL'}, 'lengths', 'names'); ctx.close([L[n] for n in sorted(E)], [E[n] for n in sorted(E)], 'lengths', 'height %g' % h, 1e-9, h); ctx.close([L['xheelR'], L['xheelL']], [.0248*h]*2, 'lengths', 'heels', 1e-9, h)
    ctx.close(hu.height_from_anat_lengths(L), h, 'height-roundtrip', 'height', 1e-12, h)
    K, asym = lengths_of(rng, h); ctx.close(hu.height_from_anat_lengths(K), sum(K[n] for n in ('yfootR', 'ytibiaR', 'yfemurR', 'yvT10', 'yvC7', 'yhead')), 'height-roundtrip', 'custom lengths', 1e-12, h)
    n = str(rng.choice(['yfoot', 'ytibia', 'yfemur'])) + str(rng.choice(['L', 'R'])); K[n] *= rng.uniform(.5, .95) if rng.random() < .7 else 1 + 10.**rng.uniform(-6, -2); ctx.cls('refused-legs')
    ctx.raises(ValueError, lambda: hu.height_from_anat_lengths(K), 'legs-refused', '%s changed' % n); w = core.World()
    ctx.raises(ValueError, lambda: hu.add_human36(w, anat_lengths=K), 'legs-refused', 'human with legs of different lengths'); ctx.ok(len(list(w.iterframes())) == 1 and len(list(w.iterjoints())) == 0, 'legs-refused', 'refused human left elements')
    ctx.sig(h)

def several(ctx, rng, i):
    """Humans sharing a world behave as each alone."""
    ctx.cls('two-humans'); w = core.World(); par = []; solo = []
    for k in range(2):
        p = dict(height=float(rng.uniform(1.3, 2.1)), mass=float(rng.uniform(30, 120)), prefix='h%d ' % k if i % 2 else '')
        if k == 0 and i == 0: p = dict(); ctx.hit('default')
        par.append(p)
    HS, skip = [], set()
    if not i % 2: ctx.cls('same-prefix')
    for p in par:
        hu.add_human36(w, **p); w1 = core.World(); hu.add_human36(w1, **p); L = hu.anat_lengths_from_height(p.get('height', 1.741)); solo.append(Human(ctx, w1, L, p.get('prefix', ''))); HS.append(Human(ctx, w, L, p.get('prefix', ''), set(skip))); skip |= set(map(id, list(w.iterframes()) + list(w.iterjoints()) + list(w.itershapes()))) - {id(w.ground)}
    ctx.close(sum(b.mass[5, 5] for b in HS[0].body.values()), par[0].get('mass', 73.), 'default' if not par[0] else 'several', 'mass', 1e-12, 73.)
    for a, b in zip(HS, solo):
        P = rand_posture(rng, a.L)
        for jn in P: P[jn] = (P[jn][0] if jn == 'Root' else P[jn][0]*.3, P[jn][1]*.3)
        a.set(P); b.set(P)
    for x in [w] + [s.w for s in solo]: x.register(ctl.WeightController()); x.init()
    for _ in range(5):
        for x in [w] + [s.w for s in solo]: quiet(step, x, 1e-3)
    ctx.cls('moving')
    for a, b in zip(HS, solo):
        for jn in a.joint: ctx.close(a.joint[jn].gpos, b.joint[jn].gpos, 'motion', jn, 1e-8); ctx.close(a.joint[jn].gvel, b.joint[jn].gvel, 'motion', jn, 1e-6)
        check(ctx, a, 'moving') if not w.update_geometric() else None
    ctx.hit('several'); ctx.sig(par)

FAMILIES = [('model', model, 64, 2000), ('lengths', lengths, 100, 2000), ('several', several, 4, 60)]
