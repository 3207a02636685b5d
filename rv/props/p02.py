"""P02: rotation builders and angle extraction."""
from rv.arb import *
from rv.ref import *
import itertools

RULE = 'grid of special angles (quarter turns, quarter turns +-1e-12..1e-3) and random angles; random, special and near-tie unit vectors; distinct by angles / vector'
MONITORS = ['builder', 'angles-rebuild', 'pitch-range', 'angles-roundtrip', 'zaligned']
AX = dict(z=EZ, y=EY, x=EX)
BUILD = ['rotx', 'roty', 'rotz', 'rotzy', 'rotzx', 'rotyx', 'rotzyx']

def angle(rng):
    u = rng.random()
    if u < .2: return float(rng.integers(-4, 5)) * np.pi / 2
    if u < .4: return float(rng.integers(-4, 5)) * np.pi / 2 + rng.choice([-1, 1]) * 10.**rng.uniform(-14, -2)
    if u < .45: return int(rng.integers(-3, 4))
    return rng.uniform(-7, 7)

def builders(ctx, rng, i):
    for _ in range(30):
        for name in BUILD:
            ax = name[3:]; ang = [angle(rng) for _ in ax]
            ref = eye(4)
            for a, t in zip(ax, ang): ref = dot(ref, rot(AX[a], t))
            ctx.note(builder=name, angles=ang); ctx.sig(name, ang)
            H = getattr(Hg, name)(*ang)
            ctx.close(H, ref, 'builder', name, 1e-14)
        t = [angle(rng) * 10.**rng.uniform(-3, 3) for _ in range(3)]
        ctx.close(Hg.transl(*t), tra(t), 'builder', 'transl', 1e-15)

def check_angles(ctx, R, tra_=True):
    H = hom(R, None)
    H[:3, 3] = (1., -2., 3.) if tra_ else 0.
    keep = H.copy()
    a = Hg.rotzyx_angles(H)
    ctx.ok(len(a) == 3, 'angles-rebuild', 'three angles')
    a = [float(x) for x in a]
    ctx.note(R=R, angles=a)
    ref = dot(rodrigues(EZ, a[0]), dot(rodrigues(EY, a[1]), rodrigues(EX, a[2])))
    ctx.close(ref, R, 'angles-rebuild', 'Rz Ry Rx of extracted angles', 5e-9)
    ctx.close(Hg.rotzyx(*a)[:3, :3], R, 'angles-rebuild', 'rotzyx of extracted angles', 5e-9)
    ctx.ok((H == keep).all(), 'angles-rebuild', 'argument modified')
    if np.hypot(R[0, 0], R[1, 0]) > 1e-8:
        ctx.ok(abs(a[1]) <= np.pi/2 + 1e-12, 'pitch-range', 'pitch out of [-90, 90] degrees', pitch=a[1])
    return a

def angles(ctx, rng, i):
    for _ in range(60):
        u = rng.random()
        if u < .5: R = rand_rot(rng)
        else:
            az, ax = angle(rng), angle(rng)
            if u < .8: ay = rng.choice([-1, 1]) * (np.pi/2 - rng.choice([0., 1.]) * rng.choice([-1, 1]) * 10.**rng.uniform(-16, -1))
            else: ay = angle(rng)
            R = dot(rodrigues(EZ, az), dot(rodrigues(EY, ay), rodrigues(EX, ax)))
            if abs(R[2, 0]) > 1 - 1e-12: ctx.cls('gimbal lock')
        ctx.sig(R.round(8).tobytes())
        check_angles(ctx, R)
        az, ay, ax = rng.uniform(-3.1, 3.1), rng.uniform(-1.5, 1.5), rng.uniform(-3.1, 3.1)
        a = check_angles(ctx, dot(rodrigues(EZ, az), dot(rodrigues(EY, ay), rodrigues(EX, ax))), False)
        ctx.close(a, [az, ay, ax], 'angles-roundtrip', 'angles recovered', 1e-12)

def grid(ctx, rng, i):
    q = np.arange(-4, 5) * np.pi / 2
    az = q[i % 9]
    for ay, ax in itertools.product(q, q):
        for e in (0., 1e-15, 1e-10, 1e-6):
            ctx.sig(az, ay, ax, e)
            check_angles(ctx, dot(rodrigues(EZ, az + e), dot(rodrigues(EY, ay - e), rodrigues(EX, ax + 2*e))))

def zalign(ctx, rng, i):
    vs = []
    if i == 0:
        for c in itertools.product((-1, 0, 1), repeat=3):
            if any(c): vs.append(array(c, float) / norm(c)); vs.append(-vs[-1])
        for k in range(3):
            for s in (1., -1.):
                e = zeros(3); e[k] = s; vs.append(e)
                e = zeros(3); e[k] = s; e[(k+1) % 3] = -0.; vs.append(e)
    for _ in range(60):
        u = rng.random()
        v = rng.normal(size=3)
        if u < .3: v[int(rng.integers(3))] = rng.choice([0., 1e-15, 1e-9])
        if u < .15: v[int(rng.integers(3))] = rng.choice([0., 1e-15, 1e-9])
        if u > .8: v = rng.choice([-1., 1.], 3) * (1 + rng.normal(size=3) * 10.**rng.uniform(-17, -3))
        vs.append(v / norm(v))
    for v in vs:
        ctx.note(v=v); ctx.sig(v.tobytes())
        keep = v.copy()
        H = Hg.zaligned(v)
        R = H[:3, :3]
        ctx.close(H[:3, 2], v, 'zaligned', 'z axis', 1e-15)
        ctx.close(dot(R.T, R), eye(3), 'zaligned', 'orthonormal', 1e-9)
        ctx.close(np.linalg.det(R), 1., 'zaligned', 'right-handed', 1e-9)
        ctx.close(H[:3, 3], zeros(3), 'zaligned', 'no translation', 1e-15)
        ctx.close(H[3], [0, 0, 0, 1], 'zaligned', 'last row', 1e-15)
        ctx.ok((v == keep).all(), 'zaligned', 'argument modified')
        k = 1 + rng.choice([-1, 1])*10.**rng.uniform(-6, -.1); ctx.raises(Exception, lambda: Hg.zaligned(v*k), 'zaligned', 'direction of length %r accepted' % k); ctx.raises(Exception, lambda: Hg.zaligned(v*0.), 'zaligned', 'no direction')
        if rng.random() < .2:
            for what, u in forms(rng, v): ctx.cls('stored otherwise'); ctx.ok(np.array_equal(Hg.zaligned(u), H), 'zaligned', 'differs, %s' % what)
            for what, A in forms(rng, H): ctx.close(Hg.rotzyx(*[float(a) for a in Hg.rotzyx_angles(A)])[:3, :3], R, 'angles-rebuild', 'angles, %s' % what, 2e-8)

CLASSES = ['gimbal lock', 'stored otherwise']
FAMILIES = [('builders', builders, 60, 3000), ('angles', angles, 60, 3000), ('grid', grid, 9, 9), ('zaligned', zalign, 60, 3000)]
