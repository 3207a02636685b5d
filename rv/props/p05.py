"""P05: joint integration."""
from rv.mech import *

RULE = 'each joint type, random position (array, list, int, any accepted shape), velocities, steps 1e-9..10 s and histories; distinct by type, state and step'
TYPES = sorted(set(JOINTS) - {'UserJoint'})
MONITORS = ['velocity-set', 'advance', 'split', 'backward', 'group', 'fixed', 'storage', 'accepted-shapes', 'drift', 'kept', 'small']
CLASSES = TYPES + ['integer position', 'integer velocity', 'slow spin', 'tiny']

def mk(jt, q, v):
    c = getattr(joints, jt)
    return c() if jt == 'FixedJoint' else c(gpos=q, gvel=v)

def exact(jt, q, v, t):
    if JOINTS[jt] == 'free': return dot(q, se3exp(v*t))
    return q + t*v

def single(ctx, rng, i):
    jt = TYPES[i % len(TYPES)]; n = jndof(jt); ctx.cls(jt)
    for _ in range(10):
        q = rand_q(rng, jt); v = rng.normal(size=n) * 10.**rng.uniform(-2, 1); dt = 10.**rng.uniform(-9, 1)
        ctx.note(joint=jt, q=q, v=v, dt=dt); ctx.sig(jt, np.round(q, 9).tobytes(), dt)
        if jt == 'FixedJoint':
            j = mk(jt, q, v); j.integrate(zeros(0), dt)
            ctx.close(j.pose, eye(4), 'fixed', 'pose', 1e-15); ctx.close(j.twist, zeros(6), 'fixed', 'twist', 1e-15)
            continue
        # inputs in the various accepted forms
        u = rng.random(); given = q.copy()
        if JOINTS[jt] != 'free' and u < .3: given = q = np.round(q); given = [int(x) for x in q]; ctx.cls('integer position')
        elif JOINTS[jt] != 'free' and u < .5: given = np.array(q).reshape((n, 1))
        elif u < .6: given = q.tolist()
        elif n == 1 and u < .8: given = float(q[0])
        elif JOINTS[jt] == 'free' and u < .8: given = q.reshape(16); q = given.reshape(4, 4).copy()
        elif JOINTS[jt] == 'free' and u < .9:
            q = hom(np.round(rodrigues(EZ, np.pi/2)), [1, 2, 3]); given = q.astype(int); ctx.cls('integer position')
        keep = np.array(given)
        v0 = rng.normal(size=n)
        j = mk(jt, given, v0.copy())
        shape = (4, 4) if JOINTS[jt] == 'free' else (n,)
        ctx.close(j.gpos, q, 'accepted-shapes', 'position', 1e-15); ctx.ok(np.shape(j.gpos) == shape, 'accepted-shapes', 'shape')
        ctx.close(j.gvel, v0, 'accepted-shapes', 'velocity', 1e-15)
        j.integrate(v.copy(), dt)
        s = (1 + np.abs(q).max()) * (1 + dt*np.abs(v).max())**2
        q1 = exact(jt, q, v, dt)
        ctx.close(j.gvel, v, 'velocity-set', 'gvel', 1e-15)
        ctx.close(j.gpos, q1, 'advance', 'gpos', 2e-10, s)
        if JOINTS[jt] == 'free':
            ctx.close(dot(j.gpos[:3, :3].T, j.gpos[:3, :3]), eye(3), 'group', 'orthonormal', 1e-11*s)
            ctx.close(j.gpos[3], [0, 0, 0, 1], 'group', 'last row', 1e-15)
        ctx.ok((np.array(given) == keep).all(), 'storage', 'given position modified')
        if isinstance(given, np.ndarray):
            got = np.array(j.gpos); given.flat[0] += 5
            ctx.close(j.gpos, got, 'storage', 'shares the storage of the caller', 1e-15)
        # split and backward
        a = rng.uniform(.1, .9)
        k = mk(jt, q.copy(), v0.copy()); k.integrate(v.copy(), a*dt); k.integrate(v.copy(), (1-a)*dt)
        ctx.close(k.gpos, j.gpos, 'split', 'two steps instead of one', 5e-10, s)
        j.integrate(-v, dt)
        ctx.close(j.gpos, q, 'backward', 'back and forth', 5e-10, s)
        # two joints from the same array
        q0 = np.array(q, float); j1, j2 = mk(jt, q0, v0), mk(jt, q0, v0)
        j1.integrate(v, dt)
        ctx.close(j2.gpos, q, 'storage', 'joints share their position', 1e-15)
        d = getattr(joints, jt)(); e = getattr(joints, jt)()
        d.integrate(v.copy(), 1.)
        ctx.close(e.gpos, eye(4) if JOINTS[jt] == 'free' else zeros(n), 'storage', 'default position', 1e-15)
        f = getattr(joints, jt)()
        ctx.close(f.gpos, eye(4) if JOINTS[jt] == 'free' else zeros(n), 'storage', 'default position of later joints', 1e-15)
        ctx.close(f.gvel, zeros(n), 'storage', 'default velocity of later joints', 1e-15)

def given(ctx, rng, i):
    """What the coordinates were given as makes no difference for the values written in them later."""
    jt = [t for t in TYPES if t != 'FixedJoint'][i % (len(TYPES) - 1)]; n = jndof(jt); q = hom(np.round(rodrigues(EX, np.pi*rng.integers(4)/2)), [1, 0, -2]) if JOINTS[jt] == 'free' else rng.integers(-3, 4, n).astype(float)
    v = rng.integers(-3, 4, n).astype(float); ctx.sig('g', jt, q.tobytes(), v.tobytes()); kinds = [lambda x: x.astype(int), lambda x: x.astype(int).tolist(), lambda x: x.copy(), lambda x: x.astype(np.float32), lambda x: x.tolist(), lambda x: x.astype(np.int8)]
    a, b = int(rng.integers(6)), int(rng.integers(6)); j = mk(jt, kinds[a](q), kinds[b](v))
    if a in (0, 1, 5): ctx.cls('integer position')
    if b in (0, 1, 5): ctx.cls('integer velocity')
    if rng.random() < .5: w = core.World(); w.add_link(w.ground, j, core.Body(mass=eye(6))); w.init()
    q1 = dot(q, se3exp(.3*rng.normal(size=6))) if JOINTS[jt] == 'free' else q + rng.normal(size=n); v1 = rng.normal(size=n); dt = 10.**rng.uniform(-4, 0)
    ctx.close(j.gpos, q, 'kept', 'position given', 1e-15); ctx.close(j.gvel, v, 'kept', 'velocity given', 1e-15); ctx.note(joint=jt, given=(a, b), q=q, v=v)
    j.gpos[...] = q1; j.gvel[...] = v1; ctx.close(j.gpos, q1, 'kept', 'position written', 1e-15); ctx.close(j.gvel, v1, 'kept', 'velocity written', 1e-15)
    j.integrate(np.array(j.gvel), dt); ctx.close(j.gpos, exact(jt, q1, v1, dt), 'advance', 'after writing', 1e-12, (1 + np.abs(q1).max())*(1 + dt*np.abs(v1).max())**2)

def history(ctx, rng, i):
    """Long history against the reference, free joint drift."""
    jt = 'FreeJoint' if i % 2 else str(rng.choice(LINEAR))
    n = jndof(jt); q = rand_q(rng, jt); j = mk(jt, q.copy(), zeros(n)); ref_ = q.copy()
    N = 3000 if ctx.thorough else 300
    ctx.note(joint=jt, steps=N); ctx.sig('h', jt, np.round(q, 9).tobytes())
    span = 0.
    for k in range(N):
        v = rng.normal(size=n) * 10.**rng.uniform(-4, 1); dt = 10.**rng.uniform(-4, -1)
        j.integrate(v, dt); ref_ = exact(jt, ref_, v, dt); span += norm(v)*dt
    s = 1 + np.abs(q).max() + span
    ctx.close(j.gpos, ref_, 'advance', 'history', 1e-9, s*N)
    if jt == 'FreeJoint':
        R = j.gpos[:3, :3]
        ctx.close(dot(R.T, R), eye(3), 'drift', 'orthonormality after %d steps' % N, 1e-14*N, 1.)
        ctx.ok(bool(Hg.ishomogeneousmatrix(j.pose)), 'drift', 'no longer a displacement')

def in_world(ctx, rng, i):
    """Joints of one world, same initial array for several of them, integrated by the world."""
    jt = str(rng.choice(LINEAR + ['FreeJoint'])); n = jndof(jt)
    q = np.array(rand_q(rng, jt), float); keep = q.copy()
    w = core.World(); js = []
    for k in range(3):
        b = core.Body(mass=rand_cloud(rng, 1.).matrix())
        j = mk(jt, q, rng.normal(size=n)); js.append(j); w.add_link(w.ground, j, b)
    w.add_link(w.ground, joints.FixedJoint(), core.Body(mass=rand_cloud(rng, 1.).matrix()))
    w.init()
    v0 = [np.array(j.gvel) for j in js]
    for k in range(3):
        prev = [np.array(j.gpos) for j in js]
        dt = 10.**rng.uniform(-4, -2)
        try: step(w, dt)
        except np.linalg.LinAlgError: raise Skip()
        if not np.isfinite(w.gvel).all() or np.abs(w.gvel).max() > 1e3: raise Skip()
        for a, j in enumerate(js):
            ctx.close(j.gpos, exact(jt, prev[a], np.array(j.gvel), dt), 'advance', 'world step', 1e-9)
    ctx.sig('w', jt, q.tobytes()); ctx.note(joint=jt, q=q)
    ctx.ok((q == keep).all(), 'storage', 'given position modified by the simulation')

def tiny(ctx, rng, i):
    """Movements of any smallness add up, next to the origin where nothing hides them."""
    jt = [t for t in TYPES if t != 'FixedJoint'][i % (len(TYPES) - 1)]; n = jndof(jt); free = JOINTS[jt] == 'free'; e = 10.**rng.uniform(-18, -3); N = int(rng.integers(1, 30)); dt = 10.**rng.uniform(-6, 1); R = rand_rot(rng)
    q = hom(R, rng.normal(size=3)*e*rng.integers(0, 2)) if free else rng.normal(size=n)*e*rng.integers(0, 2); j = mk(jt, q.copy(), zeros(n)); ctx.sig('t', jt, e, N); ctx.note(joint=jt, size=e, steps=N, dt=dt); ctx.cls('tiny')
    w = core.World(); w.add_link(w.ground, j, core.Body(mass=eye(6))); w.init()
    for k in range(N):
        v = rng.normal(size=n)*e/dt; j.integrate(v, dt); q = exact(jt, q, v, dt)
        if free: ctx.close(j.gpos[:3, 3], q[:3, 3], 'small', 'position after movements of %.1e' % e, 1e-12, e*N); D = dot(q[:3, :3].T, j.gpos[:3, :3]); ctx.close(j.gpos[:3, :3], q[:3, :3], 'small', 'orientation after movements of %.1e' % e, 1e-14*N)
        else: ctx.close(j.gpos, q, 'small', 'position after movements of %.1e' % e, 1e-12, e*N)
    w.update_dynamic(); p = joint_kin(jt, q, zeros(n))[0][:3, 3]
    if np.any(p): ctx.close(list(w.iterbodies())[1].pose[:3, 3], p, 'small', 'place of the body', 1e-12, e*N)

def slow(ctx, rng, i):
    """A spin kept for a long time, each step turning by little: the pose stays a displacement."""
    a = 10.**rng.uniform(-5, -1.5) if rng.random() < .5 else 1e-3*(1 - 10.**rng.uniform(-3, -.5)); dt = 10.**rng.uniform(-4, -1)
    v = np.hstack((rand_unit(rng) if rng.random() < .7 else eye(3)[int(rng.integers(3))], rng.normal(size=3)))*a/dt; N = 15000 if ctx.thorough or i % 3 == 0 else 2000
    w = core.World(); q = np.array(rand_H(rng)); j = joints.FreeJoint(q.copy(), v.copy()); w.add_link(w.ground, j, core.Body(mass=rand_cloud(rng, 1.).matrix())); w.init(); ctx.sig('s', v.tobytes()); ctx.note(v=v, dt=dt, steps=N); ctx.cls('slow spin')
    for k in range(N): j.integrate(v, dt)
    R = j.gpos[:3, :3]; ctx.close(dot(R.T, R), eye(3), 'drift', 'orthonormality after %d equal steps' % N, 5e-15*N); ctx.close(j.gpos, dot(q, se3exp(v*dt*N)), 'advance', 'sum of equal steps', 1e-12, N*(1 + norm(v)*dt*N))
    try: w.update_dynamic()
    except AssertionError: ctx.ok(False, 'drift', 'the world of a joint turning slowly for long stops')

FAMILIES = [('slow', slow, 15, 100), ('single', single, 100, 5000), ('given', given, 60, 1500), ('tiny', tiny, 60, 2000), ('history', history, 10, 60), ('world', in_world, 30, 1500)]
