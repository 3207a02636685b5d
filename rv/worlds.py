"""Random complete worlds: mechanism, frames, shapes, constraints, controllers."""
from rv.mech import *
import arboris.controllers as ctl, arboris.constraints as cst, arboris.shapes as shp

def add_frames(rng, b, n, moving=True):
    out = []
    for k in range(n):
        body = b.bodies[int(rng.integers(-1, len(b.bodies) - 1))]
        f = (core.MovingSubFrame if moving and rng.random() < .4 else core.SubFrame)(body, rand_H(rng), name='x%d' % k if rng.random() < .7 else None)
        if rng.random() < .1: own(f)
        if rng.random() < .5: b.world.register(f)
        out.append(f)
    return out

def rand_shape(rng, frame, name=None, kind=None):
    s = _rand_shape(rng, frame, name, kind); return own(s) if rng.random() < .1 else s
def _rand_shape(rng, frame, name=None, kind=None):
    kind = kind or str(rng.choice(['Sphere', 'Point', 'Box', 'Plane', 'Cylinder']))
    u = rng.random(); k = 1. if u < .7 else 10.**rng.uniform(-3, 3)
    if u > .87:     # whole numbers
        if kind == 'Sphere': return shp.Sphere(frame, int(rng.integers(1, 5)), name)
        if kind == 'Box': return shp.Box(frame, [int(x) for x in rng.integers(1, 5, 3)], name)
        if kind == 'Plane': return shp.Plane(frame, [[1, 0, 0], [0, 1, 0], [0, 0, -1]][rng.integers(3)] + [int(rng.integers(-3, 4))], name)
        if kind == 'Cylinder': return shp.Cylinder(frame, int(rng.integers(1, 5)), int(rng.integers(1, 5)), name)
    if kind == 'Sphere': return shp.Sphere(frame, k*rng.uniform(.05, .5), name)
    if kind == 'Point': return shp.Point(frame, name)
    if kind == 'Box': return shp.Box(frame, k*rng.uniform(.05, .5, 3), name)
    if kind == 'Plane': return shp.Plane(frame, np.append(rand_unit(rng), rng.normal()*.3*k), name)
    return shp.Cylinder(frame, k*rng.uniform(.1, .5), k*rng.uniform(.1, .5), name)

def populate(ctx, rng, b, tree, shapes=4, frames=3, constraints=True, controllers=True):
    """Frames and shapes anywhere, a few constraints and controllers; returns lists of what was registered."""
    w = b.world; R = dict(frames=add_frames(rng, b, int(rng.integers(0, frames + 1))), shapes=[], cons=[], ctrls=[])
    for k in range(int(rng.integers(0, shapes + 1))):
        u = rng.random()
        f = b.bodies[int(rng.integers(-1, len(b.bodies) - 1))] if u < .5 else R['frames'][int(rng.integers(len(R['frames'])))] if R['frames'] and u < .8 else core.SubFrame(b.bodies[int(rng.integers(-1, len(b.bodies) - 1))], rand_H(rng))
        s = rand_shape(rng, f, 's%d' % k if rng.random() < .7 else None); w.register(s); R['shapes'].append(s)
    lin = [k for k in range(len(tree.links)) if tree.links[k].jt in LINEAR]
    if constraints:
        if lin and rng.random() < .5:
            k = int(rng.choice(lin)); n = jndof(tree.links[k].jt); c = cst.JointLimits(b.joints[k], tree.links[k].q - 9., tree.links[k].q + 9., name='lim'); w.register(c); R['cons'].append(c)
        if tree.links and rng.random() < .4:
            K = tree.compute(); k = int(rng.integers(len(tree.links))); p = rng.normal(size=3)*.2; x = dot(K['H'][k], np.append(p, 1.))[:3]
            c = cst.BallAndSocketConstraint(frames=(core.SubFrame(w.ground, tra(x)), core.SubFrame(b.bodies[k], tra(p)))); w.register(c); R['cons'].append(c)
        if tree.links and rng.random() < .5:
            K = tree.compute(); k = int(rng.integers(len(tree.links))); x = K['H'][k][:3, 3]; rad = rng.uniform(.05, .2)
            pl = shp.Plane(w.ground, (0, 1., 0, x[1] - rad - rng.uniform(0, .3))); sp = shp.Sphere(b.bodies[k], rad)
            if rng.random() < .5: w.register(pl); w.register(sp); R['shapes'] += [pl, sp]
            c = cst.SoftFingerContact((pl, sp), rng.uniform(.2, 1.5)); w.register(c); R['cons'].append(c)
    if controllers:
        w.init()
        if rng.random() < .6: c = ctl.WeightController(name='weight'); w.register(c); R['ctrls'].append(c)
        if lin and rng.random() < .6:
            ks = [int(k) for k in rng.permutation(lin)[:int(rng.integers(1, len(lin) + 1))]]; n = sum(jndof(tree.links[k].jt) for k in ks)
            c = ctl.ProportionalDerivativeController([b.joints[k] for k in ks], eye(n)*rng.uniform(.5, 5), eye(n)*rng.uniform(.1, 1), rng.normal(size=n), rng.normal(size=n)*.1, name=None); w.register(c); R['ctrls'].append(c)
    for x in R['cons'] + R['ctrls']:
        if rng.random() < .1: own(x)
    return R

def snap(w, model=True):
    """Everything a user can observe in the state of the world (numbers only)."""
    out = [('t', w.current_time), ('up', w.up.tobytes()), ('ndof', w.ndof)]
    ids = {id(o): k for k, o in enumerate(list(w.iterframes()) + list(w.iterjoints()) + list(w.itershapes()) + list(w.iterconstraints()) + list(w.getcontrollers()))}
    out += [('order', tuple(sorted(ids))), ('frames', tuple(map(id, w.iterframes()))), ('joints', tuple(map(id, w.iterjoints()))), ('shapes', tuple(map(id, w.itershapes()))), ('cons', tuple(map(id, w.iterconstraints()))), ('ctrls', tuple(map(id, w.getcontrollers())))]
    for j in w.iterjoints(): out.append(('joint', id(j), j.name, np.asarray(j.gpos).tobytes(), np.asarray(j.gvel).tobytes(), id(j.frame0), id(j.frame1), (j._dof.start, j._dof.stop) if getattr(j, '_dof', None) is not None else None))
    for f in w.iterframes(): out.append(('frame', id(f), f.name, f.bpose.tobytes(), id(f.body)))
    for b in w.iterbodies():
        out.append(('body', id(b), b.name, np.asarray(b.mass).tobytes(), np.asarray(b.viscosity).tobytes(), id(b.parentjoint), tuple(map(id, b.childrenjoints))))
        if model: out.append(('model', id(b)) + tuple(None if x is None else np.asarray(x).tobytes() for x in (b.pose, b.twist, b.jacobian, b.djacobian, b.nleffects)))
    for s in w.itershapes(): out.append(('shape', id(s), s.name, id(s.frame)) + tuple(np.asarray(getattr(s, n)).tobytes() for n in ('radius', 'half_extents', 'coeffs', 'length') if hasattr(s, n)))
    for c in w.iterconstraints(): out.append(('cons', id(c), c.name, c.is_enabled()))
    out.append(('gvel', w.gvel.tobytes()))
    if model: out.append(('dyn', w.mass.tobytes(), w.viscosity.tobytes(), w.nleffects.tobytes(), w.gforce.tobytes()))
    return out

def same_snap(ctx, a, b, mon, what, poses=0.):
    """Both are the same, up to the given relative rounding of the poses of the bodies (computed twice, maybe in another way)."""
    ctx.hit(mon)
    if poses and len(a) == len(b):
        out = []
        for x, y in zip(a, b):
            if x[0] == 'model' and y[0] == 'model' and x != y and x[2] is not None and y[2] is not None:
                p, q = np.frombuffer(x[2]), np.frombuffer(y[2])
                if p.shape == q.shape and np.abs(p - q).max() <= poses*(1. + np.abs(p).max()): y = y[:2] + (x[2],) + y[3:]
            out.append(y)
        b = out
    if a != b:
        d = [(x[:3], y[:3]) for x, y in zip(a, b) if x != y][:2]
        ctx.fail(mon, '%s changed the world: %s' % (what, d or 'number of elements'))

def play(w, n, dt=2e-3):
    out = []
    for _ in range(n):
        step(w, dt)
        if not np.abs(w.gvel).max(initial=0.) < 1e4: raise Skip() # a diverging motion
        out.append([np.array(j.gpos).tobytes() + np.array(j.gvel).tobytes() for j in w.iterjoints()])
    return out
