"""P26: automatic contact generation."""
from rv.worlds import *
import arboris.collisions as col

RULE = 'random worlds with shapes of all kinds on bodies, subframes, moving frames and the ground, unregistered shapes, default and custom contact classes and parameters, repeated generation; distinct by the list of shape kinds and carriers'
MONITORS = ['every-pair', 'no-other-pair', 'watched-shapes', 'parameters', 'contact-class', 'nothing-registered', 'registered-frames', 'own-frames', 'acts', 'refused', 'choose-solver']
CLASSES = ['same-body', 'on-ground', 'subframe', 'moving', 'unsupported', 'unregistered', 'custom-class', 'custom-parameters', 'again', 'duplicate-names', 'one-shape', 'many', 'again-registered']
OK = set(frozenset(p) for p in [('Sphere',), ('Sphere', 'Point'), ('Plane', 'Sphere'), ('Box', 'Sphere'), ('Plane', 'Point'), ('Box', 'Point')])
KIND = {shp.Sphere: 'Sphere', shp.Point: 'Point', shp.Plane: 'Plane', shp.Box: 'Box', shp.Cylinder: 'Cylinder'}

class Mine(cst.SoftFingerContact): pass

class Bare(cst.PointContact):
    """A contact of the user, which is not a soft finger."""
    def __init__(self, shapes, stiffness=1., proximity=.05, name=None):
        self.given, self.k, self._force = tuple(shapes), stiffness, zeros(1); cst.PointContact.__init__(self, shapes, None, proximity, name)
    ndol = 1
    @property
    def jacobian(self): return zeros((1, 0))
    def solve(self, vel, admittance, dt): return zeros(1)

def watched(c, shapes, moved):
    """Shapes a contact was made for."""
    return c.given

_init = cst.SoftFingerContact.__init__
def _recording(self, shapes, *a, **k): self.given = tuple(shapes); _init(self, shapes, *a, **k)
cst.SoftFingerContact.__init__ = _recording

def random_world(ctx, rng, i):
    t = gen_tree(ctx, rng, 1, 5, vscale=.1); b = build(t); w = b.world; shapes = []; kinds = []; frames = [(f, f) for f in b.bodies.values()]
    n = int(rng.choice([0, 1, 2, 4, 7, 10])) if rng.random() < .96 else 45
    for k in range(n):
        body = b.bodies[int(rng.integers(-1, len(b.bodies) - 1))]; u = rng.random()
        f = body if u < .4 else core.SubFrame(body, rand_H(rng)) if u < .8 else core.MovingSubFrame(body, rand_H(rng), name='m%d' % k)
        if .4 <= u < .8: ctx.cls('subframe')
        elif u >= .8: ctx.cls('moving')
        if shapes and rng.random() < .2: f = shapes[int(rng.integers(len(shapes)))].frame
        kd = str(rng.choice(['Sphere', 'Sphere', 'Point', 'Box', 'Plane', 'Cylinder'])); nm = rng.choice([None, 'same', 's%d' % k])
        s = rand_shape(rng, f, nm, kd)
        if rng.random() < .12: ctx.cls('unregistered'); continue
        w.register(s); shapes.append(s); kinds.append(kd)
        if rng.random() < .1: w.register(s)
        if n > 20 and shapes and rng.random() < .3: w.register(shapes[int(rng.integers(len(shapes)))])
        if body is w.ground: ctx.cls('on-ground')
        if nm == 'same' and sum(x.name == 'same' for x in shapes) > 1: ctx.cls('duplicate-names')
    ctx.cls('one-shape' if len(shapes) == 1 else 'many'); ctx.sig(kinds, [id_of(b, s.frame.body) for s in shapes])
    expected = []
    for a in range(len(shapes)):
        for c in range(a + 1, len(shapes)):
            if shapes[a].frame.body is shapes[c].frame.body: ctx.cls('same-body'); continue
            if frozenset((kinds[a], kinds[c])) in OK: expected.append(frozenset((id(shapes[a]), id(shapes[c]))))
            else: ctx.cls('unsupported')
    w.init(); w.update_dynamic(); before = snap(w); args, cls_ = {}, None
    if rng.random() < .6: cls_ = Mine; ctx.cls('custom-class')
    mu, prox = rng.uniform(.1, 1), float(rng.choice([rng.uniform(.001, .2), 10.**rng.uniform(-5, 1)])); args['friction_coeff'] = mu
    if rng.random() < .6: args['proximity'] = prox; ctx.cls('custom-parameters')
    else: prox = .02
    if rng.random() < .3: args['name'] = 'contact'
    for rep in range(2):
        got = cst.get_all_contacts(w, **args) if cls_ is None else cst.get_all_contacts(w, cls_, **args)
        same_snap(ctx, before, snap(w), 'nothing-registered', 'generating contacts')
        if rep: ctx.cls('again')
        pairs = [frozenset(id(s) for s in watched(c, None, None)) for c in got]
        for p in expected: ctx.ok(pairs.count(p) == 1, 'every-pair', '%d contacts for a pair of %d shapes (%s)' % (pairs.count(p), len(shapes), [kinds[k] for k in range(len(shapes)) if id(shapes[k]) in p]))
        ctx.ok(set(pairs) <= set(expected) and len(got) == len(expected), 'no-other-pair', '%d contacts instead of %d' % (len(got), len(expected)))
        for c in got:
            ctx.ok(type(c) is (cls_ or cst.SoftFingerContact), 'contact-class', 'class of a contact: %s' % type(c)); ctx.ok(c.is_enabled(), 'contact-class', 'contacts are enabled'); ctx.ok(c.name == args.get('name'), 'parameters', 'name of a contact')
    got = cst.get_all_contacts(w, Bare, stiffness=mu); pairs = [frozenset(map(id, c.given)) for c in got]
    ctx.ok(sorted(map(sorted, pairs)) == sorted(map(sorted, expected)) and all(type(c) is Bare and c.k == mu for c in got), 'contact-class', 'contacts of a class of the user which are not soft fingers')
    # what each contact does depends on its own two shapes and on its parameters only
    skip = set(int(x) for x in rng.permutation(len(expected))[:int(rng.integers(0, len(expected) + 1))]) if rng.random() < .5 else set()
    frames0 = [id(f) for f in w.iterframes()]; got = cst.get_all_contacts(w, **args); seen = set()
    for k, c in enumerate(got):
        if k in skip: continue
        S = watched(c, None, None); nf = len(list(w.iterframes())); w.register(c); new = [f for f in w.iterframes() if id(f) not in frames0]; frames0 += [id(f) for f in new]
        ctx.ok(len(new) == 2 and all(isinstance(f, core.MovingSubFrame) for f in new) and sorted(map(id, (f.body for f in new))) == sorted(id(s.frame.body) for s in S), 'registered-frames', 'frames registered with a contact: %s' % new)
        ctx.ok(not (set(map(id, new)) & seen), 'own-frames', 'contacts share frames'); seen |= set(map(id, new))
        cl = [x for x in w.iterconstraints()]; ctx.ok(sum(x is c for x in cl) == 1, 'registered-frames', 'contact registered'); w.register(c); ctx.ok(len(list(w.iterframes())) == nf + 2, 'registered-frames', 'registering twice')
        if norm(S[0].frame.pose[:3, 3] - S[1].frame.pose[:3, 3]) < 1e-6: continue
        dt = 1e-3; old = {id(f): f.bpose.copy() for f in w.iterframes() if isinstance(f, core.MovingSubFrame)}; c.update(dt)
        sol = col.choose_solver(*S); d, H0, H1 = sol[1](sol[0]); fr = list(new)
        if sol[0][0].frame.body is not fr[0].body: fr.reverse()
        ctx.close(fr[0].pose, H0, 'watched-shapes', 'first contact frame', 1e-9, 1 + np.abs(H0).max()); ctx.close(fr[1].pose, H1, 'watched-shapes', 'second contact frame', 1e-9, 1 + np.abs(H1).max())
        ctx.ok(all((f.bpose == old[id(f)]).all() for f in w.iterframes() if id(f) in old and id(f) not in map(id, new)), 'own-frames', 'a contact moves frames of others')
        T = [dot(Ad(dot(hinv(H0), np.array(f.pose))), np.array(f.twist)) for f in fr]; pred = d + dt*(T[1][5] - T[0][5])
        if abs(pred - prox) > 1e-6*(1 + abs(pred)): ctx.ok(bool(c.is_active()) == bool(pred < prox), 'parameters', 'activation distance %g, predicted distance %g' % (prox, pred))
    # again, when some pairs have their contact already
    if len(got):
        ctx.cls('again-registered'); before = snap(w); again = cst.get_all_contacts(w, **args) if rng.random() < .5 else cst.get_all_contacts(w, Mine, **args); same_snap(ctx, before, snap(w), 'nothing-registered', 'generating contacts again')
        pairs = [frozenset(id(s) for s in watched(c, None, None)) for c in again]
        ctx.ok(len(pairs) == len(expected) and set(pairs) == set(expected), 'every-pair', '%d contacts instead of %d, when %d are registered' % (len(pairs), len(expected), len(got) - len(skip)))
        ctx.ok(not any(c is d for c in again for d in got), 'own-frames', 'a contact which exists is given again')

def id_of(b, body): return [k for k, x in b.bodies.items() if x is body][0]

def acts(ctx, rng, i):
    """Generated contacts stop what falls; those that were not registered do nothing."""
    w = core.World(); w.register(shp.Plane(w.ground, (0, 1, 0, 0))); n = int(rng.integers(1, 4)); J = []
    for k in range(n):
        b = core.Body(mass=np.diag([.01]*3 + [1.]*3)); j = joints.TyJoint(gpos=[.1], gvel=[-2.]); w.add_link(core.SubFrame(w.ground, tra([2*k, 0, 0])), j, b); w.register(shp.Sphere(b, .1) if rng.random() < .5 else shp.Point(core.SubFrame(b, tra([0, -.1, 0])))); J.append(j)
    cs = cst.get_all_contacts(w, friction_coeff=rng.uniform(.1, 1)); keep = [bool(rng.random() < .6) for _ in cs]; hit = set()
    for c, k in zip(cs, keep):
        if k: w.register(c)
        for s in c.given:
            if k and s.frame.body is not w.ground and any(x.frame.body is w.ground for x in c.given): hit.add(id(s.frame.body))
    w.init(); step(w, .01); ctx.sig(keep, n)
    for j in J: ctx.close(j.gpos, [.1] if id(j.frame1.body) in hit else [.08], 'acts', 'registered contact', 1e-9)

def misc(ctx, rng, i):
    w = core.World(); ctx.raises(Exception, lambda: cst.get_all_contacts(None, friction_coeff=1.), 'refused', 'no world'); ctx.raises(Exception, lambda: cst.get_all_contacts(w, cst.JointLimits, friction_coeff=1.), 'refused', 'not a contact class')
    mk = lambda k: rand_shape(rng, core.Body(), None, k); K = ['Sphere', 'Point', 'Box', 'Plane', 'Cylinder']
    for a in K:
        for c in K:
            x, y = mk(a), mk(c)
            if frozenset((a, c)) in OK:
                (s, f) = col.choose_solver(x, y); ctx.ok(set(map(id, s)) == {id(x), id(y)} and callable(f), 'choose-solver', '%s/%s' % (a, c)); ctx.ok(col.choose_solver(y, x)[1] is f, 'choose-solver', '%s/%s and %s/%s have different solvers' % (a, c, c, a))
            else: ctx.raises(NotImplementedError, lambda: col.choose_solver(x, y), 'choose-solver', '%s/%s' % (a, c))

FAMILIES = [('world', random_world, 150, 8000), ('acts', acts, 20, 500), ('misc', misc, 1, 10)]
