"""P18: parsing a world."""
from rv.worlds import *

RULE = 'random worlds with frames, shapes, constraints and controllers, before or after simulation and several parses; distinct by world content and recorded trace length'
MONITORS = ['once', 'ground-first', 'link-order', 'body-after-link', 'frame-after-body', 'shape-after-frame', 'complete', 'init-args', 'unchanged', 'repeatable']
CLASSES = ['shape-on-subframe', 'shape-on-body', 'moving', 'constraint', 'controller', 'simulated', 'branching', 'depth>3', 'unregistered-frame', 'shared-frame', 'same-names', 'disabled']

class Target(object):
    def __init__(self): self.log = []
    def init_parse(self, *a): self.log.append(('init',) + a)
    def add_link(self, f0, j, f1): self.log.append(('link', f0, j, f1))
    def register(self, o): self.log.append(('reg', o))

def parse(ctx, rng, i):
    tree = gen_tree(ctx, rng, 0 if i % 20 == 0 else 1, 9, branch=.5, bare=.4); b = build(tree); w = b.world
    R = populate(ctx, rng, b, tree, 6, 6)
    if rng.random() < .3 and tree.links:           # two joints on one frame
        f = b.f0[0]; x = core.Body('extra', mass=rand_cloud(rng).matrix()); j = joints.RzJoint(); w.add_link(f, j, x); ctx.cls('shared-frame')
    if rng.random() < .3:           # names say nothing about what an element is
        pool = ['same', 'other', 'ground', ''] if rng.random() < .5 else odd_names(rng, 4) + ['']
        for o in list(w.iterframes()) + list(w.itershapes()) + list(w.iterjoints()) + list(w.iterconstraints()) + list(w.getcontrollers()):
            if rng.random() < .7: o.name = pool[int(rng.integers(len(pool)))] if rng.random() < .8 else None
        ctx.cls('same-names')
    w.init()
    for c in w.iterconstraints():
        if rng.random() < .3: c.disable(); ctx.cls('disabled')
    if rng.random() < .5:
        try:
            well_posed(tree, None, 1e5); play(w, 3, 1e-3); ctx.cls('simulated')
        except (Skip, np.linalg.LinAlgError): w.update_dynamic()
    before = snap(w); T = Target(); w.parse(T); same_snap(ctx, before, snap(w), 'unchanged', 'parsing')
    T2 = Target(); w.parse(T2); ctx.ok(len(T.log) == len(T2.log) and all(len(x) == len(y) and x[0] == y[0] and all(p is q for p, q in zip(x[1:3], y[1:3])) for x, y in zip(T.log[1:], T2.log[1:])), 'repeatable', 'second parse')
    L = T.log
    ctx.ok(L[0][0] == 'init' and L[0][1] is w.ground and np.array_equal(L[0][2], w.up) and L[0][3] == w.current_time and not any(x[0] == 'init' for x in L[1:]), 'init-args', 'parse starts with ground, up and time')
    ctx.ok(len(L) > 1 and L[1][0] == 'reg' and L[1][1] is w.ground, 'ground-first', 'ground is the first element')
    objs = [x[1] for x in L if x[0] == 'reg'] ; links = [x for x in L if x[0] == 'link']
    ids = [id(o) for o in objs]; ctx.ok(len(set(ids)) == len(ids), 'once', 'elements registered more than once: %s' % [getattr(o, 'name', o) for o in objs if ids.count(id(o)) > 1])
    jids = [id(x[2]) for x in links]; ctx.ok(len(set(jids)) == len(jids), 'once', 'links reported more than once')
    exp = list(w.iterframes()) + list(w.itershapes()) + list(w.iterconstraints()) + list(w.getcontrollers())
    ctx.ok(set(map(id, exp)) == set(ids), 'complete', 'registered: missing %s, unexpected %s' % ([o.name for o in exp if id(o) not in ids], [o for o in objs if id(o) not in set(map(id, exp))]))
    ctx.ok(set(jids) == set(map(id, w.iterjoints())), 'complete', 'links'); known = set(); pending = None
    for x in L[1:]:
        if x[0] == 'link':
            f0, j, f1 = x[1:]
            ctx.ok(pending is None, 'body-after-link', 'body of the previous link not reported before the next link')
            ctx.ok(f0 is j.frame0 and f1 is j.frame1, 'link-order', 'frames of the link')
            ctx.ok(id(f0) in known and id(f1.body) not in known and (f1 is f1.body or id(f1) not in known), 'link-order', 'link %s: parent frame known %s, child body known %s' % (j.name, id(f0) in known, id(f1.body) in known)); pending = f1.body
        else:
            o = x[1]
            if pending is not None: ctx.ok(o is pending, 'body-after-link', '%s reported between a link and its body' % o.name); pending = None
            elif isinstance(o, core.Body): ctx.ok(o is w.ground, 'body-after-link', 'body %s without its link' % o.name)
            if isinstance(o, core.Frame) and not isinstance(o, core.Body): ctx.ok(id(o.body) in known, 'frame-after-body', 'frame before its body')
            if isinstance(o, core.Shape): ctx.ok(id(o.frame) in known, 'shape-after-frame', 'shape before its frame'); ctx.cls('shape-on-body' if o.frame is o.frame.body else 'shape-on-subframe')
            known.add(id(o))
            if isinstance(o, core.MovingSubFrame): ctx.cls('moving')
            if isinstance(o, core.Constraint): ctx.cls('constraint')
            if isinstance(o, core.Controller): ctx.cls('controller')
    ctx.ok(pending is None, 'body-after-link', 'body of the last link')
    if any(len(c) > 1 for c in tree.children.values()): ctx.cls('branching')
    if tree.links and max(len(tree.ancestors(k)) for k in range(len(tree.links))) > 3: ctx.cls('depth>3')
    if any(not any(f is g for g in w.iterframes()) for f in R['frames']): ctx.cls('unregistered-frame')
    ctx.sig(len(L), len(links), [type(o).__name__ for o in objs])

FAMILIES = [('parse', parse, 200, 6000)]
