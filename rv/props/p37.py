"""P37: drawn scenes."""
from rv.worlds import *
from rv import scene
import colorsys
wd = scene.wd

RULE = 'random worlds, postures and times, flat and hierarchical scenes, random colour maps by object and by name, exhausted palettes, hues over the circle and beyond; distinct by mechanism, elements and mode'
MONITORS = ['one-node', 'place', 'constant', 'hierarchy', 'flat', 'animated', 'arrows', 'link-line', 'inertia', 'shape', 'shape-place', 'names', 'colour', 'ground', 'world-unchanged', 'finish', 'hsv', 'palette', 'colour-refused', 'own-colour', 'refused', 'scaled', 'switches']
CLASSES = ['small', 'large', 'flat', 'hierarchical', 'subframe-on-either-side', 'moving', 'shape-on-subframe', 'massless', 'rotor', 'own-colour', 'name-colour', 'body-colour', 'exhausted', 'moved', 'on-ground', 'Sphere', 'Box', 'Point', 'Plane', 'Cylinder', 'default-colours', 'odd-names']

def absolute(n):
    H = eye(4)
    while n is not None and n.kind != 'ground': H = dot(n.pose, H) if n.kind == 'transform' else H; n = n.parent
    return H if n is not None else None

def draw(ctx, rng, i):
    tree = rotors(ctx, rng, gen_tree(ctx, rng, 0 if i % 25 == 0 else 1, 8, p_massless=.3, branch=.5, bare=.5)); U = None
    if rng.random() < .2 and tree.links: U = rand_units(ctx, rng, array([2., .4, 1.])); tree = U.tree(tree)
    b = build(tree); w = b.world; R = populate(ctx, rng, b, tree, 7, 5)
    if i % 3 == 0:
        for kind in ('Sphere', 'Box', 'Point', 'Plane', 'Cylinder'): s = rand_shape(rng, b.bodies[int(rng.integers(-1, len(b.bodies) - 1))], kind.lower(), kind); w.register(s)
    w.init()
    if rng.random() < .4:
        for l in tree.links: l.q = rand_q(rng, l.jt) if U is None else U.q(l.jt, rand_q(rng, l.jt))
        set_q(b, tree); ctx.cls('moved'); w.update_geometric()
    else: w.update_dynamic() if rng.random() < .5 else w.update_geometric()
    flat = bool(rng.random() < .5); ctx.cls('flat' if flat else 'hierarchical'); D = scene.Driver(); own, named = {}, {}
    elements = list(w.iterframes()) + list(w.itershapes())
    if rng.random() < .35:
        ctx.cls('odd-names'); pool = odd_names(rng, 4) + ['same']
        for x in elements:
            if rng.random() < .6 and x is not w.ground: x.name = pool[int(rng.integers(len(pool)))]
    names = [x.name for x in elements]
    if rng.random() < .7:
        for x in elements:
            u = rng.random()
            if u < .2: own[x] = tuple(np.round(rng.random(3), 6)) if rng.random() < .8 else tuple(float(v) for v in rng.integers(0, 2, 3))
            elif u < .35 and x.name: named[x.name] = tuple(np.round(rng.random(3), 6))
    nb = int(rng.choice([0, 1, 2, 20, 20, 20])); gen = None
    if own or named or nb != 20: gen = wd.ColorGenerator(dict(list(own.items()) + list(named.items())), nb)
    else: ctx.cls('default-colours')
    if gen is not None and rng.random() < .3 and elements:    # changed afterwards
        x = elements[int(rng.integers(len(elements)))]; own[x] = (.25, .5, .75); gen.set_color(x, [.25, .5, .75])
    s0 = snap(w); sf = said(rng, flat); d = wd.Drawer(D, sf, gen) if gen is not None else wd.Drawer(D, sf); w.parse(d)
    ctx.ok(D.finished == 0, 'finish', 'finished before the end'); d.finish(); ctx.ok(D.finished == 1, 'finish', 'back-end finished once'); same_snap(ctx, s0, snap(w), 'world-unchanged', 'drawing')
    ctx.ok(sum(n.kind == 'ground' for n in D.nodes) == 1 and d.frame_nodes[w.ground] is D.root and np.array_equal(D.root.up, w.up), 'ground', 'ground node')
    s = (1 if U is None else 1e-3*U.L) + max(np.abs(f.pose[:3, 3]).max() for f in w.iterframes()); frames = list(w.iterframes()); jf1 = {j.frame1: j for j in w.iterjoints()}
    ctx.ok(set(d.frame_nodes) == set(frames) and len(set(map(id, d.frame_nodes.values()))) == len(frames) and sum(n.kind == 'transform' for n in D.nodes) == len(frames) - 1, 'one-node', '%d nodes for %d frames' % (len(d.frame_nodes), len(frames)))
    # expected colours
    gencol, late = {}, []
    def colour(x, node):
        for y in ([x] if isinstance(x, core.Body) else [x, x.body if isinstance(x, core.Frame) else x.frame.body]):
            if y in own: ctx.cls('own-colour'); ctx.hit('own-colour'); return own[y]
            if y.name is not None and y.name in named: ctx.cls('name-colour'); return named[y.name]
        ctx.cls('body-colour'); return gencol.get(y) if node is None else gencol.setdefault(y, tuple(node.color))
    for f in frames:
        n = d.frame_nodes[f]
        if f is w.ground: continue
        ctx.ok(n.kind == 'transform', 'one-node', 'node of %s' % f.name); H = absolute(n); ctx.ok(H is not None, 'hierarchy', '%s is not attached to the scene' % f.name)
        ctx.close(H, f.pose, 'place', '%s of %s (%s)' % (type(f).__name__, f.name, 'flat' if flat else 'hierarchical'), 1e-10, s); ctx.ok(n.name == f.name, 'names', '%r drawn as %r' % (f.name, n.name))
        ctx.ok(sum(c.kind == 'arrows' and c.category == 'frame arrows' for c in n.children) == 1, 'arrows', 'arrows of %s' % f.name)
        inv = {id(v): k for k, v in d.frame_nodes.items()}; par = inv.get(id(n.parent)); ctx.ok(par is not None, 'hierarchy', 'parent of %s' % f.name)
        # nodes of frames of one body are fixed offsets of each other; links between bodies and moving frames are not
        if isinstance(f, core.MovingSubFrame): const = False; ctx.cls('moving'); ctx.ok(par is (w.ground if flat else f.body), 'flat' if flat else 'hierarchy', 'parent of moving frame')
        else: const = par.body is f.body and f.body is not w.ground or (f.body is w.ground)
        ctx.ok(bool(n.constant) == bool(const), 'constant', '%s (%s) drawn as constant=%s' % (f.name, type(f).__name__, n.constant))
        if isinstance(f, core.Body) and f is not w.ground:
            j = f.parentjoint
            if flat: ctx.ok(par is w.ground, 'flat', 'body %s hangs from the ground' % f.name)
            else:
                top = d.frame_nodes[j.frame1]; ctx.ok(inv[id(top.parent)] is j.frame0 and d.transform_nodes.get(j) is top, 'animated', 'node moved by joint %s' % j.name); ctx.close(top.pose, j.pose, 'animated', 'pose of joint %s' % j.name, 1e-12)
                ctx.ok(j.frame1 is f or n.parent is top, 'hierarchy', 'body %s' % f.name)
            if j.frame1 is not f or j.frame0 is not j.frame0.body: ctx.cls('subframe-on-either-side')
        elif flat: ctx.ok(par is (w.ground if isinstance(f, core.MovingSubFrame) else f.body), 'flat', 'frame %s' % f.name)
        if isinstance(f, core.MovingSubFrame): ctx.ok(d.transform_nodes.get(f) is n, 'animated', 'moving frame')
        lines = [c for c in n.parent.children if c.kind == 'line' and c.category == 'link' and np.abs(c.end - n.pose[:3, 3]).max() < 1e-15]
        need = n.constant and np.linalg.norm(n.pose[:3, 3]) > 0; ctx.ok(not need or len(lines) >= 1, 'link-line', 'line to %s' % f.name)
        if need: ctx.close(lines[0].start, [0, 0, 0], 'link-line', 'start', 1e-15); late.append((f, lines))
    nl = sum(n.kind == 'line' for n in D.nodes); ctx.ok(nl == sum(n.kind == 'transform' and bool(n.constant) and np.linalg.norm(n.pose[:3, 3]) > 0 for n in D.nodes), 'link-line', 'number of lines')
    for f in w.iterbodies():
        I = [c for c in d.frame_nodes[f].children if c.kind == 'inertia']; massive = np.abs(f.mass).max() > 1e-6 and f.mass[5, 5] > 0; known = f.mass[5, 5] == 0
        if massive: ctx.ok(len(I) == 1 and I[0].category == 'inertia' and np.array_equal(I[0].inertia, f.mass) and I[0].name == f.name, 'inertia', 'inertia of %s' % f.name); ctx.ok(np.allclose(I[0].color, colour(f, I[0]), 0, 1e-12), 'colour', 'inertia of %s' % f.name)
        elif known: ctx.ok(not I, 'inertia', 'massless %s' % f.name); ctx.cls('massless')
    kinds = dict(Sphere='ellipsoid', Point='ellipsoid', Box='box', Plane='plane', Cylinder='cylinder'); drawn = [n for n in D.nodes if n.kind in kinds.values()]
    ctx.ok(len(drawn) == len(list(w.itershapes())), 'shape', '%d shapes drawn instead of %d' % (len(drawn), len(list(w.itershapes()))))
    for x in w.itershapes():
        k = base(x).__name__; ctx.cls(k); num = dict(Sphere=lambda n: (n.radii, [x.radius]*3), Point=lambda n: (n.radii, [D._options['point radius']]*3), Box=lambda n: (n.half_extents, x.half_extents), Plane=lambda n: (n.coeffs, x.coeffs), Cylinder=lambda n: ([n.length, n.radius], [x.length, x.radius]))[k]
        c = [n for n in drawn if n.kind == kinds[k] and n.parent is d.frame_nodes[x.frame] and n.category == 'shape' and np.array_equal(*map(np.asarray, num(n))) and n.name == x.name]
        ctx.ok(len(c) >= 1, 'shape', '%s %r with its dimensions and name on its frame; drawn: %s' % (k, x.name, [(n.kind, getattr(n, 'name', None), n.category) for n in d.frame_nodes[x.frame].children]))
        ctx.close(absolute(c[0].parent), x.frame.pose, 'shape-place', k, 1e-10, s); drawn.remove(c[0])
        ctx.ok(np.allclose(c[0].color, colour(x, c[0]), 0, 1e-12), 'colour', '%s %r: %s instead of %s' % (k, x.name, c[0].color, colour(x, c[0])))
        if x.frame is not x.frame.body: ctx.cls('shape-on-subframe')
        if x.frame.body is w.ground: ctx.cls('on-ground')
    for f, lines in late:       # several frames may be at the end of a line
        e = colour(f, lines[0] if len(lines) == 1 else None); ctx.ok(e is None or any(np.allclose(x.color, e, 0, 1e-12) for x in lines), 'colour', 'line to %s' % f.name)
    if nb < len([y for y in w.iterbodies() if y not in own and y.name not in named]): ctx.cls('exhausted')
    if nb >= len(list(w.iterbodies())): ctx.ok(len(set(gencol.values())) == len(gencol), 'palette', 'bodies with generated colours are told apart')
    ctx.note(flat=flat, colours=len(own) + len(named)); ctx.sig(flat, len(frames), len(drawn), [type(x).__name__ for x in w.itershapes()], nb)

def colours(ctx, rng, i):
    for _ in range(40):
        h = float(rng.choice([rng.uniform(0, 360), 60. * rng.integers(0, 7), 60. * rng.integers(0, 7) + rng.normal() * 1e-9, rng.uniform(-720, 720), int(rng.integers(0, 361))])); sat, v = [float(rng.choice([0., 1., rng.random()])) for _ in range(2)]
        ctx.close(wd.hsv_to_rgb((h, sat, v)), colorsys.hsv_to_rgb((h / 360.) % 1., sat, v), 'hsv', 'hue %r saturation %r value %r' % (h, sat, v), 1e-6 if abs(h) < 1e-6 else 1e-9)
    n = int(rng.integers(1, 40)); g = wd.ColorGenerator(nb_colors=n); bodies = [core.Body('b%d' % k) for k in range(n + 3)]; c = [g.get_color(x) for x in bodies]
    ctx.ok(len(set(c[:n])) == n, 'palette', '%d distinct colours' % n); ctx.ok(all(0 <= v <= 1 for x in c for v in x) and all(len(x) == 3 for x in c), 'palette', 'range'); ctx.ok(all(g.get_color(x) == y for x, y in zip(bodies, c)), 'palette', 'colour of a body is stable')
    x = bodies[int(rng.integers(n))]; f = core.SubFrame(x, rand_H(rng)); sh = rand_shape(rng, f); ctx.ok(g.get_color(f) == g.get_color(sh) == g.get_color(x), 'own-colour', 'frame and shape take the colour of their body')
    g.set_color(f, [0, .5, 1.]); ctx.ok(g.get_color(f) == (0, .5, 1.) and g.get_color(sh) == g.get_color(x) == c[bodies.index(x)], 'own-colour', 'colour of a frame does not spread')
    g.set_color(x, (1., 0, 0)); ctx.ok(g.get_color(x) == (1., 0, 0) == g.get_color(sh), 'own-colour', 'new colour of a body')
    for bad in ((1., 0), (1., 0, 0, 0), (1.1, 0, 0), (-.1, 0, 0), (0, 0, 2)):
        ctx.raises(Exception, lambda: g.set_color(x, bad), 'colour-refused', '%s' % (bad,)); ctx.raises(Exception, lambda: wd.ColorGenerator({x: bad}), 'colour-refused', '%s' % (bad,))
    ctx.ok(g.get_color(x) == (1., 0, 0), 'colour-refused', 'refused colour kept'); ctx.raises(Exception, lambda: wd.Drawer(object()), 'refused', 'not a driver'); ctx.sig(n, i)

def options(ctx, rng, i):
    """Sizes of drawn symbols are proportional to the scale, whatever the back-end; given options are used instead of the default ones."""
    s = 10.**rng.uniform(-4, 4); ctx.sig('options', s); a, b = wd.DrawerDriver.get_default_options(), wd.DrawerDriver.get_default_options(s); ctx.ok(set(a) == set(b), 'scaled', 'options %s' % (set(a) ^ set(b)))
    sizes = [k for k, v in a.items() if not isinstance(v, bool)]; ctx.ok(len(sizes) >= 6, 'scaled', 'sizes %s' % sizes)
    for k in sizes: ctx.ok(np.all(np.asarray(a[k]) > 0), 'scaled', 'size %r' % k); ctx.close(np.asarray(b[k])/s, a[k], 'scaled', '%r drawn at scale %g' % (k, s), 1e-12, np.abs(a[k]).max())
    for k in set(a) - set(sizes): ctx.ok(a[k] is b[k], 'switches', '%r at scale %g' % (k, s))
    k = sizes[int(rng.integers(len(sizes)))]; d = wd.DrawerDriver(s, {k: 3.}) if rng.random() < .5 else wd.DrawerDriver(scale=s, options={k: 3.}); ctx.ok(d._options[k] == 3. and all(np.array_equal(d._options[x], b[x]) for x in b if x != k), 'switches', 'option %r given' % k); ctx.ok(wd.DrawerDriver.get_default_options(s) == b, 'switches', 'default options changed')

FAMILIES = [('draw', draw, 500, 8000), ('colours', colours, 40, 600), ('options', options, 20, 300)]
