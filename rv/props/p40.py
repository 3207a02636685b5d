"""P40: COLLADA scenes and animations."""
from rv.dae import *
from rv import arb; arb.NAMES = 0.
import h5py, pickle, re
from rv.props.p28 import timeline
jnt = mod('arboris.joints')
obs = mod('arboris.observers')

RULE = 'random worlds drawn by both COLLADA writers, flat and hierarchical, options, scales and colours, simulations recorded in HDF5 and pickle files then played back, shapes added to written files; distinct by mechanism, elements and options'
MONITORS = ['unique-ids', 'references', 'up', 'place', 'fresh', 'every-frame', 'shape', 'shape-count', 'colour', 'geometry', 'inertia', 'inertia-count', 'ellipsoid', 'arrows', 'link-line', 'world-unchanged', 'refused', 'animation-layout', 'animation-target', 'animation-time', 'animation-values', 'playback', 'scene-kept', 'added', 'added-others', 'added-warning', 'collision-told', 'told-apart']
CLASSES = ['long', 'rotor', 'many-bodies', 'pydaenim', 'daenim', 'flat', 'hierarchical', 'unnamed', 'options', 'scale', 'Sphere', 'Box', 'Point', 'Plane', 'Cylinder', 'moving', 'subframe', 'hdf5', 'pickle', 'group', 'precision', 'again', 'added-transform', 'added-scale', 'added-scalar', 'added-file', 'added-whole', 'refused-names', 'several-files', 'same-file-name', 'no-step', 'same-names']
UNIT = {'box_geometry-mesh': (-1, -1, -1, 1, 1, 1), 'sphere_geometry-mesh': (-1, -1, -1, 1, 1, 1), 'cylinder_geometry-mesh': (-1, -1, -.5, 1, 1, .5), 'plane_geometry-mesh': (-1, -1, 0, 1, 1, 0), 'line_geometry-mesh': (0, 0, 0, 0, 0, 1), 'frame_arrows_geometry-mesh': (0, 0, 0, 1, 1, 1)}
SIMPLE = os.path.join(os.path.dirname(dw.__file__), 'simple_shapes.dae')

def world(ctx, rng, motion=False, n=6):
    tree = rotors(ctx, rng, gen_tree(ctx, rng, 1, n, p_massless=0 if motion else .2, branch=.5, bare=0. if motion else .4))
    if motion: well_posed(tree)
    b = build(tree); w = b.world
    R = populate(ctx, rng, b, tree, 4, 4, constraints=False, controllers=motion)
    for k in range(int(rng.integers(0, 4))): kind = str(rng.choice(['Sphere', 'Box', 'Point', 'Plane', 'Cylinder'])); s = rand_shape(rng, b.bodies[int(rng.integers(-1, len(b.bodies) - 1))], None, kind); w.register(s)
    seen = set()
    for k, x in enumerate(w.iterframes()):
        if x.name in seen or x.name is None and (isinstance(x, core.MovingSubFrame) or rng.random() < .7): x.name = 'frame %d' % k
        seen.add(x.name)
    for k, s in enumerate(w.itershapes()): s.name = 'shape.%d' % k
    w.init(); return tree, b

def verify(ctx, S, w, daenim, opt, gen, names, what=''):
    """The file against the world as it is."""
    want = [n for n, u in zip(('X_UP', 'Y_UP', 'Z_UP'), eye(3)) if np.array_equal(w.up, u)] or ['Y_UP']; ctx.ok(S.up == want[0], 'up', '%s for %s' % (S.up, w.up)); frames = list(w.iterframes()); s = 1 + max(np.abs(f.pose[:3, 3]).max() for f in frames)
    ctx.ok(len(S.top) == 1 and S.top[0].id == 'ground' and np.array_equal(S.top[0].local, eye(4)), 'place', 'ground')
    for f in frames:
        if f is w.ground: continue
        if f.name is None: ctx.cls('unnamed'); continue
        ctx.ok(f.name in S.ids, 'every-frame', 'frame %r is not in the scene' % f.name); ctx.close(S.ids[f.name].absolute(), f.pose, 'place', '%s %r of %s' % (what, f.name, type(f).__name__), 1e-9, s)
    G = S.all_geoms()
    for g, (lo, hi) in S.geo.items(): ctx.ok(g in UNIT and np.allclose(np.append(lo, hi), UNIT[g]), 'geometry', '%s spans %s %s' % (g, lo, hi))
    left = [x for x in G if x[1] not in ('line_geometry-mesh', 'frame_arrows_geometry-mesh')]
    want = {shp.Box: 'box', shp.Sphere: 'sphere', shp.Point: 'sphere', shp.Cylinder: 'cylinder', shp.Plane: 'plane'}
    for x in w.itershapes():
        t = base(x); ctx.cls(t.__name__); c = [g for g in left if g[0][-1].id == x.name]; ctx.ok(len(c) == 1 and c[0][1] == want[t] + '_geometry-mesh', 'shape', '%s %r: %s' % (t.__name__, x.name, [g[1] for g in c])); path, g, H, col = c[0]; left.remove(c[0]); P = x.frame.pose
        if t is shp.Plane:
            n, d, he = array(x.coeffs[:3]), x.coeffs[3], opt['plane half extents']; o = dot(P, np.append(n*d, 1.))[:3]; ctx.close(H[:3, 3], o, 'shape', 'place of plane', 1e-9, s); ctx.close([norm(H[:3, 0]), norm(H[:3, 1]), norm(H[:3, 2])], [he[0], he[1], 0], 'shape', 'size of plane', 1e-9); N = dot(P[:3, :3], n); ctx.close(dot(H[:3, :2].T, N), [0, 0], 'shape', 'plane direction', 1e-9)
        else:
            d = dict(Box=lambda: x.half_extents, Sphere=lambda: [x.radius]*3, Point=lambda: [opt['point radius']]*3, Cylinder=lambda: [x.radius, x.radius, x.length])[t.__name__](); ctx.close(H, dot(P, np.diag(np.append(d, 1.))), 'shape', '%s %r' % (t.__name__, x.name), 1e-9, s)
        if gen is not None: ctx.close(col[:3], gen.get_color(x), 'colour', 'colour of %r' % x.name, 1e-9)
        if daenim: ctx.ok(path[-1].descr == ['shape'], 'shape', 'description %s' % path[-1].descr)
    massive = [f for f in w.iterbodies() if np.abs(f.mass).max() > 1e-6 and f.mass[5, 5] > 0]
    ctx.ok(len(S.rigid) == len(massive) and sorted(x[0] for x in S.rigid) == sorted(f.name or '' for f in massive), 'inertia-count', 'rigid bodies %s' % [x[0] for x in S.rigid])
    for sid, m, H, I in S.rigid:
        f = [x for x in massive if x.name == sid]
        if not sid or not f: continue
        c = skew(H[:3, 3]); R = H[:3, :3]; M = zeros((6, 6)); M[:3, :3] = dot(R, dot(np.diag(I), R.T)) - m*dot(c, c); M[:3, 3:] = m*c; M[3:, :3] = -m*c; M[3:, 3:] = m*eye(3); ctx.close(M, f[0].mass, 'inertia', 'mass of %s' % sid, 1e-8, np.abs(f[0].mass).max())
    A = [g for g in G if g[1] == 'frame_arrows_geometry-mesh']; ln = [g for g in G if g[1] == 'line_geometry-mesh']
    if not daenim: ctx.ok(not A and not ln and not left, 'shape-count', 'other geometries: %s' % [g[1] for g in A + ln + left]); return
    ctx.ok(len(A) == len(frames) - 1, 'arrows', '%d arrows for %d frames' % (len(A), len(frames) - 1))
    for path, g, H, col in A: ctx.close(H, dot(path[0].absolute() if len(path) == 1 else [p for p in path if p.sid][-1].absolute(), np.diag([opt['frame arrows length']]*3 + [1.])), 'arrows', 'size of arrows', 1e-9, s)
    ctx.ok(all(g[0][-1].descr == ['inertia'] for g in left) and len(left) == len(massive), 'shape-count', 'other geometries: %s' % [(g[1], g[0][-1].id, g[0][-1].descr) for g in left])
    rig = {x[0]: x for x in S.rigid}
    for path, g, H, col in left:
        n = (path[-1].id or '')
        f = [x for x in massive if x.name and n == x.name + '.inertia']
        if not f: continue
        sid, m, K, I = rig[f[0].name]; ctx.close(H, dot(f[0].pose, dot(K, np.diag(np.append(I*opt['inertia factor'], 1.)))), 'ellipsoid', 'ellipsoid of %s' % f[0].name, 1e-8, s)
        if gen is not None: ctx.close(col[:3], gen.get_color(f[0]), 'colour', 'inertia of %s' % f[0].name, 1e-9)
    # a line goes from the frame a constant offset starts from to where it leads
    const = 0
    for path, g, H, col in ln:
        p = path[-2].absolute(); a, e = H[:3, 3], dot(H, array([0, 0, 1, 1.]))[:3]; ctx.close(a, p[:3, 3], 'link-line', 'start of line', 1e-9, s); ctx.ok(path[-1].descr == ['link'], 'link-line', 'description'); ends = [c.absolute()[:3, 3] for c in path[-2].children if c.sid]; ctx.ok(min(np.abs(x - e).max() for x in ends) < 1e-9*s, 'link-line', 'end of line')
    ctx.hit('link-line')

def scene(ctx, rng, i):
    tree, b = world(ctx, rng); w = b.world; m, daenim = (dw, False) if rng.random() < .5 else (vc, True); ctx.cls('daenim' if daenim else 'pydaenim')
    flat = bool(rng.random() < .5); ctx.cls('flat' if flat else 'hierarchical'); kw = {}; opt = wd.DrawerDriver.get_default_options(1.)
    if rng.random() < .4: kw['scale'] = float(10.**rng.uniform(-2, 2)); ctx.cls('scale')
    if 'scale' in kw:
        for k in ('frame arrows length', 'point radius', 'inertia factor'): opt[k] *= kw['scale']
        opt['plane half extents'] = tuple(x*kw['scale'] for x in opt['plane half extents'])
    if rng.random() < .5:
        ctx.cls('options'); o = {k: float(rng.uniform(.01, 3)) for k in ('frame arrows length', 'point radius', 'inertia factor') if rng.random() < .6}
        if rng.random() < .5: o['plane half extents'] = (float(rng.uniform(.1, 5)), float(rng.uniform(.1, 5)))
        kw['options'] = dict(o); opt.update(o)
    gen = None
    if rng.random() < .6:
        gen = wd.ColorGenerator({x: tuple(rng.random(3)) for x in list(w.iterframes()) + list(w.itershapes()) if rng.random() < .3}, 30); kw['color_generator'] = gen
    if flat or rng.random() < .3: kw['flat'] = said(rng, flat)
    # moved without any update: the writer must show the present positions
    set_state(b, tree) if rng.random() < .3 else None
    for l in tree.links: l.q = rand_q(rng, l.jt)
    set_q(b, tree); tilt(ctx, rng, w, .6); w.up[:] = -w.up if rng.random() < .4 else w.up; path = os.path.join(tempfile.mkdtemp(), 'scene %d.dae' % i); names = {id(x): x.name for x in list(w.iterframes()) + list(w.itershapes())}; g0 = w.gvel.copy(); q0 = [np.array(j.gpos).tobytes() for j in w.iterjoints()]; n0 = [len(list(x)) for x in (w.iterframes(), w.iterjoints(), w.itershapes())]
    with silent(): m.write_collada_scene(w, path, **kw)
    S = Scene(ctx, path); ctx.ok(np.array_equal(g0, w.gvel) and q0 == [np.array(j.gpos).tobytes() for j in w.iterjoints()] and n0 == [len(list(x)) for x in (w.iterframes(), w.iterjoints(), w.itershapes())] and all(v is None or x.name == v for x in list(w.iterframes()) + list(w.itershapes()) for v in [names[id(x)]]), 'world-unchanged', 'drawing changed the world')
    K = tree.compute(); 
    for k, bd in b.bodies.items():
        if k >= 0 and bd.name: ctx.close(S.ids[bd.name].absolute(), K['H'][k], 'fresh', 'body %s' % bd.name, 1e-9, kscale(tree, K))
    verify(ctx, S, w, daenim, opt, gen, names)
    for f in w.iterframes():
        if isinstance(f, core.MovingSubFrame): ctx.cls('moving')
        elif not isinstance(f, core.Body): ctx.cls('subframe')
    ctx.note(flat=flat, daenim=daenim, options=kw.get('options')); ctx.sig(sig_tree(tree), flat, daenim, sorted(kw), n0)

def palette(ctx, rng, i):
    """However many bodies, each is drawn in its own colour when none is asked."""
    n = int(rng.integers(2, 45)); w = core.World()
    for k in range(n): x = core.Body('b%d' % k, np.eye(6)); w.add_link(w.ground if rng.random() < .5 else list(w.iterbodies())[int(rng.integers(k + 1))], jnt.RzJoint(), x); w.register(shp.Sphere(x, .1, 's%d' % k))
    w.init(); m = dw if rng.random() < .5 else vc; p = os.path.join(tempfile.mkdtemp(), 's.dae'); flat = bool(rng.random() < .5)
    with silent(): m.write_collada_scene(w, p, flat=flat)
    S = Scene(ctx, p); col = {path[-1].id or path[-1].name: tuple(np.round(c, 9)) for path, g, H, c in S.all_geoms() if g == 'sphere_geometry-mesh'}; col = {k: v for k, v in col.items() if re.fullmatch('s[0-9]+', k or '')}
    ctx.ok(len(col) == n, 'shape-count', '%d spheres instead of %d' % (len(col), n)); ctx.ok(len(set(col.values())) == n, 'told-apart', '%d colours for %d bodies' % (len(set(col.values())), n)); ctx.sig(n, flat, m is dw)
    if n > 20: ctx.cls('many-bodies')

def refuse(ctx, rng, i):
    tree, b = world(ctx, rng, n=4)
    if len(b.joints) < 2: raise Skip()
    ctx.cls('refused-names'); p = os.path.join(tempfile.mkdtemp(), 'x.dae')
    for flat in (False, True):
        x = list(b.world.iterbodies())[1:] if flat else [j.frame1 for j in b.world.iterjoints()]; n0 = x[0].name; x[0].name = 'same'; n1 = x[1].name; x[1].name = 'same'
        for m in (dw, vc): ctx.raises(Exception, lambda: m.write_collada_scene(b.world, p, flat=flat), 'refused', 'two frames of the same name')
        x[0].name, x[1].name = n0, n1
    for m in (dw, vc): ctx.raises(Exception, lambda: m.write_collada_scene(object(), p), 'refused', 'not a world')

def names(ctx, rng, i):
    """Elements which share a name keep distinct nodes at the right places."""
    tree, b = world(ctx, rng, n=3); w = b.world; ctx.cls('same-names'); S_ = []
    for x in list(w.itershapes()): x.name = 'thing'
    for k in range(int(rng.integers(2, 5))): s = rand_shape(rng, b.bodies[int(rng.integers(-1, len(b.bodies) - 1))], 'thing' if rng.random() < .5 else str(rng.choice([j.frame1.name for j in w.iterjoints()] + ['ground'])), str(rng.choice(['Sphere', 'Box', 'Cylinder']))); w.register(s)
    for k in range(int(rng.integers(0, 3))): w.register(core.SubFrame(b.bodies[int(rng.integers(-1, len(b.bodies) - 1))], rand_H(rng), 'thing'))
    if i % 25 == 7:
        for k in range(120): w.register(shp.Sphere(w.ground, .1 + k*.001, 'thing'))
    w.init(); p = os.path.join(tempfile.mkdtemp(), 's.dae'); m = dw if rng.random() < .5 else vc; flat = bool(rng.random() < .5)
    with silent() as o: m.write_collada_scene(w, p, flat=flat)
    n = [x.name for x in list(w.itershapes()) + [f for f in w.iterframes() if not isinstance(f, core.Body)] if x.name]; S = Scene(ctx, p); s = 1 + max(np.abs(f.pose[:3, 3]).max() for f in w.iterframes()); left = [(g, H) for _, g, H, _ in S.all_geoms()]
    ctx.ok(o.getvalue().count('name collision') >= max(0, n.count('thing') - 1), 'collision-told', 'told %r for %s' % (o.getvalue(), n))
    for x in w.itershapes():
        t = base(x).__name__
        if t not in ('Sphere', 'Box', 'Cylinder'): continue
        d = dict(Box=lambda: x.half_extents, Sphere=lambda: [x.radius]*3, Cylinder=lambda: [x.radius, x.radius, x.length])[t](); X = dot(x.frame.pose, np.diag(np.append(d, 1.))); c = [k for k, (g, H) in enumerate(left) if g == t.lower() + '_geometry-mesh' and np.abs(H - X).max() < 1e-9*s]; ctx.ok(c, 'shape', '%s named %r' % (t, x.name)); left.pop(c[0])
    for f in ([x for x in w.iterbodies()] if flat else [j.frame1 for j in w.iterjoints()]) + list(w.itermovingsubframes()): ctx.close(S.ids[f.name].absolute(), f.pose, 'place', 'moving %r' % f.name, 1e-9, s)
    ctx.sig(sig_tree(tree), n)

def animate(ctx, rng, i):
    def one():
        tree, b = world(ctx, rng, True, 4); w = b.world; flat = bool(rng.random() < .5); d = tempfile.mkdtemp(); scene_, anim = os.path.join(d, 's.dae'), os.path.join(d, 'a.dae'); m = dw if rng.random() < .7 else vc; group = str(rng.choice(['/', 'runs/first'])); kind = str(rng.choice(['hdf5', 'pickle'])); ctx.cls(kind); ctx.cls('flat' if flat else 'hierarchical')
        sim = os.path.join(d, 'sim.' + str(rng.choice(['h5', 'hdf5'] if kind == 'hdf5' else ['pkl', 'pickle', 'data']))); T = timeline(ctx, rng)[:8]
        if i % 16 == 7: ctx.cls('long'); T = np.arange(int(rng.integers(260, 1200)))*10.**rng.uniform(-4, -3)
        if i % 12 == 5: T = T[:1]
        log = []
        class Spy(core.Observer):
            def init(self, world, tl): pass
            def update(self, dt): log.append((w.current_time, {f.name: f.pose.copy() for f in w.iterframes()}))
            def finish(self): pass
        with silent(): (dw if m is dw else vc).write_collada_scene(w, scene_, flat=said(rng, flat))
        before = open(scene_, 'rb').read(); L = obs.Hdf5Logger(sim, group=group, flat=said(rng, flat)) if kind == 'hdf5' else obs.PickleLogger(sim, flat=said(rng, flat))
        for l in tree.links: l.q = rand_q(rng, l.jt) if l.jt not in ('FreeJoint',) and rng.random() < .5 else l.q
        set_q(b, tree)
        for j in w.iterjoints(): j.gvel[:] = rng.normal(size=j.ndof)*.5
        try: quiet(core.simulate, w, T, [Spy(), L])
        except np.linalg.LinAlgError: raise Skip()
        if not all(np.isfinite(H).all() and np.abs(H).max() < 1e4 for _, P in log for H in P.values()): raise Skip()
        if not log: ctx.cls('no-step')
        kw = {}
        if kind == 'hdf5' and group != '/': kw['hdf5_group'] = group; ctx.cls('group')
        if sim.endswith('.data'): kw['file_type'] = 'pickle'
        prec = 8
        if rng.random() < .4: prec = kw['precision'] = int(rng.integers(3, 13)); ctx.cls('precision')
        if rng.random() < .3 and kind == 'hdf5' : kw['file_type'] = 'hdf5'
        with silent():
            f = m.write_collada_animation; f(anim, scene_, sim, **kw)
        ctx.ok(open(scene_, 'rb').read() == before, 'scene-kept', 'scene file changed'); S = Scene(ctx, anim); S0 = Scene(ctx, scene_); ctx.ok({k: n.absolute().tolist() for k, n in S.ids.items()} == {k: n.absolute().tolist() for k, n in S0.ids.items()}, 'scene-kept', 'nodes of the scene'); A = S.animations(ctx)
        want = {f.name for f in ([x for x in w.iterbodies()] if flat else [j.frame1 for j in w.iterjoints()])} | {f.name for f in w.itermovingsubframes()}; ctx.ok(set(A) == want, 'animation-target', 'animated %s instead of %s' % (sorted(A), sorted(want)))
        D = None
        for n, (t, v) in A.items():
            ctx.ok(t.shape == (len(log),) and v.shape == (len(log), 4, 4), 'animation-layout', '%d times, %s values for %d steps' % (len(t), v.shape, len(log))); ctx.close(t, [x[0] for x in log], 'animation-time', n, .51*10.**-prec + 1e-12, 1.)
        for k, (t, P) in enumerate(log):
            moved = {n: v[k] for n, (_, v) in A.items()}; s = 1 + max(np.abs(x[:3, 3]).max() for x in P.values())
            for n, H in P.items():
                if n in S.ids: ctx.close(S.ids[n].absolute(moved), H, 'playback', 'frame %r at step %d' % (n, k), 40*10.**-prec + 1e-8, s)
        for n, (t, v) in A.items(): ctx.ok(np.abs(v - np.round(v, prec)).max() < 1e-12 if len(v) else True, 'animation-values', 'rounding')
        if rng.random() < .2: ctx.cls('again'); dw.write_collada_animation(anim, scene_, sim, **kw); ctx.ok(len(Scene(ctx, anim).animations(ctx)) == len(A), 'animation-layout', 'written again')
        ctx.raises(Exception, lambda: dw.write_collada_animation(anim, scene_, os.path.join(d, 'none.h5')), 'refused', 'no such simulation')
        ctx.note(flat=flat, kind=kind, options=kw, steps=len(log)); ctx.sig(sig_tree(tree), flat, kind, sorted(kw), len(log))
    ctx.retry(one)

def add(ctx, rng, i):
    """Shapes added to a written file."""
    tree, b = world(ctx, rng, n=4); w = b.world; d = tempfile.mkdtemp(); p = os.path.join(d, 's.dae'); out = p if rng.random() < .4 else os.path.join(d, 'o.dae')
    for x in w.iterframes():
        if x.name is None: x.name = 'f%d' % id(x)
    with silent(): dw.write_collada_scene(w, p, flat=bool(rng.random() < .5))
    S0 = Scene(ctx, p); G0 = [(g, H.tolist()) for _, g, H, _ in S0.all_geoms()]; todo, L = [], []; missing = 0; frames = [f for f in w.iterframes() if f is not w.ground] + [w.ground]
    mesh = {'simple_box_node': 'box', 'simple_sphere_node': 'sphere', 'simple_cylinder_node': 'cylinder'}; files = [SIMPLE]
    if rng.random() < .4: import shutil; f2 = os.path.join(d, 'other shapes.dae'); shutil.copy(SIMPLE, f2); files.append(f2); ctx.cls('several-files')
    local = {}
    if rng.random() < .5:    # a file of the same name in another folder: its nodes hold other meshes, and have transforms of their own
        ctx.cls('same-file-name'); os.mkdir(os.path.join(d, 'more')); f3 = os.path.join(d, 'more', os.path.basename(files[-1])); txt = open(SIMPLE).read().replace('simple_box_node', '@@').replace('simple_sphere_node', 'simple_box_node').replace('@@', 'simple_sphere_node')
        for q in sorted(mesh):
            t = []; X = eye(4)
            for k in rng.permutation(4)[:int(rng.integers(0, 4))]:
                v = [float('%.6f' % x) for x in rng.uniform(.2, 3, 3)]
                if k == 0: t.append('<translate sid="t%d">%r %r %r</translate>' % (k, *v)); X = dot(X, tra(v))
                elif k == 1: t.append('<scale sid="t%d">%r %r %r</scale>' % (k, *v)); X = dot(X, np.diag(v + [1.]))
                elif k == 2: M = rand_H(rng); t.append('<matrix sid="t%d">%s</matrix>' % (k, ' '.join('%.17g' % x for x in M.flat))); X = dot(X, M)
                else: t.append('<rotate sid="t%d">1 0 0 %r</rotate>' % (k, 40*v[0])); X = dot(X, rotdeg(array([1., 0, 0, 40*v[0]])))
            head = '<node id="%s" name="%s" type="NODE">' % (q, q); assert txt.count(head) == 1; txt = txt.replace(head, head + ''.join(t)); local[f3, q] = X
        open(f3, 'w').write(txt); files.append(f3)
    swap = {'simple_box_node': 'sphere', 'simple_sphere_node': 'box', 'simple_cylinder_node': 'cylinder'}
    names = {f.name if f is not w.ground else 'ground': f for f in frames}
    for k in range(int(rng.integers(1, 6))):
        n = str(rng.choice(sorted(names))); node = str(rng.choice(sorted(mesh))); f = files[int(rng.integers(len(files)))]; e = [n, f + '#' + node]; H, sc = eye(4), ones(3); ok = True; u = rng.random()
        if u < .1: e[0] = 'nobody'; ok = False
        elif u < .2: e[1] = f + '#nothing'; ok = False
        if rng.random() < .7:
            H = rand_H(rng); L_ = forms(rng, H); e.append(H if rng.random() < .6 else L_[int(rng.integers(len(L_)))][1]); ctx.cls('added-transform')
            if rng.random() < .7:
                if rng.random() < .4: sc = float(rng.uniform(.1, 3)) if rng.random() < .7 else int(rng.integers(1, 4)); ctx.cls('added-scalar')
                else: sc = rng.uniform(.1, 3, 3); ctx.cls('added-scale')
                e.append(sc if np.ndim(sc) == 0 else sc.tolist())
        x = dict(zip(('frame', 'mesh', 'transform', 'scale'), e)) if rng.random() < .5 else tuple(e); L.append(x)
        if ok: todo.append((names[n], (swap if (f, node) in local else mesh)[node] + '_geometry-mesh', dot(dot(H, np.diag(np.append(ones(3)*sc, 1.))), local.get((f, node), eye(4)))))
        else: missing += 1
    with silent() as o: dw.add_shapes_to_dae(p, L, out) if out != p or rng.random() < .5 else dw.add_shapes_to_dae(p, L)
    ctx.ok(o.getvalue().count('warning') == missing, 'added-warning', '%d unknown frames or shapes, told: %r' % (missing, o.getvalue())); S = Scene(ctx, out); G = S.all_geoms(); left = list(G); s = 9 + 9*max(np.abs(f.pose[:3, 3]).max() for f in frames)
    for g, H in G0: c = [x for x in left if x[1] == g and np.allclose(x[2], H, 0, 1e-12)]; ctx.ok(c, 'added-others', '%s of the scene' % g); left.remove(c[0]) if False else [left.pop(q) for q in [next(q for q, x in enumerate(left) if x is c[0])]]
    ctx.ok({k: n.absolute().tolist() for k, n in S0.ids.items()} == {k: n.absolute().tolist() for k, n in S.ids.items() if k in S0.ids}, 'added-others', 'nodes of the scene')
    for f, g, X in todo:
        R = dot(f.pose, X); c = [q for q, x in enumerate(left) if x[1] == g and np.abs(x[2] - R).max() < 1e-9*s*4]; ctx.ok(c, 'added', '%s on %s; there are %s' % (g, f.name, [(x[1], x[2][:3, 3]) for x in left])); left.pop(c[0])
    ctx.ok(not left, 'added', 'more shapes than asked'); ctx.sig(sig_tree(tree), len(L), missing)
    if i % 4 == 0:    # a whole file, and shapes of nodes of the same name
        ctx.cls('added-whole'); whole = os.path.join(d, 'w.dae'); dw.add_shapes_to_dae(p, [(frames[0].name if frames[0] is not w.ground else 'ground', SIMPLE)], whole); ctx.ok(len(Scene(ctx, whole).all_geoms()) == len(Scene(ctx, p).all_geoms()) + 6, 'added', 'whole file: %d' % len(Scene(ctx, whole).all_geoms()))
        ctx.cls('added-file'); txt = open(SIMPLE).read(); fs = [f for f in w.iterframes() if f is not w.ground]; fs = [fs[k] for k in rng.permutation(len(fs))[:3]]; want = {}
        for f, (node, g) in zip(fs, sorted(mesh.items())): txt = txt.replace('id="%s" name="%s"' % (node, node), 'id="%s" name="%s"' % (f.name, f.name)); want[f.name] = g + '_geometry-mesh'
        df, mix = os.path.join(d, 'deco.dae'), os.path.join(d, 'mix.dae'); open(df, 'w').write(txt); p1 = os.path.join(d, 'p1.dae')
        with silent(): dw.write_collada_scene(w, p1, flat=bool(rng.random() < .5))
        with silent() as o: dw.add_shapes_to_dae(p1, df, mix)
        B, M = Scene(ctx, p1), Scene(ctx, mix); ctx.ok(o.getvalue().count('warning') == len(B.ids) - len(want), 'added-warning', 'told: %r' % o.getvalue()); G = M.all_geoms(); left = list(G); ctx.ok(len(G) == len(B.all_geoms()) + len(fs), 'added', 'decorations: %d' % (len(G) - len(B.all_geoms())))
        for f in fs: ctx.ok(any(g == want[f.name] and np.abs(H - f.pose).max() < 1e-9*s for _, g, H, _ in G), 'added', 'decoration of %s' % f.name)

FAMILIES = [('scene', scene, 120, 4000), ('animate', animate, 50, 1500), ('add', add, 30, 800), ('names', names, 25, 600), ('palette', palette, 10, 150), ('refuse', refuse, 3, 20)]
