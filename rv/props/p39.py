"""P39: reading and writing URDF."""
from rv.urdf import *
import xml.dom.minidom as md, warnings as wn

RULE = 'random robot descriptions with every optional element present or absent, joints of all types, shuffled and reformatted files, unknown elements, hand-built objects; distinct by content'
MONITORS = ['read', 'reread', 'stable', 'wellformed', 'order', 'chain', 'root', 'maps', 'text', 'independent', 'file', 'unknown', 'missing-root', 'built']
CLASSES = ['shuffled', 'safety', 'calibration', 'mimic', 'dynamics', 'limit', 'no-limit', 'texture', 'color', 'mesh-scale', 'half-origin', 'continuous', 'floating', 'planar', 'chain-of-one', 'chain-without-fixed', 'unknown-element', 'accent', 'empty', 'utf-8', 'iso-8859-1', 'utf-16', 'us-ascii', 'preamble']
TYPES = ('revolute', 'prismatic', 'fixed', 'continuous', 'floating', 'planar')

def F(x): return None if x is None else float(x)
def V(x): return None if x is None else tuple(float(v) for v in x)
def pose(p): return None if p is None else (V(p.position), V(p.rotation))
def geom(g):
    if g is None: return None
    if isinstance(g, up.Box): return ('box', V(g.dims))
    if isinstance(g, up.Sphere): return ('sphere', float(g.radius))
    if isinstance(g, up.Cylinder): return ('cylinder', float(g.radius), float(g.length))
    if isinstance(g, up.Mesh): return ('mesh', g.filename, V(g.scale))
    return ('?', type(g).__name__)
def mat(m): return None if m is None else (m.name, None if m.color is None else V(m.color.rgba), m.texture)
def limit(l): return None if l is None else (float(l.effort), float(l.velocity), F(l.lower), F(l.upper))
def content(u):
    """Everything a parsed robot holds, as plain values."""
    L = {n: (l.name, None if l.inertial is None else (float(l.inertial.mass), {k: float(v) for k, v in l.inertial.matrix.items()}, pose(l.inertial.origin)), None if l.visual is None else (geom(l.visual.geometry), pose(l.visual.origin), mat(l.visual.material)), None if l.collision is None else (geom(l.collision.geometry), pose(l.collision.origin))) for n, l in u.links.items()}
    J = {n: (j.name, j.joint_type, j.parent, j.child, None if j.axis is None else V(j.axis.split() if isinstance(j.axis, str) else j.axis), pose(j.origin), limit(j.limits), None if j.dynamics is None else (F(j.dynamics.damping), F(j.dynamics.friction)),
        None if j.safety is None else (float(j.safety.velocity), F(j.safety.position), F(j.safety.lower), F(j.safety.upper)), None if j.calibration is None else (F(j.calibration.rising), F(j.calibration.falling)), None if j.mimic is None else (j.mimic.joint_name, F(j.mimic.multiplier), F(j.mimic.offset))) for n, j in u.joints.items()}
    return dict(name=u.name, links=L, joints=J, materials={n: mat(m) for n, m in u.materials.items()})
def t3(v): return None if v is None else tuple(n.x for n in v)
def expected(R):
    def o(p): return None if p is None else (t3(p[0]), t3(p[1]))
    def g(d): k = d['kind']; return ('box', t3(d['size'])) if k == 'box' else ('sphere', d['radius'].x) if k == 'sphere' else ('cylinder', d['radius'].x, d['length'].x) if k == 'cylinder' else ('mesh', d['filename'], t3(d['scale']))
    def m(d): return None if d is None else (d['name'], t3(d['color']), d['texture'])
    def x(d, k): return d[k].x if d.get(k) is not None else None
    L = {l['name']: (l['name'], None if l['inertial'] is None else (l['inertial']['mass'].x, {k: v.x for k, v in l['inertial']['I'].items()}, o(l['inertial']['origin'])), None if l['visual'] is None else (g(l['visual']['geometry']), o(l['visual']['origin']), m(l['visual']['material'])), None if l['collision'] is None else (g(l['collision']['geometry']), o(l['collision']['origin']))) for l in R.links}
    J = {j['name']: (j['name'], j['type'], R.links[j['parent']]['name'], R.links[j['child']]['name'], t3(j['axis']), o(j['origin']), None if j['limit'] is None else (x(j['limit'], 'effort'), x(j['limit'], 'velocity'), x(j['limit'], 'lower'), x(j['limit'], 'upper')), None if j['dynamics'] is None else (x(j['dynamics'], 'damping'), x(j['dynamics'], 'friction')),
        None if j['safety'] is None else (x(j['safety'], 'k_velocity'), x(j['safety'], 'k_position'), x(j['safety'], 'soft_lower_limit'), x(j['safety'], 'soft_upper_limit')), None if j['calibration'] is None else (x(j['calibration'], 'rising'), x(j['calibration'], 'falling')), None if j['mimic'] is None else (j['mimic']['joint'], x(j['mimic'], 'multiplier'), x(j['mimic'], 'offset'))) for j in R.joints}
    return dict(name=R.name, links=L, joints=J, materials={d['name']: m(d) for d in R.materials})

def same(ctx, a, b, monitor, what):
    ctx.hit(monitor)
    for part in ('name', 'links', 'joints', 'materials'):
        if a[part] != b[part]:
            if isinstance(a[part], dict):
                for k in sorted(set(a[part]) | set(b[part])):
                    if a[part].get(k) != b[part].get(k): ctx.fail(monitor, '%s: %s %r is %s instead of %s' % (what, part, k, a[part].get(k), b[part].get(k)))
            ctx.fail(monitor, '%s: %s %r instead of %r' % (what, part, a[part], b[part]))

def parse(x, **kw):
    with wn.catch_warnings(record=True) as W:
        wn.simplefilter('always'); u = up.URDF.parse_xml_string(x, **kw)
    return u, [str(w.message) for w in W]

def roundtrip(ctx, rng, i):
    R = Robot(rng, 1, 9, TYPES); x = R.xml(); ctx.note(urdf=x); E = expected(R)
    if getattr(R, 'shuffled', False): ctx.cls('shuffled')
    if u'\u00e9' in x: ctx.cls('accent')
    for J in R.joints:
        for w in ('safety', 'calibration', 'mimic', 'dynamics', 'limit'):
            if J[w] is not None: ctx.cls(w)
        if J['limit'] is None: ctx.cls('no-limit')
        if J['type'] in CLASSES: ctx.cls(J['type'])
        if J['origin'] and (J['origin'][0] is None) != (J['origin'][1] is None): ctx.cls('half-origin')
    for m in R.materials: ctx.cls('texture') if m['texture'] else ctx.cls('color')
    if any(l[w] and l[w]['geometry'].get('scale') is not None for l in R.links for w in ('visual', 'collision')): ctx.cls('mesh-scale')
    u, W = parse(x); same(ctx, content(u), E, 'read', 'first reading')
    told = [w for w in W]; ctx.ok(len(W) == len(R.unknown), 'unknown', 'unknown %s; warnings %s' % (R.unknown, W))
    for n in R.unknown:
        ctx.cls('unknown-element'); k = [q for q, w in enumerate(told) if "'%s'" % n in w]; ctx.ok(k, 'unknown', '%s not reported in %s' % (n, W)); told.pop(k[0])
    if R.unknown: q, W2 = parse(x, verbose=False); ctx.ok(not W2, 'unknown', 'warnings although not verbose: %s' % W2); same(ctx, content(q), E, 'unknown', 'quiet reading')
    # names in order of the file
    names = [e.name for e in u.elements]; ctx.ok(sorted(map(str, names)) == sorted([l['name'] for l in R.links] + [j['name'] for j in R.joints] + [m['name'] for m in R.materials]), 'order', 'elements %s' % names)
    y = u.to_xml(); md.parseString(y.encode('utf-8')); ctx.hit('wellformed')
    u2, W2 = parse(y); same(ctx, content(u2), E, 'reread', 'after writing'); ctx.ok([e.name for e in u2.elements] == names, 'order', 'order of elements'); ctx.ok(not W2, 'reread', 'warnings when reading back: %s' % W2)
    same(ctx, content(parse(u2.to_xml())[0]), E, 'stable', 'written and read twice'); same(ctx, content(u), E, 'independent', 'first robot after reading a second one')
    # structure
    par = {R.links[j['child']]['name']: (j['name'], R.links[j['parent']]['name']) for j in R.joints}; ctx.ok({k: tuple(v) for k, v in u.parent_map.items()} == par, 'maps', 'parents')
    ch = {}
    for j in R.joints: ch.setdefault(R.links[j['parent']]['name'], set()).add((j['name'], R.links[j['child']]['name']))
    ctx.ok({k: set(map(tuple, v)) for k, v in u.child_map.items()} == ch and sum(map(len, u.child_map.values())) == len(R.joints), 'maps', 'children'); ctx.ok(u.get_root() == R.links[0]['name'], 'root', 'root %s' % u.get_root())
    for _ in range(4):
        k = int(rng.integers(len(R.links))); up_, b = [], k
        while True:
            up_.append(b); J = [j for j in R.joints if j['child'] == b]
            if not J or rng.random() < .2: break
            b = J[0]['parent']
        kw = dict(joints=bool(rng.random() < .7), links=bool(rng.random() < .7), fixed=bool(rng.random() < .6)); C = []
        if len(up_) == 1: ctx.cls('chain-of-one')
        if not kw['fixed']: ctx.cls('chain-without-fixed')
        for a in up_[::-1]:
            J = [j for j in R.joints if j['child'] == a]
            if a != b and kw['joints'] and (kw['fixed'] or J[0]['type'] != 'fixed'): C.append(J[0]['name'])
            if kw['links']: C.append(R.links[a]['name'])
        got = u.get_chain(R.links[b]['name'], R.links[k]['name'], **kw); ctx.ok(list(got) == C, 'chain', '%s: %s instead of %s' % (kw, got, C))
        if all(kw.values()): ctx.ok(list(u.get_chain(R.links[b]['name'], R.links[k]['name'])) == C, 'chain', 'chain by default')
    # readable text
    s = str(u); ctx.ok(all(n in s for n in [R.name] + [l['name'] for l in R.links] + [j['name'] for j in R.joints] + [m['name'] for m in R.materials]), 'text', 'names in the text')
    for l in u.links.values():
        for v in (l.visual, l.collision, l.inertial): str(v)
    for part in list(u.links.values()) + list(u.joints.values()) + list(u.materials.values()): ctx.ok(str(part.name) in str(part), 'text', 'text of %s' % part.name)
    # file
    p = R.write(); v = up.URDF.load_xml_file(p, verbose=False); same(ctx, content(v), E, 'file', 'read from a file')
    # the same text in another encoding, with a preamble
    enc = str(rng.choice(['utf-8', 'iso-8859-1', 'utf-16', 'us-ascii'])); t = R.text[R.text.index('<robot'):]; pre = '<?xml version="1.0" encoding="%s"?>\n' % enc
    if rng.random() < .3: pre += '<!DOCTYPE robot>\n'; ctx.cls('preamble')
    if rng.random() < .3: pre += '<?xml-model href="urdf.rnc"?>\n'; ctx.cls('preamble')
    if rng.random() < .3: k = t.index('>') + 1; t = t[:k] + '<?tool made?>' + t[k:]; ctx.cls('preamble')
    ctx.cls(enc); open(p, 'wb').write((pre + t).encode(enc, 'xmlcharrefreplace')); v = up.URDF.load_xml_file(p, verbose=False); same(ctx, content(v), E, 'file', 'read from a file in ' + enc)
    ctx.sig(sorted(map(repr, E['joints'].values())))

def build_up(ctx, rng, i):
    """A robot made by hand, written and read."""
    R = Robot(rng, 1, 6, TYPES); E = expected(R); u = up.URDF(R.name); num = lambda a: [list, tuple, np.array][int(rng.integers(3))](t3(a)); k = lambda o: None if o is None else up.Pose(*[None if a is None else num(a) for a in o])
    def g(d):
        t = d['kind']; return up.Box(num(d['size'])) if t == 'box' else up.Sphere(d['radius'].x) if t == 'sphere' else up.Cylinder(d['radius'].x, d['length'].x) if t == 'cylinder' else up.Mesh(d['filename'], None if d['scale'] is None else num(d['scale']))
    def m(d): return None if d is None else up.Material(d['name'], None if d['color'] is None else up.Color(*t3(d['color'])), d['texture'])
    def x(d, n): return d[n].x if d.get(n) is not None else None
    for l in R.links:
        I = l['inertial']; u.add_link(up.Link(l['name'], *[None if d is None else d for d in (None if l['visual'] is None else up.Visual(g(l['visual']['geometry']), m(l['visual']['material']), k(l['visual']['origin'])), None if I is None else up.Inertial(mass=I['mass'].x, origin=k(I['origin']), **{a: b.x for a, b in I['I'].items()}), None if l['collision'] is None else up.Collision(g(l['collision']['geometry']), k(l['collision']['origin'])))]))
    for j in R.joints:
        u.add_joint(up.Joint(j['name'], R.links[j['parent']]['name'], R.links[j['child']]['name'], j['type'], axis=None if j['axis'] is None else num(j['axis']), origin=k(j['origin']), limits=None if j['limit'] is None else up.JointLimit(x(j['limit'], 'effort'), x(j['limit'], 'velocity'), x(j['limit'], 'lower'), x(j['limit'], 'upper')),
            dynamics=None if j['dynamics'] is None else up.Dynamics(x(j['dynamics'], 'damping'), x(j['dynamics'], 'friction')), safety=None if j['safety'] is None else up.SafetyController(x(j['safety'], 'k_velocity'), x(j['safety'], 'k_position'), x(j['safety'], 'soft_lower_limit'), x(j['safety'], 'soft_upper_limit')),
            calibration=None if j['calibration'] is None else up.JointCalibration(x(j['calibration'], 'rising'), x(j['calibration'], 'falling')), mimic=None if j['mimic'] is None else up.JointMimic(j['mimic']['joint'], x(j['mimic'], 'multiplier'), x(j['mimic'], 'offset'))))
    for d in R.materials: u.add_material(m(d))
    y = u.to_xml(); ctx.note(urdf=y); same(ctx, content(parse(y)[0]), E, 'built', 'written and read'); e = up.URDF('empty'); ctx.cls('empty'); ctx.ok(not e.links and not e.joints and not e.elements and not e.materials, 'independent', 'new robot is not empty')
    ctx.raises(Exception, e.get_root, 'missing-root', 'root of nothing'); str(e)
    e.add_link(up.Link('a')); e.add_link(up.Link('b')); ctx.raises(Exception, e.get_root, 'missing-root', 'two roots')

FAMILIES = [('roundtrip', roundtrip, 250, 8000), ('built', build_up, 100, 3000)]
