"""Random robot descriptions, their XML text in many spellings, and what they mean."""
from rv.mech import *
import os, tempfile, io, contextlib
from xml.sax.saxutils import escape, quoteattr
ur = mod('arboris.robots.urdf'); up = mod('arboris.robots.urdf.urdf_parser')

class Num(object):
    """A number and the way it is written."""
    def __init__(self, rng, x, digits=False):
        x = float(x); k = int(rng.choice([0, 3])) if digits else int(rng.integers(6))
        self.text = [repr(x), '%.3f' % x, '%g' % x, '%.9e' % x, '%+.4f' % x, repr(x)][k]
        if abs(x) == 1 or x == 0: self.text = str(rng.choice(['%d' % x, '%.1f' % x, '%.4f' % x]))
        self.x = float(self.text)
def nums(rng, v): return [Num(rng, x) for x in v]
def val(ns): return None if ns is None else array([n.x for n in ns])
def text(rng, ns):
    sep = str(rng.choice([' ', ' ', '  ', '\t', ' \n   '])); s = sep.join(n.text for n in ns); return ' %s ' % s if rng.random() < .15 else s

def rand_origin(rng):
    """None, or (position or None, angles or None)"""
    u = rng.random()
    if u < .2: return None
    p = nums(rng, rng.normal(size=3)*.5) if rng.random() < .8 else None
    r = None
    if rng.random() < .75:
        a = rng.uniform(-np.pi, np.pi, 3)
        if rng.random() < .4: a = rng.choice([0, np.pi/2, -np.pi/2, np.pi, 1.5707, .3], 3)
        r = nums(rng, a)
    return (p, r)
def H_of(o):
    H = eye(4)
    if o is None: return H
    if o[1] is not None:
        r, p, y = val(o[1]); H[:3, :3] = dot(rot((0, 0, 1), y), dot(rot((0, 1, 0), p), rot((1, 0, 0), r)))
    if o[0] is not None: H[:3, 3] = val(o[0])
    return H
def rot(axis, a):
    k = skew(array(axis, float)); return eye(3) + np.sin(a)*k + (1 - np.cos(a))*dot(k, k)

def zeroed(rng, x): return x if rng.random() < .8 else 0.
def rand_geometry(rng, kinds=('box', 'sphere', 'cylinder', 'mesh')):
    k = str(rng.choice(kinds)); d = dict(kind=k)
    if k == 'box': d['size'] = nums(rng, rng.uniform(.05, 2, 3))
    elif k == 'sphere': d['radius'] = Num(rng, rng.uniform(.05, 2))
    elif k == 'cylinder': d['radius'], d['length'] = Num(rng, rng.uniform(.05, 1)), Num(rng, rng.uniform(.05, 2))
    else: d['filename'], d['scale'] = 'meshes/part %d.dae' % rng.integers(9), nums(rng, rng.uniform(.001, 3, 3)) if rng.random() < .5 else None
    return d

AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1)]
class Robot(object):
    def __init__(self, rng, nmin=1, nmax=8, types=('revolute', 'prismatic', 'fixed'), extras=False):
        self.rng = rng; n = int(rng.integers(nmin, nmax + 1)); self.links, self.joints = [], []; self.name = str(rng.choice(['robot', 'my robot', 'r&d <1>'])); self.materials = []
        style = str(rng.choice(['l%d', 'link %d', 'b.%d', 'L%d_link', u'bras-gauche\u00e9%d']))
        for k in range(n):
            L = dict(name=style % k, inertial=None, visual=None, collision=None)
            if rng.random() < .8:
                m = Num(rng, rng.choice([rng.uniform(.1, 5), rng.uniform(.1, 5), 0, 10.**rng.uniform(-8, -1)]))
                R = rand_H(rng)[:3, :3]; J = dot(R, dot(np.diag([rng.uniform(.5, 1), rng.uniform(.6, 1), rng.uniform(.5, 1)])*10.**rng.choice([0, -2, rng.uniform(-8, 2)]), R.T)) if rng.random() < .9 else zeros((3, 3))
                L['inertial'] = dict(mass=m, origin=rand_origin(rng), I=dict(ixx=Num(rng, J[0, 0], 1), iyy=Num(rng, J[1, 1], 1), izz=Num(rng, J[2, 2], 1), ixy=Num(rng, J[0, 1], 1), ixz=Num(rng, J[0, 2], 1), iyz=Num(rng, J[1, 2], 1)))
            for w in ('visual', 'collision'):
                if rng.random() < .5: L[w] = dict(geometry=rand_geometry(rng), origin=rand_origin(rng), material=None)
            if L['visual'] and rng.random() < .5: L['visual']['material'] = dict(name=str(rng.choice(['blue', 'm%d' % k])), color=nums(rng, np.round(rng.random(4), int(rng.choice([0, 16])))) if rng.random() < .7 else None, texture='t.png' if rng.random() < .3 else None)
            self.links.append(L)
        for k in range(1, n):
            t = str(rng.choice(types)); ax = None; par = int(rng.integers(max(0, k - 3), k)) if rng.random() < .7 else int(rng.integers(0, k))
            if t != 'fixed' or rng.random() < .3:
                u = rng.random()
                if u < .15: ax = None
                elif u < .6: ax = nums(rng, AXES[int(rng.integers(6))])
                elif u < .7: ax = nums(rng, array(AXES[int(rng.integers(6))])*rng.choice([2., .5, 10.]))
                elif u < .8: # next to a coordinate axis
                    a = array(AXES[int(rng.integers(6))])*1. + rand_unit(rng)*10.**rng.uniform(-6, -1); ax = [Num(rng, x, 1) for x in a]
                    for x, v in zip(ax, a): x.text, x.x = repr(float(v)), float(v)
                else:
                    ax = nums(rng, rand_unit(rng))
                    if norm(val(ax)) < .1: ax = None
            J = dict(name='j%d' % k if rng.random() < .8 else 'joint to %d' % k, type=t, parent=par, child=k, origin=rand_origin(rng), axis=ax, limit=None, dynamics=None, safety=None, calibration=None, mimic=None)
            if t in ('revolute', 'prismatic') and rng.random() < .85 or rng.random() < .1:
                lo, w = rng.uniform(-2, .5), rng.uniform(.2, 3); lo = rng.choice([lo, 0., -w], p=[.6, .2, .2]); J['limit'] = dict(effort=Num(rng, zeroed(rng, rng.uniform(0, 100))), velocity=Num(rng, zeroed(rng, rng.uniform(0, 10))), lower=Num(rng, lo) if rng.random() < .85 else None, upper=Num(rng, lo + w) if rng.random() < .85 else None)
                if rng.random() < .06 and J['limit']['lower']: J['limit']['upper'] = J['limit']['lower']
            for w, keys in (('dynamics', ('damping', 'friction')), ('calibration', ('rising', 'falling')), ('mimic', ('multiplier', 'offset'))):
                if rng.random() < .25: J[w] = {q: Num(rng, zeroed(rng, rng.normal())) for q in keys if rng.random() < .7}
            if rng.random() < .25: J['safety'] = {q: Num(rng, zeroed(rng, rng.normal())) for q in ('soft_lower_limit', 'soft_upper_limit', 'k_position') if rng.random() < .7}; J['safety']['k_velocity'] = Num(rng, zeroed(rng, rng.normal()))
            if J['mimic'] is not None: J['mimic']['joint'] = 'j1'
            self.joints.append(J)
        for k in range(int(rng.integers(0, 3))): self.materials.append(dict(name='mat%d' % k, color=nums(rng, rng.random(4)) if rng.random() < .8 else None, texture='x/%d.png' % k if rng.random() < .5 else None))
    # -- meaning
    def axis(self, J):
        a = array([1., 0, 0]) if J['axis'] is None else val(J['axis']); return a/norm(a)
    def step(self, J, q):
        """Transform between the links of a joint."""
        H = eye(4); a = self.axis(J)
        if J['type'] == 'revolute': H[:3, :3] = rot(a, q)
        elif J['type'] == 'prismatic': H[:3, 3] = a*q
        return dot(H_of(J['origin']), H)
    def poses(self, H0, q):
        """q: child index -> joint position"""
        H = {0: H0}
        for J in self.joints: H[J['child']] = dot(H[J['parent']], self.step(J, q.get(J['child'], 0.)))
        return H
    def mass(self, k):
        L = self.links[k]['inertial']
        if L is None: return zeros((6, 6))
        m = max(1e-6, L['mass'].x); I = {n: v.x for n, v in L['I'].items()}
        I = array([[max(1e-6, I['ixx']), I['ixy'], I['ixz']], [I['ixy'], max(1e-6, I['iyy']), I['iyz']], [I['ixz'], I['iyz'], max(1e-6, I['izz'])]])
        H = H_of(L['origin']); R, c = H[:3, :3], skew(H[:3, 3]); M = zeros((6, 6)); M[:3, :3] = dot(R, dot(I, R.T)) - m*dot(c, c); M[:3, 3:] = m*c; M[3:, :3] = -m*c; M[3:, 3:] = m*eye(3)
        return M
    # -- text
    def attrs(self, d):
        rng = self.rng; items = [(k, v) for k, v in d if v is not None]; items = [items[i] for i in rng.permutation(len(items))] if rng.random() < .4 else items
        return ''.join(' %s=%s' % (k, quoteattr(v.text if isinstance(v, Num) else text(rng, v) if isinstance(v, list) else v)) for k, v in items)
    def el(self, tag, attrs=(), children=()):
        rng = self.rng; ch = [c for c in children if c]
        if rng.random() < .3 and len(ch) > 1: ch = [ch[i] for i in rng.permutation(len(ch))]
        if rng.random() < .05: ch.insert(int(rng.integers(len(ch) + 1)), '<!-- <%s name="no"/> -->' % tag)
        if self.strange and tag in ('link', 'joint', 'visual', 'collision', 'material') and rng.random() < .3: self.unknown.append('vendor_%s' % tag); ch.insert(int(rng.integers(len(ch) + 1)), '<vendor_%s name="no"><box size="1 1 1"/></vendor_%s>' % (tag, tag))
        nl = str(rng.choice(['\n', '\n', '', '\n   ']))
        return '<%s%s/>' % (tag, self.attrs(attrs)) if not ch else '<%s%s>%s%s%s</%s>' % (tag, self.attrs(attrs), nl, nl.join(ch), nl, tag)
    def x_origin(self, o): return None if o is None else self.el('origin', [('xyz', o[0]), ('rpy', o[1])])
    def x_geometry(self, g):
        k = g['kind']; a = [(n, g[n]) for n in dict(box=['size'], sphere=['radius'], cylinder=['radius', 'length'], mesh=['filename', 'scale'])[k]]
        return self.el('geometry', [], [self.el(k, a)])
    def x_material(self, m): return None if m is None else self.el('material', [('name', m['name'])], [self.el('color', [('rgba', m['color'])]) if m['color'] else None, self.el('texture', [('filename', m['texture'])]) if m['texture'] else None])
    def xml(self):
        rng = self.rng; E = []; self.unknown = []; self.strange = rng.random() < .25
        for L in self.links:
            ch = []; I = L['inertial']
            if I: ch.append(self.el('inertial', [], [self.x_origin(I['origin']), self.el('mass', [('value', I['mass'])]), self.el('inertia', list(I['I'].items()))]))
            for w in ('visual', 'collision'):
                if L[w]: ch.append(self.el(w, [], [self.x_origin(L[w]['origin']), self.x_geometry(L[w]['geometry']), self.x_material(L[w]['material'])]))
            E.append(self.el('link', [('name', L['name'])], ch))
        for J in self.joints:
            ch = [self.el('parent', [('link', self.links[J['parent']]['name'])]), self.el('child', [('link', self.links[J['child']]['name'])]), self.x_origin(J['origin'])]
            if J['axis'] is not None: ch.append(self.el('axis', [('xyz', J['axis'])]))
            for w, tag in (('limit', 'limit'), ('dynamics', 'dynamics'), ('safety', 'safety_controller'), ('calibration', 'calibration'), ('mimic', 'mimic')):
                if J[w] is not None: ch.append(self.el(tag, list(J[w].items())))
            E.append(self.el('joint', [('name', J['name']), ('type', J['type'])], ch))
        for m in self.materials: E.append(self.x_material(m))
        if rng.random() < .3: E.append('<gazebo reference="l0"><material>Gazebo/Red</material></gazebo>')
        if rng.random() < .3: E.append('<transmission name="t"><joint name="j1"/></transmission>')
        if rng.random() < .2: E.append('<sensor name="no"/>'); self.unknown.append('sensor')
        if rng.random() < .5: E = [E[i] for i in rng.permutation(len(E))]; self.shuffled = True
        head = str(rng.choice(['<?xml version="1.0" ?>\n', '', '<?xml version="1.0" encoding="utf-8"?>\n<!-- made -->\n']))
        return head + '<robot name=%s>%s%s%s</robot>\n' % (quoteattr(self.name), '\n' if rng.random() < .8 else '', '\n'.join(E), '\n') + ('<!-- end -->' if rng.random() < .2 else '')
    def write(self):
        d = tempfile.mkdtemp(); p = os.path.join(d, 'robot.urdf'); self.text = self.xml(); open(p, 'w', encoding='utf-8').write(self.text); return p

@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()): yield
