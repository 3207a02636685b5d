"""The COLLADA writers of the code under test (their viewer back-end stubbed) and an independent reader of their files."""
from rv.worlds import *
import sys, types, os, tempfile
import xml.etree.ElementTree as ET

class Pydaenim(types.ModuleType):
    """Stand-in for the viewer package: records what it is asked."""
    def __init__(self): types.ModuleType.__init__(self, 'pydaenim'); self.viewers, self.sockets = [], []
    def create_pydaenimViewer(self, *a, **k): self.viewers.append((a, k))
    def pydaenimWebSocket(self, *a, **k): s = WebSocket(*a, **k); self.sockets.append(s); return s
class WebSocket(object):
    def __init__(self, host, port, timeout): self.host, self.port, self.timeout, self.messages, self.listening, self.broken = host, port, timeout, [], 0, None
    def listen(self): self.listening += 1
    def send_message(self, m):
        if self.broken is not None and len(self.messages) >= self.broken: raise IOError('gone')
        self.messages.append(m)
pydaenim = sys.modules['pydaenim'] = Pydaenim()
import contextlib, io
@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()) as f: yield f
dw, vc, visu = mod('arboris.visu.dae_writer'), mod('arboris.visu.visu_collada'), mod('arboris.visu')
wd = mod('arboris.visu.world_drawer')

NS = '{http://www.collada.org/2005/11/COLLADASchema}'
def fl(s): return array([float(x) for x in (s or '').split()])
def rotdeg(v):
    k = skew(v[:3]/norm(v[:3])); a = np.radians(v[3]); H = eye(4); H[:3, :3] = eye(3) + np.sin(a)*k + (1 - np.cos(a))*dot(k, k); return H
class Node(object):
    def __init__(self, el, parent):
        self.el, self.parent, self.id, self.name = el, parent, el.get('id'), el.get('name'); self.local, self.geoms, self.descr, self.instances, self.sid, self.nt = eye(4), [], [], [], None, 0
        self.children = []
        for c in el:
            t = c.tag.replace(NS, '')
            if t == 'matrix': self.local = dot(self.local, fl(c.text).reshape(4, 4)); self.sid = c.get('sid'); self.nt += 1
            elif t == 'scale': self.local = dot(self.local, np.diag(np.append(fl(c.text), 1.))); self.nt += 1
            elif t == 'translate': self.local = dot(self.local, tra(fl(c.text))); self.nt += 1
            elif t == 'rotate': self.local = dot(self.local, rotdeg(fl(c.text))); self.nt += 1
            elif t == 'node': self.children.append(Node(c, self))
            elif t == 'instance_geometry': self.geoms.append((c.get('url')[1:], [m.get('target')[1:] for m in c.iter(NS + 'instance_material')]))
            elif t == 'instance_node': self.instances.append(c.get('url')[1:])
            elif t == 'extra': self.descr += [d.text for d in c.iter(NS + 'Description')]
    def absolute(self, moved=None):
        X = moved[self.id] if moved and self.id in moved else self.local
        return X if self.parent is None else dot(self.parent.absolute(moved), X)
    def walk(self):
        yield self
        for c in self.children:
            for n in c.walk(): yield n
class Scene(object):
    """An independent reading of a COLLADA file."""
    def __init__(self, ctx, path):
        r = ET.parse(path).getroot(); self.root = r; f = lambda p: r.find('/'.join(NS + x for x in p.split('/')))
        self.up = f('asset/up_axis').text; url = f('scene/instance_visual_scene').get('url')[1:]; vs = [v for v in r.iter(NS + 'visual_scene') if v.get('id') == url]; assert len(vs) == 1
        self.top = [Node(n, None) for n in vs[0].findall(NS + 'node')]; self.nodes = [n for t in self.top for n in t.walk()]; self.ids = {}
        for n in self.nodes:
            if n.id: ctx.ok(n.id not in self.ids, 'unique-ids', 'two nodes %r' % n.id); self.ids[n.id] = n
        seen = set()
        for e in r.iter():
            q = e.get('id')
            if q: ctx.ok(q not in seen, 'unique-ids', 'two elements %r, one of them %s' % (q, e.tag)); seen.add(q)
        self.library = {}
        for l in r.findall(NS + 'library_nodes'):
            for n in l.findall(NS + 'node'): x = Node(n, None); self.library[x.id] = x
        self.geo = {}
        for g in r.iter(NS + 'geometry'):
            p = [s for s in g.iter(NS + 'source') if s.get('id').endswith('positions')]; V = fl(p[0].find(NS + 'float_array').text).reshape(-1, 3); self.geo[g.get('id')] = (V.min(0), V.max(0))
        self.mat = {m.get('id'): m.find(NS + 'instance_effect').get('url')[1:] for m in r.iter(NS + 'material')}
        self.eff = {}
        for e in r.iter(NS + 'effect'):
            d = [c for c in e.iter(NS + 'diffuse')]; self.eff[e.get('id')] = fl(d[0].find(NS + 'color').text) if d else None
        self.rigid = []
        for b in r.iter(NS + 'rigid_body'):
            H = eye(4)
            for c in next(b.iter(NS + 'mass_frame')): H = dot(H, tra(fl(c.text)) if c.tag == NS + 'translate' else rotdeg(fl(c.text)))
            self.rigid.append((b.get('sid'), float(next(b.iter(NS + 'mass')).text), H, fl(next(b.iter(NS + 'inertia')).text)))
        for n in self.nodes + [m for l in self.library.values() for m in l.walk()]:
            for g, ms in n.geoms:
                ctx.ok(g in self.geo and all(m in self.mat and self.mat[m] in self.eff for m in ms), 'references', 'geometry %s, materials %s' % (g, ms))
            ctx.ok(all(i in self.library for i in n.instances), 'references', 'instances %s' % n.instances)
    def all_geoms(self):
        """(node, geometry, absolute transform, colour) of every geometry, through instances."""
        out = []
        def rec(n, H, path):
            for g, ms in n.geoms: out.append((path + [n], g, H, self.eff[self.mat[ms[0]]] if ms else None))
            for i in n.instances: rec(self.library[i], dot(H, self.library[i].local), path + [n])
            for c in n.children: rec(c, dot(H, c.local), path + [n])
        for t in self.top: rec(t, t.local, [])
        return out
    def animations(self, ctx):
        """node id -> (times, values)"""
        A = {}
        for a in self.root.iter(NS + 'animation'):
            src = {s.get('id'): s for s in a.findall(NS + 'source')}; ch = a.find(NS + 'channel'); sa = a.find(NS + 'sampler'); ctx.ok(ch.get('source') == '#' + sa.get('id'), 'references', 'sampler'); sem = {i.get('semantic'): src[i.get('source')[1:]] for i in sa}
            ctx.ok(set(sem) == {'INPUT', 'OUTPUT', 'INTERPOLATION'}, 'animation-layout', 'inputs %s' % sorted(sem)); n = None; D = {}
            for k, s in sem.items():
                arr = s.find(NS + ('Name_array' if k == 'INTERPOLATION' else 'float_array')); acc = next(s.iter(NS + 'accessor')); v = (arr.text or '').split(); st = int(acc.get('stride', 1)); ctx.ok(acc.get('source') == '#' + arr.get('id') and next(e for e in a.iter() if e.get('id') == arr.get('id')) is arr, 'references', 'accessor'); ctx.ok(int(arr.get('count')) == len(v), 'animation-layout', '%s: %s said for %d values' % (k, arr.get('count'), len(v)))
                ctx.ok(int(acc.get('count'))*st == len(v), 'animation-layout', '%s: %d items of %d for %d values' % (k, int(acc.get('count')), st, len(v))); D[k] = v
            t, _, what = ch.get('target').rpartition('/'); ctx.ok(what == 'matrix' and t not in A, 'animation-layout', 'target %s' % ch.get('target')); ctx.ok(t in self.ids and self.ids[t].sid == 'matrix' and self.ids[t].nt == 1, 'animation-target', 'animated node %r' % t)
            T = array([float(x) for x in D['INPUT']]); ctx.ok(set(D['INTERPOLATION']) <= {'STEP'} and len(D['INTERPOLATION']) == len(T), 'animation-layout', 'interpolation'); A[t] = (T, array([float(x) for x in D['OUTPUT']]).reshape(-1, 4, 4))
        return A
