"""Recording driver for the drawer of the code under test (loaded by path: the visu package needs back-ends)."""
import importlib.util, os
import numpy as np
from rv.run import REPO

def load():
    spec = importlib.util.spec_from_file_location('rv_world_drawer', os.path.join(REPO, 'arboris', 'visu', 'world_drawer.py'))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return m
import arboris.shapes
wd = load()

class Node(object):
    def __init__(self, kind, **kw): self.kind, self.children, self.parent, self.category = kind, [], None, None; self.__dict__.update(kw)

class Driver(wd.DrawerDriver):
    """Stores the scene as a tree of nodes, with copies of everything it is given."""
    def __init__(self, scale=1.): wd.DrawerDriver.__init__(self, scale); self.root = None; self.nodes = []; self.finished = 0
    def _n(self, kind, **kw):
        n = Node(kind, **{k: np.array(v, float) if k in ('pose', 'inertia', 'start', 'end', 'radii', 'half_extents', 'coeffs', 'color') else v for k, v in kw.items()}); self.nodes.append(n); return n
    def add_ground(self, up): self.root = self._n('ground', up=np.array(up)); return self.root
    def init(self): pass
    def finish(self): self.finished += 1
    def create_transform(self, pose, is_constant, name=None): return self._n('transform', pose=pose, constant=is_constant, name=name)
    def create_inertia(self, inertia, color, name=None): return self._n('inertia', inertia=inertia, color=color, name=name)
    def create_frame_arrows(self): return self._n('arrows')
    def create_line(self, start, end, color, name=None): return self._n('line', start=start, end=end, color=color, name=name)
    def create_ellipsoid(self, radii, color, name=None): return self._n('ellipsoid', radii=radii, color=color, name=name)
    def create_box(self, half_extents, color, name=None): return self._n('box', half_extents=half_extents, color=color, name=name)
    def create_plane(self, coeffs, color, name=None): return self._n('plane', coeffs=coeffs, color=color, name=name)
    def create_cylinder(self, length, radius, color, name=None): return self._n('cylinder', length=float(length), radius=float(radius), color=color, name=name)
    def add_child(self, parent, child, category=None):
        assert isinstance(parent, Node) and isinstance(child, Node) and child.parent is None
        child.parent, child.category = parent, category; parent.children.append(child)
