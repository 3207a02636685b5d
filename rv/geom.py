"""Signed distance functions of the solids and random supported pairs of shapes."""
from rv.mech import *
import arboris.shapes as shp, arboris.collisions as col

PAIRS = [('Sphere', 'Sphere'), ('Sphere', 'Point'), ('Plane', 'Sphere'), ('Box', 'Sphere'), ('Plane', 'Point'), ('Box', 'Point')]
KINDS = ['Sphere', 'Point', 'Plane', 'Box', 'Cylinder']

class Solid(object):
    """Reference description: kind, pose of the carrying frame, dimensions."""
    def __init__(self, kind, H, dim): self.kind, self.H, self.dim = kind, H, dim
    def moved(self, G): return Solid(self.kind, dot(G, self.H), self.dim)
    def sdf(self, x):
        """Signed distance of a point of the ground frame to the solid (negative inside); a plane is the half space below it."""
        y = dot(self.H[:3, :3].T, x - self.H[:3, 3])
        if self.kind in ('Sphere', 'Point'): return norm(y) - self.dim
        if self.kind == 'Plane': return dot(self.dim[:3], y) - self.dim[3]
        q = np.abs(y) - self.dim
        return norm(np.maximum(q, 0)) + min(q.max(), 0.)
    def scale(self): return np.abs(self.H[:3, 3]).max() + np.abs(np.asarray(self.dim)).max()
    def center(self): return self.H[:3, 3]
    def outward(self, x, n):
        """Does the solid end at x in direction n?"""
        return self.sdf(x + n) - self.sdf(x)

def dist(a, b):
    """Signed distance of two solids, one of which is a ball (or point)."""
    if b.kind not in ('Sphere', 'Point'): a, b = b, a
    return a.sdf(b.center()) - b.dim

def rand_solid(rng, kind, size):
    if size == 1. and rng.random() < .08:       # whole numbers
        if kind == 'Sphere': return Solid(kind, None, int(rng.integers(1, 4)))
        if kind == 'Box': return Solid(kind, None, rng.integers(1, 4, 3))
        if kind == 'Plane': return Solid(kind, None, np.append(rng.permutation([1, 0, 0])*rng.choice([-1, 1]), rng.integers(-2, 3)))
    if kind == 'Sphere': return Solid(kind, None, size*rng.uniform(.05, .8) if rng.random() < .95 else 0.)
    if kind == 'Point': return Solid(kind, None, 0.)
    if kind == 'Plane':
        n = rand_unit(rng) if rng.random() < .7 else array(rng.permutation([1., 0, 0]))*rng.choice([-1, 1])
        return Solid(kind, None, np.append(n, rng.normal()*size*.5 if rng.random() < .8 else 0.))
    return Solid(kind, None, size*rng.uniform(.05, 1., 3))

REGIMES = ['separated', 'near', 'touching', 'overlapping', 'deep', 'anywhere']
def rand_pair(rng, kinds, size=1.):
    """Two solids (first of kinds[0]) at random poses; regime chosen among REGIMES."""
    a, b = rand_solid(rng, kinds[0], size), rand_solid(rng, kinds[1], size)
    a.H, b.H = rand_H(rng, size), rand_H(rng, size); regime = str(rng.choice(REGIMES))
    if kinds[0] == 'Sphere' and rng.random() < .08:
        b.H[:3, 3] = a.H[:3, 3]     # concentric
        if rng.random() < .5: b.H[:3, 3] += rand_unit(rng)*size*10.**rng.uniform(-18, -6)
        return a, b, 'anywhere'
    if regime != 'anywhere':
        # put the ball at a chosen distance along the normal of a random surface point
        want = {'separated': rng.uniform(.1, 3)*size, 'near': 10.**rng.uniform(-9, -2)*size, 'touching': 0., 'overlapping': -min(rng.uniform(.01, .9)*max(b.dim, .05*size), size), 'deep': -rng.uniform(.3, 1.)*size}[regime]
        if a.kind == 'Plane':
            t = np.cross(a.dim[:3], rand_unit(rng))*size; y = a.dim[:3]*(a.dim[3] + want + b.dim) + t
        elif a.kind == 'Box':
            if regime == 'deep':
                y = rng.uniform(-.98, .98, 3)*a.dim
                if rng.random() < .4:       # nearly as close to a second face
                    j, k = rng.permutation(3)[:2]; d = a.dim - np.abs(y); y[k] = rng.choice([-1, 1])*(a.dim[k] - min(d[j]*(1 + rng.choice([-1, 1])*10.**rng.uniform(-8, -2)), a.dim[k]))
            else:
                s = array([rng.choice([-1, 0, 1]) for _ in range(3)]); s = s if np.any(s) else array([0, 1, 0])     # face, edge or corner
                y = np.where(s != 0, s*a.dim, rng.uniform(-.9, .9, 3)*a.dim); n = np.abs(rng.normal(size=3))*s; n = n/norm(n)
                d = want + b.dim
                if d >= 0 or np.abs(s).sum() == 1: y = y + n*d
        else:
            d = max(want + a.dim + b.dim, .02*size) if want + a.dim + b.dim <= 0 else want + a.dim + b.dim
            y = rand_unit(rng)*d if rng.random() < .8 else array(rng.permutation([1., 0, 0]))*rng.choice([-1, 1])*d
        b.H[:3, 3] = dot(a.H, np.append(y, 1.))[:3]
    return a, b, regime

def carry(rng, w, s, name=None):
    x = _carry(rng, w, s, name); return own(x) if rng.random() < .1 else x
def _carry(rng, w, s, name=None):
    """Make the shape of a solid on a random carrier (body, subframe, moving frame or ground) having its pose."""
    u = rng.random()
    if u < .25: f = core.SubFrame(w.ground, s.H)
    else:
        body = core.Body(); X = rand_H(rng) if u < .8 else eye(4); j = joints.FreeJoint(gpos=dot(s.H, hinv(X))); w.add_link(w.ground, j, body)
        f = body if u >= .8 else (core.MovingSubFrame if rng.random() < .3 else core.SubFrame)(body, X)
    if s.kind in ('Box', 'Plane') and s.dim.dtype.kind == 'i' and rng.random() < .8: return (shp.Box if s.kind == 'Box' else shp.Plane)(f, [list, tuple, np.array][rng.integers(3)]([int(x) for x in s.dim]), name)
    if s.kind == 'Sphere': return shp.Sphere(f, s.dim, name)
    if s.kind == 'Point': return shp.Point(f, name)
    if s.kind == 'Box': return shp.Box(f, s.dim if rng.random() < .7 else tuple(s.dim), name)
    if s.kind == 'Plane':
        k = 1. if rng.random() < .6 else 10.**rng.uniform(-2, 2)
        return shp.Plane(f, s.dim*k if rng.random() < .7 else tuple(s.dim*k), name)
    return shp.Cylinder(f, name=name)
