# -*- coding: utf-8 -*-
"""Bridge to the code under test: imports it from /repo and builds worlds from reference trees."""
import sys, types, zlib
import numpy as np
from numpy import array, zeros, eye, dot
from rv.run import Violation, Skip, Ctx  # noqa
from rv import ref

def _stub_pylab():
    if 'pylab' not in sys.modules:
        m = types.ModuleType('pylab')
        m.calls = []
        for n in ('plot', 'show', 'legend', 'xlabel', 'ylabel', 'title', 'figure', 'grid', 'subplot', 'axis', 'draw', 'close', 'clf'):
            setattr(m, n, (lambda n: lambda *a, **k: m.calls.append((n, a, k)))(n))
        sys.modules['pylab'] = m

import arboris.core as core
import arboris.joints as joints
import arboris.homogeneousmatrix as Hg

def curves(f):
    """Curves (x, y, label) drawn by f with pylab, and the number of times they are shown."""
    _stub_pylab(); calls = sys.modules['pylab'].calls; del calls[:]; f(); C = []; shown = 0; legend = None
    for n, a, k in calls:
        if n == 'plot':
            a = [x for x in a if not isinstance(x, str)]
            for p in ([(np.arange(len(a[0])), a[0])] if len(a) == 1 else zip(a[::2], a[1::2])): C.append([np.array(p[0], float), np.array(p[1], float), k.get('label')])
        elif n == 'legend' and a: legend = list(a[-1])
        elif n == 'show': shown += 1
    if legend is not None:
        for c, l in zip(C, legend): c[2] = l
    del calls[:]
    return C, shown

def mod(name):
    """Import a module of the code under test (plotting back-end stubbed)."""
    import importlib, logging
    _stub_pylab()
    m = importlib.import_module(name)
    logging.disable(logging.INFO)
    return m

class UserJoint(joints.LinearConfigurationSpaceJoint):
    """A joint of the user's: four degrees of freedom, only what the base class asks for."""
    @property
    def ndof(self): return 4
    @property
    def pose(self): return ref.joint_kin('UserJoint', self.gpos, self.gvel)[0]
    @property
    def jacobian(self): return ref.joint_kin('UserJoint', self.gpos, self.gvel)[1]
    @property
    def djacobian(self): return ref.joint_kin('UserJoint', self.gpos, self.gvel)[2]
joints.UserJoint = UserJoint

class Built(object):
    """A world and the elements made for each link of a reference tree."""
    def __init__(self): self.world = None; self.bodies = {}; self.joints = {}; self.f0 = {}; self.f1 = {}

def make_joint(l, name=False):
    cls = getattr(joints, l.jt); name = 'j_' + l.name if name is False else name
    if l.jt == 'FixedJoint': return cls(name=name)
    return cls(gpos=l.q.copy(), gvel=l.v.copy(), name=name)

PAST, MOVING, NAMES, LATER, STATS = .4, 0., .2, .25, {}

def count(*names):
    for n in names: STATS[n] = STATS.get(n, 0) + 1

ODD = ['a', 'A', 'a ', ' a', 'aa', '1', '01', '1.0', '-1', '0', u'\xe9', u'e\u0301', u'\u540d', 'a b', 'a.b', 'a:b', 'None', 'True', 'name', 'ground', 'Ground', '[0]', 'b\t', '__class__', 'a' * 120, '%s', '{}', 'é'.upper()]

def odd_names(rng, n, also=()):
    """n different names of odd kinds, some of which look like each other."""
    L = ODD + list(also); return [str(L[int(k)]) for k in rng.permutation(len(L))[:n]] + ['n%d' % k for k in range(max(0, n - len(L)))]

def any_name(rng):
    """A name which may be that of something else, or none."""
    return [None, '', 'same', 'other', 'ground', '0', 'same', 'same'][int(rng.integers(8))]

RENUMBER = .2    # how often a world is initialised with other numbers first
def forms(rng, x):
    """The same numbers held otherwise: column-major, part of something larger, read backwards, read-only, whole numbers as integers."""
    x = np.asarray(x, float); F = np.asfortranarray(x.copy()); big = rng.normal(size=tuple(2*n + 3 for n in x.shape)); s = tuple(slice(1, 1 + 2*n, 2) for n in x.shape); big[s] = x
    b = x[(slice(None, None, -1),)*x.ndim].copy()[(slice(None, None, -1),)*x.ndim]; ro = x.copy(); ro.flags.writeable = False
    L = [('column-major', F), ('strided', big[s]), ('backwards', b), ('read-only', ro), ('transposed', x.T.copy().T)]
    if np.array_equal(x, np.round(x)): L += [('integers', x.astype(int)), ('small integers', x.astype(np.int32))]
    return L

OWN, _MINE = .15, {}  # how often the elements of a world are of classes derived by the user
def own(x):
    """x as an instance of a class of the user's, derived from that of arboris."""
    c = type(x)
    if c not in _MINE: _MINE[c] = type('My' + c.__name__, (c,), {'__module__': 'user', '__doc__': 'derived by the user'})
    x.__class__ = _MINE[c]; return x
def base(x):
    """The class of arboris it belongs to."""
    return next(c for c in type(x).__mro__ if c.__module__.startswith('arboris'))

def said(rng, x):
    """The same answer to a yes or no question, said otherwise."""
    return x if rng.random() < .6 else [np.bool_(x), int(x)][int(rng.integers(2))]

DIVERGED = [False]

def renumber(w, rng):
    """Initialise a world for which the joints of each body were in another order before: the numbers of the degrees of freedom of its
    joints change, not their count. What it was before must not matter."""
    init = w.init
    def both():
        if rng.random() < RENUMBER:
            kept = [(b, list(b.childrenjoints)) for b in w.iterbodies()]; count('worlds initialised with other numbers first')
            try:
                for b, L in kept: b.childrenjoints[:] = [L[int(k)] for k in rng.permutation(len(L))]
                init()
            finally:
                for b, L in kept: b.childrenjoints[:] = L
        return init()
    w.init = both

REBIND = .05     # how often, after a step, the joints of a world are given their position again in arrays of their own
def rebind(w, rng):
    """The user may assign the position of a joint: what it was stored in before does not count any more."""
    count('positions assigned in a world')
    for j in w.iterjoints():
        if j.ndof and rng.random() < .7: x = np.array(j.gpos, float); j.gpos[...] = rng.normal(size=x.shape); j.gpos = x

def watch(w, rng):
    """Note whether a simulated world got extremely fast, ten times its initial speed or more, while its velocities are still numbers: what
    comes next (lost digits, impossible rotations) is decided by rounding."""
    f, first = w.integrate, []
    def integrate(dt):
        if not first: first.append(max(1e3, np.abs(w.gvel).max(initial=0.)))
        r = f(dt)
        if rng.random() < REBIND: rebind(w, rng)
        if 10*first[0] < np.abs(w.gvel).max(initial=0.) < np.inf: DIVERGED[0] = True
        return r
    w.integrate = integrate

def build(tree, init=True, order=None, world=None, past=None, early=None):
    """The world of a reference tree. It may have a past: it may have been initialised and updated with other positions,
    velocities, masses, damping, attachment frames and joints, or before all of its links were there. early(world) is called
    before that past, or before anything if there is none."""
    b = Built(); w = world or core.World(); b.world = w
    b.bodies[-1] = w.ground
    key = zlib.crc32(b''.join(np.asarray(x, float).tobytes() for l in tree.links for x in (l.q, l.v, l.H_pr, l.H_cn))); rng = np.random.default_rng(key)
    if world is None: watch(w, np.random.default_rng(key + 6)); renumber(w, np.random.default_rng(key + 3))
    nrng, lrng = np.random.default_rng(key + 1), np.random.default_rng(key + 2); alike = nrng.random() < NAMES; nm = lambda x: any_name(nrng) if alike else x
    if alike: count('worlds whose elements share names')
    frng = np.random.default_rng(key + 4); odd = frng.random() < .25
    def held(x, kept=True):
        """The same numbers, stored otherwise (kept: the world uses the array itself)."""
        if x is None or not odd: return x
        L = [y for what, y in forms(frng, x) if not kept or what in ('column-major', 'strided', 'backwards', 'transposed')]; return L[int(frng.integers(len(L)))]
    if odd: count('worlds given arrays stored otherwise')
    tiny = rng.random() < .25; amp = (lambda: 10.**rng.uniform(-11, -3)) if tiny else (lambda: 1.)
    if past is None: past = init and world is None and rng.random() < PAST
    rest, order = [], list(order or range(len(tree.links))); count('worlds with a past of tiny changes' if past and tiny else 'worlds with a past' if past else 'fresh worlds')
    kinds = set(str(x) for x in rng.choice(['position', 'velocity', 'rest', 'mass', 'damping', 'frames', 'links', 'joint'], int(rng.integers(1, 5)))) if past else set()
    first = int(rng.integers(0, len(order) + 1)) if 'links' in kinds else len(order)
    def live():
        if early: early(w)
        w.init(); (w.update_geometric if rng.random() < .2 else w.update_dynamic)()
        if rng.random() < .3:
            w.update_dynamic()
            try: w.update_controllers(.01); w.update_constraints(.01)
            except np.linalg.LinAlgError: pass      # nothing has a mass yet
    if early and not past: early(w)
    for n, i in enumerate(order):
        if past and n == first: live(); count('past: links')
        l = tree.links[i]; nbody, njoint = nm(l.name), nm('j_' + l.name); m, c = None if l.cloud is None else l.cloud.matrix(), None if l.visc is None else np.array(l.visc); m, c = held(m), held(c)
        if lrng.random() < LATER:       # made with other values than those it is given afterwards
            A = lrng.normal(size=(6, 6)); body = core.Body(nbody, mass=None if lrng.random() < .4 else ref.rand_cloud(lrng).matrix(), viscosity=None if lrng.random() < .6 else dot(A, A.T)); count('bodies given their mass later')
            if lrng.random() < .5: body.mass = zeros((6, 6)) if m is None else m; body.viscosity = zeros((6, 6)) if c is None else c
            else: body.mass[...] = 0. if m is None else m; body.viscosity[...] = 0. if c is None else c
        else: body = core.Body(name=nbody, mass=m, viscosity=c)
        b.bodies[i] = body
        j = make_joint(l, njoint); b.joints[i] = j
        if np.size(l.v) and lrng.random() < LATER:
            j = getattr(joints, l.jt)(gpos=ref.rand_q(lrng, l.jt), gvel=lrng.normal(size=np.size(l.v)), name=njoint) if lrng.random() < .6 else getattr(joints, l.jt)(name=njoint); b.joints[i] = j; count('joints given their position later'); j.gpos[...] = l.q; j.gvel[:] = l.v
        def frame(body, H, name):
            moving = MOVING and rng.random() < MOVING; name = nm(name); H = held(H, False)
            if not moving: return core.SubFrame(body, H, name=name)
            if lrng.random() >= LATER: return core.MovingSubFrame(body, H, name=name)
            f = core.MovingSubFrame(body, ref.rand_H(lrng), name=name) if lrng.random() < .7 else core.MovingSubFrame(body, name=name); count('frames placed later')
            f.bpose = np.array(H); return f
        b.f0[i] = frame(b.bodies[l.parent], l.H_pr, 'f0_' + l.name) if l.sub0 else b.bodies[l.parent]
        b.f1[i] = frame(body, l.H_cn, 'f1_' + l.name) if l.sub1 else body
        old = None
        if 'joint' in kinds and n < first and rng.random() < .5:
            old = getattr(joints, str(rng.choice(sorted(ref.JOINTS))))(); w.add_link(b.f0[i], old, b.f1[i]); rest.append(('joint', old, j, None))
        else: w.add_link(b.f0[i], j, b.f1[i])
        if past and n < first:
            nd = np.size(l.v)
            if 'position' in kinds and nd:
                rest.append(('position', j, l.q, rng.random() < .5)); x = np.asarray(l.q); x = (dot(x, ref.se3exp(amp()*rng.normal(size=6))) if tiny else ref.rand_H(rng)) if x.shape == (4, 4) else x + amp()*rng.normal(size=x.shape); j.gpos[...] = x
            if ('velocity' in kinds or 'rest' in kinds) and nd: rest.append(('velocity', j, l.v, None)); j.gvel[:] = 0. if 'rest' in kinds else (np.asarray(l.v) if tiny else 0.) + amp()*rng.normal(size=nd)
            if 'mass' in kinds and rng.random() < .7: rest.append(('mass', body, np.array(body.mass), rng.random() < .5)); body.mass = np.array(body.mass)*(1. + amp()) if tiny else ref.rand_cloud(rng).matrix() if rng.random() < .8 else zeros((6, 6))
            if 'damping' in kinds and rng.random() < .7: A = rng.normal(size=(6, 6)); rest.append(('damping', body, np.array(body.viscosity), rng.random() < .5)); body.viscosity = (np.array(body.viscosity) if tiny else 0.) + amp()*dot(A, A.T)
            for f in (b.f0[i], b.f1[i]):
                if 'frames' in kinds and isinstance(f, core.MovingSubFrame): rest.append(('frames', f, np.array(f.bpose), None)); f.bpose = dot(f.bpose, ref.se3exp(amp()*rng.normal(size=6))) if tiny else ref.rand_H(rng)
    orng = np.random.default_rng(key + 5)
    if orng.random() < OWN:
        count('worlds of classes derived by the user')
        for x in [b.bodies[i] for i in order] + [b.joints[i] for i in order] + [b.f0[i] for i in order] + [b.f1[i] for i in order]:
            if x is not w.ground and type(x).__module__.startswith('arboris') and orng.random() < .6: own(x)
    if past and first >= len(order): live()
    if init and not past or past and (first < len(order) or rng.random() < .3): w.init()
    for what, o, x, inplace in rest:
        count('past: ' + what)
        if what == 'joint': w.replace_joint(o, x)
    for what, o, x, inplace in rest:
        if what == 'position':
            if inplace: o.gpos[...] = x
            else: o.gpos = np.array(x, float)
        elif what == 'velocity': o.gvel[:] = x
        elif what == 'frames': o.bpose = x
        elif what in ('mass', 'damping'):
            n = 'mass' if what == 'mass' else 'viscosity'
            if inplace: getattr(o, n)[...] = x
            else: setattr(o, n, x)
    return b

def sync(tree, b):
    """Copy the observed joint state into the reference tree."""
    for i, l in enumerate(tree.links):
        if l.jt == 'FixedJoint': continue
        l.q = np.array(b.joints[i].gpos, float); l.v = np.array(b.joints[i].gvel, float)

def step(w, dt):
    w.update_dynamic(); w.update_controllers(dt); w.update_constraints(dt); w.integrate(dt)

def state(b):
    return {i: (np.array(j.gpos, float), np.array(j.gvel, float)) for i, j in b.joints.items()}

def describe(tree):
    return [dict(name=l.name, parent=l.parent, joint=l.jt, massless=l.cloud is None, sub0=l.sub0, sub1=l.sub1) for l in tree.links]

def sig_tree(tree):
    return tuple((l.parent, l.jt, l.cloud is None, l.visc is None, l.sub0, l.sub1) for l in tree.links)
