"""P15: description invariance (metamorphic)."""
from rv.mech import *
import arboris.controllers as ctl, arboris.constraints as cst, arboris.massmatrix as mm, arboris.shapes as shp

RULE = 'a random mechanism with weight, PD, loop or contact and one random rewriting of its description, simulated side by side; distinct by mechanism, state and rewriting'
REWRITE = ['branch-order', 'body-frame', 'intermediate', 'compound', 'rename', 'displaced', 'split', 'several']
MONITORS = REWRITE + ['units']
CLASSES = ['gravity', 'pd', 'loop', 'contact', 'light', 'heavy', 'small', 'large']

class Variant(object):
    """A tree, the way to find the original bodies in it, and attachments of extras."""
    def __init__(self, tree):
        self.t = tree.copy(); self.map = {i: (i, eye(4)) for i in range(-1, len(tree.links))}   # original body -> (body, X): pose_orig = pose_new X^-1
        self.q = {i: [i] for i in range(len(tree.links))}      # original joint -> joints carrying its coordinates
        self.order, self.names, self.extra, self.X, self.transport = None, False, False, eye(4), {}

def r_branch(rng, V): V.order = topo_order(rng, V.t)
def r_frame(rng, V):
    """Move the reference frame of bodies: pose_new = pose_old X."""
    for i, l in enumerate(V.t.links):
        if rng.random() < .6:
            X = rand_H(rng, .4); iX = hinv(X)
            if l.cloud is not None:
                if rng.random() < .5: V.transport[i] = mm.transport(l.cloud.matrix(), X)
                l.cloud = l.cloud.moved(iX)
            if l.visc is not None: l.visc = dot(Ad(X).T, dot(l.visc, Ad(X)))
            l.H_cn = dot(iX, l.H_cn); l.sub1 = True
            for c in V.t.children[i]: V.t.links[c].H_pr = dot(iX, V.t.links[c].H_pr); V.t.links[c].sub0 = True
            for k, (j, Y) in list(V.map.items()):
                if j == i: V.map[k] = (j, dot(Y, X))
    V.t.index()
def add(V, l):
    V.t.links.append(l); V.t.index(); return len(V.t.links) - 1
def r_inter(rng, V):
    """Fixed joints and massless bodies before and after joints."""
    for i in list(range(len(V.t.links))):
        l = V.t.links[i]
        if rng.random() < .5:
            X = rand_H(rng, .4)
            k = add(V, Link('i%d' % len(V.t.links), l.parent, 'FixedJoint', [], [], dot(l.H_pr, X), eye(4)))
            l.parent, l.H_pr, l.sub0 = k, hinv(X), True
        if rng.random() < .3:       # the joint now moves a massless body which carries the old one
            X = rand_H(rng, .4)
            old = l; k = add(V, Link('i%d' % len(V.t.links), l.parent, l.jt, l.q, l.v, l.H_pr, X, None, None, l.sub0, True))
            V.q = {a: [k if c == i else c for c in b] for a, b in V.q.items()}
            l.parent, l.jt, l.q, l.v, l.H_pr, l.sub0 = k, 'FixedJoint', zeros(0), zeros(0), X, True
        V.t.index()
    if rng.random() < .5: move_visc(rng, V)
def r_compound(rng, V):
    for i in list(range(len(V.t.links))):
        l = V.t.links[i]; a = JOINTS[l.jt]
        if l.jt in LINEAR and len(a) > 1:
            parent, H = l.parent, l.H_pr; chain = []
            for n, e in enumerate(a[:-1]):
                k = add(V, Link('c%d' % len(V.t.links), parent, e + 'Joint', [l.q[n]], [l.v[n]], H, eye(4), None)); parent, H = k, eye(4); chain.append(k)
            l.parent, l.H_pr, l.jt, l.q, l.v = parent, eye(4), a[-1] + 'Joint', l.q[-1:], l.v[-1:]
            V.q = {m: sum([chain + [i] if c == i else [c] for c in b], []) for m, b in V.q.items()}
    V.t.index()
def r_rename(rng, V): V.names = True; V.extra = True
def r_displace(rng, V):
    V.X = rand_H(rng, 2.)
    for l in V.t.links:
        if l.parent == -1: l.H_pr = dot(V.X, l.H_pr); l.sub0 = True
    V.t.index()
def move_visc(rng, V):
    """The damping of a body is carried by a massless body rigidly fixed to it."""
    for i in list(range(len(V.t.links))):
        l = V.t.links[i]
        if l.visc is not None and rng.random() < .5:
            X = rand_H(rng, .4); add(V, Link('v%d' % len(V.t.links), i, 'FixedJoint', [], [], X, eye(4), None, dot(Ad(X).T, dot(l.visc, Ad(X)))))
            l.visc = None
def r_split(rng, V):
    for i in list(range(len(V.t.links))):
        l = V.t.links[i]
        if l.cloud is not None and rng.random() < .6:
            k = int(rng.integers(2, 5)); X = rand_H(rng, .4)
            rest, part = Cloud(l.cloud.pts[k:], l.cloud.ms[k:]), Cloud(l.cloud.pts[:k], l.cloud.ms[:k])
            l.cloud = rest; add(V, Link('s%d' % len(V.t.links), i, 'FixedJoint', [], [], X, eye(4), part.moved(hinv(X))))

R = dict(zip(REWRITE, [r_branch, r_frame, r_inter, r_compound, r_rename, r_displace, r_split, None]))

def build_variant(V, order_fix=True):
    t = V.t
    # parents may come after their children in the list: build in depth order
    if V.order is None or len(V.order) != len(t.links): V.order = topo_order(np.random.default_rng(0), t)
    b = build(t, init=False, order=V.order)
    for i, M in V.transport.items(): b.bodies[i].mass = M
    return b

def play(V, sc, n, dt, U=Units(1., 1., 1.)):
    b = build_variant(V); w = b.world
    if V.names:
        for k, j in b.joints.items(): j.name = None if k % 2 else 'same'
        for k, x in b.bodies.items(): x.name = 'same' if k % 2 else None
    if V.extra:
        for k, x in b.bodies.items():
            w.register(core.SubFrame(x, tra([1., 2., 3.]))); w.register(core.MovingSubFrame(x, tra([1., 2., 3.])))
    w.init()
    def frame(i, p):
        k, X = V.map[i]
        if i == -1: return core.SubFrame(w.ground, dot(V.X, tra(p)))
        return core.SubFrame(b.bodies[k], dot(hinv(X), tra(p)))
    if sc.get('g'): w.register(ctl.WeightController(sc['g']))
    if 'pd' in sc:
        sel, kp, kd, qd, vd = sc['pd']; w.register(ctl.ProportionalDerivativeController([b.joints[k] for i in sel for k in V.q[i]], kp, kd, qd, vd))
    if 'loop' in sc:
        i, p, j, r = sc['loop']; w.register(cst.BallAndSocketConstraint(frames=(frame(i, p), frame(j, r))))
    if 'contact' in sc:
        pl, i, p, rad, mu = sc['contact']
        fg = core.SubFrame(w.ground, V.X); s0 = shp.Plane(fg, pl)
        s1 = shp.Sphere(frame(i, p), rad); w.register(s0); w.register(s1); w.register(cst.SoftFingerContact((s0, s1), mu))
    w.init(); out = []
    for k in range(n):
        step(w, dt)
        if not np.isfinite(w.gvel).all() or np.abs(w.gvel).max() > 30*max(1, U.L)/U.T: raise Skip()
    w.update_dynamic()
    iX = hinv(V.X)
    for i, (k, X) in sorted(V.map.items()):
        if i >= 0: out.append((dot(iX, dot(b.bodies[k].pose, hinv(X))), dot(Ad(X), b.bodies[k].twist)))
    cf = 0.
    return out

def units(ctx, rng, i):
    """The same mechanism in other units of length, mass and time moves in the same way."""
    tree = special(ctx, rng, gen_tree(ctx, rng, 1, 5, p_massless=.1, vscale=.5)); K = tree.compute(); well_posed(tree, K, cond=3e3); U = rand_units(ctx, rng, .9)
    sc = {}
    if rng.random() < .6: sc['g'] = rng.uniform(-10, 10); ctx.cls('gravity')
    lin = [k for k, l in enumerate(tree.links) if l.jt in LINEAR and rng.random() < .6]
    if lin and rng.random() < .6:
        n = sum(jndof(tree.links[k].jt) for k in lin); A = rng.normal(size=(n, n)); sc['pd'] = (lin, dot(A, A.T), .1*dot(A, A.T), rng.normal(size=n), rng.normal(size=n)); ctx.cls('pd')
    if rng.random() < .4:
        k = int(rng.integers(len(tree.links))); p = rng.normal(size=3)*.3; sc['loop'] = (-1, dot(K['H'][k], np.append(p, 1))[:3], k, p); ctx.cls('loop')
    s2 = dict(sc)
    if 'g' in sc: s2['g'] = sc['g']*U.L/U.T**2
    if 'pd' in sc:
        sel, kp, kd, qd, vd = sc['pd']; u = np.concatenate([U.dofs(tree.links[k].jt) for k in sel]); F = U.M*U.L**2/U.T**2
        s2['pd'] = (sel, kp*F/np.outer(u, u), kd*F*U.T/np.outer(u, u), qd*u, vd*u/U.T)
    if 'loop' in sc: a, x, k, p = sc['loop']; s2['loop'] = (a, x*U.L, k, p*U.L)
    ctx.note(scenario=sorted(sc)); N, dt = 8, 2e-3
    A = play(Variant(tree), sc, N, dt); B = play(Variant(U.tree(tree)), s2, N, dt*U.T, U)
    s = kscale(tree, K); sv = 1 + max(np.abs(t).max() for _, t in A); D = array([1.]*3 + [U.L]*3)
    for k, (a, b) in enumerate(zip(A, B)):
        ctx.close(Units(1/U.L, 1., 1.).hom(b[0]), a[0], 'units', 'pose of body %d' % k, 1e-8, s*sv); ctx.close(b[1]/D*U.T, a[1], 'units', 'twist of body %d' % k, 1e-7, s*sv)

def meta(ctx, rng, i):
    name = REWRITE[i % len(REWRITE)]
    base = str(rng.choice(['RzRyRxJoint', 'TxTyTzJoint', 'RzRyJoint'])) if name == 'compound' else 'FreeJoint' if rng.random() < .5 else None
    tree = gen_tree(ctx, rng, 1, 5, p_massless=.1, vscale=.5, types=(LINEAR if name == 'compound' else None), base=base)
    K = tree.compute(); well_posed(tree, K, cond=3e3)
    sc = {}
    if name != 'displaced' and rng.random() < .6: sc['g'] = rng.uniform(-10, 10); ctx.cls('gravity')
    lin = [k for k, l in enumerate(tree.links) if l.jt in LINEAR and rng.random() < .6]
    if lin and rng.random() < .6:
        lin = [int(k) for k in rng.permutation(lin)]; n = sum(jndof(tree.links[k].jt) for k in lin); A = rng.normal(size=(n, n))
        sc['pd'] = (lin, dot(A, A.T), .1*dot(A, A.T), rng.normal(size=n), rng.normal(size=n)); ctx.cls('pd')
    u = rng.random(); k = int(rng.integers(len(tree.links))); p = rng.normal(size=3)*.3
    xg = dot(K['H'][k], np.append(p, 1))[:3]
    if u < .3: sc['loop'] = (-1, xg, k, p); ctx.cls('loop')
    elif u < .6 and jndof(tree.links[k].jt) and np.linalg.svd(K['J'][k])[1][min(tree.ndof, 6) - 1] > 1e-2 and tree.ndof >= 6:
        # the contact law needs a regular admittance
        nrm = rand_unit(rng); rad = rng.uniform(.05, .3); sc['contact'] = (np.append(nrm, dot(nrm, xg) - rad - rng.uniform(0, .01)), k, p, rad, rng.uniform(.1, 1.)); ctx.cls('contact')
    rs = [name] if name != 'several' else list(rng.permutation([r for r in REWRITE if r not in ('several', 'split', 'displaced')])[:3])
    ctx.note(rewriting=rs, scenario=sorted(sc)); ctx.sig(tuple(rs), tuple(sorted(sc)))
    N, dt = 12, 2e-3
    V0 = Variant(tree); V1 = Variant(tree)
    if name == 'displaced' and 'contact' in sc: pass
    for r in rs: R[r](rng, V1)
    A = play(V0, sc, N, dt); B = play(V1, sc, N, dt)
    s = kscale(tree, K); sv = 1 + max(np.abs(t).max() for _, t in A)
    if name == 'split':
        if 'contact' in sc or 'loop' in sc: tol = 2e-2
        else: tol = 3e-3
        # the discrete equation only agrees in the limit of small steps
        A2, B2 = play(V0, sc, 2*N, dt/2), play(V1, sc, 2*N, dt/2)
        d1 = max(np.abs(a[1] - b[1]).max() for a, b in zip(A, B)); d2 = max(np.abs(a[1] - b[1]).max() for a, b in zip(A2, B2))
        if 'contact' not in sc: ctx.ok(d2 <= .75*d1 + 1e-6*sv, name, 'difference does not vanish with the step: %g %g' % (d1, d2))
    else: tol = 1e-8
    for k, (a, b) in enumerate(zip(A, B)):
        ctx.close(b[0], a[0], name, 'pose of body %d' % k, tol, s*sv); ctx.close(b[1], a[1], name, 'twist of body %d' % k, tol*10, s*sv)

MULT = 2
FAMILIES = [('rewriting', meta, 160, 5000), ('units', lambda c, r, i: c.retry(lambda: units(c, r, i)), 60, 2000)]
