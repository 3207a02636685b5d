"""P24: simulated contacts."""
from rv.geom import *
import arboris.controllers as ctl, arboris.constraints as cst

RULE = 'free bodies made of spheres and corner points, falling, sliding, rolling, spinning and stacking on planes, boxes and spheres at any pose and on each other, with various friction, gravity, proximity and steps, plus mechanisms; slope and sliding scenarios with closed-form motion; distinct by scene and state'
MONITORS = ['no-sink', 'no-pull', 'friction-bound', 'wrench-form', 'equal-opposite', 'contact-work', 'energy', 'activation', 'no-contact-no-force', 'closed-form-block', 'drop', 'rolling', 'spin', 'rest', 'other-bodies-free']
CLASSES = ['fast-landing', 'plane', 'box', 'sphere', 'corners', 'sphere-sphere', 'stack', 'slides', 'sticks', 'stops', 'takes-off', 'lands', 'penetrating-start', 'inactive', 'custom-proximity', 'tree', 'both-move', 'no-gravity', 'rolls', 'frictionless', 'above', 'landing']
ASSUMPTIONS = ['tolerances include the second-order displacement error of one step and the convergence tolerance of the relaxation']

def closest(a, c):
    """Closest surface point and outward normal of solid a for the point c of the ground frame."""
    R, o = a.H[:3, :3], a.H[:3, 3]; y = dot(R.T, c - o)
    if a.kind == 'Plane': n = a.dim[:3]; p = y - (dot(n, y) - a.dim[3])*n
    elif a.kind == 'Box':
        p = np.clip(y, -a.dim, a.dim)
        if (p != y).any(): n = (y - p)/norm(y - p)
        else:
            k = np.argmin(a.dim - np.abs(y)); n = zeros(3); n[k] = np.sign(y[k]) or 1.; p = y.copy(); p[k] = n[k]*a.dim[k]
    else: n = y/norm(y); p = n*a.dim
    return dot(R, p) + o, dot(R, n)

class Pair(object):
    """A watched contact: solid a (index ia of the moving body, None: fixed), ball b."""
    def __init__(self, sc, ia, a, ib, b, mu, prox=None):
        self.sc, self.ia, self.a, self.ib, self.b, self.mu, self.prox = sc, ia, a, ib, b, mu, .02 if prox is None else prox
    def solids(self):
        A = self.a if self.ia is None else self.a.moved(self.sc.pose(self.ia)); B = self.b if self.ib is None else self.b.moved(self.sc.pose(self.ib)); return A, B
    def look(self):
        """gap, surface points, normal (from a to b), rate of the gap."""
        A, B = self.solids(); c = B.center(); xa, n = closest(A, c); xb = c - B.dim*n
        rate = dot(n, self.sc.vel(self.ib, xb) - self.sc.vel(self.ia, xa)); return dist(A, B), xa, xb, n, rate

class Scene(object):
    def __init__(self, rng): self.rng = rng; self.w = core.World(); self.bodies = []; self.pairs = []; self.cons = []; self.m = []; self.g = 0.; self.H = []
    def body(self, H, twist=None, cloud=None):
        c = cloud or rand_cloud(self.rng, mass=10.**self.rng.uniform(-.3, .7), size=.12); b = core.Body(name='b%d' % len(self.bodies), mass=c.matrix())
        self.w.add_link(self.w.ground, joints.FreeJoint(gpos=H, gvel=zeros(6) if twist is None else twist), b); self.bodies.append(b); self.m.append(c); self.H.append(H); return len(self.bodies) - 1
    def pose(self, i): return np.array(self.bodies[i].parentjoint.gpos)
    def twist(self, i): return np.array(self.bodies[i].parentjoint.gvel)
    def vel(self, i, x):
        """Velocity of the point at x of body i, ground axes."""
        if i is None: return zeros(3)
        H, T = self.pose(i), self.twist(i); return dot(H[:3, :3], T[3:] + np.cross(T[:3], dot(H[:3, :3].T, x - H[:3, 3])))
    def shape(self, i, s):
        f = self.w.ground if i is None else self.bodies[i]
        if np.abs(s.H - eye(4)).max() > 0: f = core.SubFrame(f, s.H)
        if s.kind == 'Plane': return shp.Plane(f, tuple(s.dim))
        if s.kind == 'Box': return shp.Box(f, tuple(s.dim))
        return shp.Sphere(f, s.dim) if s.dim > 0 or self.rng.random() < .3 else shp.Point(f)
    def contact(self, ia, a, ib, b, mu, prox=None):
        p = Pair(self, ia, a, ib, b, mu, prox); s = [self.shape(ia, a), self.shape(ib, b)]
        p.rev = self.rng.random() < .5
        if p.rev: s.reverse()
        c = cst.SoftFingerContact(tuple(s), mu) if prox is None else cst.SoftFingerContact(tuple(s), mu, proximity=prox)
        self.w.register(c); self.pairs.append(p); self.cons.append(c); return p
    def gravity(self, g): self.g = g; self.w.register(ctl.WeightController(-g)); self.w.init()
    def energy(self):
        e = 0.
        for i, c in enumerate(self.m): e += c.energy(self.twist(i)) + self.g*dot(c.ms, c.positions(self.pose(i))[:, 1])
        return e

def slack2(sc, dt):
    """Second-order displacement of one step (screw motion, turning normals)."""
    s = 0.
    for i in range(len(sc.bodies)): T = sc.twist(i); s += norm(T[:3])*norm(T[3:]) + norm(T[:3])**2 + 20*norm(T[3:])**2*0 + norm(T[3:])*norm(T[:3])
    return dt*dt*(s*2 + abs(sc.g))

def vmax(sc): return max([np.abs(sc.twist(i)).max() for i in range(len(sc.bodies))] + [0.])

def one(ctx, sc, dt, gstol=1e-3):
    w = sc.w; look = [p.look() for p in sc.pairs]; E0 = sc.energy(); v0 = w.gvel.copy(); T0 = [sc.twist(i) for i in range(len(sc.bodies))]; P0 = [sc.pose(i) for i in range(len(sc.bodies))]
    w.update_dynamic(); w.update_controllers(dt); before = w.gforce.copy(); w.update_constraints(dt)
    tot = w.gforce - before; G = [np.array(c.gforce) if c.is_active() else zeros(w.ndof) for c in sc.cons]; S = 1 + np.abs(tot).max() + sum(np.abs(x).max() for x in G)
    ctx.close(sum(G) if G else tot, tot, 'equal-opposite', 'world force is the sum of the contact forces', 1e-9, S); touched = set(); work = 0.; res = []
    act = [c.is_active() for c in sc.cons]; w.integrate(dt); v1 = w.gvel.copy(); vs = 1 + np.abs(v1).max() + np.abs(v0).max()
    if not np.isfinite(v1).all() or np.abs(v1).max() > 60: raise Skip()
    for p, (gap, xa, xb, n, rate), c, g, ac in zip(sc.pairs, look, sc.cons, G, act):
        pred = gap + dt*rate
        if abs(pred - p.prox) > 1e-9*(1 + abs(dt*rate)): ctx.ok(bool(ac) == (pred < p.prox), 'activation', 'active=%s although the predicted distance is %g (activation at %g)' % (ac, pred, p.prox))
        if not ac: ctx.cls('inactive'); ctx.close(g, zeros(w.ndof), 'no-contact-no-force', 'force of an inactive contact', 1e-12, 1.); res.append((0, 0)); continue
        W = {}
        for i in (p.ia, p.ib):
            if i is None: continue
            H = P0[i]; d = sc.bodies[i].parentjoint.dof; W[i] = dot(Ad(hinv(H)).T, g[d])      # wrench at the ground origin
        own = np.zeros(w.ndof, bool)
        for i in W: own[sc.bodies[i].parentjoint.dof] = True
        if (~own).any(): ctx.close(g[~own], zeros((~own).sum()), 'other-bodies-free', 'contact force on other bodies', 1e-12, S)
        L = 1 + np.abs(xa).max(); fs = np.abs(g).max() + 1e-300
        if len(W) == 2: ctx.cls('both-move'); ctx.close(W[p.ia], -W[p.ib], 'equal-opposite', 'actions of a contact on its two bodies', 1e-9, L*fs + 1e-12)
        Wb = W[p.ib] if p.ib in W else -W[p.ia]
        if Wb[:].any():
            F = Wb[3:]; fn = dot(F, n); Ft = F - fn*n; tau = Wb[:3] - np.cross(xa, F); mz = dot(tau, n); tl = tau - mz*n; ftol = 1e-9*fs*L
            ctx.ok(fn >= -ftol - 1e-9, 'no-pull', 'normal force %g' % fn)
            ctx.ok(norm(np.append(Ft, mz)) <= p.mu*fn*(1 + 1e-5) + 2*ftol + 1e-6, 'friction-bound', 'friction %g with normal force %g and coefficient %g' % (norm(np.append(Ft, mz)), fn, p.mu))
            ctx.ok(norm(tl) <= abs(gap)*norm(Ft)*1.01 + ftol, 'wrench-form', 'moment %g at the contact point' % norm(tl))
            touched.add(id(p))
        else: fn = 0.
        wk = dt*dot(v1, g); work += wk; res.append((fn, rate))
        # normal part: at most what closes a penetration; friction only takes energy
        ctx.ok(wk <= max(0., -gap)*abs(fn) + dt*gstol*vs*fs*2 + 1e-12*fs, 'contact-work', 'contact brings %g (penetration %g, force %g)' % (wk, -gap, fn))
    sl = slack2(sc, dt) + dt*gstol*vs
    for p, (gap, *_), ac, (fn, rate) in zip(sc.pairs, look, act, res):
        g1 = p.look()[0]; L = sl + (dt*np.abs(v1).max()*2)**2/max(min(getattr(p.a, 'dim', 1.) if p.a.kind == 'Sphere' else 1., .3) + p.b.dim, .05)
        if ac and p.ok: ctx.ok(g1 >= -L, 'no-sink', 'gap %g after the step (was %g, slack %g)' % (g1, gap, L))
        if fn == 0 and gap < 1e-6 and g1 > 1e-6: ctx.cls('takes-off')
        if fn > 0 and rate < -1e-3: ctx.cls('lands')
    E1 = sc.energy()
    a2 = sum(c.mass*(norm(sc.twist(i)) + norm(T0[i]))**2*(norm(sc.twist(i)[:3]) + norm(T0[i][:3])) for i, c in enumerate(sc.m)); mg = sum(c.mass for c in sc.m)*abs(sc.g)
    ctx.ok(E1 <= E0 + max(work, 0.) + 3*dt*a2*dt*(1 + 0) + dt*dt*mg*abs(sc.g) + dt*mg*dt*np.abs(v1).max()*3 + 3*dt*a2*np.abs(v1 - v0).max()*0 + 3*dt*a2*min(1., np.abs(v1 - v0).max()) + 1e-9*(1 + abs(E0)), 'energy', 'mechanical energy %g -> %g, contacts gave %g' % (E0, E1, work))
    return res

def support(ctx, rng, kind):
    """A fixed solid and a function giving points at a chosen height above it."""
    n = EY + rng.uniform(0, .5)*rand_unit(rng); n /= norm(n)
    if kind == 'Plane':
        H = rand_H(rng); m = dot(H[:3, :3].T, n); o = rng.normal(); a = Solid('Plane', H, np.append(m, o)); base = dot(H, np.append(m*o, 1.))[:3]
    elif kind == 'Box':
        R = rand_rot(rng); k = int(np.argmax(np.abs(R[1]))); d = rng.uniform(.8, 2., 3); H = hom(R, rng.normal(size=3)); n = R[:, k]*np.sign(R[1, k]); a = Solid('Box', H, d); base = H[:3, 3] + n*d[k]
        if n[1] < .8: raise Skip()
    else:
        r = rng.uniform(2., 5.); H = hom(rand_rot(rng), rng.normal(size=3)); a = Solid('Sphere', H, r); n = EY + .1*rand_unit(rng); n /= norm(n); base = H[:3, 3] + r*n
    ctx.cls(kind.lower()); t = np.cross(n, rand_unit(rng)); t /= norm(t); return a, base, n, t, np.cross(n, t)

def rball(rng, mass, r): return Cloud([s*e*r*.63 for e in eye(3) for s in (1, -1)], ones(6)*mass/6)

def scene(ctx, rng):
    kind = str(rng.choice(['Plane', 'Plane', 'Box', 'Sphere'])); a, base, n, t, u = support(ctx, rng, kind); sc = Scene(rng); mu = lambda: float(rng.choice([0., rng.uniform(.05, .4), rng.uniform(.4, 1.5)], p=[.1, .4, .5]))
    what = str(rng.choice(['balls', 'corners', 'stack', 'balls'])); h = 0.
    prox = None if rng.random() < .6 else rng.uniform(.003, .08) if rng.random() < .6 else 10.**rng.uniform(-4, 1)
    if prox: ctx.cls('custom-proximity')
    start = rng.choice([0., 0., 1e-3, -1e-3, .03, -5e-3]); vt = rng.normal(size=2)*rng.choice([0, 1.])
    if start < 0: ctx.cls('penetrating-start')
    v = t*vt[0] + u*vt[1] - n*(rng.uniform(0, 1) if start > 0 else 0.)
    if what == 'corners' and kind != 'Sphere':
        d = rng.uniform(.08, .25, 3); R = np.column_stack([t, n, -u]); H = hom(R, base + n*(d[1] + start)); i = sc.body(H, np.append(zeros(3), dot(R.T, v)), Cloud([(2*np.array(s) - 1)*d*.6 for s in np.ndindex(2, 2, 2)], ones(8)*rng.uniform(.1, 1)))
        k = int(rng.integers(3, 5)); cs = [(1, -1, 1), (1, -1, -1), (-1, -1, 1), (-1, -1, -1)][:k]
        if kind == 'Box' and (np.abs(a.dim) < .6).any(): raise Skip()
        m_ = mu()
        for s in cs: sc.contact(None, a, i, Solid('Point', tra(np.array(s)*d), 0.), m_, prox)
        ctx.cls('corners')
    else:
        nb = int(rng.integers(1, 4)) if what == 'balls' else 2; x = base.copy(); prev = None; h = start
        for k in range(nb):
            r = rng.uniform(.08, .25); R = rand_rot(rng); off = rng.normal(size=3)*.02*(rng.random() < .5)
            if what == 'balls': c = base + t*(k - (nb - 1)/2.)*.5*(.9 if kind != 'Sphere' else .9) + n*(r + start); c = c if kind != 'Sphere' else a.H[:3, 3] + (c - a.H[:3, 3])/norm(c - a.H[:3, 3])*(a.dim + r + start)
            else: c = x + n*(h + r); h += 2*r + rng.choice([0, 1e-4])
            H = hom(R, c); i = sc.body(H, np.append(rng.normal(size=3)*rng.choice([0., 2.]) if what == 'balls' else zeros(3), dot(R.T, v*(1 if what == 'balls' else 0) * (1 - 2*(k % 2)))), rball(rng, 10.**rng.uniform(-.3, .5), r).moved(tra(off)))
            s = Solid('Sphere', eye(4), r); q = (a, s)
            if what == 'balls' or k == 0: sc.contact(None, a, i, s, mu(), prox)
            for j, (jj, sj) in enumerate(prev or []): sc.contact(jj, sj, i, s, mu(), prox); ctx.cls('sphere-sphere')
            prev = (prev or []) + [(i, s)]
        if what == 'stack': ctx.cls('stack')
    for p in sc.pairs:
        p.ok = True
        if p.mu == 0: ctx.cls('frictionless')
    g = 0. if rng.random() < .15 else rng.uniform(3, 15)
    if g == 0: ctx.cls('no-gravity')
    sc.gravity(g); ctx.note(kind=kind, what=what, start=start, prox=prox, gravity=g); return sc

def dynamic(ctx, rng, i):
    sc = ctx.retry(lambda: scene(ctx, rng)); dt = 10.**rng.uniform(-3.7, -2.3); ctx.note(dt=dt); ctx.sig(dt, [p.mu for p in sc.pairs], sc.g)
    many = len(sc.pairs) > 2; n = 40 if len(sc.pairs) < 3 else 15
    # contacts that were fast or far can pass through thin corners: keep to moderate speeds
    for s in range(n):
        res = one(ctx, sc, dt, 1e-2 if many else 1e-3)
        if vmax(sc)*dt > .02: break

def tree(ctx, rng, i):
    """Mechanisms touching the ground: predicted gap and work of the contact forces."""
    t = ctx.retry(lambda: gen1(ctx, rng)); b = build(t); w = b.world; K = t.compute(); n = EY + .4*rand_unit(rng); n /= norm(n); rad = rng.uniform(.03, .15, len(t.links))
    low = min(dot(n, K['H'][k][:3, 3]) - rad[k] for k in range(len(t.links))); pl = shp.Plane(w.ground, np.append(n, low - 1e-3)); cons = []; off = low - 1e-3
    for k in range(len(t.links)): cons.append((k, cst.SoftFingerContact((pl, shp.Sphere(b.bodies[k], rad[k])), .7))); w.register(cons[-1][1])
    w.register(ctl.WeightController()); w.init(); dt = 10.**rng.uniform(-3.3, -2.5); ctx.cls('tree'); tt = t.copy()
    for s in range(10):
        sync(tt, b); K = tt.compute(); w.update_dynamic(); w.update_controllers(dt); w.update_constraints(dt); q = []
        for k, c in cons:
            J6 = K['J'][k]; R = K['H'][k][:3, :3]; Jn = dot(n, dot(R, J6[3:]) + dot(skew(n*rad[k]), dot(R, J6[:3]))); gap = dot(n, K['H'][k][:3, 3]) - rad[k] - off
            q.append((Jn, gap, c.is_active(), cols(tt, b, np.array(c.gforce)) if c.is_active() else zeros(t.ndof)))
            if abs(gap + dt*dot(Jn, tt.v) - .02) > 1e-9: ctx.ok(bool(c.is_active()) == (gap + dt*dot(Jn, tt.v) < .02), 'activation', 'activation of a contact of a mechanism')
        w.integrate(dt); sync(tt, b); v1 = tt.v
        if np.abs(v1).max() > 15: return
        for Jn, gap, ac, g in q:
            if not ac: continue
            vs = 1 + np.abs(v1).max(); ctx.ok(gap + dt*dot(Jn, v1) >= -dt*5e-3*vs - 1e-12, 'no-sink', 'predicted gap %g' % (gap + dt*dot(Jn, v1)))
            fs = np.abs(g).max(); ctx.ok(dt*dot(v1, g) <= max(0., -gap)*fs*10 + dt*5e-3*vs*fs*t.ndof + 1e-12, 'contact-work', 'contact of a mechanism brings energy')

def gen1(ctx, rng):
    t = gen_tree(ctx, rng, 2, 4, types=['RzJoint', 'RxJoint', 'RyJoint', 'RzRyRxJoint'], base='FreeJoint', p_massless=0., p_visc=0., vscale=.3); well_posed(t, cond=2e3); return t

def block(ctx, rng, i):
    """A body which only translates on a plane: closed form of every step."""
    n = EY + rng.choice([0., rng.uniform(0, .9)])*rand_unit(rng); n /= norm(n); r = rng.choice([0., .1]); w = core.World(); m = 10.**rng.uniform(-1, 1); R = rand_rot(rng); g = rng.uniform(1, 15); mu = rng.choice([0., rng.uniform(.02, 1.2)]) if rng.random() < .3 else rng.uniform(.02, 1.2)
    gt = -g*EY - dot(-g*EY, n)*n; gn = -dot(-g*EY, n); tan = norm(gt)/gn
    if rng.random() < .5 and tan > 0: mu = tan*rng.choice([.97, .999, 1.001, 1.03])
    o = rng.normal(); b = core.Body(mass=np.diag([.1, .1, .1, m, m, m])); j = joints.TxTyTzJoint(); f0 = core.SubFrame(w.ground, hom(R, n*(o + r))); w.add_link(f0, j, b); v = np.cross(n, rng.normal(size=3))*rng.choice([0, .05, 1.]); j.gvel[:] = dot(R.T, v)
    fr = core.SubFrame(b, hom(rand_rot(rng))); sh = [shp.Plane(core.SubFrame(w.ground, tra(n*.3)), np.append(n, o - .3)), shp.Sphere(fr, r) if r else shp.Point(fr)]
    c = cst.SoftFingerContact(tuple(sh), mu); w.register(c); w.register(ctl.WeightController(-g)); w.init(); dt = 10.**rng.uniform(-3.5, -1.8); moving = norm(v) > 0; x0 = np.array(j.gpos)
    ctx.sig(mu, g, dt, n.tobytes()); ctx.note(mu=mu, slope=tan, dt=dt, g=g, v=v)
    for s in range(30):
        step(w, dt); a = v + dt*gt; k = norm(a); v = a*max(0., 1 - mu*gn*dt/k) if k > 0 else a
        ctx.close(dot(R, np.array(j.gvel)), v, 'closed-form-block', 'velocity of a block on a slope (tangent %g, friction %g), step %d' % (tan, mu, s), 1e-6, norm(v) + g*dt)
        if norm(v) > 0: ctx.cls('slides'); moving = True
        elif moving: ctx.cls('stops')
        else: ctx.cls('sticks')
        ctx.ok(abs(dot(n, dot(R, np.array(j.gpos)))) < 1e-9, 'rest', 'block leaves the plane')
        if norm(v) == 0 and not moving: ctx.close(j.gpos, x0, 'rest', 'a resting block moves', 1e-9)

def drop(ctx, rng, i):
    """A body which only translates and is thrown at a plane from a small height: closed form of every step."""
    n = EY + rng.uniform(0, .9)*rand_unit(rng); n /= norm(n); r = rng.choice([0., .1]); w = core.World(); m = 10.**rng.uniform(-1, 1); R = rand_rot(rng); g = rng.choice([0., rng.uniform(1, 15)]); mu = rng.choice([0., rng.uniform(.02, 1.2)], p=[.2, .8])
    h = 10.**rng.uniform(-4, -1.3); dt = 10.**rng.uniform(-3.5, -1.8); vn = -h/dt/rng.integers(1, 8)*rng.uniform(.3, 1.7); vn = max(vn, -5.); o = rng.normal()
    if rng.random() < .25: ctx.cls('fast-landing'); vn = -10.**rng.uniform(.7, 3.); h = -vn*dt*rng.uniform(.2, 4.)
    b = core.Body(mass=np.diag([.1, .1, .1, m, m, m])); j = joints.TxTyTzJoint(); f0 = core.SubFrame(w.ground, hom(R, n*(o + r))); w.add_link(f0, j, b); v = np.cross(n, rng.normal(size=3))*rng.choice([0, .05, 1.]) + vn*n; j.gvel[:] = dot(R.T, v); j.gpos[:] = dot(R.T, h*n)
    sh = [shp.Plane(w.ground, np.append(n, o)), shp.Sphere(b, r) if r else shp.Point(b)]
    if rng.random() < .5: sh.reverse()
    w.register(cst.SoftFingerContact(tuple(sh), mu)); w.register(ctl.WeightController(-g)); w.init(); ctx.sig(mu, g, dt, n.tobytes(), h); ctx.note(mu=mu, dt=dt, g=g, v=v, height=h)
    for s in range(25):
        h0 = dot(n, dot(R, np.array(j.gpos))); a = v - dt*g*EY; an = dot(n, a); step(w, dt)
        if h0 + dt*an > 0: v = a; ctx.cls('above')
        else:
            p = -h0/dt - an; at = a - an*n; k = norm(at); v = -h0/dt*n + (at*max(0., 1 - mu*p/k) if k > 0 else at); ctx.cls('landing')
        if abs(h0 + dt*an) < 1e-9*(1 + abs(h0)) and g == 0: return
        ctx.close(dot(R, np.array(j.gvel)), v, 'drop', 'velocity of a block thrown at a plane, at the height %g, step %d' % (h0, s), 1e-7, norm(a) + g*dt); v = dot(R, np.array(j.gvel))

def roll(ctx, rng, i):
    """Homogeneous ball rolling down, or spinning, on a plane."""
    r, m = rng.uniform(.1, .4), 10.**rng.uniform(-1, 1); I = .4*m*r*r; g = rng.uniform(3, 12); spin = i % 2; th = 0. if spin else rng.uniform(.05, .5); mu = rng.uniform(.2, .9)
    if not spin and rng.random() < .5: mu = 2/7.*np.tan(th)*rng.uniform(.1, .9)        # rolls and slides
    ax = rng.normal(size=3)*[1, 0, 1]; ax /= norm(ax); n = dot(rodrigues(ax, th), EY); down = -EY - dot(-EY, n)*n; R = rand_rot(rng); w = core.World(); b = core.Body(mass=np.diag([I, I, I, m, m, m])); j = joints.FreeJoint(gpos=hom(R, n*r)); w.add_link(w.ground, j, b)
    c = cst.SoftFingerContact((shp.Plane(w.ground, np.append(n, 0.)), shp.Sphere(b, r)), mu); w.register(c); w.register(ctl.WeightController(-g)); dt = 4e-4; N = 150
    if spin:
        w0 = rng.uniform(1, 20); j.gvel[:3] = dot(R.T, n*w0); w.init()
        for s in range(N): step(w, dt)
        e = max(0., w0 - mu*m*g/I*dt*N); ctx.close(dot(np.array(j.gpos)[:3, :3], np.array(j.gvel)[:3]), n*e, 'spin', 'spin about the normal (friction moment)', 1e-6, w0); return
    w.init()
    for s in range(N): step(w, dt)
    T = dt*N; H, V = np.array(j.gpos), np.array(j.gvel); v = dot(H[:3, :3], V[3:]); om = dot(H[:3, :3], V[:3]); gs = g*np.sin(th); fr = min(2/7.*gs, mu*g*np.cos(th)); e = (gs - fr)*T; a = fr*r*m/I*T
    ctx.cls('rolls'); ctx.close(v, down/norm(down)*e, 'rolling', 'velocity of the centre', 10*dt*(1 + a), abs(e) + 1e-3); ctx.close(om, np.cross(n, down/norm(down))*a, 'rolling', 'rotation of the ball', 10*dt*(1 + a), abs(a) + 1e-3)

MULT = 2
FAMILIES = [('dynamic', dynamic, 60, 3000), ('block', block, 60, 3000), ('drop', drop, 60, 3000), ('roll', roll, 10, 400), ('tree', tree, 20, 1000)]
