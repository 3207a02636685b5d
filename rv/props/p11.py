"""P11: the implicit step equation, monitored on every step of simulations."""
from rv.mech import *
from rv import arb; arb.MOVING = .2
from rv.arb import core
import arboris.controllers as ctl, arboris.constraints as cst

RULE = 'random mechanisms with random controllers (weight, PD, custom force and impedance) and constraints (limits, ball-and-socket) on regular and irregular time lines; distinct by mechanism, state and time line'
MONITORS = ['step-equation', 'position', 'clock', 'shared-velocity', 'controllers-add', 'model', 'admittance', 'gforce', 'own-arrays', 'scales']
CLASSES = ['long step', 'constraint force', 'no controller', 'irregular', 'custom controller', 'direct step', 'fast', 'scales']

class Custom(core.Controller):
    """Random force and impedance; remembers what it answered."""
    def __init__(self, rng, k):
        core.Controller.__init__(self, any_name(rng)); self.rng = rng; self.own = bool(rng.random() < .6); self.of = self.oZ = None
    def init(self, world): self.n = world.ndof; self.Z = None
    def update(self, dt):
        n = self.n
        A = self.rng.normal(size=(n, n)) * .1; self.f = self.rng.normal(size=n); self.Z = -dot(A, A.T) + .05*(A - A.T)
        if self.own:    # hands out the arrays it keeps
            self.of = self.f.copy() if self.of is None or self.of.shape != self.f.shape else self.of; self.oZ = self.Z.copy() if self.oZ is None or self.oZ.shape != self.Z.shape else self.oZ
            self.of[...] = self.f; self.oZ[...] = self.Z
            return (self.of, self.oZ)
        return (self.f.copy(), self.Z.copy())
    def untouched(self): return not self.own or np.array_equal(self.of, self.f) and np.array_equal(self.oZ, self.Z)

class Mon(core.Observer):
    def __init__(self, ctx, tree, b, gravity, pds, customs, cons):
        core.Observer.__init__(self); self.__dict__.update(ctx=ctx, tree=tree, b=b, g=gravity, pds=pds, customs=customs, cons=cons, prev=None, n=0)
    def init(self, world, timeline): self.w = world; self.tl = list(timeline)
    def capture(self, dt):
        w, b = self.w, self.b
        sync(self.tree, b)
        K = self.tree.compute(); D = self.tree.dynamics(K); v = self.tree.v
        sM = 1 + np.abs(D['M']).max()
        M = both(self.tree, b, w.mass)
        self.ctx.close(M, D['M'], 'model', 'mass', 1e-9, sM)
        self.ctx.close(both(self.tree, b, w.viscosity), D['B'], 'model', 'viscosity', 1e-9, 1 + np.abs(D['B']).max())
        self.ctx.close(dot(both(self.tree, b, w.nleffects), v), D['h'], 'model', 'nonlinear effects', 1e-9, sM*(1 + dot(v, v))*kscale(self.tree, K)**2*len(self.tree.links))
        n = w.ndof; f, Z = zeros(n), zeros((n, n))
        if self.g is not None:
            fw = zeros(n)
            for k, l in enumerate(self.tree.links):
                if l.cloud is None: continue
                R = K['H'][k][:3, :3]; c = l.cloud.com
                Jc = dot(R, K['J'][k][3:] - dot(skew(c), K['J'][k][:3]))
                fw += l.cloud.mass * self.g * dot(Jc.T, w.up)
            for i in self.tree.order: f[b.joints[i].dof] += fw[self.tree.dof[i]]
        for (js, kp, kd, qd, vd) in self.pds:
            idx = np.concatenate([np.arange(w.ndof)[j.dof] for j in js]); q = np.concatenate([j.gpos for j in js])
            f[idx] += dot(kp, qd - q) + dot(kd, vd)
            Z[np.ix_(idx, idx)] -= dt*kp + kd
        for c in self.customs: f += c.f; Z += c.Z; self.ctx.ok(c.untouched(), 'own-arrays', 'arrays returned by a controller were modified')
        fc = zeros(n)
        for c in self.cons:
            if c.is_enabled() and c.is_active():
                fc += c.gforce
                if np.abs(c.gforce).max() > 1e-9: self.ctx.cls('constraint force')
        if len(self.cons) and n:      # beyond what the scheme can discretise: velocities so large that the impedance is no more positive
            Y = np.array(w.mass)/dt + np.array(w.nleffects) + np.array(w.viscosity) - Z
            if np.isfinite(Y).all() and np.linalg.eigvalsh(Y + Y.T)[0] <= 0: raise Skip()
        self.ctx.close(w.gforce, f + fc, 'gforce', 'world force', 1e-9, 1 + np.abs(f).max() + np.abs(fc).max())
        self.prev = dict(fs=np.abs(f).max() + np.abs(fc).max(), M=np.array(w.mass), NB=np.array(w.nleffects) + np.array(w.viscosity), v=w.gvel, f=f + fc, Z=Z, dt=dt, t=w.current_time,
                         Y=w.admittance, q={i: np.array(j.gpos, float) for i, j in b.joints.items()})
        Y = self.prev['M']/dt + self.prev['NB'] - Z
        self.prev['cond'] = np.linalg.cond(Y)
        self.ctx.close(dot(w.admittance, Y), eye(n), 'admittance', 'inverse of the impedance', 1e-8 + 1e-13*self.prev['cond'], 1.)
    def check(self):
        p, w, ctx = self.prev, self.w, self.ctx
        v1 = w.gvel; dt = p['dt']
        for c in self.customs: self.ctx.ok(c.untouched(), 'own-arrays', 'arrays returned by a controller were modified')
        if not np.isfinite(v1).all(): ctx.fail('step-equation', 'velocity not finite')
        terms = [dot(p['M'], v1 - p['v'])/dt, dot(p['NB'], v1), dot(p['Z'], v1), p['f']]
        res = terms[0] + terms[1] - terms[2] - terms[3]
        sc = sum(np.abs(t).max() for t in terms) + p['fs'] + 1e-3 + np.abs(dot(np.abs(p['M']), np.abs(v1)+np.abs(p['v']))).max()/dt
        ctx.close(res, zeros(len(v1)), 'step-equation', 'residual', 1e-9 + 1e-14*p['cond'], sc, cond=p['cond'], terms=terms, v=[p['v'],v1], dt=dt)
        ctx.close(w.current_time, p['t'] + dt, 'clock', 'advance', 1e-12)
        for i, l in enumerate(self.tree.links):
            j = self.b.joints[i]
            if l.jt == 'FixedJoint': continue
            ctx.close(j.gvel, v1[j.dof], 'shared-velocity', 'joint velocity', 1e-15)
            t = Link('x', -1, l.jt, p['q'][i], v1[j.dof], eye(4), eye(4))
            q = Tree([t]).flow(dt).links[0].q
            ctx.close(j.gpos, q, 'position', 'joint %d' % i, 1e-9, (1 + np.abs(q).max())*(1 + dt*np.abs(v1).max()))
        self.n += 1
    def update(self, dt):
        if self.prev is not None: self.check()
        self.capture(dt)
    def finish(self):
        if self.prev is not None: self.check()

def timeline(rng, n, ctx):
    if rng.random() < .5: return np.arange(n + 1) * 10.**rng.uniform(-4, -2.3) + rng.choice([0., 0., 5.])
    ctx.cls('irregular')
    return np.cumsum(10.**rng.uniform(-4, -2, n + 1)) + rng.uniform(-2, 2)

def setup(ctx, rng, tree, b):
    w = b.world; g, pds, customs, cons, reg = None, [], [], [], []
    if rng.random() < .5: g = rng.uniform(-12, 12); reg.append(ctl.WeightController(g, name=any_name(rng)))
    lin = [i for i, l in enumerate(tree.links) if l.jt in LINEAR]
    for k in range(int(rng.integers(0, 3))):
        sub = [i for i in lin if rng.random() < .5]
        if not sub: continue
        rng.shuffle(sub); js = [b.joints[i] for i in sub]; n = sum(j.ndof for j in js)
        A = rng.normal(size=(n, n)); kp, kd = dot(A, A.T)*rng.uniform(0, 20), dot(A, A.T)*rng.uniform(0, 3)
        qd, vd = rng.normal(size=n), rng.normal(size=n)
        pds.append((js, kp, kd, qd, vd)); reg.append(ctl.ProportionalDerivativeController(js, kp, kd, qd, vd, name=any_name(rng)))
    for k in range(int(rng.integers(0, 3))): customs.append(Custom(rng, k)); reg.append(customs[-1]); ctx.cls('custom controller')
    for i in lin:
        if rng.random() < .2:
            j = b.joints[i]; q = np.array(j.gpos)
            cons.append(cst.JointLimits(j, q - rng.uniform(0, .01, j.ndof), q + rng.uniform(0, .01, j.ndof), name=any_name(rng)))
    K = tree.compute()
    if len(tree.links) and rng.random() < .5:
        i = int(rng.integers(len(tree.links)))
        p = rng.normal(size=3)*.2
        f1 = core.SubFrame(b.bodies[i], tra(p)); f0 = core.SubFrame(w.ground, tra(dot(K['H'][i], np.append(p, 1))[:3] + rng.normal(size=3)*1e-4))
        cons.append(cst.BallAndSocketConstraint(frames=(f0, f1), name=any_name(rng)))
    k = list(range(len(reg))); rng.shuffle(k)
    for a in k: w.register(reg[a])
    for c in cons: w.register(c)
    if not reg: ctx.cls('no controller')
    return g, pds, customs, cons

def fast(ctx, rng, i):
    """Any speed: bodies side by side on one joint each."""
    tree = gen_tree(ctx, rng, 1, 4, types=['TxJoint', 'TyJoint', 'TzJoint', 'RxJoint', 'RyJoint', 'RzJoint', 'TxTyTzJoint'], p_massless=0., vscale=10.**rng.uniform(1, 7))
    for l in tree.links: l.parent = -1
    tree.index(); well_posed(tree, cond=1e6); b = build(tree); w = b.world; mon = Mon(ctx, tree, b, None, [], [], []); mon.init(w, []); w.init(); ctx.cls('fast')
    for k in range(3):
        dt = 10.**rng.uniform(-6, -2); w.update_dynamic(); w.update_controllers(dt); w.update_constraints(dt); mon.update(dt); w.integrate(dt)
    mon.finish()

def mk(ctx, rng):
    tree = gen_tree(ctx, rng, 1, 5, p_massless=.05, vscale=.7)
    well_posed(tree, cond=1e4)
    return tree, build(tree, order=topo_order(rng, tree))

def sim(ctx, rng, i):
    tree, b = mk(ctx, rng)
    mon = Mon(ctx, tree, b, *setup(ctx, rng, tree, b))
    tl = timeline(rng, int(rng.integers(1, 12)), ctx); ctx.note(timeline=tl); ctx.sig(tl.tobytes())
    quiet(core.simulate, b.world, tl, [mon])
    ctx.ok(mon.n == len(tl) - 1, 'clock', 'number of steps %d' % mon.n)
    ctx.close(b.world.current_time, tl[-1], 'clock', 'final time', 1e-12)
    live(ctx, b)

def live(ctx, b):
    """Joint velocities and the world velocity vector are the same data."""
    w = b.world
    for j in b.joints.values():
        if j.ndof:
            j.gvel[:] = np.arange(j.ndof) + 3.5
            ctx.close(w.gvel[j.dof], np.arange(j.ndof) + 3.5, 'shared-velocity', 'joint velocity written', 1e-15)

def direct(ctx, rng, i):
    """The same balance with the methods called by the user, without simulate."""
    ctx.cls('direct step')
    tree, b = mk(ctx, rng); w = b.world
    mon = Mon(ctx, tree, b, *setup(ctx, rng, tree, b)); mon.init(w, [])
    w.init()
    for k in range(4):
        dt = 10.**rng.uniform(-4, -2)
        w.update_dynamic(); w.update_controllers(dt); w.update_constraints(dt)
        mon.update(dt); w.integrate(dt)
    mon.finish(); live(ctx, b)

def longstep(ctx, rng, i):
    """A step as long as the motion is slow."""
    ctx.cls('long step'); tree, b = mk(ctx, rng); w = b.world; k = 10.**rng.uniform(-4, -2)
    for j in b.joints.values(): j.gvel[:] *= k
    mon = Mon(ctx, tree, b, *setup(ctx, rng, tree, b)); mon.init(w, []); w.init(); dt = 10.**rng.uniform(-2, 0)*1e-2/k
    w.update_dynamic(); w.update_controllers(dt); w.update_constraints(dt); mon.update(dt); w.integrate(dt); mon.finish()

def order(ctx, rng, i):
    """Same controllers registered in another order, or split in two: same step."""
    tree = gen_tree(ctx, rng, 1, 5, p_massless=.05); well_posed(tree, cond=1e4)
    n = tree.ndof
    class Fix(core.Controller):
        def __init__(self, f, Z): core.Controller.__init__(self); self.f, self.Z = f, Z
        def init(self, world): pass
        def update(self, dt): return (self.f, self.Z)      # its own arrays
    parts = []
    for k in range(4):
        A = rng.normal(size=(n, n))*.3; parts.append((rng.normal(size=n), -dot(A, A.T)))
    res = []; kept = [(f.copy(), Z.copy()) for f, Z in parts]
    for variant in range(3):
        b = build(tree); w = b.world
        p = list(parts)
        if variant == 1: p = p[::-1]
        if variant == 2: p = [(sum(f for f, Z in p), sum(Z for f, Z in p))]
        for f, Z in p: w.register(Fix(f, Z))
        w.register(ctl.WeightController()); w.init()
        for k in range(3): step(w, 1e-3)
        res.append(w.gvel)
        ctx.ok(all(np.array_equal(f, x) and np.array_equal(Z, y) for (f, Z), (x, y) in zip(parts, kept)), 'own-arrays', 'arrays returned by a controller were modified')
    s = 1 + np.abs(res[0]).max()
    ctx.close(res[1], res[0], 'controllers-add', 'other order', 1e-9, s); ctx.close(res[2], res[0], 'controllers-add', 'merged', 1e-9, s)

def scales(ctx, rng, i):
    """Mechanisms of very different masses side by side: each moves as its own equation says."""
    ctx.cls('scales'); links, parts, g = [], [], rng.uniform(-12, 12) if rng.random() < .5 else None
    for k in range(int(rng.integers(2, 5))):
        t = gen_tree(ctx, rng, 1, 3, p_massless=0., vscale=.7); well_posed(t, cond=1e4); s = 10.**rng.uniform(-12, 6); n = len(links); sv = 10.**rng.uniform(-8, 3) if g is None and rng.random() < .5 else 1.
        for l in t.links:
            l.cloud = l.cloud and l.cloud.times(s); l.visc = None if l.visc is None else l.visc*s; l.v = l.v*sv
            m = l.copy(); m.parent = -1 if l.parent < 0 else l.parent + n; m.name = '%s.%d' % (l.name, k); links.append(m)
        parts.append((t, n, sv))
    tree = Tree(links); b = build(tree, order=topo_order(rng, tree)); w = b.world
    if g is not None: w.register(ctl.WeightController(g))
    w.init()
    for k in range(3):
        dt = 10.**rng.uniform(-4, -2); ref = []
        for t, n, sv in parts:
            for q, l in enumerate(t.links):
                if l.jt != 'FixedJoint': l.q, l.v = np.array(b.joints[n + q].gpos, float), np.array(b.joints[n + q].gvel, float)
            K = t.compute(); D = t.dynamics(K); f = dot(D['M'], t.v)/dt
            if g is not None:
                for q, l in enumerate(t.links):
                    if l.cloud is not None: f += l.cloud.mass*g*dot(dot(K['H'][q][:3, :3], K['J'][q][3:] - dot(skew(l.cloud.com), K['J'][q][:3])).T, w.up)
            ref.append(np.linalg.solve(D['M']/dt + D['N'] + D['B'], f))
        step(w, dt)
        for (t, n, sv), v in zip(parts, ref):
            got = np.concatenate([b.joints[n + q].gvel for q in t.order]) if t.ndof else zeros(0)
            if not np.abs(v).max(initial=0.) < 1e4: raise Skip()
            ctx.close(got, v, 'scales', 'mechanism beside others of other masses', 1e-8, np.abs(v).max(initial=0.) + np.abs(t.v).max(initial=0.) + 1e-3*sv)

FAMILIES = [('long-step', lambda c, r, i: c.retry(lambda: longstep(c, r, i)), 60, 1500), ('simulate', sim, 90, 3000), ('direct', direct, 40, 1500), ('order', order, 25, 600), ('fast', fast, 30, 900), ('scales', lambda c, r, i: c.retry(lambda: scales(c, r, i)), 60, 900)]
