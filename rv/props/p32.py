"""P32: simulation protocol and reproducibility."""
from rv.worlds import *
from rv import arb; arb.RENUMBER = 0.
import collections
from rv.props.p28 import timeline
import subprocess, sys, os, hashlib, warnings as W
obs = mod('arboris.observers')

RULE = 'random worlds with probes registered as controllers, constraints and observers; list, tuple, dict and absent observers, uniform and irregular time lines, one-point time lines, reused worlds; distinct by mechanism, number of probes and time line'
MONITORS = ['automaton', 'same-step', 'step-length', 'clock', 'final-clock', 'init-clock', 'dynamic-updated', 'forces-known-to-observers', 'integrated-after', 'same-timeline', 'finish-once', 'world-methods', 'twice-bitwise', 'other-process', 'two-parts', 'registered-order', 'observers-order', 'same-as-by-hand', 'not-changed-by-probes', 'refused']
CLASSES = ['list', 'tuple', 'dict', 'other-dict', 'other-list', 'no-observer', 'one-point', 'irregular', 'other-clock', 'several-runs', 'loop', 'contact', 'controllers', 'shared-state', 'negative-times', 'repeated-time', 'decreasing-time', 'near-clock']

class Log(object):
    def __init__(self, b): self.b, self.ev = b, []; self.w = b.world
    def add(self, *a): self.ev.append(a + (self.w.current_time,))

NAMES = [None]
def name_(k): return NAMES[k % len(NAMES)]

class CProbe(core.Controller):
    def __init__(self, log, k): core.Controller.__init__(self, name_(k)); self.log, self.k = log, k
    def init(self, world): self.n = world.ndof; self.log.add('cinit', self.k, world)
    def update(self, dt): self.log.add('control', self.k, dt, poses(self.log.b), digest(self.log.w)); return zeros(self.n), zeros((self.n, self.n))

class KProbe(core.Constraint):
    def __init__(self, log, k): core.Constraint.__init__(self, name_(k)); self.log, self.k = log, k
    def init(self, world): self.log.add('kinit', self.k, world)
    @property
    def jacobian(self): raise AssertionError('inactive')
    @property
    def ndol(self): return 0
    def update(self, dt): self.log.add('constrain', self.k, dt, digest(self.log.w))
    def is_active(self): return False
    def solve(self, vel, admittance, dt): raise AssertionError('inactive')

class OProbe(core.Observer):
    def __init__(self, log, k): core.Observer.__init__(self, name_(k)); self.log, self.k = log, k
    def init(self, world, timeline): self.log.add('oinit', self.k, world, [float(x) for x in timeline])
    def update(self, dt): self.log.add('observe', self.k, dt, digest(self.log.w), self.log.w.gforce)
    def finish(self): self.log.add('finish', self.k, digest(self.log.w))

def poses(b): return {i: np.array(x.pose) for i, x in b.bodies.items()}
def digest(w): return b''.join(np.asarray(j.gpos, float).tobytes() + np.asarray(j.gvel, float).tobytes() for j in w.iterjoints())

def world(ctx, seed, count=False, **kw):
    r = np.random.default_rng(seed); n = int(r.integers(1, 6)); t = rand_tree(r, n, vscale=.5); well_posed(t, cond=1e5); b = build(t); SEEN.append(b.world); R = populate(ctx, r, b, t, **kw); b.world.init()
    return t, b, R

def protocol(ctx, rng, i):
    seed = int(rng.integers(1 << 30)); t, b, R = world(ctx, seed); w = b.world; ctx.note(seed=seed, tree=describe(t)); log = Log(b)
    if R['ctrls']: ctx.cls('controllers')
    for c in R['cons']: ctx.cls('loop' if isinstance(c, cst.BallAndSocketConstraint) else 'contact')
    nc, nk, no = (int(x) for x in rng.integers(1, 4, 3)); ctx.sig(sig_tree(t), nc, nk, no)
    NAMES[:] = [['c', 'b', 'a'], ['same'], ['a', 'b', 'c'], [None], ['', 'z', None]][int(rng.integers(5))]; ctx.cls('names %s' % (NAMES,))
    for k in range(nc): w.register(CProbe(log, k))
    for k in range(nk): w.register(KProbe(log, k))
    P = [OProbe(log, k) for k in range(no)]; plain = world(ctx, seed)[1].world; hand = world(ctx, seed)[1].world
    # methods of the world, seen from outside
    calls = []
    def hook(name):
        f = getattr(w, name)
        def g(*a, **k): calls.append(name); log.add('enter', name, a[0] if a else k.get('dt')); r = f(*a, **k); log.add('leave', name, digest(w)); return r
        setattr(w, name, g)
    for name in ('init', 'update_dynamic', 'update_controllers', 'update_constraints', 'integrate'): hook(name)
    if rng.random() < .6: w._current_time = float(rng.normal()) ; ctx.cls('other-clock')
    runs = int(rng.choice([1, 2, 3]))
    if runs > 1: ctx.cls('several-runs')
    for run in range(runs):
        tl = timeline(ctx, rng); u = rng.random()
        if u < .1: tl = tl[:1]; ctx.cls('one-point')
        elif (u < .2 or i % 9 == 4) and not R['cons']: tl = [0, 1] if u < .15 else list(range(3)); ctx.cls('integers'); w_fast = True
        if tl[0] < 0: ctx.cls('negative-times')
        if rng.random() < .3: w._current_time = float(tl[0]) + float(rng.choice([-1, 1])*10.**rng.uniform(-9, -3)); ctx.cls('near-clock')
        if isinstance(tl, list) and rng.random() < .3: tl = tuple(tl)
        ctx.sig('tl', np.round(np.asarray(tl, float), 9).tobytes()); n = len(tl) - 1; given = str(rng.choice(['list', 'tuple', 'dict', 'no-observer', 'other-dict', 'other-list'], p=[.3, .2, .2, .1, .1, .1])); ctx.cls(given); del log.ev[:], calls[:]; keep = [float(x) for x in tl]
        with W.catch_warnings():
            W.simplefilter('ignore')
            if given == 'no-observer': core.simulate(w, tl) if rng.random() < .5 else core.simulate(w, tl, []); no_ = 0
            else: core.simulate(w, tl, list(P) if given == 'list' else tuple(P) if given == 'tuple' else other(rng, P) if given == 'other-list' else other_dict(rng, {'o%d' % (no - k): o for k, o in enumerate(P)}) if given == 'other-dict' else {'o%d' % (no - k): o for k, o in enumerate(P)}); no_ = no
        ctx.ok(keep == [float(x) for x in tl], 'same-timeline', 'time line modified')
        replay(ctx, log.ev, t, b, keep, nc, nk, no_, n, given)
        if not np.all(np.isfinite(w.gvel)) or (w.ndof and np.abs(w.gvel).max() > 1e3): return
        # same world without probes, and stepped by hand
        with W.catch_warnings():
            W.simplefilter('ignore'); core.simulate(plain, tl)
        ctx.ok(digest(plain) == digest(w), 'not-changed-by-probes', 'motion with probes differs from the motion without')
        hand._current_time = tl[0]; hand.init()
        for x in tl[1:]: step(hand, x - hand.current_time)
        ctx.ok(digest(hand) == digest(w), 'same-as-by-hand', 'motion differs from the one made of the documented steps')

class Named(dict): pass
class Several(list): pass
def other_dict(rng, d): k = int(rng.integers(3)); return [collections.OrderedDict, Named, lambda d: collections.defaultdict(list, d)][k](d)
def other(rng, P): k = int(rng.integers(5)); return [iter, lambda P: (o for o in P), Several, lambda P: {n: o for n, o in enumerate(P)}.values(), collections.deque][k](P)

def safe(f):
    """Simulations which diverge are outside the precondition."""
    def g(ctx, rng, i):
        del SEEN[:]
        try: return f(ctx, rng, i)
        except np.linalg.LinAlgError:
            if any(not (np.all(np.isfinite(w.gvel)) and (w.ndof == 0 or np.abs(w.gvel).max() < 50)) for w in SEEN): raise Skip()
            raise
    return lambda c, r, i: c.retry(lambda: g(c, r, i))
SEEN = []

def replay(ctx, ev, t, b, tl, nc, nk, no, n, given):
    """Run the event log through the automaton of the protocol."""
    w = b.world; E = [e for e in ev if e[0] not in ('enter', 'leave')]; it = iter(E); tol = lambda x: 1e-12*(1 + abs(x)) + 1e-13*n
    def want(kind, what):
        e = next(it, None); ctx.ok(e is not None and e[0] == kind, 'automaton', '%s instead of %s (%s)' % ('end' if e is None else e[0], kind, what)); return e
    got = [want('cinit', 'world init') if False else None]
    inits = []
    for _ in range(nc + nk):
        e = next(it, None); ctx.ok(e is not None and e[0] in ('cinit', 'kinit'), 'automaton', '%s instead of the initialisation of the world' % (None if e is None else e[0])); inits.append(e[:2]); ctx.ok(e[2] is w, 'automaton', 'world given at initialisation'); ctx.ok(e[-1] == tl[0], 'init-clock', 'clock reads %r instead of %r when the world is initialised' % (e[-1], tl[0]))
    ctx.ok(sorted(inits) == sorted([('cinit', k) for k in range(nc)] + [('kinit', k) for k in range(nk)]), 'automaton', 'each controller and constraint is initialised once: %s' % inits)
    for k in range(no):
        e = want('oinit', 'observers'); ctx.ok(e[2] is w and e[3] == tl, 'same-timeline', 'world and time line given to the observers'); ctx.ok(e[1] == k, 'observers-order', 'observer %d initialised in place of %d' % (e[1], k)); ctx.ok(e[-1] == tl[0], 'init-clock', 'clock at the initialisation of the observers')
    prev = None
    for s in range(n):
        dts, ds = [], []
        for kind, m in (('control', nc), ('constrain', nk), ('observe', no)):
            for k in range(m):
                e = want(kind, 'step %d' % s); ctx.ok(e[1] == k, 'observers-order' if kind == 'observe' else 'registered-order', '%s %d in place of %d' % (kind, e[1], k)); dts.append(e[2]); ds.append(e[4] if kind == 'control' else e[3])
                ctx.ok(abs(e[-1] - tl[s]) <= tol(tl[s]), 'clock', 'clock reads %r in the interval starting at %r (%s)' % (e[-1], tl[s], kind))
                if kind == 'control' and k == 0:
                    sy = t.copy()
                    unpack(sy, b, e[4]); K = sy.compute()
                    for i in K['H']: ctx.close(e[3][i], K['H'][i], 'dynamic-updated', 'pose of a body when the controllers are updated', 1e-9, kscale(sy, K))
        ctx.ok(all(x == dts[0] for x in dts), 'same-step', 'steps given in the same interval: %s' % dts)
        ctx.ok(abs(dts[0] - (tl[s + 1] - tl[s])) <= tol(tl[s + 1]), 'step-length', 'step %r for the interval %r %r' % (dts[0], tl[s], tl[s + 1]))
        ctx.ok(all(x == ds[0] for x in ds), 'integrated-after', 'the state changes between the controllers and the observers of a step')
    fin = []
    for k in range(no): e = want('finish', 'end'); fin.append(e[1]); ctx.ok(abs(e[-1] - tl[-1]) <= tol(tl[-1]), 'final-clock', 'clock reads %r instead of %r at the end' % (e[-1], tl[-1])); ctx.ok(e[2] == digest(w), 'finish-once', 'state when the observers finish')
    if no: ctx.ok(sorted(fin) == list(range(no)), 'finish-once', 'observers finished: %s' % fin)
    ctx.ok(next(it, None) is None, 'automaton', 'something happens after the end'); ctx.ok(abs(w.current_time - tl[-1]) <= tol(tl[-1]), 'final-clock', 'clock reads %r instead of %r' % (w.current_time, tl[-1]))
    left = [(e[1], e[2]) for e in ev if e[0] == 'leave' and e[1] in ('integrate', 'update_dynamic')]
    for a, c in zip(left, left[1:]):
        if a[0] == 'integrate': ctx.ok(a[1] == c[1], 'integrated-after', 'the state changes between the integration and the next step')
    seq = [e[1] for e in ev if e[0] == 'enter']; ctx.ok(seq == ['init'] + ['update_dynamic', 'update_controllers', 'update_constraints', 'integrate']*n, 'world-methods', 'methods of the world: %s' % seq[:8])
    # observers come between constraints and integration, and know the forces
    if no and n:
        names = [(e[1] if e[0] in ('enter', 'leave') else e[0]) for e in ev]
        for a, e in enumerate(ev):
            if e[0] == 'observe':
                before = [x for x in ev[:a] if x[0] == 'leave'][-1][1]; after = next(x[1] for x in ev[a:] if x[0] == 'enter'); ctx.ok(before == 'update_constraints' and after == 'integrate', 'forces-known-to-observers', 'observers are updated between %s and %s' % (before, after))

def unpack(tree, b, d):
    a = np.frombuffer(d); k = 0; lk = {id(j): l for (i, j), l in ((x, tree.links[x[0]]) for x in b.joints.items())}
    for j in b.world.iterjoints():
        l = lk[id(j)]; m = np.asarray(j.gpos).size; n = np.asarray(j.gvel).size
        if n: l.q = a[k:k + m].reshape(np.asarray(j.gpos).shape).copy(); l.v = a[k + m:k + m + n].copy()
        k += m + n

def motion(w, tl):
    out = []
    class S(core.Observer):
        def init(self, world, timeline): pass
        def update(self, dt): out.append(digest(w))
        def finish(self): out.append(digest(w))
    with W.catch_warnings():
        W.simplefilter('ignore'); core.simulate(w, tl, [S()])
    return out

def twice(ctx, rng, i):
    """The same world built twice moves the same, bit for bit."""
    seed = int(rng.integers(1 << 30)); t, b, R = world(ctx, seed); ctx.note(seed=seed); ctx.sig('twice', seed); tl = timeline(ctx, rng); A = motion(b.world, tl); junk = [core.Body() for _ in range(int(rng.integers(1, 50)))]; B = motion(world(ctx, seed)[1].world, tl)
    ctx.ok(A == B, 'twice-bitwise', 'same world, same time line, different motion'); del junk
    # a state put back gives the same motion again
    t3, b3, R3 = world(ctx, seed)
    if not R3['cons']: ctx.ok(motion(b3.world, tl) == A, 'twice-bitwise', 'third run')

def fingerprint(seed):
    ctx = Ctx('P32', 'quick', 0); h = hashlib.md5(); k = 0
    for s in range(seed, seed + 8):
        try: t, b, R = world(ctx, s); M = motion(b.world, np.arange(6)*2e-3)
        except (Skip, np.linalg.LinAlgError): continue
        k += 1
        for x in M: h.update(x)
    return '%d:%s' % (k, h.hexdigest())

def process(ctx, rng, i):
    """The motion does not depend on the process, nor on how it hashes."""
    seed = int(rng.integers(1 << 30)); ctx.sig('process', seed); mine = fingerprint(seed)
    for h in ('0', str(int(rng.integers(1, 1 << 30)))):
        r = subprocess.run([sys.executable, '-B', '-c', 'import rv.run\nfrom rv.props.p32 import fingerprint\nprint("FP", fingerprint(%d))' % seed], env=dict(os.environ, PYTHONHASHSEED=h), capture_output=True, text=True, timeout=300)
        fp = [l for l in r.stdout.splitlines() if l.startswith('FP ')]
        if not fp: raise RuntimeError(r.stderr[-800:])
        ctx.ok(fp[0] == 'FP ' + mine, 'other-process', 'another process finds another motion')

def parts(ctx, rng, i):
    """A time line in two parts."""
    seed = int(rng.integers(1 << 30)); t, b, R = world(ctx, seed)
    if any(isinstance(c, cst.BallAndSocketConstraint) for c in R['cons']): raise Skip()
    n = int(rng.integers(2, 12)); k = int(rng.integers(1, n)); h = 2.**-int(rng.integers(9, 13)); tl = h*np.arange(n + 1)
    if rng.random() < .5: d = rng.integers(1, 9, n); tl = h/4*np.append(0, np.cumsum(d)); ctx.cls('irregular')
    tl = tl + float(rng.integers(-2, 3)); ctx.sig('parts', seed, n, k); ctx.cls('shared-state')
    A = motion(b.world, tl); w = world(ctx, seed)[1].world
    if not np.isfinite(np.frombuffer(A[-1])).all(): raise Skip()
    B = motion(w, tl[:k + 1]); C = motion(w, tl[k:])
    G = B[:-1] + C; ctx.ok(len(G) == len(A) and B[-1] == C[0], 'two-parts', 'number of steps')
    for x, y in zip(G, A): y = np.frombuffer(y); ctx.close(np.frombuffer(x), y, 'two-parts', 'motion in two parts', 1e-9)

def refuse(ctx, rng, i):
    """Steps which are not positive, alone or in a time line."""
    seed = int(rng.integers(1 << 30)); t, b, R = world(ctx, seed); w = b.world; tl = timeline(ctx, rng); n = len(tl); k = int(rng.integers(1, n)) if n > 1 else 1; ctx.sig('refuse', seed, k); tl = [float(x) for x in tl]
    bad = -10.**rng.uniform(-9, 0) if i % 2 else 0.; ctx.cls('decreasing-time' if i % 2 else 'repeated-time'); tl[k:] = [x - tl[k] + tl[k - 1] + bad for x in tl[k:]] if n > 1 else [tl[0] + bad]
    if rng.random() < .3: tl = np.array(tl)
    P = [OProbe(Log(b), 0)]
    with W.catch_warnings():
        W.simplefilter('ignore'); ctx.raises((AssertionError, ValueError), lambda: core.simulate(w, tl, P), 'refused', 'time line with a step of %r after %d steps' % (bad, k - 1)); ctx.ok(sum(e[0] == 'observe' for e in P[0].log.ev) == k - 1, 'refused', '%d steps observed instead of %d' % (len(P[0].log.ev), k - 1))
        w = world(ctx, seed)[1].world; w.init(); w.update_dynamic(); s = digest(w)
        ctx.raises((AssertionError, ValueError), lambda: w.update_controllers(bad), 'refused', 'update_controllers(%r)' % bad); w.update_controllers(1e-3)
        ctx.raises((AssertionError, ValueError), lambda: w.update_constraints(bad), 'refused', 'update_constraints(%r)' % bad); w.update_constraints(1e-3)
        ctx.raises((AssertionError, ValueError), lambda: w.integrate(bad), 'refused', 'integrate(%r)' % bad); ctx.ok(digest(w) == s, 'refused', 'a refused step changed the state')

MULT = 2
FAMILIES = [('protocol', safe(protocol), 80, 4000), ('twice', safe(twice), 30, 1500), ('process', process, 3, 60), ('parts', safe(parts), 40, 2000), ('refuse', safe(refuse), 30, 800)]
