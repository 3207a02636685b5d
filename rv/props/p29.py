"""P29: simulation logs."""
from rv.worlds import *
from rv import arb; arb.NAMES = 0.
import os, pickle, h5py, tempfile
from rv.props.p28 import timeline
obs = mod('arboris.observers')

RULE = 'random mechanisms with frames and constraints, pickle and HDF5 loggers with every combination of options, named, unnamed and clashing elements, successive runs in the same file; distinct by mechanism, options and time line'
MONITORS = ['layout', 'timeline', 'gpositions', 'gvelocities', 'flat-poses', 'joint-transforms', 'composed', 'moving-frames', 'model', 'same-in-both', 'kept', 'overwritten', 'duplicates', 'documented-shapes', 'appended', 'motion-unchanged']
CLASSES = ['flat', 'not-flat', 'state', 'model', 'transforms', 'nothing', 'unnamed', 'clash', 'clash-harmless', 'moving', 'free-joint', 'fixed-joint', 'one-step', 'no-step', 'irregular', 'nested-group', 'again', 'other-length', 'append', 'odd-names', 'several-worlds']

class Spy(object):
    """Shadow log taken at the start of each integration, independently of the observers."""
    def __init__(self, tree, b):
        self.tree, self.b, self.log, w = tree, b, [], b.world; self.integrate = w.integrate; w.integrate = self._integrate
    def _integrate(self, dt):
        sync(self.tree, self.b); w = self.b.world
        self.log.append(dict(t=w.current_time, tree=self.tree.copy(), K=self.tree.compute(), q={i: np.array(j.gpos, float) for i, j in self.b.joints.items()}, v={i: np.array(j.gvel, float) for i, j in self.b.joints.items()},
            bpose={id(f): f.bpose.copy() for f in w.iterframes()}, model=dict(gvel=w.gvel, mass=w.mass.copy(), admittance=w.admittance, nleffects=w.nleffects.copy(), gforce=w.gforce)))
        return self.integrate(dt)

def read(path, group=None, k=0):
    """Read a file back as a dictionary of dictionaries of arrays."""
    if group is None:
        with open(path, 'rb') as f:
            for _ in range(k): pickle.load(f)
            return pickle.load(f)
    with h5py.File(path, 'r') as f:
        g = f[group] if group.strip('/') else f
        return {a: (np.array(g[a]) if a == 'timeline' else {x: np.array(g[a][x]) for x in g[a]}) for a in g if a in ('timeline', 'gpositions', 'gvelocities', 'transforms', 'model')}

def check(ctx, d, log, b, t, moving, opt, what):
    n = len(log); tr, st, mo, flat = opt['save_transforms'], opt['save_state'], opt['save_model'], opt['flat']
    exp = {'timeline'} | ({'gpositions', 'gvelocities'} if st else set()) | ({'transforms'} if tr else set()) | ({'model'} if mo else set())
    ctx.ok(set(d) == exp, 'layout', '%s: groups %s instead of %s' % (what, sorted(d), sorted(exp)))
    eq = lambda x, y, m, msg: (ctx.ok(np.asarray(x).shape == np.asarray(y).shape, 'documented-shapes', '%s: shape %s instead of %s, %s' % (what, np.asarray(x).shape, np.asarray(y).shape, msg)), ctx.ok(np.array_equal(x, y), m, '%s: %s differs from what was simulated' % (what, msg)))
    eq(d['timeline'], [e['t'] for e in log], 'timeline', 'time line')
    if st:
        J = b.joints; names = {J[i].name for i in J}
        ctx.ok(set(d['gpositions']) == names == set(d['gvelocities']), 'layout', '%s: joints %s' % (what, sorted(d['gpositions'])))
        for i in J:
            jt = t.links[i].jt; dim = (4, 4) if jt == 'FreeJoint' else (jndof(jt),)
            if jt == 'FixedJoint': ctx.ok(np.asarray(d['gpositions'][J[i].name]).size == 0 and len(d['gpositions'][J[i].name]) == n, 'documented-shapes', 'position of a FixedJoint'); continue
            eq(d['gpositions'][J[i].name], np.array([e['q'][i] for e in log]).reshape((n,) + dim), 'gpositions', 'position of a %s' % jt)
            eq(d['gvelocities'][J[i].name], np.array([e['v'][i] for e in log]).reshape(n, jndof(jt)), 'gvelocities', 'velocity of a %s' % jt)
    if tr:
        D = d['transforms']; names = ({x.name for x in b.bodies.values()} if flat else {b.f1[i].name for i in b.f1}) | {f.name for f in moving}
        ctx.ok(set(D) == names, 'layout', '%s: transforms %s instead of %s' % (what, sorted(D), sorted(names)))
        for x in D: ctx.ok(np.asarray(D[x]).shape == (n, 4, 4), 'documented-shapes', '%s: shape of a transform: %s' % (what, np.asarray(D[x]).shape))
        ix = {id(x): i for i, x in b.bodies.items()}
        for k, e in enumerate(log):
            K, s = e['K'], kscale(t, e['K'])
            if flat:
                for i, x in b.bodies.items(): ctx.close(D[x.name][k], K['H'][i], 'flat-poses', '%s: absolute pose of a body' % what, 1e-9, s)
            else:
                for i, l in enumerate(e['tree'].links):
                    G = l.q if l.jt == 'FreeJoint' else jpose(l); ctx.close(D[b.f1[i].name][k], G, 'joint-transforms', '%s: pose of a %s' % (what, l.jt), 1e-9, 1 + np.abs(G).max())
                H = {-1: eye(4)}
                for i in t.order: l = t.links[i]; X = dot(dot(H[l.parent], l.H_pr), D[b.f1[i].name][k]); H[i] = dot(X, hinv(l.H_cn)); ctx.close(X, dot(K['H'][i], l.H_cn), 'composed', '%s: composition of joint transforms' % what, 1e-8, s)
            for f in moving:
                B = e['bpose'][id(f)]; R = dot(K['H'][ix[id(f.body)]], B) if flat else B; ctx.close(D[f.name][k], R, 'moving-frames', '%s: transform of a moving frame' % what, 1e-9, s + np.abs(B).max())
    if mo:
        ctx.ok(set(d['model']) == {'gvel', 'mass', 'admittance', 'nleffects', 'gforce'}, 'layout', '%s: model %s' % (what, sorted(d['model'])))
        for x in d['model']: eq(d['model'][x], np.array([e['model'][x] for e in log]).reshape((n,) + ((t.ndof,) if x[0] == 'g' else (t.ndof, t.ndof))), 'model', x)

def jpose(l):
    G = eye(4)
    for k, a in enumerate(ref.JOINTS[l.jt]): G = dot(G, se3exp(PRIM[a]*l.q[k]))
    return G

def flatten(d, p=''):
    out = {}
    for k, v in d.items(): out.update(flatten(v, p + k + '/') if isinstance(v, dict) else {p + k: np.asarray(v)})
    return out

def make(ctx, rng, clash=False):
    t = gen_tree(ctx, rng, 1, 5, vscale=.5); well_posed(t); seed = int(rng.integers(1 << 30))
    def one():
        r = np.random.default_rng(seed); b = build(t); populate(ctx, r, b, t); b.world.init(); k = 0
        for f in add_frames(r, b, 2): b.world.register(f)
        moving = list(b.world.itermovingsubframes())
        for f in moving: f.name = 'm%d' % k if r.random() < .7 else None; k += 1
        for x in list(b.joints.values()) + list(b.bodies.values()) + list(b.f1.values()):
            if r.random() < .15 and x is not b.world.ground: x.name = None; ctx.cls('unnamed')
        if r.random() < .4:         # names which look like each other
            ctx.cls('odd-names'); N = [n for n in odd_names(r, 60) if n.lower() != 'ground']; L = list({id(x): x for x in list(b.bodies.values()) + list(b.f1.values()) + moving if x is not b.world.ground and x.name is not None}.values()); J = [j for j in b.joints.values() if j.name is not None]
            for x, n in zip([L[int(q)] for q in r.permutation(len(L))], N): x.name = n
            for x, n in zip(J, N[::-1]): x.name = n
        return b, moving
    for l in t.links: ctx.cls({'FreeJoint': 'free-joint', 'FixedJoint': 'fixed-joint'}.get(l.jt, 'other-joint'))
    return t, one

def options(ctx, rng):
    o = dict(save_transforms=bool(rng.random() < .7), save_state=bool(rng.random() < .6), save_model=bool(rng.random() < .5), flat=bool(rng.random() < .5))
    if o['save_transforms']: ctx.cls('transforms'); ctx.cls('flat' if o['flat'] else 'not-flat')
    if o['save_state']: ctx.cls('state')
    if o['save_model']: ctx.cls('model')
    if not (o['save_transforms'] or o['save_state'] or o['save_model']): ctx.cls('nothing')
    return o

def logs(ctx, rng, i):
    t, one = make(ctx, rng); b, moving = one(); w = b.world; tree = t.copy(); opt = options(ctx, rng); opt = {k: said(rng, v) for k, v in opt.items()} if rng.random() < .3 else opt; ctx.note(options={k: bool(v) for k, v in opt.items()}); ctx.sig(sorted(opt.items()))
    if moving: ctx.cls('moving')
    with tempfile.TemporaryDirectory() as tmp:
        P, H = os.path.join(tmp, 'x.pkl'), os.path.join(tmp, 'x.h5'); group = str(rng.choice(['/', '', 'run', '/a/b', 'a/b/'])); mode = 'a'
        if group.strip('/') in ('a/b',): ctx.cls('nested-group')
        # data of others in the file
        with h5py.File(H, 'w') as f: f['other/data'] = np.arange(5.); f['a/mine'] = np.arange(3); f['note'] = 7.; f['a/b/extra'] = 1.
        if rng.random() < .25:
            opt0 = opt
            if opt == dict(save_transforms=True, save_state=False, save_model=False, flat=False): mkp = lambda: obs.PickleLogger(P)
            else: mkp = lambda: obs.PickleLogger(P, 'wb', opt['save_transforms'], opt['save_state'], opt['save_model'], opt['flat'])
        else: pr = int(rng.integers(0, 5)); mkp = lambda: obs.PickleLogger(P, protocol=pr, name='log', **opt)
        runs = int(rng.choice([1, 1, 2, 3])); spy = Spy(tree, b); pk = mkp(); w2 = one()[0].world; n0 = None
        for run in range(runs):
            tl = timeline(ctx, rng, None) if rng.random() < .95 else [1.]; n = len(tl) - 1
            if n == 0: ctx.cls('no-step')
            if run: ctx.cls('again'); ctx.cls('other-length' if n != n0 else 'same-length')
            n0 = n; ctx.sig('tl', np.round(tl, 8).tobytes()); spy.log = []
            if run and rng.random() < .5: pk = mkp()
            h5 = obs.Hdf5Logger(H, group, 'a', **opt) if group.strip('/') or rng.random() < .5 else obs.Hdf5Logger(H, **opt)
            L = [pk, h5] if rng.random() < .5 else [h5, pk]; core.simulate(w, tl, L); core.simulate(w2, tl)
            if len(spy.log) != n: raise Skip()
            ctx.ok([np.asarray(j.gpos).tobytes() for j in w.iterjoints()] == [np.asarray(j.gpos).tobytes() for j in w2.iterjoints()], 'motion-unchanged', 'motion with loggers differs from the motion without')
            dp, dh = read(P), read(H, group)
            check(ctx, dp, spy.log, b, t, moving, opt, 'pickle'); check(ctx, dh, spy.log, b, t, moving, opt, 'HDF5')
            if run: ctx.hit('overwritten')
            fp, fh = flatten(dp), flatten(dh); ctx.ok(set(fp) == set(fh) and all(fp[k].shape == fh[k].shape and np.array_equal(fp[k], fh[k]) for k in fp), 'same-in-both', 'both files hold the same data')
            with h5py.File(H, 'r') as f: ctx.ok(np.array_equal(f['other/data'], np.arange(5.)) and np.array_equal(f['a/mine'], np.arange(3)) and f['note'][()] == 7. and f['a/b/extra'][()] == 1., 'kept', 'data of others in the file were altered')
        # another group of the same file, then the first one is still there
        spy.log = []; tl = [0., 1e-3, 3e-3]; core.simulate(w, tl, [obs.Hdf5Logger(H, 'second/group', **opt)]); ctx.ok(all(np.array_equal(v, fh[k]) for k, v in flatten(read(H, group)).items()), 'kept', 'first group altered by the second')
        check(ctx, read(H, 'second/group'), spy.log, b, t, moving, opt, 'HDF5, second group')
        if i % 3 == 0:
            ctx.cls('append'); spy.log = []; core.simulate(w, tl, [obs.PickleLogger(P, mode='ab', **opt)]); check(ctx, read(P, k=1), spy.log, b, t, moving, opt, 'second pickle'); fp2 = flatten(read(P)); ctx.ok(set(fp2) == set(fp) and all(np.array_equal(fp[k], fp2[k]) for k in fp), 'appended', 'first pickle of the file')
            spy.log = []; core.simulate(w, tl, [obs.Hdf5Logger(H, mode='w', **opt)])
            with h5py.File(H, 'r') as f: ctx.ok('other' not in f, 'overwritten', 'mode w starts a new file')
            check(ctx, read(H, '/'), spy.log, b, t, moving, opt, 'HDF5, mode w')

def clashes(ctx, rng, i):
    """Elements whose names would clash in the file are refused; clashes which do not matter are not."""
    t, one = make(ctx, rng); b, moving = one(); w = b.world; opt = options(ctx, rng); f1 = [b.f1[k] for k in b.f1]; bodies = list(b.bodies.values())
    pool = {'joint': list(b.joints.values()), 'body': bodies[1:], 'frame': [f for f in f1 if not isinstance(f, core.Body)], 'moving': moving}
    for _ in range(int(rng.integers(1, 3))):
        kinds = [k for k in pool if pool[k]]; x = pool[str(rng.choice(kinds))]; y = pool[str(rng.choice(kinds))]
        u, v = x[int(rng.integers(len(x)))], y[int(rng.integers(len(y)))]
        if u.name is None: u.name = 'n%d' % rng.integers(100)
        v.name = u.name
        if rng.random() < .6: u.name = v.name = odd_names(rng, 1)[0] if rng.random() < .6 else str(rng.integers(0, 200))
    for x in pool['joint'] + bodies + f1 + moving:
        if x.name is None: x.name = 'u%d' % id(x)
    dup = lambda l: len({id(x) for x in l}) != len({x.name for x in l})
    bad = (opt['save_state'] and dup(pool['joint'])) or (opt['save_transforms'] and opt['flat'] and dup(bodies + moving)) or (opt['save_transforms'] and not opt['flat'] and dup(f1 + moving))
    ctx.sig('clash', bad, sorted(opt.items())); ctx.cls('clash' if bad else 'clash-harmless'); before = snap(w)
    with tempfile.TemporaryDirectory() as tmp:
        for mk in (lambda: obs.PickleLogger(os.path.join(tmp, 'x.pkl'), **opt), lambda: obs.Hdf5Logger(os.path.join(tmp, 'x.h5'), **opt)):
            L = mk()
            if bad: ctx.raises(core.DuplicateNameError, lambda: core.simulate(w, [w.current_time, w.current_time + 1e-3], [L]), 'duplicates', 'clashing names')
            else: core.simulate(w, [0., 1e-3], [L]); ctx.hit('duplicates')
            if hasattr(L, '_file') and bad: L._file.close()

def reused(ctx, rng, i):
    """One logger for simulations of several worlds."""
    opt = options(ctx, rng); ctx.cls('several-worlds')
    with tempfile.TemporaryDirectory() as tmp:
        P = os.path.join(tmp, 'x.pkl'); L = obs.PickleLogger(P, **opt)
        for k in range(int(rng.integers(2, 4))):
            t, one = make(ctx, rng); b, moving = one(); tree = t.copy(); spy = Spy(tree, b); tl = timeline(ctx, rng); core.simulate(b.world, tl, [L])
            if len(spy.log) != len(tl) - 1: raise Skip()
            check(ctx, read(P), spy.log, b, t, moving, opt, 'pickle, world %d' % k); ctx.sig(sig_tree(t))

FAMILIES = [('reused', lambda c, r, i: c.retry(lambda: reused(c, r, i)), 25, 800), ('logs', lambda c, r, i: c.retry(lambda: logs(c, r, i)), 60, 2500), ('clashes', lambda c, r, i: c.retry(lambda: clashes(c, r, i)), 90, 1500)]
