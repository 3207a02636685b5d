"""P41: streaming observers: the viewer sees the world move; a missing or dying viewer never disturbs the simulation."""
from rv.dae import *
import socket, threading, time, json, stat, shlex, subprocess, logging
from rv.props.p28 import timeline
obs = mod('arboris.observers')

RULE = 'random mechanisms simulated while streamed over real sockets to viewers which stay, leave, never come or do not exist, and over the web socket; viewers as programs run on scene files; distinct by mechanism, channel, behaviour of the viewer and time line'
MONITORS = ['frames-sent', 'one-message-per-step', 'message', 'seen', 'closing', 'undisturbed', 'called', 'port', 'told', 'scene-given', 'websocket', 'viewer-scene', 'viewer-animation', 'viewer-clean', 'perf-steps', 'perf-summary', 'perf-delay', 'perf-log', 'perf-plot', 'unique-ids', 'references', 'animation-layout', 'animation-target']
CLASSES = ['daenim', 'pydaenim', 'socket', 'flat', 'hierarchical', 'viewer-stays', 'viewer-leaves', 'nobody', 'no-program', 'busy-port', 'several-busy', 'own-scene', 'moving', 'options', 'web-broken', 'unnamed', 'integer-time', 'view-world', 'view-file', 'view-simulation', 'view-group', 'no-step', 'several-steps', 'slow-step', 'slow-viewer']
VIEWER = '''#!%s -SE
import sys, socket, time, shutil
a = sys.argv[1:]; out = a[a.index('-socket') + 3]; mode = a[a.index('-socket') + 4]; opt = a[a.index('-socket') + 5:]
shutil.copy(a[0], out + '.dae')
got = b''
if mode != 'never':
    s = None
    for k in range(400):
        try: s = socket.create_connection((a[a.index('-socket') + 1], int(a[a.index('-socket') + 2])), 20); break
        except OSError: time.sleep(.01)
    if s is not None:
        if mode == 'slow': time.sleep(.3)
        while 1:
            x = s.recv(65536 if mode != 'leave' else 100)
            got += x
            if not x or mode == 'leave': break
        s.close()
open(out, 'wb').write(got)
open(out + '.args', 'w').write(repr(a)); open(out + '.done', 'w')
''' % sys.executable
PLAYER = '''#!%s -SE
import sys, shutil
shutil.copy(sys.argv[1], %%r); open(%%r, 'w').write(repr(sys.argv[1:]))
''' % sys.executable

class Busy(object):
    """Programs listening to consecutive ports."""
    def __init__(self, port, n):
        self.s = []
        for k in range(n):
            s = socket.socket()
            try: s.bind(('127.0.0.1', port + k)); s.listen(1); self.s.append(s)
            except OSError: s.close(); break
    n = property(lambda self: len(self.s))
    def close(self):
        for s in self.s: s.close()
def script(d, name, text):
    p = os.path.join(d, name); open(p, 'w').write(text); os.chmod(p, 0o755); return p
def wait(ctx, cond, t=20.):
    t0 = time.time()
    while not cond():
        if time.time() - t0 > t: return False
        time.sleep(.005)
    return True

def world(ctx, rng, seed):
    def make():
        r = np.random.default_rng(seed); tree = gen_tree(ctx, r, 1, 4, vscale=.5, branch=.5); well_posed(tree); b = build(tree); w = b.world; populate(ctx, r, b, tree, 3, 3, constraints=False)
        for k, x in enumerate(w.iterframes()):
            if x is not w.ground: x.name = 'part %d' % k
        for k, s in enumerate(w.itershapes()): s.name = 'shape.%d' % k
        w.init(); return tree, b
    return make(), make()
class Spy(core.Observer):
    def __init__(self, w): core.Observer.__init__(self); self.w, self.log, self.at = w, [], []
    def init(self, world, tl): pass
    def update(self, dt):
        self.at.append((self.w.current_time, {f: f.pose.copy() for f in self.w.iterframes()}, dict([(j.frame1, j.pose.copy()) for j in self.w.iterjoints()] + [(f, f.bpose.copy()) for f in self.w.itermovingsubframes()])))
        self.log.append((self.w.current_time, {f.name: f.pose.copy() for f in self.w.iterframes() if f.name}, [np.array(j.gpos).tobytes() + np.array(j.gvel).tobytes() for j in self.w.iterjoints()]))
    def finish(self): pass
def run(w, T, O):
    try: quiet(core.simulate, w, T, O)
    except np.linalg.LinAlgError: raise Skip()
def expected(w, flat): return {f.name for f in (w.iterbodies() if flat else [j.frame1 for j in w.iterjoints()])} | {f.name for f in w.itermovingsubframes()}
def sane(L):
    if not all(np.isfinite(H).all() and np.abs(H).max() < 1e6 for _, P, _ in L for H in P.values()): raise Skip()
def see(ctx, S, steps, log, what):
    """What a viewer shows: the nodes of the scene moved as told."""
    for k, (moved, (t, P, _)) in enumerate(zip(steps, log)):
        s = 1 + max(np.abs(x[:3, 3]).max() for x in P.values())
        ctx.ok(all(n in S.ids for n in moved), 'seen', 'names unknown to the scene: %s' % [n for n in moved if n not in S.ids])
        for n, H in P.items():
            if n in S.ids: ctx.close(S.ids[n].absolute(moved), H, 'seen', '%s: frame %r at step %d' % (what, n, k), 1e-9, s)

def integer(ctx, rng, T):
    if rng.random() < .15: ctx.cls('integer-time'); return np.arange(int(rng.integers(2, 4)))
    return T

def stream(ctx, rng, i):
    """DaenimCom with a viewer at the other end of a real socket."""
    def one():
        ctx.cls('daenim'); (tree, b), (_, b2) = world(ctx, rng, int(rng.integers(1 << 30))); w = b.world; flat = bool(rng.random() < .5); ctx.cls('flat' if flat else 'hierarchical'); d = tempfile.mkdtemp(); T = timeline(ctx, rng); T = integer(ctx, rng, T if len(T) > 100 else T[:9])
        if i % 8 == 3: T = T[:1]; ctx.cls('no-step')
        mode = ['stays', 'stays', 'leave', 'never', 'stays', 'none', 'slow', 'leave'][i % 8]; out = os.path.join(d, 'seen'); prog = script(d, 'viewer', VIEWER) if mode != 'none' else os.path.join(d, 'no such program'); ctx.cls({'stays': 'viewer-stays', 'leave': 'viewer-leaves', 'never': 'nobody', 'none': 'no-program', 'slow': 'slow-viewer'}[mode])
        if mode == 'leave': T = np.arange(0, 60)*1e-3
        ref, spy = Spy(b2.world), Spy(w); run(b2.world, T, [ref]); sane(ref.log); own = rng.random() < .5; scene = None
        if own: ctx.cls('own-scene'); scene = os.path.join(d, 's.dae'); vc.write_collada_scene(w, scene, flat=said(rng, flat))
        lost = []
        if own and mode != 'none' and rng.random() < .5: # a scene of the world before, with other names: the frames of the world have none now
            ctx.cls('unnamed')
            for f in w.iterframes():
                if f is not w.ground and rng.random() < .6: f.name = None; lost.append(f)
        opts = ['a b', '--x'] if rng.random() < .5 else []; port = int(rng.integers(21000, 31000)); block = None
        if opts: ctx.cls('options')
        if rng.random() < .4:
            block = Busy(port, int(rng.integers(1, 30)) if rng.random() < .6 else 1)
            if not block.n: block = None
            else: ctx.cls('busy-port'); ctx.cls('several-busy') if block.n > 1 else None
        try:
            with silent() as o: O = vc.DaenimCom(scene, prog, port=port, timeout=.25 if mode in ('never', 'none') else 10, flat=said(rng, flat), options=' '.join(shlex.quote(x) for x in [out, mode] + opts)); 
            ctx.ok(port + (block.n if block else 0) <= O.port < port + 50, 'port', 'asked %d, got %d%s' % (port, O.port, ' although it is taken' if block else ''))
            import warnings as W
            with W.catch_warnings(record=True) as told, silent() as o:
                W.simplefilter('always')
                try: core.simulate(w, T, [spy, O])
                except np.linalg.LinAlgError: raise Skip()
            msg = o.getvalue()
        finally:
            if block is not None: block.close()
        ctx.ok([x[2] for x in spy.log] == [x[2] for x in ref.log], 'undisturbed', 'the motion is not that of the world alone')
        if mode == 'none': ctx.ok(any('no such program' in str(x.message) for x in told) and msg.count('not connected') == len(spy.log), 'told', 'missing viewer: %s %s' % (told, msg)); ctx.sig(sig_tree(tree), mode, len(spy.log)); return
        O.conn and O.conn.close()
        ctx.ok(wait(ctx, lambda: os.path.exists(out + '.done')), 'called', 'the viewer did not end'); args = eval(open(out + '.args').read())
        ctx.ok(args[1:] == ['-socket', '127.0.0.1', str(O.port), out, mode] + opts and (scene is None or args[0] == scene), 'called', 'viewer called with %s' % args)
        S = Scene(ctx, out + '.dae'); told_frames = list(w.iterbodies()) if flat else [j.frame1 for j in w.iterjoints()]; told_frames += list(w.itermovingsubframes()); ctx.ok(all(f.name for f in told_frames) and len({f.name for f in told_frames}) == len(told_frames), 'frames-sent', 'frames told by the names %s' % [f.name for f in told_frames])
        ctx.ok(bool(lost) or expected(w, flat) <= set(S.ids), 'scene-given', 'scene without %s' % (expected(w, flat) - set(S.ids)))
        if mode == 'never': ctx.ok('no connection' in msg and msg.count('not connected') == len(spy.log), 'told', 'nobody connected, told %r' % msg); ctx.sig(sig_tree(tree), mode, len(spy.log)); return
        data = open(out, 'rb').read().decode()
        if mode == 'leave': ctx.ok(len(data) <= 100, 'closing', 'left'); lines = data.split('\n')[:-1]
        else: ctx.ok(data.endswith('close_connection'), 'closing', 'stream ends with %r' % data[-40:]); lines = data[:-len('close_connection')].split('\n'); ctx.ok(lines.pop() == '', 'message', 'last line unfinished')
        names = expected(w, flat); steps = []
        for k, l in enumerate(lines):
            x = l.rsplit(' ', 12); ctx.ok(len(x) == 13 and x[0] in names, 'message', 'line %r' % l)
            if k % len(names) == 0: steps.append({})
            ctx.ok(x[0] not in steps[-1], 'frames-sent', '%r twice at step %d' % (x[0], len(steps))); steps[-1][x[0]] = np.vstack((array([float(v) for v in x[1:]]).reshape(3, 4), [0, 0, 0, 1.]))
        if mode == 'leave': steps = steps[:len(lines)//len(names)]
        else: ctx.ok(len(lines) == len(names)*len(spy.log), 'one-message-per-step', '%d lines for %d steps of %d frames' % (len(lines), len(spy.log), len(names)))
        if not lost: see(ctx, S, steps, spy.log, 'daenim')
        else:
            for moved, (t, P, bp) in zip(steps, spy.at):
                for f in told_frames: ctx.close(moved[f.name], P[f] if flat else bp[f], 'seen', 'frame %r' % f.name, 1e-9, 1 + np.abs(P[f][:3, 3]).max())
        if list(w.itermovingsubframes()): ctx.cls('moving')
        ctx.note(flat=flat, viewer=mode, steps=len(spy.log)); ctx.sig(sig_tree(tree), flat, mode, len(spy.log), own)
    ctx.retry(one)

def web(ctx, rng, i):
    """pydaenimCom (the web socket and the viewer are stand-ins)."""
    def one():
        ctx.cls('pydaenim'); (tree, b), (_, b2) = world(ctx, rng, int(rng.integers(1 << 30))); w = b.world; flat = bool(rng.random() < .5); ctx.cls('flat' if flat else 'hierarchical'); d = tempfile.mkdtemp(); scene = os.path.join(d, 's.dae'); T = timeline(ctx, rng); T = integer(ctx, rng, T if len(T) > 100 else T[:9]); dw.write_collada_scene(w, scene, flat=said(rng, flat))
        pydaenim.viewers.clear(); pydaenim.sockets.clear(); port = int(rng.integers(5000, 9000)); kw = dict(width=3) if rng.random() < .5 else {}; br = str(rng.choice(['firefox', 'none']))
        t0 = time.time(); O = visu.pydaenimCom(scene, br, port=port, flat=flat, **kw); ws = pydaenim.sockets[0]; ctx.ok(len(pydaenim.sockets) == 1 and ws.port == port and ws.listening == 1, 'websocket', 'socket %s' % vars(ws)); broken = rng.random() < .3
        if broken: ws.broken = int(rng.integers(0, 4)); ctx.cls('web-broken')
        ref, spy = Spy(b2.world), Spy(w); run(b2.world, T, [ref]); sane(ref.log)
        with silent() as o: run(w, T, [spy, O])
        ctx.ok([x[2] for x in spy.log] == [x[2] for x in ref.log], 'undisturbed', 'the motion is not that of the world alone'); n = len(spy.log) if not broken else min(ws.broken, len(spy.log)); ctx.ok(len(ws.messages) == n, 'one-message-per-step', '%d messages for %d steps' % (len(ws.messages), n)); ctx.ok(o.getvalue().count('not connected') == len(spy.log) - n, 'told', 'told %r' % o.getvalue())
        steps = []
        for k, m in enumerate(ws.messages):
            x = json.loads(m); ctx.ok(len(x) == 3 and x[0] == 'update_transforms' and x[1] == spy.log[k][0], 'message', 'message %s' % x[:2]); ctx.ok(set(x[2]) == expected(w, flat), 'frames-sent', 'frames %s instead of %s' % (sorted(x[2]), sorted(expected(w, flat)))); steps.append({n: np.vstack((array(v).reshape(3, 4), [0, 0, 0, 1.])) for n, v in x[2].items()})
        see(ctx, Scene(ctx, scene), steps, spy.log, 'pydaenim')
        ctx.ok(wait(ctx, lambda: pydaenim.viewers), 'called', 'no viewer'); a, k = pydaenim.viewers[0]; ctx.ok(a == (scene,) and k == dict(kw, host=ws.host, port=port, browser=br) and len(pydaenim.viewers) == 1, 'called', 'viewer %s %s' % (a, k)); ctx.sig(sig_tree(tree), flat, broken, len(spy.log))
    ctx.retry(one)

def own(ctx, rng, i):
    """An observer of the user built on SocketCom."""
    def one():
        ctx.cls('socket'); (tree, b), (_, b2) = world(ctx, rng, int(rng.integers(1 << 30))); w = b.world; T = timeline(ctx, rng); port = int(rng.integers(31000, 41000)); nobody = i % 4 == 1; sent = []
        class Mine(obs.SocketCom):
            def update(self, dt):
                m = ('%r %r;' % (float(w.current_time), float(dt))).encode(); sent.append(m)
                if self.conn is not None: self.conn.sendall(m)
        with silent(): O = Mine('127.0.0.1', port, .15 if nobody else 10)
        got = []
        def client():
            for k in range(500):
                try: s = socket.create_connection(('127.0.0.1', O.port), 10); break
                except OSError: time.sleep(.005)
            else: return
            while 1:
                x = s.recv(4096)
                if not x: break
                got.append(x)
            s.close()
        ref, spy = Spy(b2.world), Spy(w); run(b2.world, T, [ref]); th = None
        if not nobody: th = threading.Thread(target=client, daemon=True); th.start()
        else: ctx.cls('nobody')
        t0 = time.time()
        with silent() as o: run(w, T, [spy, O])
        ctx.ok([x[2] for x in spy.log] == [x[2] for x in ref.log], 'undisturbed', 'the motion is not that of the world alone')
        if nobody: ctx.ok(O.conn is None and 'no connection' in o.getvalue() and time.time() - t0 > .14, 'told', 'nobody connected: %r' % o.getvalue())
        else:
            O.conn.close(); th.join(20); ctx.ok(not th.is_alive(), 'closing', 'connection left open'); ctx.ok(b''.join(got) == b''.join(sent) + b'close_connection', 'closing', 'received %r' % b''.join(got)[-60:])
        try: c = socket.create_connection(('127.0.0.1', O.port), 2); c.close(); up = True
        except OSError: up = False
        ctx.ok(not up, 'closing', 'still listening'); ctx.sig(sig_tree(tree), nobody, len(sent))
    ctx.retry(one)

def view(ctx, rng, i):
    """Scenes and simulations shown by an external program."""
    def one():
        (tree, b), _ = world(ctx, rng, int(rng.integers(1 << 30))); w = b.world; d = tempfile.mkdtemp(); shown, args = os.path.join(d, 'shown.dae'), os.path.join(d, 'args'); prog = script(d, 'player', PLAYER % (shown, args)); left = set(os.listdir(tempfile.gettempdir())); kind = i % 4; scene = os.path.join(d, 's.dae')
        if kind == 0:
            ctx.cls('view-world'); vc.view(w, daenim_path=prog); S = Scene(ctx, shown)
            for f in w.iterframes():
                if f is not w.ground: ctx.close(S.ids[f.name].absolute(), f.pose, 'viewer-scene', 'frame %r' % f.name, 1e-9, 1 + np.abs(f.pose).max())
            pydaenim.viewers.clear(); visu.view(w, 'chrome', port=12); (p,), k = pydaenim.viewers[0]; S = Scene(ctx, p); ctx.ok(k == dict(browser='chrome', port=12), 'called', 'viewer options %s' % k); left.add(os.path.basename(p))
            for f in w.iterframes():
                if f is not w.ground: ctx.close(S.ids[f.name].absolute(), f.pose, 'viewer-scene', 'frame %r' % f.name, 1e-9, 1 + np.abs(f.pose).max())
            pydaenim.viewers.clear(); visu.view(p); ctx.ok(pydaenim.viewers[0][0] == (p,), 'called', 'file')
        else:
            vc.write_collada_scene(w, scene, flat=kind == 2); h5 = os.path.join(d, 'sim.h5'); before = open(scene, 'rb').read()
            if kind == 1: ctx.cls('view-file'); vc.view(scene, daenim_path=prog); ctx.ok(eval(open(args).read()) == [scene], 'viewer-scene', 'called with %s' % open(args).read())
            else:
                g = '/' if kind == 2 else 'runs/second'; ctx.cls('view-simulation' if kind == 2 else 'view-group'); spy = Spy(w); L = obs.Hdf5Logger(h5, group=g, flat=kind == 2); run(w, timeline(ctx, rng)[:6], [spy, L]); sane(spy.log); vc.view(scene, h5, *(() if kind == 2 else (g,)), daenim_path=prog); A = Scene(ctx, shown).animations(ctx); ctx.ok(set(A) == expected(w, kind == 2), 'viewer-animation', 'animated %s' % sorted(A)); steps = [{n: v[k] for n, (t, v) in A.items()} for k in range(len(spy.log))]; S = Scene(ctx, shown)
                for k, (t, P, _) in enumerate(spy.log):
                    for n, H in P.items():
                        if n in S.ids: ctx.close(S.ids[n].absolute(steps[k]), H, 'viewer-animation', 'frame %r' % n, 1e-6, 1 + np.abs(H).max())
            ctx.ok(open(scene, 'rb').read() == before, 'viewer-clean', 'scene file changed')
        ctx.ok(set(os.listdir(tempfile.gettempdir())) <= left, 'viewer-clean', 'left behind: %s' % (set(os.listdir(tempfile.gettempdir())) - left)); ctx.sig(sig_tree(tree), kind)
    ctx.retry(one)

class Slow(core.Controller):
    def __init__(self, at, s): core.Controller.__init__(self, 'slow'); self.at, self.s, self.k = at, s, 0
    def init(self, world): self.w = world
    def update(self, dt):
        if self.k == self.at: time.sleep(self.s)
        self.k += 1; return zeros(self.w.ndof), zeros((self.w.ndof, self.w.ndof))

def perf(ctx, rng, i):
    def one():
        (tree, b), (_, b2) = world(ctx, rng, int(rng.integers(1 << 30))); w = b.world; T = timeline(ctx, rng); O = obs.PerfMonitor(log=bool(i % 2)); n = len(T) - 1; at = int(rng.integers(0, n)); w.register(Slow(at, .02)); w.init(); seen = []; prev = 0
        class H(logging.Handler):
            def emit(self, r): seen.append((r.getMessage(), w.current_time))
        lg = logging.getLogger('PerfMonitor'); h = H(); lg.addHandler(h); lv = lg.level; lg.setLevel(logging.INFO); lp = lg.propagate; lg.propagate = False; logging.disable(logging.NOTSET)
        ref, spy = Spy(b2.world), Spy(w); run(b2.world, T, [ref])
        try: t0 = time.time(); run(w, T, [spy, O]); wall = time.time() - t0
        finally: logging.disable(logging.INFO); lg.removeHandler(h); lg.setLevel(lv); lg.propagate = lp
        ctx.ok([x[2] for x in spy.log] == [x[2] for x in ref.log], 'undisturbed', 'the motion is not that of the world alone'); ctx.cls('slow-step')
        L = dict(l.split(' computation time (s): ') for l in O.get_summary().split('\n')); L = {k: float(v) for k, v in L.items()}; ctx.ok(set(L) == {'total', 'min', 'mean', 'max'}, 'perf-summary', 'summary %s' % L)
        ctx.ok(0 <= L['min'] <= L['mean']*(1 + 1e-9) and L['mean'] <= L['max']*(1 + 1e-9) and abs(L['mean']*n - L['total']) < 1e-9*(1 + L['total']), 'perf-steps', '%d steps: %s' % (n, L)); ctx.ok(L['total'] <= wall + 1e-3 and L['max'] + (n - 1)*L['min'] <= L['total'] + 1e-9, 'perf-summary', 'wall time %s: %s' % (wall, L)); ctx.ok(L['max'] >= .0195, 'perf-delay', 'a step took 0.02 s: %s' % L)
        C, shown = curves(O.plot); ctx.ok(len(C) == 1 and shown == 1 and len(C[0][1]) == n and abs(C[0][1].sum() - L['total']) < 1e-9*(1 + L['total']) and C[0][1][at] >= .0195, 'perf-plot', 'curve of computation time %s' % C)
        if i % 2: ctx.ok([m for m, _ in seen] == ['current time (s): %.3f' % x[0] for x in spy.log], 'perf-log', 'log %s' % seen)
        else: ctx.ok(not seen, 'perf-log', 'log %s' % seen)
        if n > 1: ctx.cls('several-steps')
        ctx.sig(sig_tree(tree), n, i % 2)
    ctx.retry(one)

MULT = 2
FAMILIES = [('stream', stream, 24, 400), ('web', web, 30, 1000), ('own', own, 8, 120), ('view', view, 16, 300), ('perf', perf, 16, 300)]
