# -*- coding: utf-8 -*-
"""Runner: drives the workload of one property and turns monitor verdicts into an exit status.

exit 0: held on everything explored; 1: VIOLATION line; 3: a deciding monitor was never reached.
Anything the code under test hands back that the monitors cannot even read (wrong type, shape, missing entry), and a
call that does not come back, is a violation: on the unchanged tree neither happens.
"""
import sys, os, json, time, importlib, traceback, zlib, warnings, hashlib, signal
import importlib.machinery as _m

REPO = os.path.realpath(os.environ.get('ARBORIS_REPO', '/repo'))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
# Always run the sources of the working tree, never byte code left behind.
_orig_get_code = _m.SourceFileLoader.get_code
def _get_code(self, fullname):
    if os.path.realpath(self.path).startswith(REPO + os.sep):
        return compile(self.get_data(self.path), self.path, 'exec', dont_inherit=True)
    return _orig_get_code(self, fullname)
_m.SourceFileLoader.get_code = _get_code
sys.path.insert(0, REPO)

# Which lines of the code under test ran (evidence only: each line is reported once, then its event is switched off).
LINES = {}
if hasattr(sys, 'monitoring'):
    _mon = sys.monitoring
    def _line(code, line):
        f = code.co_filename
        if f.startswith(REPO + os.sep): LINES.setdefault(f[len(REPO) + 1:], set()).add(line)
        return _mon.DISABLE
    try:
        _mon.use_tool_id(_mon.COVERAGE_ID, 'rv'); _mon.register_callback(_mon.COVERAGE_ID, _mon.events.LINE, _line); _mon.set_events(_mon.COVERAGE_ID, _mon.events.LINE)
    except ValueError: pass

import numpy as np
np.seterr(all='warn')
warnings.simplefilter('ignore')


class Violation(Exception):
    def __init__(self, monitor, message, detail=None, key=None):
        Exception.__init__(self, '%s: %s' % (monitor, message))
        self.monitor, self.message, self.detail, self.key = monitor, message, detail or {}, key or monitor


class Hang(BaseException):
    """A case did not come back in time."""


def diverged(to=None):
    """Whether a world simulated in this case got extremely fast (the assertions of the code then fail by lack of digits)."""
    m = sys.modules.get('rv.arb')
    if m is None: return False
    if to is not None: m.DIVERGED[0] = to
    return m.DIVERGED[0]


class Skip(Exception):
    """The generated case is outside the precondition of the property."""


def jsonable(x):
    if isinstance(x, np.ndarray): return x.tolist()
    if isinstance(x, (np.floating, np.integer, np.bool_)): return x.item()
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)): return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None: return x
    return repr(x)


class Ctx(object):
    """Monitor context of one check: counts what the monitors actually evaluated."""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counts, self.worst, self.classes = {}, {}, {}
        self.sigs, self.samples, self.desc = set(), [], {}
        self.thorough = tier == 'thorough'

    def hit(self, monitor, n=1):
        self.counts[monitor] = self.counts.get(monitor, 0) + n

    def cls(self, name, n=1):
        """Count a class of situations reached (coverage of the workload)."""
        self.classes[name] = self.classes.get(name, 0) + n

    def note(self, **kw):
        """Describe the case being run (goes in samples and replays)."""
        self.desc.update(jsonable(kw))

    def sig(self, *parts):
        self.sigs.add(hashlib.md5(repr(parts).encode()).hexdigest()[:16])

    def retry(self, fun, n=25):
        """Generate again when a draw is outside the precondition; rejected draws leave no trace in the counts."""
        for k in range(n):
            sigs, classes, desc = set(self.sigs), dict(self.classes), dict(self.desc)
            try:
                return fun()
            except Skip:
                self.sigs, self.classes, self.desc = sigs, classes, desc
        raise Skip()

    def fail(self, monitor, message, key=None, **detail):
        raise Violation(monitor, message, jsonable(detail), key)

    def ok(self, cond, monitor, message='', key=None, **detail):
        self.hit(monitor)
        if not cond:
            raise Violation(monitor, message, jsonable(detail), key)

    def close(self, got, ref, monitor, message='', tol=1e-9, scale=None, key=None, **detail):
        """|got-ref| <= tol*scale, elementwise maximum; scale defaults to 1+max|ref|."""
        self.hit(monitor)
        try:
            g = np.asarray(got, dtype=float)
        except Exception as e:
            raise Violation(monitor, message + ' (not numeric: %r)' % (got,), jsonable(detail), key)
        r = np.asarray(ref, dtype=float)
        if g.shape != r.shape:
            raise Violation(monitor, '%s: shape %s instead of %s' % (message, g.shape, r.shape), jsonable(detail), key)
        if not np.all(np.isfinite(g)):
            raise Violation(monitor, '%s: not finite' % message, jsonable(dict(detail, got=g)), key)
        if r.size == 0:
            return 0.
        s = (1. + np.abs(r).max()) if scale is None else scale
        err = float(np.abs(g - r).max()) / s
        if err > self.worst.get(monitor, (0., 0.))[0] / max(self.worst.get(monitor, (0., tol))[1], 1e-300) * tol:
            self.worst[monitor] = (err, tol)
        if not err <= tol:
            raise Violation(monitor, '%s: relative deviation %.3g > %.3g' % (message, err, tol),
                            jsonable(dict(detail, got=g, expected=r, scale=s)), key)
        return err

    def raises(self, exc, fun, monitor, message='', key=None):
        self.hit(monitor)
        try:
            fun()
        except exc:
            return
        except Exception as e:
            raise Violation(monitor, '%s: %s instead of %s' % (message, type(e).__name__, exc), {}, key)
        raise Violation(monitor, '%s: nothing raised' % message, {}, key)


def from_repo(tb):
    """True if the exception went through the code under test."""
    return any(os.path.realpath(f.filename).startswith(REPO + os.sep) for f in traceback.extract_tb(tb))


def load_known(prop):
    known = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known:'):
                f = line[6:].split(None, 2)
                d = dict(x.split('=', 1) for x in f[:2])
                if d['property'] == prop:
                    known[d['key']] = f[2]
    return known


CASE_S = (200., 500.)   # a case takes at most a few seconds


def main(argv):
    def hang(*a): raise Hang()
    signal.signal(signal.SIGALRM, hang)
    prop, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        mod = importlib.import_module('rv.props.' + prop.lower())
    except Exception:
        tb = sys.exc_info()[2]
        traceback.print_exc()
        if not from_repo(tb) and not isinstance(sys.exc_info()[1], (ImportError, AttributeError)): return 2
        # the code under test cannot even be loaded
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        path = os.path.join(ROOT, 'replays', '%s-import.txt' % prop)
        open(path, 'w').write(traceback.format_exc())
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    single = None
    if tier == 'replay':
        rep = json.load(open(argv[2]))
        tier, seed, single = rep['tier'], rep['seed'], (rep['family'], rep['index'])
    ctx = Ctx(prop, tier, seed)
    known = load_known(prop)
    t0 = time.time()
    limit = float(os.environ.get('RV_LIMIT', 0)) or (getattr(mod, 'QUICK_S', 150.) if tier == 'quick' else getattr(mod, 'THOROUGH_S', 600.))
    evaluations = skipped = 0
    found_known, status, violation = {}, 0, None
    per_family = {}
    # families: name -> (function(ctx, rng, i), quick cases, thorough cases)
    fams = [(n, f, (q*getattr(mod, 'MULT', 4) if tier == 'quick' else max(t, q*4))) for n, f, q, t in mod.FAMILIES]
    # interleave the families so that a time limit starves none of them
    order = []
    done = {n: 0 for n, _, _ in fams}
    total = sum(k for _, _, k in fams)
    for step in range(total):
        n, f, k = min((x for x in fams if done[x[0]] < x[2]), key=lambda x: (done[x[0]] + .5) / x[2])
        order.append((n, f, done[n])); done[n] += 1
    if single is not None:
        order = [(n, f, single[1]) for n, f, _ in fams if n == single[0]]
    timed_out = False
    for name, fun, i in order:
        if time.time() - t0 > limit and per_family.get(name, 0) >= 1:
            timed_out = True
            continue
        rng = np.random.default_rng([seed, zlib.crc32(prop.encode()), zlib.crc32(name.encode()), i])
        ctx.desc = {}; diverged(False)
        evaluations += 1
        per_family[name] = per_family.get(name, 0) + 1
        try:
            signal.setitimer(signal.ITIMER_REAL, CASE_S[0] if tier == 'quick' else CASE_S[1], 5.)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fun(ctx, rng, i)
            signal.setitimer(signal.ITIMER_REAL, 0)
        except Hang:
            violation = (name, i, 'terminates', 'no answer after %g s' % CASE_S[tier != 'quick'],
                         dict(traceback=traceback.format_exc()), 'hang'); break
        except Skip:
            skipped += 1
        except Violation as v:
            if v.key in known:
                found_known[v.key] = v; continue
            violation = (name, i, v.monitor, v.message, v.detail, v.key); break
        except Exception as e:
            tb = sys.exc_info()[2]
            if isinstance(e, (AssertionError, np.linalg.LinAlgError)) and from_repo(tb) and diverged():
                skipped += 1; continue
            key = 'crash:%s' % type(e).__name__
            violation = (name, i, 'no-crash' if from_repo(tb) else 'readable-result', '%s: %s' % (type(e).__name__, e),
                         dict(traceback=traceback.format_exc()), key); break
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if len(ctx.samples) < 6 and (i == 0 or rng.random() < .02):
            ctx.samples.append(dict(family=name, index=i, case=ctx.desc))
    for k, v in found_known.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    if violation:
        status = 1
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        path = os.path.join(ROOT, 'replays', '%s-%s-%d-%d.json' % (prop, violation[0], seed, violation[1]))
        json.dump(jsonable(dict(property=prop, tier=tier, seed=seed, family=violation[0], index=violation[1],
            monitor=violation[2], message=violation[3], key=violation[5], case=ctx.desc, detail=violation[4],
            how='bash check.sh %s replay %s' % (prop, path))), open(path, 'w'), indent=1)
        print('monitor %s: %s' % (violation[2], violation[3]))
        if 'traceback' in violation[4]: print(violation[4]['traceback'])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if status == 0 and single is None:
        for m in mod.MONITORS:
            if not ctx.counts.get(m):
                print('INCONCLUSIVE: monitor %s never evaluated' % m); status = 3
        for c in getattr(mod, 'CLASSES', []):
            if not ctx.classes.get(c):
                print('INCONCLUSIVE: situation %s never reached' % c); status = 3
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=evaluations - skipped, distinct_nontrivial=len(ctx.sigs), rule=mod.RULE,
            samples=ctx.samples[:6] or [dict(case='none')], monitor_evaluations=ctx.counts,
            situations=ctx.classes, skipped_outside_precondition=skipped, cases_per_family=per_family,
            worst_relative_deviation={k: dict(deviation=v[0], tolerance=v[1]) for k, v in ctx.worst.items()},
            stopped_by_time_limit=timed_out, worlds_built=dict(getattr(sys.modules.get('rv.arb'), 'STATS', {})), lines_of_code_under_test_run={f: len(l) for f, l in sorted(LINES.items())}, known_findings_seen=sorted(found_known)),
        assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=1 if violation else 0)
    if os.environ.get('RV_WORST'): open(os.environ['RV_WORST'], 'a').write(json.dumps([prop, seed, tier, ctx.worst]) + '\n')
    if os.environ.get('RV_LINES'): json.dump({f: sorted(l) for f, l in LINES.items()}, open(os.environ['RV_LINES'], 'w'))
    if single is None:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(jsonable(ev), open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s seed=%d: %d cases (%d skipped), %d distinct, %d monitor evaluations, %.1f s, status %d' % (
        prop, tier, seed, evaluations, skipped, len(ctx.sigs), sum(ctx.counts.values()), wall, status))
    return status


if __name__ == '__main__':
    # make "rv.run" and "__main__" the same module
    sys.modules['rv.run'] = sys.modules['__main__']
    sys.exit(main(sys.argv[1:]))
