"""Common machinery of every check: bootstrapping /repo, counting, parallel
exhaustive enumeration, replay artefacts, known findings, evidence.

Nothing here samples: a check hands over a finite, deterministic list (or
generator) of cases and every one of them is executed.
"""
import contextlib
import hashlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
NPROC = int(os.environ.get('VERIF_JOBS', '0')) or max(1, min(8, os.cpu_count() or 1))


class Hang(BaseException):
    """An execution of the code under test did not end in its time allowance."""


class Disagreement(Exception):
    """The implementation and the model/specification disagree."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


_ahkab = None


def boot():
    """Import the ahkab package of /repo's working tree (fresh process)."""
    global _ahkab
    if _ahkab is not None:
        return _ahkab
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    with quiet():
        import ahkab
        import ahkab.ahkab, ahkab.dc_analysis, ahkab.transient, ahkab.ac
    assert os.path.realpath(ahkab.__file__).startswith(REPO + os.sep), ahkab.__file__
    import numpy as np
    np.seterr(all='ignore')
    _ahkab = ahkab
    return ahkab


@contextlib.contextmanager
def quiet():
    """Silence the code under test (it prints and writes warnings freely)."""
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield sys.stdout, sys.stderr
    finally:
        sys.stdout, sys.stderr = so, se


def _on_alarm(signum, frame):
    raise Hang()


@contextlib.contextmanager
def time_limit(seconds):
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def h64(obj):
    """A stable 64-bit fingerprint, used to count distinct states."""
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'big')


class Counter(object):
    """What one worker covered."""

    def __init__(self):
        self.n = {}
        self.sets = {}
        self.samples = []
        self.viol = []
        self.maxima = {}

    def add(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def seen(self, name, obj):
        """Record a distinct item; True when it is new to this worker."""
        s = self.sets.setdefault(name, set())
        h = h64(obj)
        if h in s:
            return False
        s.add(h)
        return True

    def maximum(self, name, v):
        if v == v and (name not in self.maxima or v > self.maxima[name]):
            self.maxima[name] = v

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(jsonable(s))

    def violation(self, key, msg, case, shared=False):
        if shared:      # one record per key, however many cases show it
            self.add('cases_showing:' + str(key))
            if any(v[0] == str(key) for v in self.viol):
                return
        self.viol.append((str(key), str(msg), jsonable(case)))
        if not shared:
            self.unkeyed = getattr(self, 'unkeyed', 0) + 1

    def merge(self, other):
        for k, v in other.n.items():
            self.add(k, v)
        for k, v in other.sets.items():
            self.sets.setdefault(k, set()).update(v)
        for s in other.samples:
            self.sample(s, 6)
        for k, v in other.maxima.items():
            self.maximum(k, v)
        have = set(v[0] for v in self.viol)
        self.viol.extend(v for v in other.viol if v[0] not in have)


_WORK = {}


def scratch():
    """This process's private scratch directory (its cwd while it works)."""
    return _WORK['dir']


def _enter_scratch(parent):
    d = tempfile.mkdtemp(dir=parent)
    _WORK['dir'] = d
    os.chdir(d)
    tempfile.tempdir = d


def run_case(fn, case, ctr, limit, keyfn):
    """Execute one case; turn any disagreement, crash or hang into a violation."""
    try:
        with quiet(), time_limit(limit):
            fn(case, ctr)
    except Disagreement as e:
        ctr.violation(e.key or keyfn(case), str(e), case, shared=bool(e.key))
    except Hang:
        ctr.violation(keyfn(case), 'no answer within %g s' % limit, case)
    except MemoryError:
        raise
    except (Exception, SystemExit) as e:
        tb = traceback.format_exc().strip().splitlines()
        loc = [l.strip() for l in tb if l.strip().startswith('File')]
        ctr.violation(keyfn(case), 'unexpected %s: %s (%s)' % (
            type(e).__name__, e, loc[-1] if loc else ''), case)


def _worker(args):
    parent, fn, cases, shard, nshards, limit, keyfn, maxviol = args
    try:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
    except ValueError:
        pass
    _enter_scratch(parent)
    ctr = Counter()
    it = cases() if callable(cases) else cases
    for i, case in enumerate(it):
        if i % nshards != shard:
            continue
        run_case(fn, case, ctr, limit, keyfn)
        if getattr(ctr, 'unkeyed', 0) >= maxviol:
            break
    return ctr


def default_key(case):
    return repr(case)


class Check(object):
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.level = level
        self.t0 = time.time()
        self.ctr = Counter()
        self.info = {}
        self.assumptions = []
        self.nontrivial = []      # (name, minimum): non-vacuity requirements
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.tmp = tempfile.mkdtemp(prefix='ahkabmc_', dir=base)
        self.known = load_known(pid)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # -- enumeration -----------------------------------------------------
    def explore(self, fn, cases, limit=30., keyfn=default_key, maxviol=12, jobs=None):
        """Execute fn(case, counter) on EVERY case, sharded over processes.

        `cases` is a list, or a function returning a fresh deterministic
        iterator (each worker enumerates it and takes its residue class).
        """
        n = jobs or NPROC
        if isinstance(cases, list) and len(cases) < 2 * n:
            n = max(1, len(cases))
        res = fork_map([(self.tmp, fn, cases, s, n, limit, keyfn, maxviol)
                        for s in range(n)])
        for r in res:
            self.ctr.merge(r)
        return self.ctr

    def local(self, fn, case, limit=60., keyfn=default_key):
        cwd, tt = os.getcwd(), tempfile.tempdir
        _enter_scratch(self.tmp)
        try:
            run_case(fn, case, self.ctr, limit, keyfn)
        finally:
            os.chdir(cwd)
            tempfile.tempdir = tt

    def require(self, name, minimum=1):
        """Non-vacuity: the run must have exercised `name` at least so often."""
        self.nontrivial.append((name, minimum))

    # -- reporting -------------------------------------------------------
    def finish(self, states, transitions, traces, rule, explanation=None, exhaustive=True):
        c = self.ctr
        val = lambda x: (len(c.sets.get(x, ())) or c.n.get(x, 0)) if isinstance(x, str) else int(x)
        for name, minimum in self.nontrivial:
            got = len(c.sets.get(name, ())) or c.n.get(name, 0)
            if got < minimum and not c.viol:
                c.violation('vacuity:' + name, 'the exploration reached %s only %d times '
                            '(at least %d needed): the code no longer does what the '
                            'enumerated cases need' % (name, got, minimum), {})
        new, known = [], {}
        for key, msg, case in c.viol:
            k = match_known(self.known, key)
            if k:
                known[k['key']] = k
            else:
                new.append((key, msg, case))
        for k in known.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        cov = {'states': val(states), 'transitions': val(transitions),
               'traces_validated_against_impl': val(traces),
               'exhaustive': bool(exhaustive), 'rule': rule,
               'counts': dict(sorted(c.n.items())),
               'distinct': {k: len(v) for k, v in sorted(c.sets.items())},
               'worst': c.maxima, 'samples': c.samples[:6] or ['(none)']}
        if explanation:
            cov['explanation'] = explanation
        cov.update(self.info)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fp:
            json.dump(jsonable(ev), fp, indent=1, sort_keys=True)
        rc = 0
        if new:
            out = os.path.join(VERIF, 'out', self.pid)
            os.makedirs(out, exist_ok=True)
            new.sort(key=lambda v: (len(v[0]), v[0], v[1]))
            path = os.path.join(out, 'violation.json')
            with open(path, 'w') as fp:
                json.dump([{'key': k, 'what': m, 'case': cs} for k, m, cs in new[:50]],
                          fp, indent=1)
            for k, m, cs in new[:8]:
                print('  case %s\n    %s' % (k[:600], m[:1200]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            rc = 1
        shutil.rmtree(self.tmp, ignore_errors=True)
        print('%s %s: %s in %.1f s: states=%d transitions=%d traces=%d' % (
            self.pid, self.tier, 'VIOLATED' if rc else 'held', time.time() - self.t0,
            cov['states'], cov['transitions'], cov['traces_validated_against_impl']))
        sys.stdout.flush()
        return rc


def fork_map(arglist):
    """Run _worker on each argument tuple in its own forked process."""
    import pickle
    procs = []
    for a in arglist:
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                res = ('ok', _worker(a))
            except BaseException as e:   # harness failure, reported by the parent
                res = ('err', ''.join(traceback.format_exception(type(e), e, e.__traceback__)))
            try:
                with os.fdopen(w, 'wb') as fp:
                    pickle.dump(res, fp, protocol=4)
            except BaseException:
                code = 9
            os._exit(code)
        os.close(w)
        procs.append((pid, r))
    out = []
    err = None
    # one reader per pipe, in order: writers block until read, which is fine
    for pid, r in procs:
        with os.fdopen(r, 'rb') as fp:
            data = fp.read()
        os.waitpid(pid, 0)
        if not data:
            err = err or 'a worker died (out of memory or crash)'
            continue
        kind, val = pickle.loads(data)
        if kind == 'ok':
            out.append(val)
        else:
            err = err or val
    if err is not None:
        raise RuntimeError('worker failed:\n' + err)
    return out


# -- known findings -----------------------------------------------------
def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as fp:
        data = json.load(fp)
    return [e for e in data['findings'] if e['property'] == pid]


def match_known(known, key):
    for e in known:
        if e['key'] == key:
            return e
    return None


def close(a, b, rel=1e-9, abs_=1e-12):
    import math
    if isinstance(a, complex) or isinstance(b, complex):
        return abs(complex(a) - complex(b)) <= abs_ + rel * max(abs(a), abs(b))
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


def main(pid, fn):
    """Entry point of a check module: fn(Check) -> exit code."""
    try:
        os.environ.setdefault('MPLBACKEND', 'Agg')
        chk = Check(pid)
        os.environ['MPLCONFIGDIR'] = chk.tmp
        try:
            boot()
        except Exception as e:
            chk.ctr.violation('import', 'the package does not import: %r' % (e,), {})
            return chk.finish(0, 0, 0, 'import of the package')
        try:
            return fn(chk)
        finally:
            shutil.rmtree(chk.tmp, ignore_errors=True)
    except Exception:
        traceback.print_exc()
        return 3
