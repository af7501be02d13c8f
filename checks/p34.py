"""P34: an interrupted analysis leaves everything usable.

Fault injection: every analysis of a family of circuits is interrupted (as by
Ctrl-C, or by running out of memory) at every program point -- every call of and
every return from a function of the program, told apart by who calls it from
where, at its first and last (thorough: first
twelve, middle and last) occurrence.  After each interruption the
settings and circuits must be as before, the data file must hold nothing or the
first part of the uninterrupted file, and the analysis must give, when repeated,
the results it gives undisturbed."""
import ast
import os
import sys

import numpy as np

from vlib import core
from checks import p17

PID = 'P34'
EXC = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}
ANALYSES = ('op', 'dc', 'dcx', 'tran', 'tran0', 'ac', 'ac0', 'pss', 'shooting', 'pz', 'symbolic')


CLEANUP = {}


def cleanup_lines(fn):
    """The lines of a file that belong to finally blocks and exception handlers."""
    if fn not in CLEANUP:
        lines = set()
        with open(fn, encoding='utf8', errors='replace') as fp:
            tree = ast.parse(fp.read())
        for node in ast.walk(tree):
            for part in list(getattr(node, 'finalbody', ())) + (
                    node.body if isinstance(node, ast.ExceptHandler) else []):
                lines.update(range(part.lineno, part.end_lineno + 1))
        CLEANUP[fn] = lines
    return CLEANUP[fn]


def cleaning_up(frame, root):
    """Is this point inside the cleaning up of an earlier action (where nothing
    in the language could make up for an interruption)?"""
    while frame is not None:
        fn = frame.f_code.co_filename
        if fn.endswith('contextlib.py') or fn.endswith('tempfile.py'):
            return True
        if frame.f_code.co_name in ('__exit__', '__enter__', '__del__'):
            return True
        if fn.startswith(root) and frame.f_lineno in cleanup_lines(fn):
            return True
        frame = frame.f_back
    return False


class Profile(object):
    """Counts the program points passed, raises at one of them."""

    def __init__(self, root, target=None, occurrence=0, exc=None):
        self.root, self.target, self.occ, self.exc = root, target, occurrence, exc
        self.count, self.hit = {}, False

    def __call__(self, frame, event, arg):
        if event not in ('call', 'return') or self.hit:
            return
        co = frame.f_code
        if not co.co_filename.startswith(self.root):
            return
        back = frame.f_back
        key = (event, os.path.basename(co.co_filename), co.co_name,
               (os.path.basename(back.f_code.co_filename), back.f_code.co_name,
                back.f_lineno) if back is not None and back.f_code.co_filename.startswith(self.root) else None)
        n = self.count[key] = self.count.get(key, 0) + 1
        if key == self.target and n == self.occ and not cleaning_up(frame, self.root):
            self.hit = True
            raise self.exc('injected')


def guarded(prof, fn):
    """(result, True) or (None, False) when the injected exception came out."""
    sys.setprofile(prof)
    try:
        r = fn()
        return r, True
    except (KeyboardInterrupt, MemoryError) as e:
        if str(e) != 'injected':
            raise
        return None, False
    finally:
        sys.setprofile(None)


def read(fn):
    if not os.path.exists(fn):
        return None
    with open(fn, encoding='utf8', errors='replace') as fp:
        return fp.read()


def files():
    return sorted(f for f in os.listdir('.') if os.path.isfile(f))


def one(case, ctr):
    which, an, exc, part, parts, deep = case
    ahkab = core.boot()
    root = os.path.join(core.REPO, 'ahkab') + os.sep
    st = p17.start(ahkab)
    for k in list(st['circ']):
        if k != which:
            del st['circ'][k], st['an'][k]
    if an == 'ac0':
        st['an'][which][an] = (False, ahkab.new_ac(1., 100., 3, x0=None, outfile='h.out'))
    text = an in ('ac0', 'dc', 'dcx', 'tran', 'tran0', 'ac', 'pss', 'shooting')
    if an not in st['an'][which]:
        return
    p17.perform(st, which, 'op')
    p17.perform(st, which, an)          # warm: imports, caches
    if os.path.exists('h.out'):
        os.remove('h.out')
    prof = Profile(root)
    want, ok = guarded(prof, lambda: p17.perform(st, which, an))
    if not ok or want is None or isinstance(want, tuple):
        raise core.Disagreement('%s of %s: %s undisturbed' % (an, which, want))
    full = read('h.out')
    before = p17.snapshot(st)
    points = sorted(prof.count.items(), key=repr)
    since = 0
    for i, (key, n) in enumerate(points):
        if i % parts != part:
            continue
        occ = sorted(set((1, n))) if not deep else \
            sorted(set(range(1, min(n, 12) + 1)) | {n // 2 + 1, n})
        for o in occ:
            what = '%s of %s interrupted (%s) at %s %s' % (an, which, exc, key, o)
            if os.path.exists('h.out'):
                os.remove('h.out')
            old = files()
            p = Profile(root, key, o, EXC[exc])
            got, through = guarded(p, lambda: p17.perform(st, which, an))
            ctr.add('runs')
            ctr.seen('states', (which, an, exc, key, o))
            if not p.hit:
                ctr.add('not reached')      # or within a cleaning up
                continue
            ctr.add('interrupted')
            after = p17.snapshot(st)
            if after != before:
                bad = [k for k in sorted(set(after) | set(before), key=repr) if after.get(k) != before.get(k)]
                raise core.Disagreement('%s: %s is %s afterwards, it was %s' % (
                    what, bad[0], after.get(bad[0]), before.get(bad[0])), key='state %s' % (bad[0],))
            if through:
                ctr.add('survived')
                d = p17.differ(got, want)
                if d:
                    raise core.Disagreement('%s: the interruption vanished and %s' % (what, d), key='vanished')
            # (a file just created whose name nobody knows yet is empty)
            new = [f for f in files() if f not in old and f != 'h.out' and os.path.getsize(f)]
            if new:
                raise core.Disagreement('%s: files left behind: %s' % (what, new), key='files')
            if text:
                t = read('h.out')
                ctr.add('files')
                if t is not None and not full.startswith(t):
                    raise core.Disagreement('%s: the file is not the beginning of the complete one:\n%s' % (
                        what, t[-300:]), key='file')
            # quick: repeated after every fourth interruption, and at the end
            since += 1
            if not deep and since < 4 and not (i >= len(points) - parts and o == occ[-1]):
                continue
            since = 0
            again = p17.perform(st, which, an)
            ctr.add('repeats')
            d = p17.differ(again, want)
            if d:
                raise core.Disagreement('%s: repeated afterwards, %s' % (what, d), key='repeat')
    ctr.add('points', len([1 for i in range(len(points)) if i % parts == part]))
    ctr.sample({'circuit': which, 'analysis': an, 'points': len(points)}, 3)


def run(chk):
    cs = []
    for which in ('lin', 'dio', 'mos', 'ekv', 'sw'):
        for an in ANALYSES:
            if an == 'symbolic' and (which != 'lin' or not chk.thorough):
                continue
            if which in ('ekv', 'sw') and an in ('shooting', 'dcx', 'tran0') and not chk.thorough:
                continue
            for exc in ('interrupt', 'memory'):
                if exc == 'memory' and not chk.thorough and (which != 'lin' or an == 'symbolic'):
                    continue
                parts = 8 if chk.thorough or an in ('symbolic', 'pss', 'shooting') else 2
                for p in range(parts):
                    cs.append((which, an, exc, p, parts, chk.thorough))
    cs.sort(key=lambda c: c[1] != 'symbolic')
    chk.explore(one, cs, limit=900 if not chk.thorough else 6000, keyfn=repr)
    chk.require('interrupted', 5000)
    chk.require('files', 3000)
    chk.assumptions += ['no interruption within finally blocks, exception handlers and context managers: '
                        'Python cannot guard those']
    return chk.finish('states', 'runs', 'repeats',
                      'every program point (call of or return from a function of the program, with its caller and '
                      'line) of ten analyses (thorough: and the symbolic one) on five circuits, at its first and last%s occurrence' % (
                          ', first twelve and middle' if chk.thorough else ''))


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
