"""P30: the test framework of the package passes exactly the results that
agree with the reference."""
import io
import itertools
import os
import pickle
import shutil
import sys
import warnings

import numpy as np

from vlib import core

PID = 'P30'
ER, EA = 1e-4, 1e-9
HEAD = 'network\n'
BODY = {
    'lin': 'V1 a 0 vdc=2 vac=1 type=sin vo=2 va=1 freq=1e3\nR1 a b 1k\nC1 b 0 2e-7\nR2 b 0 3k\n',
    'rlc': 'V1 a 0 vdc=1 vac=2\nR1 a b 10\nL1 b c 1e-3\nC1 c 0 1e-6 ic=.5\nI2 0 c idc=1e-3\n',
    'dio': 'V1 a 0 vdc=1 vac=1\nR1 a b 1k\nD1 b 0 dm\n.model diode dm IS=1e-14\n',
}
LINE = {'op': '.op', 'dc': '.dc v1 start=1 stop=3 step=.4', 'ac': '.ac start=10 stop=1e5 nsteps=5',
        'tran': '.tran tstep=1e-4 tstop=6e-4', 'pz': '.pz', 'symbolic': '.symbolic'}


def netlist(body, types):
    return HEAD + BODY[body] + '\n'.join(LINE[t] for t in types) + '\n'


def circuit(ahkab, body):
    c, directives, _ = ahkab.netlist_parser.parse_circuit('api.cir')
    return c


def analyses(ahkab, types, test_id):
    out = []
    for t in types:
        f = test_id + '.' + t
        out.append({'op': lambda: ahkab.new_op(outfile=test_id), 'dc': lambda: ahkab.new_dc(1, 3, 6, 'V1', outfile=test_id),
                    'ac': lambda: ahkab.new_ac(10, 1e5, 6, outfile=test_id),
                    'tran': lambda: ahkab.new_tran(0, 6e-4, 1e-4, outfile=test_id)}[t]())
    return out


class Quiet(object):
    def __enter__(self):
        self.so, self.se = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        return self

    def __exit__(self, *a):
        self.text = sys.stdout.getvalue()
        sys.stdout, sys.stderr = self.so, self.se


def make(ahkab, cls, body, types, pickled, opts=None):
    from ahkab import testing
    if cls == 'net':
        return testing.NetlistTest('xt', er=ER, ea=EA, sim_opts=opts, verbose=0)
    with open('api.cir', 'w') as f:
        f.write(HEAD + BODY[body])
    return testing.APITest('xt', circuit(ahkab, body), analyses(ahkab, types, 'xt'), er=ER, ea=EA, sim_opts=opts)


def setup(cls, body, types, pickled, where):
    d = {'root': 'tests/xt', 'tests': 'xt', 'own': '.'}[where]
    os.makedirs('p30/' + {'root': '', 'tests': 'tests', 'own': 'tests/xt'}[where], exist_ok=True)
    os.chdir('p30/' + {'root': '', 'tests': 'tests', 'own': 'tests/xt'}[where])
    os.makedirs(d, exist_ok=True)
    if cls == 'net':
        with open(d + '/xt.ini', 'w') as f:
            f.write('[test]\nname = xt\nnetlist = xt.ckt\ntype = %s\nskip-on-travis = 0\nskip-on-pypy = 1\n' % ', '.join(types))
            for t in types:
                f.write('%s_ref = xt-ref.%s%s\n' % (t, t, '.pickle' if t in pickled else ''))
        with open(d + '/xt.ckt', 'w') as f:
            f.write(netlist(body, types))
    return d


def attempt(ahkab, cls, body, types, pickled, opts=None):
    """'pass', or the name of the exception."""
    with Quiet():
        t = make(ahkab, cls, body, types, pickled, opts)
        try:
            t.setUp()
            t.test()
            res = 'pass'
        except AssertionError:
            res = 'fail'
        try:
            t.tearDown()
        except OSError:
            # nothing to clean up: the files of a result are not there
            res = 'fail'
    return res


def options_now():
    from ahkab import options
    return dict((k, getattr(options, k)) for k in dir(options) if k[0] != '_' and isinstance(getattr(options, k), (int, float, bool, str)))


def perturb(path, t, col, row, factor):
    """Multiply one figure of a reference file; the former text is returned."""
    text = open(path).read()
    lines = text.split('\n')
    head = lines[0].lstrip('#').split('\t')
    n = row + 1
    c = lines[n].split()
    c[col] = repr(float(c[col]) * factor)
    lines[n] = '\t'.join(c)
    with open(path, 'w') as f:
        f.write('\n'.join(lines))
    return text


def one(case, ctr):
    cls, body, types, where, what = case
    home = os.getcwd()
    try:
        _one(case, ctr)
    finally:
        os.chdir(home)
        shutil.rmtree('p30', ignore_errors=True)


def _one(case, ctr):
    cls, body, types, where, what = case
    ahkab = core.boot()
    warnings.simplefilter('ignore')
    from ahkab import options
    pickled = ('symbolic',)
    d = setup(cls, body, types, pickled, where)
    ref = lambda t: '%s/xt-ref.%s%s' % (d, t, '.pickle' if t in pickled else '')
    before = options_now()
    opts = {'iea': 2e-9, 'vea': 2e-6} if what == 'options' else None
    first = attempt(ahkab, cls, body, types, pickled, opts)
    missing = [t for t in types if not os.path.isfile(ref(t))]
    if first != 'pass' or missing:
        raise core.Disagreement('%s: the run that makes the references: %s, not made: %s' % (case, first, missing))
    keep = sorted(os.listdir(d))
    again = attempt(ahkab, cls, body, types, pickled, opts)
    if again != 'pass':
        raise core.Disagreement('%s: the same simulation again: %s' % (case, again))
    left = [f for f in sorted(os.listdir(d)) if f not in keep]
    if left:
        raise core.Disagreement('%s: the test leaves the files %s' % (case, left))
    if options_now() != before:
        raise core.Disagreement('%s: the options are not restored' % (case,))
    ctr.add('agreeing')
    ctr.add('transitions', 2)
    ctr.seen('states', case)
    if what == 'points':
        points(case, ctr, ahkab, ref, pickled)
    elif what == 'lost':
        # an analysis that fails, or is not run, is no agreement
        for t in types:
            if cls == 'net':
                if t == 'symbolic':
                    continue
                bad = dict(LINE, **{t: '* nothing'})
                with open(d + '/xt.ckt', 'w') as f:
                    f.write(HEAD + BODY[body] + '\n'.join(bad[u] for u in types) + '\n')
                got = attempt(ahkab, cls, body, types, pickled)
                ctr.add('transitions')
                if not got.startswith('fail'):
                    raise core.Disagreement('%s: without the %s analysis the test says %s' % (case, t, got))
                ctr.add('lost')
            if t in ('op', 'tran'):
                # the solver gives up
                from ahkab import dc_analysis, transient
                mod, name = {'op': (dc_analysis, 'op_analysis'), 'tran': (transient, 'transient_analysis')}[t]
                with open(d + '/xt.ckt', 'w') as f:
                    f.write(netlist(body, types))
                old = getattr(mod, name)
                from ahkab import ahkab as am
                an = am.analysis[t]
                am.analysis[t] = {'f': lambda *a, **k: None} if isinstance(an, dict) else (lambda *a, **k: None)
                try:
                    got = attempt(ahkab, cls, body, types, pickled)
                finally:
                    am.analysis[t] = an
                ctr.add('transitions')
                if not got.startswith('fail'):
                    raise core.Disagreement('%s: when the %s analysis fails the test says %s' % (case, t, got))
                ctr.add('lost')


def points(case, ctr, ahkab, ref, pickled):
    cls, body, types, where, what = case
    for t in types:
        if t in ('symbolic', 'pz'):
            continue
        lines = open(ref(t)).read().rstrip('\n').split('\n')
        head = lines[0].lstrip('#').split()
        cols = range(len(head)) if t == 'op' else range(1, len(head))
        for col in cols:
            for row in range(len(lines) - 1):
                val = float(lines[row + 1].split()[col])
                if abs(val) < 50 * EA / ER:
                    continue
                arg = head[col].lower().startswith('arg')
                for factor, want in ((1 + .2 * ER, 'pass'), (1 + 20 * ER, 'fail'), (1 - 20 * ER, 'fail'), (-1., 'fail'), (float('nan'), 'fail')):
                    if factor == -1. and arg and abs(abs(val) - np.pi) < 1e-3:
                        continue
                    if arg and (abs(val) < .1 or want == 'pass'):
                        continue
                    text = perturb(ref(t), t, col, row, factor)
                    got = attempt(ahkab, cls, body, types, pickled)
                    with open(ref(t), 'w') as f:
                        f.write(text)
                    ctr.add('transitions')
                    ctr.add('deviations')
                    if got != want:
                        raise core.Disagreement('%s: %s of the reference at row %d times %g: the test says %s'
                                                % (case, head[col], row, factor, got))
                    ctr.seen('kinds', (cls, t, want))


def cases(th):
    for cls in ('net', 'api'):
        for body in sorted(BODY):
            for t in ('op', 'dc', 'ac', 'tran'):
                yield cls, body, (t,), 'root', 'points'
            for where in ('root', 'tests', 'own'):
                for ts in [('op', 'dc'), ('tran', 'op', 'ac')] + ([('op', 'symbolic', 'pz')] if cls == 'net' and body != 'dio' else []):
                    for what in ('same', 'options', 'lost'):
                        yield cls, body, ts, where, what
            for n in (2, 3, 4):
                for ts in itertools.permutations(('op', 'dc', 'ac', 'tran'), n) if th else itertools.combinations(('op', 'dc', 'ac', 'tran'), n):
                    yield cls, body, ts, 'root', 'points' if th else 'same'
                    yield cls, body, ts, 'root', 'lost'


def run(chk):
    chk.explore(one, list(cases(chk.thorough)), limit=600)
    for n, m in (('agreeing', 200), ('deviations', 2000), ('lost', 50)):
        chk.require(n, m)
    chk.assumptions += [
        'an error raised while the test is taken down counts as a failure; columns of the abscissa are judged only '
        'where a wrong one has to fail']
    return chk.finish('states', 'transitions', 'agreeing',
                      'every analysis kind alone and together, both test classes, three working directories; every figure '
                      'of every reference changed within and beyond the tolerances, in sign, or made not a number; each '
                      'analysis lost or failing')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
