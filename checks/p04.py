"""P04: every transient point satisfies the integration formula from the point
before it (all circuits of a bounded grammar x methods x step control x
initial states)."""
import itertools
import sys

import numpy as np

from vlib import core, gram, ref
from checks.p03 import nl_add, NLNODES

PID = 'P04'


class Fn(object):
    """A time function with its own definition (a cubic of time)."""

    def __init__(self, a, b, c):
        self.p = (a, b, c)

    def __call__(self, t):
        a, b, c = self.p
        return a + b * t + c * t ** 3

    def __repr__(self):
        return 'Fn%r' % (self.p,)


FN = {'V': Fn(1., -2., 1.5), 'I': Fn(-.5, 1.5, -2.), 'VS': Fn(2., 1., -.75)}
BACK = [('R', 'R1', 'a', '0', 4), ('R', 'R2', 'a', 'b', 2), ('R', 'R3', 'b', '0', 8),
        ('V', 'VS', 's', '0', 3, None, FN['VS']), ('R', 'R4', 's', 'a', 5),
        ('C', 'C5', 'a', '0', 1, None), ('L', 'L6', 'b', 'c', 2, None),
        ('R', 'R7', 'c', '0', 3)]


def desc_of(case):
    front, back, ks = case
    d = []
    for i, p in enumerate(front):
        d.append(gram.fix(gram.name(p, i), None, FN.get(p[0])))
    d += BACK
    for i, p in enumerate(back):     # the ones at the end have no time function
        d.append(gram.fix(gram.name(p, 5 + i), None, FN['I'] if p[0] == 'I' else None))
    ls = [e[1] for e in d if e[0] == 'L']
    pairs = list(itertools.combinations(ls, 2))
    for n, (i, k) in enumerate(ks):
        if i >= len(pairs):
            return None
        l1, l2 = pairs[i]
        d.append(('K', 'K%d' % n, l1, l2, k))
    return d


def src_at(t):
    return lambda e: e[6](t) if e[6] is not None else e[4]


def walk(r, names, x0, t0, tstop, tstep, control, method, judge, ctr):
    """Check every row of a transient result against the formula."""
    t = np.array(r['T'], dtype=float).ravel()
    X = np.array([np.array(r[ref.label(n)], dtype=float).ravel() for n in names])
    if not control:
        n = int(round((tstop - t0) / tstep))
        ends = t0 + n * tstep
        if ends < tstop - 1e-6 * tstep:
            n += 1
        if len(t) != n:
            raise core.Disagreement('%d points for %d steps of %g from %g to %g (last at %.12g)'
                                    % (len(t), n, tstep, t0, tstop, t[-1]))
        want = t0 + tstep * np.arange(1, n + 1)
        if not np.allclose(t, want, rtol=1e-9, atol=1e-9 * tstep):
            raise core.Disagreement('times %s, expected %s' % (t, want))
    elif not (t[-1] >= tstop - 1e-9 * (tstop - t0)):
        raise core.Disagreement('the last point is at %g, before the stop time %g' % (t[-1], tstop))
    prev_t, prev_x, prev_d = t0, np.array(x0, dtype=float).ravel(), None
    past, order = [(prev_t, prev_x)], int(method[4:]) if method.startswith('GEAR') else 0
    for k in range(len(t)):
        h = t[k] - prev_t
        if not h > 0:
            raise core.Disagreement('time goes from %r to %r' % (prev_t, t[k]))
        x = X[:, k]
        if method == 'IMPLICIT_EULER' or prev_d is None:
            d = (x - prev_x) / h
        elif order:     # the first steps are implicit Euler ones
            d = (x - prev_x) / h if k < order else bdf([(t[k], x)] + past[::-1][:order])
        else:
            d = 2. / h * (x - prev_x) - prev_d
        bad = judge(t[k], x, d, h, prev_x)
        if bad:
            raise core.Disagreement('point %d (t = %.9g, step %.4g, %s): %s' % (k, t[k], h, method, bad))
        ctr.add('points')
        prev_t, prev_x, prev_d = t[k], x, d
        past.append((t[k], x))
    ctr.seen('states', [np.round(x, 9).tolist() for x in X[:, :4]] + [method, control, len(t)])


def bdf(points):
    """The derivative, at the first point, of the polynomial through all of them."""
    t = [p[0] for p in points]
    d = 0.
    for j in range(1, len(points)):
        w = 1. / (t[0] - t[j])
        d = d + w * points[0][1]
        l = w
        for m in range(1, len(points)):
            if m != j:
                l *= (t[0] - t[m]) / (t[j] - t[m])
        d = d - l * points[j][1]
    return d


def linear_judge(desc, hsign=1):
    names, A, B, feed = ref.matrices(desc, hsign)
    lab = [ref.label(n) for n in names]

    def judge(t, x, d, h, px):
        u = ref.vector(desc, names, feed, src_at(t))
        res = A.dot(x) + B.dot(d) - u
        xs = max(1., np.max(np.abs(x)), np.max(np.abs(px)))
        scale = np.abs(A).dot(np.full(len(x), xs)) + \
            np.abs(B).dot(np.maximum(np.abs(d), xs / h)) + np.abs(u)
        k = np.argmax(np.abs(res) / np.maximum(scale, 1e-30))
        if abs(res[k]) > 1e-8 * scale[k]:
            return 'the equation of %s is off by %.6g (terms of size %.4g)' % (lab[k], res[k], scale[k])
        return None
    return names, A, B, judge


def states(desc, names, A, B, feed, which):
    n = len(names)
    if which == 'zero':
        return np.zeros(n)
    if which == 'odd':
        return np.array([.5 + .25 * k * (-1) ** k for k in range(n)])


def one(case, ctr):
    circ_case, method, control, which, (t0, tstep, tstop) = case
    ahkab = core.boot()
    from ahkab import transient, options, dc_analysis, results, utilities
    desc = desc_of(circ_case)
    if desc is None:
        return
    names, A, B, judge = linear_judge(desc)
    for h in (tstep, .01 * tstep):
        M = A + B / h
        if not np.all(np.isfinite(M)) or np.linalg.cond(M) > 1e8:
            ctr.add('singular_skipped')
            return
    c = ref.build(ahkab, desc)
    kw = {}
    if which == 'none':
        x0, arg = np.zeros(len(names)), None
    elif which == 'op':
        op = dc_analysis.op_analysis(c, outfile='op', verbose=0)
        if op is None:
            ctr.add('no_op')
            return
        x0, arg = np.array([float(op[ref.label(n)][0][0]) for n in names]), op
        if np.abs(x0).max() > 1e6:        # the DC equations are singular
            ctr.add('no_op')
            return
    else:
        x0 = np.array([.5 + .25 * k * (-1) ** k for k in range(len(names))])
        order = result_order(c, desc, names)
        arg = np.array([[x0[i]] for i in order])
        if which == 'premade':
            mna, N = dc_analysis.generate_mna_and_N(c, verbose=0)
            mna = utilities.remove_row_and_col(mna)
            N = utilities.remove_row(N, rrow=0)
            D = utilities.remove_row_and_col(transient.generate_D(c, mna.shape))
            kw = dict(mna=mna, N=N, D=D)
    keep = None if arg is None or which == 'op' else arg.copy()
    m = method
    try:
        r = transient.transient_analysis(c, t0, tstep, tstop, method=m, use_step_control=control,
                                         x0=arg, outfile='tr', verbose=0, **kw)
    except ValueError as e:
        if control and 'too small' in str(e):    # reported failure (inconsistent initial state)
            ctr.add('step_underflow')
            return
        raise
    ctr.add('solved')
    if r is None:
        raise core.Disagreement('no transient solution')
    if keep is not None and not np.array_equal(keep, arg):
        raise core.Disagreement('the supplied initial state was modified')
    meth = 'TRAP' if method is None else method.upper()
    try:
        walk(r, names, x0, t0, tstop, tstep, control, meth, judge, ctr)
    except core.Disagreement as e:
        if any(q[0] == 'H' for q in desc):
            try:
                walk(r, names, x0, t0, tstop, tstep, control, meth, linear_judge(desc, -1)[3], ctr)
            except core.Disagreement:
                raise e
            raise core.Disagreement('a current-controlled voltage source imposes -alpha*I in '
                                    'transient analysis too: %s' % e, key='ccvs-output-sign')
        raise
    for e in desc:
        ctr.seen('kinds', e[0])
    ctr.add('transitions', len(np.array(r['T']).ravel()))
    ctr.sample({'circuit': gram.text(desc)[:300], 'method': method, 'control': control}, 1)


def result_order(c, desc, names):
    """Positions (in our names) of the simulator's unknowns, by name."""
    pos = {n: i for i, n in enumerate(names)}
    out = [pos[('v', c.nodes_dict[k])] for k in range(1, c.get_nodes_number())]
    return out + [pos[('i', e[1])] for e in desc if e[0] in ref.VDEF]


def key(case):
    if case[0] == 'nl':
        return repr(case)
    d = desc_of(case[0]) or []
    return '%s @ %r' % (gram.text([e for e in d if e not in BACK]), case[1:])


GRIDS = [(0., .25, 1.), (0., .1, 1.), (0., .3, 1.), (.5, .25, 1.5), (0., .7, .7), (-.5, .1, .2),
         (0., 2., 1.), (0., 1e-3, .02), (0., .1, 1.05), (0., 1. / 3, 1.)]
G0 = GRIDS[0]
GC = (0., .5, 1.)
METHODS = ('TRAP', 'IMPLICIT_EULER')
GEARS = tuple('GEAR%d' % k for k in range(1, 7))
GG = (0., .1, 1.)


def cases(thorough):
    A = gram.alphabet(0, loops=True, ctrl='few')
    B = gram.alphabet(4, ctrl='one')
    D = [p for p in A if p[0] in 'CL']

    def circuits():
        for p in A:
            yield ((p,), (), ())
            yield ((), (p,), ())
        for p in D:
            for q in (A if thorough else B):
                yield ((p,), (q,), ())
                if thorough:
                    yield ((q,), (p,), ())
        for p in B[::1 if thorough else 3]:
            for q in B:
                yield ((p,), (q,), ())
        for p in [x for x in A if x[0] == 'L']:
            for k in (.5, -.5):
                yield ((p,), (), ((0, k),))
                yield ((), (p,), ((0, k),))
            for q in B:
                if q[0] == 'L':
                    for pat in ([(0, .5)], [(1, .5)], [(2, -.25)], [(0, .5), (1, .25)],
                                [(0, .3), (1, -.2), (2, .4)], [(0, .5), (0, .25)], [(1, .4), (1, -.2), (0, .1)]):
                        yield ((p,), (q,), tuple(pat))
                    yield ((p, q), (('L', 'a', '0', 3),), tuple((i, .1 + .02 * i) for i in range(6)))
                elif q[0] in 'VEHFG':
                    yield ((q, p), (), ((0, .5),))
                    yield ((p,), (q,), ((0, .5),))

    def gen():
        for g in GRIDS:
            for m in METHODS + (None, 'trap') + GEARS + ('gear3',):
                for which in ('zero', 'odd', 'op', 'none', 'premade'):
                    for ctl in (False, True):
                        yield (((), (('C', 'a', 'b', 3),), ()), m, ctl, which, g)
        for i, cc in enumerate(circuits()):
            for j, m in enumerate(GEARS):
                if thorough or i % 6 == j:
                    yield (cc, m, False, 'odd', GG)
                    yield (cc, m, True, ('op', 'odd', 'none', 'premade')[i // 6 % 4], GC)
            for m in METHODS:
                yield (cc, m, False, 'odd', G0)
                if thorough or i % 5 == 0:
                    yield (cc, m, True, ('op', 'odd', 'none', 'premade')[i // 5 % 4], GC)
                if thorough:
                    yield (cc, m, False, ('op', 'none', 'premade')[i % 3], GRIDS[3])
    return gen


# -- non-linear circuits: the Newton correction still due is within tolerance --
def nl_one(case, ctr):
    _, els, method, control = case
    ahkab = core.boot()
    from ahkab import transient, options
    c = ahkab.Circuit('t')
    lin = [('R', 'R1', 'a', '0', 400), ('R', 'R2', 'a', 'b', 200), ('R', 'R3', 'b', '0', 800),
           ('V', 'VS', 's', '0', 3, None, Fn(0., 1500., 0.)), ('R', 'R4', 's', 'a', 500),
           ('C', 'C5', 'a', '0', 1e-6, None), ('C', 'C6', 'b', '0', 5e-7, None)]
    ref.build(ahkab, lin[:4], circ=c)
    for i, e in enumerate(els):
        nl_add(ahkab, c, e, i)
    ref.build(ahkab, lin[4:], circ=c)
    names, A, B, feed = ref.matrices(lin)
    pos = {n: i for i, n in enumerate(names)}
    byint = {i: (pos[('v', n)] if n != '0' else None)
             for i, n in c.nodes_dict.items() if isinstance(i, int)}
    N = len(names)

    def device(x):
        out, J = np.zeros(N), np.zeros((N, N))
        vs = lambda n: 0. if byint[n] is None else x[byint[n]]
        for el in c:
            if not el.is_nonlinear:
                continue
            (op_, on), = el.get_output_ports()
            ports = el.get_drive_ports(0)
            v = [np.float64(vs(p) - vs(q)) for p, q in ports]
            if hasattr(el, 'istamp'):
                cur = float(np.array(el.istamp(v, 0, reduced=False)[1]).reshape(-1)[0])
            else:
                cur = float(el.i(0, v, 0))
            for n, sg in ((op_, 1), (on, -1)):
                if byint[n] is None:
                    continue
                out[byint[n]] += sg * cur
            h = 1e-6
            for j in range(N):
                d = np.zeros(N)
                d[j] = h
                vv = lambda n, z: 0. if byint[n] is None else z[byint[n]]
                cs = []
                for z in (x + d, x - d):
                    w = [np.float64(vv(p, z) - vv(q, z)) for p, q in ports]
                    cs.append(float(np.array(el.istamp(w, 0, reduced=False)[1]).reshape(-1)[0])
                              if hasattr(el, 'istamp') else float(el.i(0, w, 0)))
                g = (cs[0] - cs[1]) / (2 * h)
                for n, sg in ((op_, 1), (on, -1)):
                    if byint[n] is not None:
                        J[byint[n], j] += sg * g
        return out, J

    def judge(t, x, d, h, px):
        u = ref.vector(lin, names, feed, src_at(t))
        I, J = device(x)
        res = A.dot(x) + B.dot(d) - u + I
        coef = 1. / h if method == 'IMPLICIT_EULER' else 2. / h
        corr = np.linalg.solve(A + J + coef * B, res)
        tol = 3 * (1e-6 + 1e-3 * np.abs(x))
        # branch currents scale with the largest current
        bad = np.abs(corr) > np.maximum(tol, 3e-6)
        if bad.any():
            k = int(np.argmax(np.abs(corr) / tol))
            return '%s is %.6g, the equations still ask for a change of %.3g' % (
                ref.label(names[k]), x[k], corr[k])
        return None
    r = transient.transient_analysis(c, 0., 2e-4, 1e-3, method=method, use_step_control=control,
                                     x0=None, outfile='tr', verbose=0)
    ctr.add('nl_runs')
    if r is None:
        ctr.add('nl_failed')
        return
    walk(r, names, np.zeros(N), 0., 1e-3, 2e-4, control, method, judge, ctr)
    ctr.add('nl_solved')
    ctr.add('solved')
    for e in els:
        ctr.seen('kinds', 'nl' + e[0])


def nl_cases(thorough):
    prs = [(p, q) for p in NLNODES for q in NLNODES if p != q]
    ds = [('D', p, q, m) for p, q in prs for m in (0, 1)]
    mos = [(k, d, g, s, b, t) for k in 'QE' for t in (0, 1)
           for d in NLNODES for g in ('s', '0', 'a') for s in NLNODES for b in ('0', 's') if d != s]
    els = ds + mos

    def gen():
        for e in (els if thorough else ds + mos[::3]):
            for m in METHODS:
                yield ('nl', (e,), m, False)
                if thorough or e[0] == 'D':
                    yield ('nl', (e,), m, True)
        for i, e in enumerate(ds):
            for m in GEARS if thorough else (GEARS[i % 6], GEARS[(i + 3) % 6]):
                for ctl in (False, True):
                    yield ('nl', (e,), m, ctl)
        for e in ds:
            for f in ds + mos[::(7 if thorough else 23)]:
                yield ('nl', (e, f), 'TRAP', False)
                if thorough:
                    yield ('nl', (e, f), 'IMPLICIT_EULER', False)
    return gen


def run(chk):
    chk.explore(one, cases(chk.thorough), limit=60, keyfn=key)
    chk.explore(nl_one, nl_cases(chk.thorough), limit=60, keyfn=key)
    chk.require('solved', 2000)
    chk.require('kinds', 12)
    chk.require('nl_solved', 100)
    chk.assumptions += [
        'element values of order 1 (linear part); circuits whose stepping matrix has a condition '
        'number above 1e8 are not judged',
        'with TRAP the first step (with GEARn the first n) is an implicit Euler one; the '
        'simulator does not report the initial state as a row, it is checked through the first step',
        'non-linear circuits: a point is accepted when the Newton correction still due is within '
        'three times the solver tolerances']
    return chk.finish('states', 'transitions', 'solved',
                      'every circuit of the grammar x {TRAP, IMPLICIT_EULER, GEAR1-6} x fixed/adaptive step x '
                      'initial states x time grids; every reported row is put into the discretised '
                      'equations A x + B dx = u(t) of an independent model')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
