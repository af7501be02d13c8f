"""P24: periodic steady state results satisfy the discretised equations at every
point of the requested grid, periodically (all circuits of a bounded grammar x
grids x both methods; all iteration limits for the reporting of failures)."""
import itertools
import sys
from fractions import Fraction as Fr

import numpy as np

from vlib import core, gram, ref
from checks.p03 import nl_add, NLNODES

PID = 'P24'


class Per(object):
    """A periodic function with its own definition: a cubic in the phase."""

    def __init__(self, per, a, b, c):
        self.per, self.p = per, (a, b, c)

    def __call__(self, t):
        a, b, c = self.p
        u = t / self.per
        u = u - np.floor(u + 1e-9)
        return a + b * u + c * u * (1. - u) * (1. - 2. * u)

    def __repr__(self):
        return 'Per%r' % (self.p,)


PERIODS = (1., .125)
FN = {(k, per): Per(per, *v) for per in PERIODS + (3e-3,)
      for k, v in {'V': (1., 0., 15.), 'I': (-.5, 0., -20.), 'VS': (2., 0., 8.), 'VD': (.6, 0., 40.)}.items()}
BACK = [('R', 'R1', 'a', '0', 4), ('R', 'R2', 'a', 'b', 2), ('R', 'R3', 'b', '0', 8),
        ('V', 'VS', 's', '0', 3, None, 'VS'), ('R', 'R4', 's', 'a', 5),
        ('C', 'C5', 'a', '0', 1, None), ('L', 'L6', 'b', 'c', 2, None),
        ('R', 'R7', 'c', '0', 3)]


def desc_of(case, per):
    front, back, ks = case
    F = lambda k: FN[(k, per)]
    d = []
    for i, p in enumerate(front):
        d.append(gram.fix(gram.name(p, i), None, F(p[0]) if p[0] in 'VI' else None))
    d += [e if e[0] != 'V' else e[:6] + (F('VS'),) for e in BACK]
    for i, p in enumerate(back):     # the voltage source at the end has no time function
        d.append(gram.fix(gram.name(p, 5 + i), None, F('I') if p[0] == 'I' else None))
    ls = [e[1] for e in d if e[0] == 'L']
    pairs = list(itertools.combinations(ls, 2))
    for n, (i, k) in enumerate(ks):
        if i >= len(pairs):
            return None
        d.append(('K', 'K%d' % n, pairs[i][0], pairs[i][1], k))
    return d


def src_at(t):
    return lambda e: e[6](t) if e[6] is not None else e[4]


def grid(period, step, points, default):
    """Number of points and step the documentation promises."""
    if step is not None:
        q = Fr(period).limit_denominator(10 ** 9) / Fr(step).limit_denominator(10 ** 9)
        n = int(q)                       # whole steps in a period
        return n + 1, period / n
    n = int(points if points is not None else default)
    return n, period / (n - 1)


def rows_of(r, names, points, period, step):
    t = np.array(r['T'], dtype=float).ravel()
    if len(t) != points:
        raise core.Disagreement('%d points, expected %d' % (len(t), points))
    want = period / (points - 1) * np.arange(points)
    if not np.allclose(t, want, rtol=1e-9, atol=1e-9 * step):
        raise core.Disagreement('times %s, expected %s' % (t, want))
    return t, np.array([np.array(r[ref.label(n)], dtype=float).ravel() for n in names])


def judge_rows(t, X, A, B, h, u, conv, dev, names, method, tol):
    """None, or what is wrong; conv: 'period' (first = last) or 'extra'."""
    N = X.shape[1]
    lab = [ref.label(n) for n in names]
    if conv == 'period':
        d = X[:, 0] - X[:, -1]
        if np.any(np.abs(d) > 1e-7 * np.maximum(1., np.abs(X).max())):
            return 'the first point is not the last: %s is %.9g then %.9g' % (
                lab[int(np.argmax(np.abs(d)))], X[int(np.argmax(np.abs(d))), 0], X[int(np.argmax(np.abs(d))), -1])
    n = X.shape[0]
    first = 0 if conv == 'extra' else 1
    if dev is None:
        for k in range(first, N):
            d = (X[:, k] - X[:, k - 1]) / h
            uk = u(t[k])
            res = A.dot(X[:, k]) + B.dot(d) - uk
            xs = max(1., np.abs(X).max())
            scale = np.abs(A).dot(np.full(n, xs)) + np.abs(B).dot(np.full(n, xs / h)) + np.abs(uk)
            w = int(np.argmax(np.abs(res) / np.maximum(scale, 1e-30)))
            if abs(res[w]) > 1e-8 * scale[w]:
                return 'at point %d (t = %.6g) the equation of %s is off by %.6g (terms of size %.4g)' % (
                    k, t[k], lab[w], res[w], scale[w])
        return None
    # the Newton correction that the whole set of points still asks for
    idx = list(range(first, N))
    m = len(idx)
    big, rhs = np.zeros((m * n, m * n)), np.zeros(m * n)
    for q, k in enumerate(idx):
        I, J = dev(X[:, k])
        rhs[q * n:(q + 1) * n] = A.dot(X[:, k]) + B.dot(X[:, k] - X[:, k - 1]) / h - u(t[k]) + I
        big[q * n:(q + 1) * n, q * n:(q + 1) * n] += A + J + B / h
        p = (q - 1) % m
        big[q * n:(q + 1) * n, p * n:(p + 1) * n] -= B / h
    corr = np.abs(np.linalg.solve(big, rhs).reshape(m, n))
    xs = np.abs(X).max(axis=1)
    kinds = np.array([1e-6 if q[0] == 'v' else 1e-9 for q in names])
    xs = np.array([max(x for x, q in zip(xs, names) if q[0] == names[i][0]) for i in range(n)])
    lim = tol * (1e-3 * xs + kinds)
    bad = corr > lim[None, :]
    if bad.any():
        k, w = np.unravel_index(np.argmax(corr / lim[None, :]), corr.shape)
        return 'at point %d %s is %.6g, the equations still ask for a change of %.3g' % (
            idx[k], lab[w], X[w, idx[k]], corr[k, w])
    return None


def judge(r, names, A, B, u, points, period, step, method, dev=None, tol=2.):
    t, X = rows_of(r, names, points, period, step)
    if not np.all(np.isfinite(X)):
        raise core.Disagreement('not a number in the solution')
    bad = judge_rows(t, X, A, B, step, u, 'period', dev, names, method, tol)
    if bad and method == 'shooting' and \
       judge_rows(t, X, A, B, step, u, 'extra', dev, names, method, tol) is None:
        raise core.Disagreement('the solution repeats after the period plus one step: the point before the '
                                'first is the last, one step earlier', key='shooting-extra-step')
    if bad:
        raise core.Disagreement(bad)
    return X


def names_order(c, desc, names):
    pos = {n: i for i, n in enumerate(names)}
    out = [pos[('v', c.nodes_dict[k])] for k in range(1, c.get_nodes_number())]
    return out + [pos[('i', e[1])] for e in desc if e[0] in ref.VDEF]


def ask(ahkab, c, method, period, how, **kw):
    from ahkab import pss, shooting, bfpss
    if how == 'run':
        r = ahkab.run(c, [ahkab.new_pss(period, points=kw.get('points'), method=method, x0=None,
                                        outfile='o')])
        return r['pss']
    if how == 'pss':
        return pss.pss_analysis(c, method=method.upper(), period=period, outfile='o', verbose=0, **kw)
    f = {'shooting': shooting.shooting_analysis, 'brute-force': bfpss.bfpss}[method]
    return f(c, period, outfile='o', verbose=0, **kw)


def one(case, ctr):
    _, cc, method, period, step, points, how, extra = case
    ahkab = core.boot()
    from ahkab import options, dc_analysis, transient, utilities
    desc = desc_of(cc, period)
    if desc is None:
        return
    default = {'shooting': options.shooting_default_points, 'brute-force': options.bfpss_default_points}[method]
    n, h = grid(period, step, points, default)
    names, A, B, feed = ref.matrices(desc, 1)
    M = A + B / h
    if not np.all(np.isfinite(M)) or np.linalg.cond(M) > 1e7:
        ctr.add('singular_skipped')
        return
    phi = np.linalg.matrix_power(np.linalg.solve(M, B / h), n - 1)
    if np.linalg.cond(np.eye(len(names)) - phi) > 1e7 or np.abs(phi).max() > 1e6:
        ctr.add('singular_skipped')      # no periodic solution, or not a unique one
        return
    c = ref.build(ahkab, desc)
    kw = {}
    if points is not None:
        kw['points'] = points
    if step is not None:
        kw['step'] = step
    old = options.dense_matrix_limit
    if extra == 'sparse':
        options.dense_matrix_limit = 3
    elif extra == 'x0op':
        kw['x0'] = dc_analysis.op_analysis(c, outfile='op', verbose=0)
    elif extra == 'x0':
        kw['x0'] = np.array([[1. + .5 * i] for i in range(len(names))])
    elif extra == 'mats':
        mna, N = dc_analysis.generate_mna_and_N(c, verbose=0)
        mna, N = utilities.remove_row_and_col(mna), utilities.remove_row(N, rrow=0)
        D = utilities.remove_row_and_col(transient.generate_D(c, mna.shape))
        if method == 'shooting':
            kw['matrices'] = dict(MNA=mna, Tf=N, D=D)
        else:
            kw.update(mna=mna, Tf=N, D=D)
    try:
        r = ask(ahkab, c, method, period, how, **kw)
    finally:
        options.dense_matrix_limit = old
    ctr.add('transitions', n)
    if r is None:
        raise core.Disagreement('no solution of a linear circuit that has one')
    if abs(r.period - period) > 1e-12 * period or r.method != method:
        raise core.Disagreement('the result says period %g, method %s' % (r.period, r.method))
    ctr.add('solved')
    ctr.seen('states', (repr(cc), method, n, period))
    for e in desc:
        ctr.seen('kinds', e[0])
    u = lambda t: ref.vector(desc, names, feed, src_at(t))
    try:
        judge(r, names, A, B, u, n, period, h, method)
    except core.Disagreement as e:
        if e.key is None and any(q[0] == 'H' for q in desc):
            n2, A2, B2, f2 = ref.matrices(desc, -1)
            try:
                judge(r, n2, A2, B2, lambda t: ref.vector(desc, n2, f2, src_at(t)), n, period, h, method)
            except core.Disagreement as e2:
                if e2.key is None:
                    raise e
            raise core.Disagreement('a current-controlled voltage source imposes -alpha*I here too: %s' % e,
                                    key='ccvs-output-sign')
        raise


# -- non-linear circuits and the reporting of failures ---------------------------
PNL = 3e-3


def nl_one(case, ctr):
    _, els, method, points, limit = case
    ahkab = core.boot()
    from ahkab import options
    c = ahkab.Circuit('t')
    lin = [('R', 'R1', 'a', '0', 400), ('R', 'R2', 'a', 'b', 200), ('R', 'R3', 'b', '0', 800),
           ('V', 'VS', 's', '0', 3, None, FN[('VD', PNL)]), ('R', 'R4', 's', 'a', 500),
           ('C', 'C5', 'a', '0', 1e-6, None), ('C', 'C6', 'b', '0', 5e-7, None)]
    ref.build(ahkab, lin[:4], circ=c)
    for i, e in enumerate(els):
        nl_add(ahkab, c, e, i)
    ref.build(ahkab, lin[4:], circ=c)
    names, A, B, feed = ref.matrices(lin)
    dev = device_fn(c, names)
    opts = ('shooting_max_nr_iter', 'bfpss_max_nr_iter', 'dense_matrix_limit')
    old = [getattr(options, o) for o in opts]
    for o in opts[:2]:
        setattr(options, o, limit)
    if points == 7:
        options.dense_matrix_limit = 3          # sparse matrices
    try:
        r = ask(ahkab, c, method, PNL, 'pss', points=points)
    finally:
        for o, v in zip(opts, old):
            setattr(options, o, v)
    ctr.add('transitions', points)
    ctr.add('nl_runs')
    if r is None:
        ctr.add('nl_none')
        ctr.seen('states', (repr(els), method, points, 'none', limit))
        return
    ctr.add('nl_solved')
    ctr.add('solved')
    ctr.seen('states', (repr(els), method, points))
    for e in els:
        ctr.seen('kinds', 'nl' + e[0])
    judge(r, names, A, B, lambda t: ref.vector(lin, names, feed, src_at(t)), points, PNL, PNL / (points - 1),
          method, dev, tol=3.)


def device_fn(c, names):
    pos = {n: i for i, n in enumerate(names)}
    byint = {i: (pos[('v', n)] if n != '0' else None)
             for i, n in c.nodes_dict.items() if isinstance(i, int)}
    N = len(names)

    def device(x):
        out, J = np.zeros(N), np.zeros((N, N))
        at = lambda n, z: 0. if byint[n] is None else z[byint[n]]
        for el in c:
            if not el.is_nonlinear:
                continue
            (op_, on), = el.get_output_ports()
            ports = el.get_drive_ports(0)

            def cur(z):
                w = [np.float64(at(p, z) - at(q, z)) for p, q in ports]
                if hasattr(el, 'istamp'):
                    return float(np.array(el.istamp(w, 0, reduced=False)[1]).reshape(-1)[0])
                return float(el.i(0, w, 0))
            i0 = cur(x)
            for n, sg in ((op_, 1), (on, -1)):
                if byint[n] is not None:
                    out[byint[n]] += sg * i0
            h = 1e-6
            for j in range(N):
                d = np.zeros(N)
                d[j] = h
                g = (cur(x + d) - cur(x - d)) / (2 * h)
                for n, sg in ((op_, 1), (on, -1)):
                    if byint[n] is not None:
                        J[byint[n], j] += sg * g
        return out, J
    return device


# -- the state a long transient settles to ------------------------------------------
def settle_one(case, ctr):
    _, cc, period, points = case
    ahkab = core.boot()
    from ahkab import transient
    desc = desc_of(cc, period)
    names, A, B, feed = ref.matrices(desc, 1)
    h = period / (points - 1)
    if np.linalg.cond(A + B / h) > 1e7:
        ctr.add('settle_skipped')
        return
    M = np.linalg.solve(A + B / h, B / h)
    rho = np.abs(np.linalg.eigvals(M)).max()
    if rho > .97:
        ctr.add('settle_skipped')
        return
    c = ref.build(ahkab, desc)
    per = int(np.ceil(-25. / np.log(max(rho, 1e-9)) / (points - 1))) + 2
    r = transient.transient_analysis(c, 0., h, per * period, method='IMPLICIT_EULER', use_step_control=False,
                                     x0=None, outfile='tr', verbose=0)
    p = ask(ahkab, c, 'brute-force', period, 'func', points=points)
    ctr.add('transitions', per * points)
    for n in names:
        w = np.array(r[ref.label(n)], dtype=float).ravel()[-points:]
        g = np.array(p[ref.label(n)], dtype=float).ravel()
        if not np.allclose(g, w, rtol=1e-6, atol=1e-7):
            raise core.Disagreement('%s: %s, the transient settles to %s' % (ref.label(n), g, w))
    ctr.add('settled')


# -- grids ---------------------------------------------------------------------------
GRIDC = ((), (), ())


def all_(case, ctr):
    {'lin': one, 'nl': nl_one, 'settle': settle_one}[case[0]](case, ctr)


def key(case):
    if case[0] in ('nl', 'settle'):
        return repr(case)
    d = desc_of(case[1], case[3]) or []
    own = [e for e in d if e[1] not in [b[1] for b in BACK]]
    return '%s @ %r' % (gram.text(own), case[2:])


def cases(thorough):
    A = gram.alphabet(0, loops=True, ctrl='few')
    B4 = gram.alphabet(4, ctrl='one')
    D = [p for p in A if p[0] in 'CL']
    METHODS = ('brute-force', 'shooting')

    def circuits():
        for p in A:
            yield ((p,), (), ())
            yield ((), (p,), ())
        for p in D:
            for q in (A if thorough else B4):
                yield ((p,), (q,), ())
        for p in B4[::1 if thorough else 4]:
            for q in B4:
                yield ((p,), (q,), ())
        if not thorough:
            for p, q in itertools.product([x for x in B4 if x[0] in 'IV'], repeat=2):
                yield ((p,), (q,), ())
        for p in [x for x in A if x[0] == 'L']:
            for k in (.5, -.5):
                yield ((p,), (), ((0, k),))
                yield ((), (p,), ((0, k),))
            for q in B4:
                if q[0] == 'L':
                    for pat in ([(0, .5)], [(1, .5)], [(2, -.25)], [(0, .5), (1, .25)],
                                [(0, .3), (1, -.2), (2, .4)]):
                        yield ((p,), (q,), tuple(pat))

    def gen():
        # all grids on one circuit
        for m in METHODS:
            for per in PERIODS:
                for n in list(range(2, 41 if thorough else 21)) + [None, 50, 61, 100, 257]:
                    for how in ('func', 'run', 'pss'):
                        yield ('lin', GRIDC, m, per, None, n, how, None)
                    if n in (8, 61, 100):
                        # a source without a time function
                        yield ('lin', ((), (('V', 'c', '0', 4),), ()), m, per, None, n, 'func', None)
                for a in range(1, 13 if thorough else 8):
                    for b in range(a, 25 if thorough else 14):
                        for form in (per * a / b, per / b * a):
                            yield ('lin', GRIDC, m, per, form, None, 'pss' if (a + b) % 2 else 'func', None)
                for k in (.1, .2, .3, .7, 1., .15, .35, .05, .01):
                    yield ('lin', GRIDC, m, per, k * per, None, 'func', None)
                    yield ('lin', GRIDC, m, per, k * per, 7, 'func', None)      # both: the step is used
                for ex in ('sparse', 'x0op', 'x0', 'mats', None):
                    for n in (2, 3, 6, 9):
                        yield ('lin', GRIDC, m, per, None, n, 'func', ex)
        pts = (5, 3, 8, 4)
        for i, cc in enumerate(circuits()):
            for j, m in enumerate(METHODS):
                yield ('lin', cc, m, PERIODS[i % 2], None, pts[i % 4], ('func', 'pss', 'run')[i % 3],
                       (None, None, 'mats', 'sparse' if j == 0 else 'x0op')[i // 4 % 4]
                       if i % 3 != 2 else (None, 'sparse')[i // 6 % 2])
                if thorough:
                    yield ('lin', cc, m, PERIODS[1 - i % 2], None, 7, 'func', None)
        for i, cc in enumerate(circuits()):
            if i % (1 if thorough else 7) == 0 and not any(q[0] == 'H' for q in cc[0] + cc[1]):
                yield ('settle', cc, PERIODS[i // 7 % 2], 6)
        devs = [('D', p, q, k) for p in NLNODES for q in NLNODES if p != q for k in (0, 1)]
        mos = [(k, d, g, s, b, t) for k in 'QE' for d, s in (('a', '0'), ('b', '0'), ('a', 'b'), ('0', 'a'))
               for g in ('a', 'b', 's') for b in ('0',) + ((s,) if s != '0' else ()) for t in (0, 1)]
        if not thorough:
            mos = mos[::3]
        for m in METHODS:
            for els in [(d,) for d in devs + mos] + list(itertools.product(devs[::2], devs[1::2])):
                yield ('nl', els, m, 6, 10000)
                if m == 'brute-force' and (thorough or els[0][0] != 'D' or len(els) == 1):
                    yield ('nl', els, m, 7, 10000)
            for els in [(d,) for d in devs[::3]] + [(mos[0],), (mos[5],)]:
                for lim in range(1, 31):
                    yield ('nl', els, m, 5, lim)
    return gen


def run(chk):
    chk.explore(all_, cases(chk.thorough), limit=60, keyfn=key)
    chk.require('solved', 1500)
    chk.require('kinds', 12)
    chk.require('nl_solved', 80)
    chk.require('nl_none', 20)
    chk.require('settled', 20)
    chk.assumptions += [
        'linear circuits whose step-by-step equations or periodic problem are singular to 1e7 are skipped '
        '(there is no periodic solution, or no unique one)',
        'non-linear: the Newton correction of the whole set of points, with the device functions of the '
        'code (judged by P08 and P09) and numerical derivatives, has to be within 3 times the tolerances']
    return chk.finish('states', 'transitions', 'solved',
                      'every listed circuit x method x grid; iteration limits 1..30 on a set of non-linear circuits')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
