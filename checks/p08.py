"""P08: every operating point reported for a circuit with non-linear devices
satisfies Kirchhoff's laws with the device equations (independent models)."""
import itertools
import math
import sys

import numpy as np

from vlib import core, devices, ref
from checks.p03 import nl_add, NLNODES

PID = 'P08'

LIN = [('R', 'R1', 'a', '0', 400), ('R', 'R2', 'a', 'b', 200), ('R', 'R3', 'b', '0', 800),
       ('V', 'VS', 's', '0', 3, 0, None), ('R', 'R4', 's', 'a', 500),
       ('I', 'IS', '0', 'b', 1e-3, 0, None)]
DPAR = [dict(IS=1e-12), dict(IS=1e-10, N=1.5)]


def lin_of(vs, is_, extra):
    out = []
    for e in LIN:
        if e[1] == 'VS':
            e = e[:4] + (vs,) + e[5:]
        if e[1] == 'IS':
            e = e[:4] + (is_,) + e[5:]
        out.append(e)
    return out + list(extra)


def current(e, v, on):
    """(node+, node-, current) of one device at the node voltages v."""
    k = e[0]
    if k == 'D':
        return e[1], e[2], devices.diode(DPAR[e[3]], v(e[1]) - v(e[2]))[0]
    if k in 'QE':
        par = dict(TYPE='np'[e[5]], KP=50e-6, VTO=(.4, -.4)[e[5]], w=2e-6, l=1e-6)
        f = devices.mosq if k == 'Q' else devices.ekv
        return e[1], e[3], f(par, v(e[1]), v(e[2]), v(e[3]), v(e[4]))[0]
    vin = v(e[3]) - v(e[4])
    thr = 1. + (-.2 if on else .2)
    a, b = (2. - 50.) / 2, (2. + 50.) / 2
    R = b - a * math.tanh(1e2 * (thr - vin))
    return e[1], e[2], (v(e[1]) - v(e[2])) / R


def judge(lin, els, xs, names, A, feed, order=None):
    """None, or what is wrong with the solution xs."""
    u = ref.vector(lin, names, feed, lambda e: e[4])
    pos = {n: i for i, n in enumerate(names)}
    best = None
    sw = [i for i, e in enumerate(els) if e[0] == 'S']
    for states in itertools.product((False, True), repeat=len(sw)):
        on = dict(zip(sw, states))

        def inj(x):
            v = lambda n: 0. if n == '0' else x[pos[('v', n)]]
            out = np.zeros(len(names))
            for i, e in enumerate(els):
                p, q, cur = current(e, v, on.get(i))
                if p != '0':
                    out[pos[('v', p)]] += cur
                if q != '0':
                    out[pos[('v', q)]] -= cur
            return out
        res = A.dot(xs) - u + inj(xs)
        J = np.zeros(A.shape)
        h = 1e-6
        for j in range(len(names)):
            d = np.zeros(len(names))
            d[j] = h
            J[:, j] = (inj(xs + d) - inj(xs - d)) / (2 * h)
        try:
            corr = np.linalg.solve(A + J, res)
        except np.linalg.LinAlgError:
            continue
        isv = np.array([n[0] == 'v' for n in names])
        tol = np.where(isv, 1e-6 + 1e-3 * np.abs(xs), 2e-8 + 2e-3 * np.abs(xs) + 3e-8)
        ratio = np.abs(corr) / tol
        k = int(np.argmax(ratio))
        if best is None or ratio[k] < best[0]:
            best = (ratio[k], k, corr[k], res)
    if best is None:
        return 0., None
    return best[0], '%s = %.9g, the equations still ask for a change of %.3g (current balance off by %s A)' % (
        ref.label(names[best[1]]), xs[best[1]], best[2], np.array2string(np.abs(best[3]).max(), precision=3))


def make(ahkab, lin, els, where):
    c = ahkab.Circuit('t')
    if where == 'mid':
        ref.build(ahkab, lin[:4], circ=c)
    elif where == 'last':
        ref.build(ahkab, lin, circ=c)
    for i, e in enumerate(els):
        nl_add(ahkab, c, e, i)
    if where == 'mid':
        ref.build(ahkab, lin[4:], circ=c)
    elif where == 'first':
        ref.build(ahkab, lin, circ=c)
    elif where == 'rev':
        ref.build(ahkab, lin[::-1], circ=c)
    return c


def solve(ahkab, c, names, sparse, guess, x0):
    from ahkab import dc_analysis, options
    options.dc_max_nr_iter = 400
    old = options.dense_matrix_limit
    if sparse:
        options.dense_matrix_limit = 0
    try:
        op = dc_analysis.op_analysis(c, x0=x0, guess=guess, outfile='op', verbose=0)
    finally:
        options.dense_matrix_limit = old
    if op is None:
        return None
    return np.array([float(op[ref.label(n)][0][0]) for n in names])


def one(case, ctr):
    els, bias, extra, ways = case
    ahkab = core.boot()
    lin = lin_of(bias[0], bias[1], extra)
    names, A, B, feed = ref.matrices(lin)
    unique = all(e[0] == 'D' for e in els)
    first = None
    for where, sparse, guess, x0k in ways:
        c = make(ahkab, lin, els, where)
        x0 = None
        if x0k is not None:
            x0 = np.full((len(names), 1), float(x0k))
        x = solve(ahkab, c, names, sparse, guess, x0)
        ctr.add('searches')
        if x is None:
            ctr.add('no_solution')
            continue
        how = 'devices %s, %s solver, guess %s, start %s' % (where, 'sparse' if sparse else 'dense', guess, x0k)
        ratio, msg = judge(lin, els, x, names, A, feed)
        ek = 'ekv' if any(e[0] == 'E' for e in els) else 'other'
        ctr.maximum('correction_over_tolerance_' + ek, ratio)
        if ratio > 1:
            raise core.Disagreement('%s: %s' % (how, msg))
        ctr.add('reported')
        ctr.seen('states', (els, bias, [round(v, 7) for v in x]))
        for e in els:
            ctr.seen('kinds', e[0] + str(e[5] if e[0] in 'QE' else ''))
        if unique:
            if first is None:
                first = x, how
            else:
                d = np.abs(x - first[0])
                isv = np.array([n[0] == 'v' for n in names])
                tol = np.where(isv, 2e-6 + 2e-3 * np.abs(x), 1e-7 + 4e-3 * np.abs(x))
                if (d > 3 * tol).any():
                    k = int(np.argmax(d / tol))
                    raise core.Disagreement('%s = %.9g (%s) but %.9g (%s)' % (
                        ref.label(names[k]), first[0][k], first[1], x[k], how))
                ctr.add('same_solution')


def order_one(case, ctr):
    """One device: every position of every element, the same solution."""
    els, bias = case
    ahkab = core.boot()
    lin = lin_of(bias[0], bias[1], ())
    names, A, B, feed = ref.matrices(lin)
    base = None
    n = len(lin)
    perms = [list(range(n))] + [list(range(n))[k:] + list(range(n))[:k] for k in range(1, n)] + \
            [list(range(n))[::-1]]
    for perm in perms:
        for at in (0, 3, n):
            c = ahkab.Circuit('t')
            ref.build(ahkab, [lin[i] for i in perm[:at]], circ=c)
            for i, e in enumerate(els):
                nl_add(ahkab, c, e, i)
            ref.build(ahkab, [lin[i] for i in perm[at:]], circ=c)
            x = solve(ahkab, c, names, False, True, None)
            ctr.add('searches')
            if x is None:
                ctr.add('no_solution')
                continue
            ctr.add('reported')
            ratio, msg = judge(lin, els, x, names, A, feed)
            if ratio > 1:
                raise core.Disagreement('order %s, devices at %d: %s' % (perm, at, msg))
            if base is None:
                base = x, (perm, at)
                continue
            isv = np.array([m[0] == 'v' for m in names])
            tol = np.where(isv, 2e-6 + 2e-3 * np.abs(x), 1e-7 + 4e-3 * np.abs(x))
            d = np.abs(x - base[0])
            if (d > 3 * tol).any():
                k = int(np.argmax(d / tol))
                raise core.Disagreement('%s = %.9g with the elements in order %s, %.9g in order %s' % (
                    ref.label(names[k]), base[0][k], base[1], x[k], (perm, at)))
            ctr.add('orders')


WAYS = [('mid', False, True, None), ('last', False, False, None), ('first', True, True, None),
        ('rev', False, True, .5), ('mid', True, False, -1.)]
WAYS_T = WAYS + [('last', True, True, 5.), ('first', False, False, 5.), ('rev', True, False, None),
                 ('mid', False, True, -3.)]
BIAS = [(3., 1e-3), (-3., -1e-3), (0., 0.), (1., -5e-3)]


def cases(thorough):
    prs = [(p, q) for p in NLNODES for q in NLNODES if p != q]
    ds = [('D', p, q, m) for p, q in prs for m in (0, 1)]
    dd = [('D', p, 'x', m) for p in NLNODES for m in (0, 1)] + [('D', 'x', p, m) for p in NLNODES for m in (0, 1)]
    mos = [(k, d, g, s, b, t) for k in 'QE' for t in (0, 1) for d in NLNODES
           for g in ('s', '0', 'a', 'b') for s in NLNODES for b in ('0', 's', 'a') if d != s]
    sws = [('S', p, q, x, y) for p, q in prs for x, y in (('s', '0'), ('a', '0'), ('0', 's'), ('b', 'a'), ('a', 'b'))]
    X = (('R', 'RX', 'x', '0', 300),)
    X2 = (('R', 'RX', 'x', 's', 1e4),)
    out = []
    W = WAYS_T if thorough else WAYS
    for e in ds + mos + sws:
        for b in BIAS:
            out.append(((e,), b, (), W if e[0] == 'D' or thorough else W[:3]))
    for e in ds:
        for f in ds + mos[::(2 if thorough else 9)] + sws[::(1 if thorough else 3)]:
            for b in BIAS[:(4 if thorough else 2)]:
                out.append(((e, f), b, (), W if f[0] == 'D' else W[:2]))
    for e in dd:
        for f in ds if thorough else ds[::2]:
            for x in (X, X2):
                for b in BIAS[:(4 if thorough else 2)]:
                    out.append(((e, f), b, x, W))
    for e in dd:                      # series diodes: a node between two devices
        for f in dd:
            for x in (X, X2, ()):
                for b in BIAS[:2]:
                    if x == () and e[1:3] == f[1:3]:
                        continue
                    if x == ():
                        x = (('R', 'RX', 'x', '0', 1e6),)
                    out.append(((e, f), b, x, W[:3]))
    st = 5 if thorough else 17
    for e in mos[::st]:
        for f in mos[::st]:
            out.append(((e, f), BIAS[0], (), W[:2]))
    if thorough:
        for t in itertools.product(ds[::2], repeat=3):
            out.append((t, BIAS[0], (), W))
        for e in mos[::11]:
            for f in mos[::7]:
                for g in ds[::3]:
                    out.append(((e, f, g), BIAS[0], (), W[:2]))
    return out


def order_cases(thorough):
    prs = [(p, q) for p in NLNODES for q in NLNODES if p != q]
    out = []
    for b in BIAS if thorough else BIAS[:2]:
        for p, q in prs:
            for m in (0, 1):
                out.append(((('D', p, q, m),), b))
        for (p, q), (p2, q2) in itertools.product(prs, prs):
            out.append(((('D', p, q, 0), ('D', p2, q2, 1)), b))
        for k in 'QE':
            for t in (0, 1):
                for d, s in prs:
                    for g in ('s', '0'):
                        out.append((((k, d, g, s, '0', t),), b))
    return out


def key(case):
    return repr(case[:3])


def run(chk):
    chk.explore(one, cases(chk.thorough), limit=60, keyfn=key)
    chk.explore(order_one, order_cases(chk.thorough), limit=60, keyfn=key)
    for n, m in (('reported', 2500), ('same_solution', 500), ('orders', 800), ('kinds', 6)):
        chk.require(n, m)
    chk.assumptions += ['a point is accepted when the Newton correction still due, with independently '
                        'written device equations, is within the solver tolerances',
                        'circuits for which no solution is reported are counted, not judged',
                        'independence from the start is judged for diode circuits, whose equations are '
                        'monotone and so have a single solution']
    return chk.finish('states', 'searches', 'reported',
                      'one device of each kind in every connection of a resistive backbone, pairs '
                      '(thorough: triples), at several bias points, devices before, between and after the '
                      'other elements, dense and sparse solver, with and without guess, several starts')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
