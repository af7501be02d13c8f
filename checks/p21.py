"""P21: poles and zeros are the finite roots of the circuit's characteristic
polynomial and of the numerator of the transfer function (every circuit of a
bounded grammar x input x output port x shift x way of asking)."""
import itertools
import sys
from fractions import Fraction

import numpy as np

from vlib import core, gram, ref
from checks.p03 import nl_add, NLNODES

PID = 'P21'
TWOPI = 2 * np.pi

BACKS = {
    # a driven resistive ladder
    'lad': [('V', 'V1', 's', '0', 3, None, None), ('R', 'R1', 's', 'a', 2),
            ('R', 'R2', 'a', 'b', 3), ('R', 'R3', 'b', '0', 4)],
    # a ladder with states, a second source with a similar name
    'rc': [('V', 'V10', 's', '0', 3, None, None), ('R', 'R1', 's', 'a', 2), ('C', 'C1', 'a', '0', 1, None),
           ('R', 'R2', 'a', 'b', 3), ('L', 'L1', 'b', 'c', 4, None), ('R', 'R3', 'c', '0', 1),
           ('V', 'V1', 'd', '0', 1, None, None), ('R', 'R4', 'd', 'b', 5)],
    # current driven, no resistor on b
    'cur': [('I', 'I1', '0', 'a', 3, None, None), ('R', 'R1', 'a', '0', 2), ('C', 'C1', 'a', 'b', 3, None),
            ('V', 'V1', 's', 'b', 0, None, None), ('R', 'R2', 's', '0', 2)],
    # lossless
    'lc': [('V', 'V1', 's', '0', 1, None, None), ('L', 'L1', 's', 'a', 1, None),
           ('C', 'C1', 'a', '0', 2, None), ('L', 'L2', 'a', 'b', 4, None), ('C', 'C2', 'b', '0', 1, None)],
}
SRC = {'lad': ('V1',), 'rc': ('V10', 'V1'), 'cur': ('I1', 'V1'), 'lc': ('V1',)}
OUT = {'lad': (('a',), ('b',), ('a', 'b'), ('s', 'b')),
       'rc': (('c',), ('a', 'c'), ('b',)),
       'cur': (('b',), ('a', 's'), ('a',)), 'lc': (('b',), ('b', 'a'), ('s', 'b'))}


def det(M):
    """Determinant by elimination with exact arithmetic."""
    n = len(M)
    M = [list(r) for r in M]
    d = Fraction(1)
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            return Fraction(0)
        if p != c:
            M[c], M[p] = M[p], M[c]
            d = -d
        d *= M[c][c]
        for r in range(c + 1, n):
            f = M[r][c]
            if f:
                f = f / M[c][c]
                M[r] = [x - f * y if y else x for x, y in zip(M[r], M[c])]
    return d


def poly(mat, deg, s0):
    """Coefficients (lowest first) of det(mat(s0*s)), a polynomial of degree
    deg at most, from its values at deg+1 integers."""
    xs = [Fraction(i) for i in range(deg + 1)]
    ys = [det(mat(x * s0)) for x in xs]
    out = [Fraction(0)] * (deg + 1)
    for i, xi in enumerate(xs):
        if ys[i] == 0:
            continue
        num, den = [Fraction(1)], Fraction(1)
        for j, xj in enumerate(xs):
            if i != j:
                num = [(num[k - 1] if k else 0) - (xj * num[k] if k < len(num) else 0)
                       for k in range(len(num) + 1)]
                den *= xi - xj
        for k, v in enumerate(num):
            out[k] += ys[i] / den * v
    while out and out[-1] == 0:
        out.pop()
    return out


def exact(names, A, B, feed, nreact, src, out, s0):
    """Characteristic polynomial and numerator polynomials, in s/s0."""
    pos = {n: i for i, n in enumerate(names)}
    N = len(names)
    at = lambda s: [[A[i][j] + s * B[i][j] if B[i][j] else A[i][j] for j in range(N)] for i in range(N)]
    D = poly(at, nreact, s0)
    if src is None:
        return D, None
    # the numerator as the determinant of the bordered matrix
    col = [Fraction(0)] * N
    for r, sg in feed[src]:
        col[r] += sg
    row = [Fraction(0)] * N
    for n, sg in zip(out, (1, -1)):
        if n != '0':
            row[pos[('v', n)]] += sg

    def bord(s):
        return [r + [c] for r, c in zip(at(s), col)] + [row + [Fraction(0)]]
    return D, poly(bord, nreact, s0)


def match(what, got_hz, coef, s0, ctr, key=None, tol=2e-6):
    got = np.array(got_hz, dtype=complex).ravel() * TWOPI / float(s0)
    n = max(len(coef) - 1, 0)
    if len(got) != n:
        raise core.Disagreement('%d %s reported (%s), there are %d' % (len(got), what, got, n), key=key)
    if n == 0:
        return
    lead = coef[-1]
    want = np.array([float(c / lead) for c in coef[::-1]])
    have = np.poly(got) if n else np.ones(1)
    # coefficient of degree k scales with the k-th power of the magnitudes
    sc = np.poly(-np.maximum(np.abs(np.roots(want)), 1e-2))
    err = np.abs(have - want) / np.maximum(np.abs(sc), 1e-9 * np.max(np.abs(sc)))
    ctr.maximum('coefficient error of ' + what, float(err.max()))
    if err.max() > tol:
        raise core.Disagreement('%s %s (x %g rad/s), the roots are %s' % (
            what, np.sort_complex(got), s0, np.sort_complex(np.roots(want))), key=key)


def scaled(d, zs, ws):
    """The same circuit at another impedance and frequency level."""
    o = []
    for e in d:
        e = list(e)
        if e[0] == 'R':
            e[4] = e[4] * zs
        elif e[0] == 'C':
            e[4] = Fraction(e[4]) / (zs * ws)
        elif e[0] == 'L':
            e[4] = Fraction(e[4]) * zs / ws
        elif e[0] == 'G':
            e[6] = Fraction(e[6]) / zs
        elif e[0] == 'H':
            e[5] = e[5] * zs
        o.append(tuple(e))
    return o


def desc_of(case):
    back, els, ks = case
    d = list(BACKS[back])
    for i, p in enumerate(els):
        d.insert(1 + 2 * i, gram.fix(gram.name(p, i)))
    ls = [e for e in d if e[0] == 'L']
    for n, (i, j, k) in enumerate(ks):
        if max(i, j) >= len(ls):
            return None
        d.append(('K', 'K%d' % n, ls[i][1], ls[j][1], k))
    return d


def one(case, ctr):
    circ, src, out, shift, how, lvl = case
    ahkab = core.boot()
    from ahkab import pz
    d = desc_of(circ)
    if d is None:
        return
    zs, ws = lvl
    d = scaled(d, zs, ws)
    ctr.seen('states', circ)
    hs = any(e[0] == 'H' for e in d)
    nre = sum(e[0] in 'CL' for e in d)
    names, A, B, feed = ref.system(d)
    s0 = Fraction(ws)
    D, Nm = exact(names, A, B, feed, nre, src, out if len(out) == 2 else out + ('0',), s0)
    if circ[2]:      # the mutual inductance is an irrational number, rounded
        D, Nm = clean(D), clean(Nm)
    if not D:
        ctr.add('singular')
        return
    c = ref.build(ahkab, d)
    port = 'V(%s)' % ','.join(out)
    ctr.add('transitions')
    try:
        r = ask(ahkab, pz, c, src, out, port, shift, how)
    except ValueError:
        if hs and not exact(*(ref.system(d, -1) + (nre, None, None, s0)))[0]:
            ctr.add('singular')     # with the opposite sign, see ccvs-output-sign
            return
        raise
    try:
        judge(r, D, Nm, s0, how, ctr)
    except core.Disagreement as e0:
        if not hs:
            raise
        names, A, B, feed = ref.system(d, -1)
        D2, N2 = exact(names, A, B, feed, nre, src, out if len(out) == 2 else out + ('0',), s0)
        if circ[2]:
            D2, N2 = clean(D2), clean(N2)
        if not D2:
            return
        try:
            judge(r, D2, N2, s0, how, ctr)
        except core.Disagreement:
            raise e0
        raise core.Disagreement('%s; right for the opposite sign of the current-controlled '
                                'voltage source' % e0, key='ccvs-output-sign')
    ctr.add('solved')
    ctr.seen('degrees', (len(D), len(Nm or ())))
    for e in d:
        ctr.seen('kinds', e[0])


def ask(ahkab, pz, c, src, out, port, shift, how):
    if how == 'func':
        r = pz.calculate_singularities(c, src, out if len(out) == 2 else out[0], shift=shift)
    elif how == 'label':
        r = pz.calculate_singularities(c, src, port, shift=shift, outfile='o')
    elif how == 'elem':
        e = [x for x in c if x.part_id == src][0]
        r = pz.calculate_singularities(c, e, port.lower(), shift=shift, outfile='o')
    elif how == 'run':
        r = ahkab.run(c, [ahkab.new_pz(src, port, shift=shift, x0=None, outfile='o')])['pz']
    elif how == 'poles':
        r = pz.calculate_poles(c)
    elif how == 'mna':
        from ahkab import dc_analysis
        r = pz.calculate_singularities(c, src, port, MNA=dc_analysis.generate_mna_and_N(c)[0],
                                       shift=shift, outfile='o')
    elif how == 'noport':
        r = ahkab.run(c, [ahkab.new_pz(src, None, x0=None, outfile='o')])['pz']
    else:
        raise ValueError(how)
    return r


def judge(r, D, Nm, s0, how, ctr):
    match('poles', r.poles, D, s0, ctr)
    if how in ('poles', 'noport'):
        if len(np.ravel(r.zeros)):
            raise core.Disagreement('zeros %s although none were asked for' % (r.zeros,))
        Nm = None
    else:
        match('zeros', r.zeros, Nm, s0, ctr)
    want = {}
    for i, p in enumerate(np.ravel(r.poles)):
        want['p%d' % i] = p
    for i, p in enumerate(np.ravel(r.zeros)):
        want['z%d' % i] = p
    if sorted(r.keys()) != sorted(want):
        raise core.Disagreement('names %s for %s' % (list(r.keys()), sorted(want)))
    for k, v in want.items():
        if complex(r[k]) != complex(v) or complex(r[k.upper()]) != complex(v):
            raise core.Disagreement('item %s is %r, expected %r' % (k, r[k], v))


def key(case):
    if case[0] == 'nl':
        return repr(case)
    d = desc_of(case[0])
    return '%s | in %s out %s shift %g %s level %r' % ((gram.text(d),) + case[1:])


def cases(thorough):
    L1 = (1, 1)

    def circuits():
        al = gram.alphabet(ctrl='few', kinds='RCGLEVI', orient=True) + \
            gram.alphabet(kinds='FH', sens=('V1',), orient=True)
        red = gram.alphabet(ctrl='one', kinds='CGLE', orient=False) + \
            gram.alphabet(kinds='HF', sens=('V1',), orient=False)
        al2 = gram.alphabet(vals=3, ctrl='one', kinds='RCLG', orient=False)
        for b in BACKS:
            yield (b, (), ())
            for p in al:
                yield (b, (p,), ())
                for k in ((0, 1, .5), (1, 0, -.3), (0, 1, 1.)):
                    if k[2] == 1. and (b != 'lc' or p[0] == 'L'):
                        continue     # a perfect coupling must be exact in floating point
                    if p[0] == 'L' or b == 'lc':
                        yield (b, (p,), (k,))
            for p in (al if thorough else red):
                for q in (al2 + red if thorough else al2):
                    yield (b, (p, q), ())
                    if p[0] == q[0] == 'L':
                        yield (b, (p, q), ((0, 1, .5),))
            if thorough:
                for p in red:
                    for q in al2:
                        for r in red:
                            if r[0] in 'CLGE':
                                yield (b, (p, q, r), ())
            ll = [('L', p, q, v) for p, q in (('a', '0'), ('0', 'b'), ('b', 'a')) for v in (1, 4)]
            for t in itertools.permutations(ll, 3):
                yield (b, t, ((0, 1, .5), (1, 2, .25), (2, 0, -.5)))

    def gen():
        hows = ('func', 'label', 'elem', 'run', 'mna')
        shifts = (0., .37, 0., 40.)
        levels = (L1, (1000, 10 ** 6), L1, (Fraction(1, 10), 10 ** 9))
        n = 0
        for cc in circuits():
            for src in SRC[cc[0]]:
                for out in OUT[cc[0]]:
                    n += 1
                    lvl = levels[n % 4] if not cc[2] or cc[2][0][2] != 1. else L1
                    yield (cc, src, out, shifts[n // 4 % 4] * lvl[1], hows[n // 3 % 5], lvl)
            yield (cc, SRC[cc[0]][0], OUT[cc[0]][0], 0., ('poles', 'noport')[n % 2], L1)
        for b in BACKS:       # everything that can be asked, on a few circuits
            for els in ((), (('C', 'a', '0', 2), ('L', 'b', '0', 1)), (('E', 'a', '0', 'b', '0', 3),),
                        (('C', 'a', 'b', 1), ('C', '0', 'b', 2))):
                for src in SRC[b]:
                    for out in OUT[b]:
                        for sh in (0., .01, .1, 1., 10., 100.):
                            for how in hows:
                                for lvl in levels[1:]:
                                    yield ((b, els, ()), src, out, sh * lvl[1], how, lvl)
    return gen


# -- non-linear circuits, linearized in their operating point -----------------
def nl_one(case, ctr):
    _, els, x0k, how = case
    ahkab = core.boot()
    from ahkab import dc_analysis, options, pz
    options.dc_max_nr_iter = 200      # this process is this check's own worker
    options.use_gmin_stepping = options.use_source_stepping = False
    c = ahkab.Circuit('t')
    lin = [('R', 'R1', 'a', '0', 400), ('R', 'R2', 'a', 'b', 200), ('R', 'R3', 'b', '0', 800),
           ('V', 'VS', 's', '0', 3, None, None), ('R', 'R4', 's', 'a', 500),
           ('C', 'C5', 'a', '0', 1e-6, None), ('C', 'C6', 'b', '0', 5e-7, None), ('C', 'C7', 'a', 'b', 2e-7, None)]
    ref.build(ahkab, lin[:4], circ=c)
    for i, e in enumerate(els):
        nl_add(ahkab, c, e, i)
    ref.build(ahkab, lin[4:], circ=c)
    names, A, B, feed = ref.matrices(lin)
    pos = {n: i for i, n in enumerate(names)}
    byint = {i: (pos[('v', n)] if n != '0' else None)
             for i, n in c.nodes_dict.items() if isinstance(i, int)}
    ctr.add('nl_runs')
    if x0k == 'op':
        x0 = dc_analysis.op_analysis(c, verbose=0)
        if x0 is None:
            ctr.add('nl_failed')
            return
        x = np.array([float(x0[ref.label(n)]) for n in names])
    else:
        x0 = np.array([[.3 + .2 * i] for i in range(len(names))])
        x = None
    if x is None:            # an array follows the circuit's own order of variables
        x = np.zeros(len(names))
        nn = c.get_nodes_number()
        for i in range(1, nn):
            x[byint[i]] = x0[i - 1, 0]
    N = len(names)
    J = np.zeros((N, N))
    v = lambda n, z: 0. if byint[n] is None else z[byint[n]]
    for el in c:
        if not el.is_nonlinear:
            continue
        (op_, on), = el.get_output_ports()
        ports = el.get_drive_ports(0)

        def cur(z):
            w = [np.float64(v(p, z) - v(q, z)) for p, q in ports]
            return float(np.array(el.istamp(w, 0, reduced=False)[1]).reshape(-1)[0]) \
                if hasattr(el, 'istamp') else float(el.i(0, w, 0))
        if hasattr(el, 'ekv_model'):    # approximate by design, see P09: take its own
            w = [np.float64(v(p, x) - v(q, x)) for p, q in ports]
            for k, (p, q) in enumerate(ports):
                g = float(el.g(0, w, k, 0))
                for n, sg in ((op_, 1), (on, -1)):
                    for m, sm in ((p, 1), (q, -1)):
                        if byint[n] is not None and byint[m] is not None:
                            J[byint[n], byint[m]] += sg * sm * g
            continue
        for j in range(N):
            dd = np.zeros(N)
            dd[j] = 1e-6
            g = (cur(x + dd) - cur(x - dd)) / 2e-6
            for n, sg in ((op_, 1), (on, -1)):
                if byint[n] is not None:
                    J[byint[n], j] += sg * g
    Af = [[Fraction(float(y)) for y in r] for r in A + J]
    Bf = [[Fraction(float(y)) for y in r] for r in B]
    s0 = Fraction(10000)
    D, Nm = exact(names, Af, Bf, feed, 3, 'VS', ('b', 'a'), s0)
    if not D:
        return
    if how == 'func':
        r = pz.calculate_singularities(c, 'VS', ('b', 'a'), x0=x0, outfile='o')
    else:
        if x0k == 'op':
            if 'latest' in how:
                r = ahkab.run(c, [ahkab.new_op(outfile='o', x0=None), ahkab.new_pz('VS', ('b', 'a'), outfile='o')])['pz']
            else:
                r = ahkab.run(c, [ahkab.new_pz('VS', 'V(b,a)', x0=x0, outfile='o')])['pz']
        else:
            return
    D = clean(D)
    Nm = clean(Nm)
    match('poles', r.poles, D, s0, ctr, tol=2e-3)
    match('zeros', r.zeros, Nm, s0, ctr, tol=2e-3)
    ctr.add('nl_solved')
    for e in els:
        ctr.seen('kinds', 'nl' + e[0])


def clean(q):
    """Drop leading coefficients which are numerical noise of the values."""
    if q is None:
        return None
    m = max(abs(k) for k in q) if q else 0
    q = list(q)
    while q and abs(q[-1]) < m * Fraction(1, 10 ** 9):
        q.pop()
    return q


def nl_cases(thorough):
    prs = [(p, q) for p in NLNODES for q in NLNODES if p != q]
    ds = [('D', p, q, m) for p, q in prs for m in (0, 1)]
    mos = [(k, d, g, s, b, t) for k in 'QE' for t in (0, 1)
           for d in NLNODES for g in ('s', '0', 'a') for s in NLNODES for b in ('0', 's') if d != s]

    def gen():
        for e in ds + mos:
            for x0k in ('op', 'arr'):
                yield ('nl', (e,), x0k, 'func')
            yield ('nl', (e,), 'op', 'run')
            yield ('nl', (e,), 'op', 'run latest')
        for e in ds:
            for f in ds + mos[::(1 if thorough else 9)]:
                yield ('nl', (e, f), 'op', 'func')
    return gen


def run(chk):
    chk.explore(one, cases(chk.thorough), limit=60, keyfn=key)
    chk.explore(nl_one, nl_cases(chk.thorough), limit=60, keyfn=key)
    chk.require('solved', 5000)
    chk.require('kinds', 11)
    chk.require('degrees', 12)
    chk.require('nl_solved', 300)
    chk.assumptions += [
        'element values of order 1 at three impedance and frequency levels; frequencies in Hz',
        'poles are all natural frequencies, cancelling pole-zero pairs appear in both lists; no '
        'zeros when the transfer function is identically zero',
        'circuits whose equations are singular at every frequency are not judged',
        'non-linear circuits: slopes by central differences of the device current, 2e-3']
    return chk.finish('states', 'transitions', 'solved',
                      'every circuit of the grammar x input x output port, walking through shift, way of '
                      'asking and level; roots compared as monic polynomials with exact rational '
                      'determinants of an independent model')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
