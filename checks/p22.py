"""P22: symbolic solutions, with values put in for the symbols, are the solutions of
the circuit equations (every circuit of a bounded grammar, every subset of numeric
elements and substitutions of a list, transfer functions with gains and roots)."""
import itertools
import sys
from fractions import Fraction

import numpy as np

from vlib import core, gram, ref

PID = 'P22'
BACK = [('V', 'VS', 's', '0', 7), ('R', 'R1', 's', 'a', 5), ('R', 'R2', 'a', 'b', 2), ('R', 'R3', 'b', '0', 11)]
POINTS = (Fraction(3, 7) + 0, Fraction(-2, 5))


def desc_of(front, back, ks=()):
    d = [gram.fix(gram.name(p, i)) for i, p in enumerate(front)]
    d += [gram.fix(e) for e in BACK]
    d += [gram.fix(gram.name(p, 5 + i)) for i, p in enumerate(back)]
    ls = [e[1] for e in d if e[0] == 'L']
    for n, (i, j, k) in enumerate(ks):
        if max(i, j) < len(ls):
            d.append(('K', 'K%d' % n, ls[i], ls[j], k))
    return d


def value(e, byname):
    if e[0] == 'K':         # the symbol of a coupling stands for the mutual inductance
        return float(e[4]) * (float(byname[e[2]][4]) * float(byname[e[3]][4])) ** .5
    return float({'R': e[4], 'C': e[4], 'L': e[4], 'V': e[4], 'I': e[4], 'E': e[-1], 'G': e[-1], 'F': e[-1],
                  'H': e[-1]}[e[0]])


def matrices(desc, ac, hsign):
    names, A, B, feed = ref.matrices(desc, hsign)
    if not ac:
        B = B * 0.
    return names, A, B, feed


def solve(desc, s, ac, hsign, src=None):
    """{name: value} (src: the response to this source alone, set to one)."""
    names, A, B, feed = matrices(desc, ac, hsign)
    M = A + s * B
    if np.linalg.cond(M) > 1e9:
        return None
    val = (lambda e: e[4]) if src is None else (lambda e: 1. if e[1] == src else 0.)
    u = ref.vector(desc, names, feed, val, complex)
    return dict(zip(names, np.linalg.solve(M, u)))


def label(u):
    return ('V%s' % u[1]).upper() if u[0] == 'v' else ('I[%s]' % u[1]).upper()


def evaluate(expr, vals, s):
    """The number the expression stands for."""
    import sympy
    syms = list(expr.free_symbols) if isinstance(expr, sympy.Basic) else []
    arg = []
    for x in syms:
        if str(x) == 's':
            arg.append(complex(s))
        elif str(x).upper() in vals:
            arg.append(complex(vals[str(x).upper()]))
        else:
            raise core.Disagreement('the solution contains %s' % x)
    if not syms:
        return complex(expr)
    f = sympy.lambdify([sympy.Symbol('q%d' % i) for i in range(len(syms))],
                       expr.xreplace({x: sympy.Symbol('q%d' % i) for i, x in enumerate(syms)}), 'numpy')
    return complex(f(*arg))


def roots_ref(desc, src, u, ac, hsign):
    """(distinct poles, distinct zeros, known) of the transfer function in lowest terms."""
    import sympy
    names, A, B, feed = ref.system(desc, hsign)
    n = len(names)
    x = sympy.Symbol('x')
    S = lambda v: sympy.Rational(v.numerator, v.denominator)
    M = sympy.Matrix(n, n, lambda i, j: S(A[i][j]) + (S(B[i][j]) * x if ac else 0))
    uu = sympy.Matrix(n, 1, [0] * n)
    for r, sg in feed[src]:
        uu[r] += sg
    den = sympy.Poly(M.det(method='berkowitz'), x, domain='QQ')
    Mi = M.copy()
    Mi[:, names.index(u)] = uu
    num = sympy.Poly(Mi.det(method='berkowitz'), x, domain='QQ')
    if den.is_zero:
        return None
    g = sympy.gcd(num, den) if not num.is_zero else den
    num, den = sympy.div(num, g)[0], sympy.div(den, g)[0]
    rt = lambda p: [complex(r) for r in sympy.Poly(p, x).sqf_part().nroots()] if p.degree() > 0 else []
    return rt(den), rt(num)


def wrong_roots(P, Z, rP, rZ):
    """A common factor of the two polynomials may be left in, then it is reported twice."""
    has = lambda l, z: any(abs(z - w) <= 1e-6 * max(1., abs(z)) for w in l)
    return not (all(has(P, z) for z in rP) and all(has(Z, z) for z in rZ)
                and all(has(rP, z) or has(Z, z) for z in P) and all(has(rZ, z) or has(P, z) for z in Z))


def effective(desc, subs):
    """The circuit after the substitutions."""
    byname = {e[1]: e for e in desc}
    eff = list(desc)
    for a, b in subs or ():
        vb = byname[b]
        eff = [e if e[1] != a else (e[:4] + (vb[4],) + e[5:] if e[0] in 'RCLVI' else e[:-1] + (vb[-1],)) for e in eff]
    return eff


def judge(desc, cfg, hsign, r, tfs, ctr):
    """None or what differs."""
    ac, numeric, subs, gs, src = cfg
    eff = effective(desc, subs)
    effname = {e[1]: e for e in eff}
    vals = {e[1].upper(): value(e, effname) for e in eff}
    for s in (.3 + .7j, -1.1 + .2j):
        want = solve(eff, s, ac, hsign)
        if want is None:
            return 'singular'
        have = {str(k).upper() for k in r.keys()}
        if have != {label(u) for u in want}:
            return 'the variables are %s, expected %s' % (sorted(have), sorted(label(u) for u in want))
        scale = max(1., max(abs(v) for v in want.values()))
        for u, w in want.items():
            g = evaluate(r[label(u)], vals, s)
            if not abs(g - w) <= 1e-8 * scale:
                return '%s = %s is %r at s = %s, the circuit equations give %r' % (label(u), r[label(u)], g, s, w)
            ctr.add('values')
        if src is None:
            if tfs is not None:
                return 'a transfer function nobody asked for'
            continue
        want = solve(eff, s, ac, hsign, src)
        if tfs is None or len(tfs.keys()) != len(want):
            return 'the transfer functions are %s' % (None if tfs is None else tfs.keys())
        for u, w in want.items():
            t = tfs['%s/%s' % (label(u), src.upper())]
            g = evaluate(t['gain'], vals, s)
            if not abs(g - w) <= 1e-8 * max(1., abs(w)):
                return 'gain %s/%s = %s is %r, the circuit equations give %r' % (label(u), src, t['gain'], g, w)
            ctr.add('gains')
    if src is not None:
        low = solve(eff, 0., ac, hsign, src)
        for u in want:
            t = tfs['%s/%s' % (label(u), src.upper())]
            if low is not None:
                g = evaluate(t['gain0'], vals, 99.)
                if not abs(g - low[u]) <= 1e-8 * max(1., abs(low[u])):
                    return 'gain0 of %s/%s is %s = %r, expected %r' % (label(u), src, t['gain0'], g, low[u])
            rr = roots_ref(eff, src, u, ac, hsign)
            if rr is None:
                continue
            P, Z = ([evaluate(p, vals, 99.) for p in t[k]] for k in ('poles', 'zeros'))
            if wrong_roots(P, Z, *rr):
                return 'poles and zeros of %s/%s are %s = %s and %s = %s, expected %s' % (
                    label(u), src, t['poles'], P, t['zeros'], Z, rr)
            ctr.add('roots', len(P) + len(Z))
    return None


def one(case, ctr):
    circ_case, cfg = case
    ac, numeric, subs, gs, src = cfg
    ahkab = core.boot()
    from ahkab import options
    desc = desc_of(*circ_case)
    byname = {e[1]: e for e in desc}
    if any(n not in byname for n in (src,) if n) or any(n not in byname for p in subs or () for n in p):
        return
    if any(solve(effective(desc, z), .3 + .7j, ac, h) is None for z in ((), subs) for h in (1, -1)):
        ctr.add('singular_skipped')
        return
    c = ref.build(ahkab, desc)
    for e in c:
        if numeric == 'all' and e.part_id != src or e.part_id in numeric.split('+') or \
                numeric == 'back' and e.part_id in ('R1', 'R2', 'R3'):
            e.is_symbolic = False
    kw = {}
    if subs:
        kw['subs'] = dict(subs)
    before = dict(kw.get('subs', {}))
    options.symb_formulate_with_gs = gs
    try:
        r, tfs = ahkab.run(c, [ahkab.new_symbolic(src, ac_enable=ac, outfile='stdout' if gs else 'sym', **kw)])['symbolic']
    finally:
        options.symb_formulate_with_gs = False
    if before != kw.get('subs', {}):
        raise core.Disagreement('the substitutions passed were changed')
    ctr.add('solved')
    ctr.add('transitions', len(desc))
    bad = judge(desc, cfg, 1, r, tfs, ctr)
    if bad == 'singular':
        if any(e[0] == 'H' for e in desc):
            bad = judge(desc, cfg, -1, r, tfs, ctr)
        return
    if bad and any(e[0] == 'H' for e in desc) and judge(desc, cfg, -1, r, tfs, ctr) is None:
        raise core.Disagreement('a current-controlled voltage source imposes -alpha*I in symbolic solutions too: '
                                + bad, key='ccvs-output-sign')
    if bad:
        raise core.Disagreement(bad)
    for e in desc:
        ctr.seen('kinds', e[0])
    ctr.seen('states', (gram.text(desc), cfg))
    ctr.sample({'circuit': gram.text(desc), 'settings': repr(cfg)}, 1)


def key(case):
    d = desc_of(*case[0])
    return '%s @ %r' % (gram.text(d), case[1])


# -- names that could be mistaken for one another -----------------------------------
def names_one(case, ctr):
    _, nodes, src, kind = case
    ahkab = core.boot()
    a, b = nodes
    c = ahkab.Circuit('t')
    if kind == 'V':
        c.add_vsource(src, a, '0', 3.)
    else:
        c.add_isource(src, '0', a, 3.)
        c.add_resistor('R9', a, '0', 4.)
    c.add_resistor('R1', a, b, 2.)
    c.add_resistor('R2', b, '0', 6.)
    r, tfs = ahkab.run(c, [ahkab.new_symbolic(src, ac_enable=False, outfile='stdout')])['symbolic']
    ctr.add('transitions')
    ctr.add('names')
    va = 3. if kind == 'V' else 3. * 4 * 8 / 12.
    vals = {src.upper(): 3., 'R1': 2., 'R2': 6., 'R9': 4.}
    # no unknown may be left in a solution, whatever the symbols are called
    for k, w in (('V' + a, va), ('V' + b, va * .75)):
        if k.upper() not in [str(x).upper() for x in r.keys()]:
            raise core.Disagreement('no solution for %s: %s' % (k, dict(r.items())))
        g = evaluate(r[k], vals, 1.)
        if not abs(g - w) < 1e-9:
            raise core.Disagreement('%s = %s is %s, expected %s' % (k, r[k], g, w))
        g = evaluate(tfs['%s/%s' % (k.upper(), src.upper())]['gain'], vals, 1.)
        if not abs(g - w / 3.) < 1e-9:
            raise core.Disagreement('gain %s/%s is %s, expected %s' % (k, src, g, w / 3.))


def all_(case, ctr):
    if case[0] == 'names':
        names_one(case, ctr)
    else:
        one(case, ctr)


def allkey(case):
    return repr(case) if case[0] == 'names' else key(case)


PLAIN = (True, '', None, False, None)


def cases(thorough):
    A = gram.alphabet(0, loops=True, ctrl='all')
    B = gram.alphabet(4, loops=thorough, ctrl='one', orient=thorough)
    A1 = A if thorough else gram.alphabet(0, loops=True, ctrl='one')
    D = [p for p in B if p[0] in 'CL']
    D1 = [('C', 'a', '0', 2), ('L', 'b', '0', 3), ('C', 'a', 'b', 3), ('L', 'a', 'b', 5)]

    def gen():
        for nodes in itertools.product(('1', '2', 'x', 'S', 'in'), repeat=2):
            if nodes[0] != nodes[1]:
                for src in ('V1', 'V2', 'Vx', 'Vin', 'V9', 'VS'):
                    yield ('names', nodes, src, 'V')
                for src in ('I1', 'I2', 'IN'):
                    yield ('names', nodes, src, 'I')
        for p in A:
            new = gram.name(p, 5)[1]
            yield (((), (p,)), (True, '', None, False, None))
            yield (((p,), ()), (False, new, None, False, None))
            if p not in A1:
                continue
            for ac in (True, False):
                for numeric in ('', 'all', 'back', new):
                    yield (((), (p,)), (ac, numeric, None, False, None))
                yield (((p,), ()), (ac, '', None, False, None))
                yield (((p,), ()), (ac, '', None, True, None))
                yield (((), (p,)), (ac, '', (('R1', 'R2'), ('R3', 'R2')), True, 'VS'))
            yield (((), (p,)), (True, '', None, False, 'VS'))
            yield (((), (p,)), (True, 'all', None, False, 'VS'))
            if p[0] in 'VI':
                yield (((), (p,)), (True, '', None, False, new))
                yield (((), (p,)), (True, 'back', None, True, new))
                yield (((), (p,)), (True, '', ((new, 'VS'),) if p[0] == 'V' else (('R1', 'R3'),), False, None))
            if p[0] == 'R':
                yield (((), (p,)), (True, '', ((new, 'R1'),), False, 'VS'))
                yield (((), (p,)), (True, '', (('R2', new), ('R1', new)), False, None))
        # two of a kind, one put in for the other
        for k in 'CLEFGHIV':
            ps = [p for p in B if p[0] == k]
            for p, q in itertools.permutations(ps, 2):
                x, y = gram.name(p, 5)[1], gram.name(q, 6)[1]
                yield (((), (p, q)), (True, '', ((x, y),), False, None))
                yield (((), (p, q)), (True, y, None, False, None))
        # with a reactive element: order of frequency dependence, numbers mixed with symbols
        for p in B:
            for d in D1:
                yield (((p,), (d,)), PLAIN)
                yield (((p,), (d,)), (True, gram.name(p, 0)[1], None, False, 'VS'))
        # coupled inductors
        for l1, l2 in itertools.product([('L', 'a', '0', 2), ('L', 'b', 'a', 8), ('L', 'b', '0', 8), ('L', '0', 'b', 2)],
                                        repeat=2):
            for k in (Fraction(1, 2), Fraction(1, 4), Fraction(-1, 2)):
                for numeric in ('', 'K0', 'L5', 'all'):
                    if l1[3] * l2[3] in (4, 16, 64):
                        yield (((), (l1, l2), ((0, 1, k),)), (True, numeric, None, False, None))
                        if thorough or numeric == 'all' or (l1[2], l2[1]) == ('0', 'b') and k == Fraction(1, 2):
                            yield (((l1, l2), (), ((1, 0, k),)), (True, numeric, None, False, 'VS'))
                    yield (((), (l1, l2), ((0, 1, k),)), (False, numeric, None, False, None))
        for k1, k2 in itertools.product((Fraction(1, 4), Fraction(1, 3)), repeat=2):
            for sub in (None, (('K0', 'K1'),), (('K1', 'K0'),)):
                yield (((), (('L', 'a', '0', 4), ('L', 'b', '0', 4), ('L', 'a', 'b', 4)), ((0, 1, k1), (1, 2, k2))),
                       (True, '', sub, False, None))
        # several couplings of the same two inductors add up
        for ks in itertools.product((Fraction(1, 4), Fraction(-1, 4), Fraction(1, 6)), repeat=2 if not thorough else 3):
            for numeric in ('', 'all'):
                for ij in itertools.product(((0, 1), (1, 0)), repeat=2):
                    kk = tuple((i, j, k) for (i, j), k in zip(ij + ij[:1], ks))
                    yield (((), (('L', 'a', '0', 4), ('L', 'b', '0', 4)), kk), (True, numeric, None, False, None))
        if thorough:
            for p, q in itertools.product(A, B):
                yield (((p,), (q,)), PLAIN)
                yield (((q,), (p,)), (False, '', None, False, 'VS'))
            for p in B:
                for d, e in itertools.product(D1, repeat=2):
                    yield (((p,), (d, e)), (True, '', None, False, None))
            for p in A:
                for d in D1:
                    yield (((p,), (d,)), (True, '', None, False, 'VS'))
    return gen


def run(chk):
    chk.explore(all_, cases(chk.thorough), limit=120, keyfn=allkey)
    chk.require('solved', 1500)
    chk.require('kinds', 9)
    chk.require('values', 5000)
    chk.require('gains', 500)
    chk.require('roots', 200)
    chk.require('names', 100)
    chk.assumptions += [
        'the symbol of an inductor coupling stands for the mutual inductance',
        'element values of order 1 to 10, no two equal; two values of the Laplace variable',
        'elements declared numeric take part with their DC value',
        'circuits whose equations are singular for these values are not judged']
    return chk.finish('states', 'transitions', 'solved',
                      'every 1-element (thorough: 2-element) extension of a resistive backbone over R I C G F V L H E '
                      'with all control ports, x frequency dependence, numeric elements, formulation, place; pairs '
                      'with substitution; coupled inductors; transfer functions from every source')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
