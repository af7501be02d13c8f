"""P31: circuits without a solution, or without one of their own, are told
apart from the others by every analysis (every circuit of a bounded grammar,
classified by exact rank computations)."""
import contextlib
import io
import itertools
import sys
from fractions import Fraction

from vlib import core, ref

PID = 'P31'
NODES = ('0', 'a', 'b', 'c')
PAIRS = list(itertools.combinations(NODES, 2))
GMIN = Fraction(1, 10 ** 12)


def alphabet(active):
    out = [(k, p, q) for k in 'RCIVL' for p, q in PAIRS]
    if active:
        for k in 'EG':
            for p, q in PAIRS[:4]:
                for s in (('a', '0'), ('b', 'a')):
                    out.append((k, p, q) + s)
    return out


def desc_of(combo):
    d = []
    for i, e in enumerate(combo):
        k, name = e[0], '%s%d' % (e[0], i + 1)
        d.append({'R': lambda: (k, name) + e[1:] + (4 + i,),
                  'C': lambda: (k, name) + e[1:] + (2 + i, None),
                  'L': lambda: (k, name) + e[1:] + (3 + i, None),
                  'I': lambda: (k, name) + e[1:] + (2 + i, 1 + i),
                  'V': lambda: (k, name) + e[1:] + (3 + i, 2 + i),
                  'E': lambda: (k, name) + e[1:] + (3 + i,),
                  'G': lambda: (k, name) + e[1:] + (5 + i,)}[k]())
    return d


def rank(M):
    """Exact rank (fraction-free only in name: entries are Fractions)."""
    M = [r[:] for r in M]
    r = 0
    for c in range(len(M[0]) if M else 0):
        p = next((i for i in range(r, len(M)) if M[i][c] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        for i in range(r + 1, len(M)):
            if M[i][c] != 0:
                f = M[i][c] / M[r][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        r += 1
        if r == len(M):
            break
    return r


def classify(M, u, gm):
    """('unique'|'many'|'none', regular with Gmin?) for M x = u."""
    n = len(M)
    r = rank(M)
    if r == n:
        kind = 'unique'
    else:
        kind = 'many' if rank([row + [x] for row, x in zip(M, u)]) == r else 'none'
    return kind, rank(gm) == n


def with_gmin(M, names):
    M = [r[:] for r in M]
    for i in range(len(M)):
        if names[i % len(names)][0] == 'v':
            M[i][i] += GMIN
    return M


def residual(M, x, u):
    """Largest residual of M x = u relative to the terms of its row."""
    worst = 0.
    size = max([abs(y) for y in x] + [1.])*max([abs(complex(a)) for row in M for a in row])
    for row, b in zip(M, u):
        terms = [complex(a) * y for a, y in zip(row, x)]
        scale = max([abs(t) for t in terms] + [abs(float(b)), 1e-30])
        # a solver is accurate to the precision of the largest entries
        scale += 1e-5 * size
        worst = max(worst, abs(sum(terms) - float(b)) / scale)
    return worst


def run_quiet(f):
    o = io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o):
        try:
            r = f()
        except (Exception, SystemExit) as e:
            return None, o.getvalue(), e
    return r, o.getvalue(), None


def told(text):
    """Did the program say that something is wrong?"""
    return any(w in text for w in ('E: ', 'W: ', 'arning'))


def values(r, names, what=lambda v: v):
    return [what(r[ref.label(n)]) for n in names]


def static(case, ctr):
    """Operating point and AC analysis."""
    combo, dense = case
    ahkab = core.boot()
    from ahkab import dc_analysis, ac, options
    import numpy as np
    d = desc_of(combo)
    names, A, B, feed = ref.system(d)
    n = len(A)
    u = ref.rhs(d, names, feed, lambda e: e[4])
    kind, regular = classify(A, u, with_gmin(A, names))
    options.dense_matrix_limit = 400 if dense else 0
    ctr.add('circuits')
    ctr.add(kind + ('' if regular else '_even_with_gmin'))
    ctr.add('transitions', len(d))
    try:
        c = ref.build(ahkab, d)
        r, text, exc = run_quiet(lambda: dc_analysis.op_analysis(c, verbose=0))
        if exc is not None:
            raise core.Disagreement('operating point: %s: %s' % (type(exc).__name__, exc))
        if r is None and not regular:
            if not told(text):
                raise core.Disagreement('no operating point and no message')
            ctr.add('refused')
        elif r is None:
            raise core.Disagreement('no operating point, although there is one with Gmin')
        elif kind == 'none' and not regular and told(text) and \
                max(abs(float(r[k][0][0])) for k in r.keys()) > 1e9:
            ctr.add('almost_refused')       # by chance the computed matrix is not singular
        elif kind == 'none' and not regular:
            raise core.Disagreement('an operating point is given, although the equations have no solution, '
                                    'Gmin or not')
        else:
            x = values(r, names, lambda v: float(v[0][0]))
            own = residual(A, x, u)
            gm = residual(with_gmin(A, names), x, u)
            ctr.maximum('residual', min(own, gm))
            if not min(own, gm) < 1e-9:
                if not (told(text) and kind == 'none' and max(map(abs, x)) > 1e9):
                    raise core.Disagreement('the operating point satisfies the equations neither with Gmin '
                                            '(%.1e) nor without (%.1e)' % (gm, own))
            if kind == 'unique':
                if r.gmin != 0 or not own < 1e-9:
                    raise core.Disagreement('the equations have a unique solution, but the '
                                            'one with Gmin is given')
                if told(text):
                    raise core.Disagreement('regular circuit, but: %r' % text[:80])
                ctr.add('solved')
            elif kind == 'none':
                if not told(text):
                    raise core.Disagreement('an operating point is given without a word, although the '
                                            'equations have no solution')
                ctr.add('warned')
            else:
                if not told(text) and not own < 1e-9:
                    raise core.Disagreement('the Gmin solution is given without a word, although the '
                                            'equations have many solutions')
                ctr.add('chosen')
        # ground paths
        _, text, exc = run_quiet(lambda: dc_analysis.generate_mna_and_N(c, verbose=3))
        said = sorted(l.split()[-1] for l in text.splitlines() if 'No path to ground' in l)
        if exc is None and not any(e[0] in 'EG' for e in d):
            isolated = sorted(m[1] for m in names if m[0] == 'v' and
                              all(e[0] in 'CI' for e in d if m[1] in e[2:4]))
            if said != isolated:
                raise core.Disagreement('No path to ground from %s is reported, %s have only capacitors '
                                        'and current sources' % (said, isolated))
            ctr.add('paths')
        # AC at two frequencies, w = 1 and 2
        r, text, exc = run_quiet(lambda: ac.ac_analysis(c, .5 / np.pi, 2, 1 / np.pi, 'LIN', x0=None,
                                                        verbose=0, outfile='ac'))
        if exc is not None:
            raise core.Disagreement('AC: %s: %s' % (type(exc).__name__, exc))
        ua = [Fraction(v) for v in ref.rhs(d, names, feed, lambda e: e[5])] + [Fraction(0)] * n
        mats = []
        # the parasitic capacitor (options.cmin) from every node to ground
        B = [[v + (Fraction(1, 10 ** 18) if i == j and names[i][0] == 'v' else 0)
              for j, v in enumerate(row)] for i, row in enumerate(B)]
        for w in (1, 2):
            M = [A[i] + [-w * v for v in B[i]] for i in range(n)] + \
                [[w * v for v in B[i]] + A[i] for i in range(n)]
            mats.append(with_gmin(M, names))
        good = all([rank(M) == 2 * n for M in mats])
        if r is None and not good:
            if not told(text):
                raise core.Disagreement('no AC solution and no message')
            ctr.add('ac_refused')
        elif r is None:
            raise core.Disagreement('no AC solution, although there is one')
        elif not good and not all([rank([row + [b] for row, b in zip(M, ua)]) == rank(M) for M in mats]):
            big = max(abs(complex(v)) for k in r.keys() for v in r[k])
            if big > 1e9 and any(e[0] in 'CEG' for e in d):
                raise core.Disagreement(
                    'an AC solution with currents of %.0e A is given without a word, although the equations have '
                    'none: by the rounding of the terms of an element the computed matrix is not exactly singular'
                    % big, key='ac-rounded-singular')
            raise core.Disagreement('an AC solution is given, although the equations have none')
        else:
            for j, M in enumerate(mats):
                x = values(r, names, lambda v: complex(v[j]))
                res = residual([[complex(M[i][k], M[i + n][k]) for k in range(n)] for i in range(n)], x, ua)
                ctr.maximum('ac_residual', res)
                if not res < 1e-9:
                    raise core.Disagreement('the AC solution does not satisfy the equations (%.1e)' % res)
            ctr.add('ac_solved')
    finally:
        options.dense_matrix_limit = 400
    ctr.seen('states', (kind, regular, [m for m in names], [str(v) for row in A for v in row]))
    ctr.sample({'circuit': [' '.join(map(str, e)) for e in d], 'class': kind,
                'regular with Gmin': regular}, 1)


def others(case, ctr):
    """DC sweep, transient, PSS, pz and symbolic analyses of circuits for
    which no value of the node voltages and currents does."""
    combo, an, dense = case
    ahkab = core.boot()
    from ahkab import options
    d = desc_of(combo)
    names, A, B, feed = ref.system(d)
    u = ref.rhs(d, names, feed, lambda e: e[4])
    n = len(A)
    kind, regular = classify(A, u, with_gmin(A, names))
    # the equations at any time step: A + B/h, for a generic h
    M = [[a + b * Fraction(7919, 13) for a, b in zip(r, s)] for r, s in zip(A, B)]
    tkind, tregular = classify(M, u, with_gmin(M, names))
    src = [e[1] for e in d if e[0] in 'VI']
    if an == 'symbolic':
        wanted = tkind == 'none'
    elif an == 'dc':
        wanted = kind == 'none' and not regular
    elif an == 'op':
        wanted = kind == 'none' and not regular
    else:
        wanted = tkind == 'none' and not tregular
    if not wanted or not src:
        ctr.add('other_class')
        return
    fn = {'op': lambda: ahkab.new_op(verbose=0),
          'dc': lambda: ahkab.new_dc(1., 2., 3, src[-1], sweep_type='LINEAR', verbose=0, outfile='o'),
          'tran': lambda: ahkab.new_tran(0, 1., .1, x0=None, verbose=0, outfile='o'),
          'tran-op': lambda: ahkab.new_tran(0, 1., .1, x0='op', verbose=0, outfile='o'),
          'pz': lambda: ahkab.new_pz(src[-1], ('a', '0'), verbose=0, x0=None, outfile='o'),
          'shooting': lambda: ahkab.new_pss(1., x0=None, points=10, method='shooting', verbose=0, outfile='o'),
          'brute-force': lambda: ahkab.new_pss(1., x0=None, points=10, method='brute-force', verbose=0,
                                               outfile='o'),
          'symbolic': lambda: ahkab.new_symbolic(verbose=0, outfile='o')}
    c = ref.build(ahkab, d)
    options.dense_matrix_limit = 400 if dense else 0
    try:
        ans = [fn[an]()] if an != 'tran-op' else [fn['op'](), fn[an]()]
        r, text, exc = run_quiet(lambda: ahkab.run(c, ans))
    finally:
        options.dense_matrix_limit = 400
    ctr.add('other_analyses')
    ctr.seen('analyses', an)
    ctr.add('transitions', len(d))
    if exc is not None:
        ctr.add('raised')
        return
    got = list(r.values())[0] if len(r) == 1 else r['tran']
    if isinstance(got, tuple):
        got = got[0]
    if got is not None and an == 'symbolic':
        got = dict(got.items()) or None
    if an == 'dc' and got is not None and got.asarray().shape[1] == 0:
        got = None
    if an == 'pz' and got is not None and not got.asarray().size:
        got = None      # no singularities are claimed
    if got is not None:
        raise core.Disagreement('%s: a result is given, although the equations have no solution' % an)
    ctr.add('none_given')


def noref(case, ctr):
    """A circuit with no reference node is refused by every analysis."""
    combo, an, dense = case
    ahkab = core.boot()
    from ahkab import options
    d = desc_of(combo)
    d = [tuple('z' if x == '0' and j > 1 else x for j, x in enumerate(e)) for e in d]
    src = [e[1] for e in d if e[0] in 'VI']
    if not src:
        return
    fn = {'op': lambda: ahkab.new_op(verbose=0),
          'dc': lambda: ahkab.new_dc(1., 2., 3, src[-1], sweep_type='LINEAR', verbose=0, outfile='o'),
          'ac': lambda: ahkab.new_ac(1., 2., 2, x0=None, verbose=0, outfile='o'),
          'tran': lambda: ahkab.new_tran(0, 1., .1, x0=None, verbose=0, outfile='o'),
          'pz': lambda: ahkab.new_pz(src[-1], ('a', 'b'), verbose=0, x0=None, outfile='o'),
          'shooting': lambda: ahkab.new_pss(1., x0=None, points=10, method='shooting', verbose=0, outfile='o'),
          'brute-force': lambda: ahkab.new_pss(1., x0=None, points=10, method='brute-force', verbose=0,
                                               outfile='o')}[an]
    c = ref.build(ahkab, d)
    r, text, exc = run_quiet(lambda: ahkab.run(c, [fn()]))
    ctr.add('noref')
    if exc is None and list(r.values())[0] is not None:
        raise core.Disagreement('%s: a result is given for a circuit with no reference node' % an)
    ok, reason = ahkab.utilities.check_circuit(c)
    if ok:
        raise core.Disagreement('check_circuit finds nothing wrong with a circuit with no reference node')


def wanted(combo):
    """Touches ground; node names in order of first appearance."""
    seen = []
    for e in combo:
        for m in e[1:]:
            if m not in seen:
                seen.append(m)
    return '0' in seen


def canonical(combos):
    """One circuit for every renaming of the nodes."""
    done = set()
    for combo in combos:
        if not wanted(combo):
            continue
        used = sorted({m for e in combo for m in e[1:]} - {'0'})
        forms = []
        for perm in itertools.permutations('abc', len(used)):
            m = dict(zip(used, perm))
            m['0'] = '0'
            forms.append(tuple(sorted((e[0],) + (tuple(sorted(m[x] for x in e[1:3]))) +
                                      tuple(m[x] for x in e[3:]) for e in combo)))
        f = min(forms)
        if f not in done:
            done.add(f)
            yield combo


def key(case):
    return ' | '.join(' '.join(map(str, e)) for e in desc_of(case[0])) + \
        ''.join(' %s' % x for x in case[1:])


def run(chk):
    A, B = alphabet(False), alphabet(True)
    combs = itertools.combinations_with_replacement
    small = [c for n in (1, 2, 3) for c in combs(A, n) if wanted(c)]
    mixed = [c for c in combs(B, 3) if wanted(c) and any(e[0] in 'EG' for e in c)]
    four = canonical(combs(A, 4))
    five = canonical(combs([e for e in A if e[0] in 'RIV' or chk.thorough and e[0] != 'L'], 5)) \
        if chk.thorough else []
    chk.explore(static, [(c, True) for c in itertools.chain(small, mixed, four, five)] +
                [(c, False) for c in small[::1 if chk.thorough else 5]], 30, key, 10)
    base = [c for n in (2, 3) for c in combs(A, n) if wanted(c) and
            any(e[0] in 'VI' for e in c)]
    base = list(canonical(base))
    ans = ('op', 'dc', 'tran', 'tran-op', 'pz', 'shooting', 'brute-force')
    chk.explore(others, [(c, a, True) for c in base for a in ans] +
                [(c, a, False) for c in base for a in ans[:4]] +
                [(c, 'symbolic', True) for c in base], 60, key, 10)
    nor = [c for c in combs(A, 2) if wanted(c)]
    chk.explore(noref, [(c, a, True) for c in nor for a in ('op', 'dc', 'ac', 'tran', 'pz', 'shooting', 'brute-force')],
                60, key, 10)
    for k, m in (('unique', 1000), ('none', 1000), ('many', 1000), ('none_even_with_gmin', 200),
                 ('many_even_with_gmin', 100), ('refused', 300), ('warned', 1000), ('ac_refused', 100),
                 ('ac_solved', 1000), ('other_analyses', 100), ('noref', 1000), ('paths', 1000)):
        chk.require(k, m)
    chk.assumptions += [
        'which Gmin solution is given when there are many solutions is not judged, only that it satisfies '
        'the equations with Gmin on every node',
        'AC analysis always includes Gmin, as documented: circuits that have no solution without it are '
        'judged with it']
    return chk.finish('states', 'transitions', 'circuits',
                      'every circuit of up to three elements R, C, I, V, L over ground and three nodes (dense and '
                      'sparse solver), every one of three elements with VCVS and VCCS, every one of four elements up '
                      'to a renaming of the nodes (thorough: five), classified exactly by the rank of their equations '
                      'with and without Gmin; operating point and AC on all of them, DC sweep, transient, pole-zero, '
                      'steady state and symbolic analysis on those without a solution; every circuit of two elements '
                      'without a reference node by every analysis')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
