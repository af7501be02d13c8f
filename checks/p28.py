"""P28: the starting point of an operating point is the one the elements ask
for, and any starting point leads to the same operating point."""
import itertools
import sys

import numpy as np

from vlib import core, ref
from checks.p03 import nl_add
from checks.p08 import lin_of, make, BIAS, NLNODES

PID = 'P28'
NODES = ('0', 'a', 'b', 'c')
TYPES = {'D': 2, 'Q': 4, 'E': 4, 'S': 4, 'R': 2, 'V': 2, 'L': 2}


def value(k, j):
    """A suggestion that identifies who made it."""
    return round(.37 + .59 * k - .23 * j + .011 * k * j * j, 6)


def put(ahkab, c, e, k):
    t = e[0]
    n = e[1:]
    if t == 'R':
        c.add_resistor('R%d' % k, n[0], n[1], 1e3)
    elif t == 'V':
        c.add_vsource('V%d' % k, n[0], n[1], 1.)
    elif t == 'L':
        c.add_inductor('L%d' % k, n[0], n[1], 1e-3)
    elif t == 'D':
        nl_add(ahkab, c, ('D', n[0], n[1], 0), k)
    elif t in 'QE':
        nl_add(ahkab, c, (t,) + tuple(n) + (k % 2,), k)
    else:
        nl_add(ahkab, c, e, k)
    return c[-1]


def ports_of(e):
    """(plus, minus) for each suggestion the element makes."""
    t, n = e[0], e[1:]
    if t == 'Q':
        d, g, s, b = n
        return [(d, s), (g, s), (b, s)]
    if t == 'E':
        d, g, s, b = n
        return [(d, b), (g, b), (s, b)]
    if t == 'S':
        return [(n[0], n[1]), (n[2], n[3])]
    return [(n[0], n[1])]


def one(case, ctr):
    els, marked = case
    ahkab = core.boot()
    from ahkab import dc_guess
    c = ahkab.Circuit('t')
    asked = []           # first suggestion for each pair of nodes
    nonlinear = False
    currents = 0
    order = []
    if not any('0' in e for e in els):
        els = (('R', 'a', '0'),) + els
    for k, e in enumerate(els):
        for n in e[1:]:
            if n != '0' and n not in order:
                order.append(n)
        obj = put(ahkab, c, e, k)
        currents += e[0] in 'VL'
        nonlinear |= e[0] in 'DQES'
        ports = ports_of(e)
        if marked == 'own' and e[0] in 'DQES':
            g = [float(t) for t in obj.dc_guess]
            if len(g) != len(ports):
                raise core.Disagreement('%s suggests %d voltages for %d ports' % (e, len(g), len(ports)))
        elif marked == 'all' or marked == 'nl' and e[0] in 'DQES' or marked == 'first' and k == 0:
            g = [value(k, j) for j in range(len(ports))]
            obj.dc_guess = list(g)
        else:
            g = None
            if hasattr(obj, 'dc_guess'):
                obj.dc_guess = None
        if g is not None:
            asked += [(p, q, t) for (p, q), t in zip(ports, g)]
    before = [(x.part_id, list(x.dc_guess) if getattr(x, 'dc_guess', None) is not None else None) for x in c]
    try:
        got = dc_guess.get_dc_guess(c, verbose=0)
    except Exception as err:
        raise core.Disagreement('looking for a starting point ends in %s: %s' % (type(err).__name__, err),
                                key='shorted' if asked and all(p == q for p, q, t in asked) else None)
    if before != [(x.part_id, list(x.dc_guess) if getattr(x, 'dc_guess', None) is not None else None) for x in c]:
        raise core.Disagreement('looking for a starting point changed what the elements ask for')
    ctr.add('transitions')
    ctr.seen('states', (els, marked))
    if not nonlinear or not asked:
        if got is not None:
            raise core.Disagreement('nothing to suggest, but the starting point is %s' % got)
        ctr.add('none')
        return
    rows = {}
    for p, q, t in asked:
        if p != q and (p, q) not in rows and (q, p) not in rows:
            rows[(p, q)] = t
    touched = sorted({n for pq in rows for n in pq if n != '0'})
    if got is None:
        # only a square system without a solution may be given up
        A = np.array([[(n == p) - (n == q) for n in touched] for p, q in rows], dtype=float)
        if rows and len(rows) == len(touched) and np.linalg.matrix_rank(A) < len(touched):
            ctr.add('singular')
            return
        if not rows:
            ctr.add('none')
            return
        raise core.Disagreement('no starting point although the elements ask for %s' % (rows,))
    got = np.asarray(got)
    if got.shape != (len(order) + currents, 1):
        raise core.Disagreement('starting point of shape %s for %d nodes and %d currents'
                                % (got.shape, len(order), currents))
    if not np.isfinite(got).all():
        raise core.Disagreement('starting point %s' % got.ravel())
    # the first occurrence decides the order of the nodes
    v = dict(zip(order, got[:, 0]), **{'0': 0.})
    if got[len(order):].any():
        raise core.Disagreement('currents %s in the starting point' % got[len(order):].ravel())
    for n in order:
        if n not in touched and v[n] != 0:
            raise core.Disagreement('nobody asks for node %s, it starts at %g' % (n, v[n]))
    A = np.array([[(n == p) - (n == q) for n in touched] for p, q in rows], dtype=float).reshape(len(rows), len(touched))
    b = np.array(list(rows.values()))
    best = A.dot(np.linalg.lstsq(A, b, rcond=None)[0]) - b if len(rows) and len(touched) else b
    if abs(best).max(initial=0) < 1e-9:
        for (p, q), t in rows.items():
            if abs(v[p] - v[q] - t) > 1e-9:
                raise core.Disagreement('V(%s,%s) = %g is asked for, the starting point has %.9g'
                                        % (p, q, t, v[p] - v[q]))
            ctr.add('granted')
        ctr.add('consistent')
    else:
        r = A.dot([v[n] for n in touched]) - b
        if np.linalg.norm(r) > np.linalg.norm(best) * (1 + 1e-6) + 1e-9:
            raise core.Disagreement('the starting point misses the suggestions by %g, %g is possible'
                                    % (np.linalg.norm(r), np.linalg.norm(best)))
        ctr.add('compromise')


def start(case, ctr):
    """Diodes and resistors: one operating point, wherever the search starts."""
    els, bias, where = case
    ahkab = core.boot()
    from ahkab import dc_analysis, options
    options.dc_max_nr_iter = 400
    lin = lin_of(bias[0], bias[1], ())
    names = ref.matrices(lin)[0]
    res = {}
    for how in ('guess', 'none', 'own solution', 'other solution', 'array', 'run'):
        c = make(ahkab, lin, els, where)
        kw = {}
        if how == 'none':
            kw = {'guess': False}
        elif how == 'own solution':
            if res['guess'] is None:
                continue
            kw = {'x0': res['guess'][1]}
        elif how == 'other solution':
            o = make(ahkab, lin_of(-bias[0] + .3, bias[1], ()), els, where)
            r = dc_analysis.op_analysis(o, outfile='op', verbose=0)
            if r is None:
                continue
            kw = {'x0': r}
        elif how == 'array':
            kw = {'x0': np.full((len(names), 1), .2)}
        keep = np.array(kw['x0'].asarray() if hasattr(kw.get('x0'), 'asarray') else kw.get('x0'), dtype=object)
        if how == 'run':
            r = ahkab.run(c, [ahkab.new_op(outfile='op', verbose=0)])
            r = r.get('op') if r else None
        else:
            r = dc_analysis.op_analysis(c, outfile='op', verbose=0, **kw)
        after = np.array(kw['x0'].asarray() if hasattr(kw.get('x0'), 'asarray') else kw.get('x0'), dtype=object)
        if keep.shape != after.shape or not (keep == after).all():
            raise core.Disagreement('the search from %s changed its starting point' % how)
        res[how] = r and ([float(r[ref.label(n)][0][0]) for n in names], r)
        ctr.add('searches')
    f = res['guess']
    for how, r in res.items():
        if f is None or r is None:
            ctr.add('no_solution')
            continue
        for n, p, q in zip(names, f[0], r[0]):
            tol = 2 * (options.vea if n[0] == 'v' else options.iea) + 4e-3 * max(abs(p), abs(q))
            if abs(p - q) > tol:
                raise core.Disagreement('%s = %.9g from the elements\' suggestions, %.9g from %s'
                                        % (ref.label(n), p, q, how))
        ctr.add('agree')
    ctr.seen('states', (els, bias, where))
    ctr.add('transitions', len(res))


def cases(thorough):
    A2 = [(p, q) for p in NODES for q in NODES]
    pairs = [('0', 'a'), ('a', '0'), ('a', 'b'), ('b', 'c'), ('a', 'a'), ('c', '0'), ('c', 'a')]
    fours = [(d, g, s, b) for d, g, s, b in itertools.product(NODES[:3], repeat=4)]
    few = [f for k, f in enumerate(fours) if thorough or k % 4 == 1] + [('a', 'b', '0', 'c'), ('c', 'b', 'a', '0')]
    d = [('D', p, q) for p, q in A2]
    m = [(t,) + f for t in 'QES' for f in few]
    x = [(t, p, q) for t in 'RVL' for p, q in pairs if p != q or t == 'R']
    for e in d + [(t,) + f for t in 'QES' for f in fours] + x:
        for mk in ('own', 'all', 'nl', 'first'):
            yield (e,), mk
    for e, f in itertools.product(d + x, d + x):
        for mk in ('all', 'nl', 'own'):
            yield (e, f), mk
    for e, f in itertools.product(m, d + x[::2]):
        yield (e, f), 'all'
        yield (f, e), 'nl'
    for e, f in itertools.product(m[::1 if thorough else 3], m[::2 if thorough else 5]):
        yield (e, f), 'all'
    dd = [('D', p, q) for p, q in pairs]
    xx = [(t, p, q) for t in 'RV' for p, q in pairs if p != q]
    for t in itertools.product(dd + xx, repeat=3):
        yield t, 'all'
    for t in itertools.product(dd, repeat=3):
        yield t, 'nl'
    if thorough:
        for t in itertools.product(dd, dd + xx, dd + xx, dd):
            yield t, 'all'
    for t in itertools.product(m[::9 if thorough else 23], dd + xx[::2], dd):
        yield t, 'all'
        yield t[::-1], 'nl'


def starts(thorough):
    prs = [(p, q) for p in NLNODES for q in NLNODES if p != q]
    ds = [('D', p, q, k) for p, q in prs for k in (0, 1)]
    for e in ds:
        for b in BIAS:
            for w in ('mid', 'last', 'first') if thorough else ('mid',):
                yield (e,), b, w
    for k, (e, f) in enumerate(itertools.product(ds, ds)):
        if thorough or k % 3 == 0:
            yield (e, f), BIAS[k % 4], ('mid', 'first', 'last')[k % 3]


def run(chk):
    chk.explore(one, cases(chk.thorough), limit=20)
    chk.explore(start, starts(chk.thorough), limit=60)
    for n, k in (('consistent', 1000), ('granted', 2000), ('compromise', 100), ('none', 50), ('singular', 5),
                 ('searches', 500), ('agree', 400)):
        chk.require(n, k)
    chk.assumptions += [
        'suggestions for the same two nodes: the first one counts (in either direction); which of several '
        'starting points that grant everything is chosen is not judged',
        'the search may give up when there are as many suggestions as nodes and they do not determine them',
        'operating points from different starts are compared within the tolerances of the iteration']
    return chk.finish('states', 'transitions', 'searches',
                      'every element in every connection to four nodes and sequences of two and three (thorough: '
                      'four), each making suggestions that identify it; diode networks solved from every kind of '
                      'starting point')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
