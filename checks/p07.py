"""P07: a DC sweep is an operating point at each value of the grid, and the
source is restored (grids, circuits, and failures at every position)."""
import itertools
import math
import sys

import numpy as np

from vlib import core, gram, ref
from checks.p03 import nl_add, NLNODES

PID = 'P07'

BACK = [('R', 'R1', 'a', '0', 4), ('R', 'R2', 'a', 'b', 2), ('R', 'R3', 'b', '0', 8),
        ('V', 'VS', 's', '0', 3, 0, None), ('R', 'R4', 's', 'a', 5),
        ('I', 'IS', '0', 'b', 2, 0, None), ('C', 'C5', 'a', '0', 1, None),
        ('L', 'L6', 'b', 'c', 2, None), ('R', 'R7', 'c', '0', 3)]


def state_of(c):
    """Everything a sweep may not change."""
    els = []
    for e in c:
        d = {}
        for k, v in vars(e).items():
            d[k] = repr(v) if isinstance(v, (int, float, str, bool, tuple, list, type(None))) else type(v).__name__
        els.append((type(e).__name__, sorted(d.items())))
    return els, sorted((str(k), str(v)) for k, v in c.nodes_dict.items()), sorted(c.models)


def linear_grid(start, stop, step):
    n, out = 0, []
    tol = 1e-9 * max(abs(stop - start), abs(step))
    while True:
        v = start + n * step
        if (v - stop) * (1 if step > 0 else -1) > tol:
            return out
        out.append(v)
        n += 1
        if start == stop:
            return out


def log_grid(start, stop, ratio):
    out, n = [], 0
    while True:
        v = start * ratio ** n
        if (v / stop if ratio > 1 else stop / v) > 1 + 1e-9:
            return out
        out.append(v)
        n += 1
        if start == stop:
            return out


def with_source(desc, sid, v):
    return [e[:4] + (v,) + e[5:] if e[1].lower() == sid.lower() else e for e in desc]


def judge(r, desc, sid, grid, ctr, single=None):
    """Compare every row with the exact solution at that grid value."""
    col = sid[0].upper() + sid[1:].lower()
    xs = np.asarray(r[col], dtype=float).ravel()
    if len(xs) != len(grid):
        raise core.Disagreement('%d rows for the %d values %s..%s: %s' % (
            len(xs), len(grid), grid[0], grid[-1], xs[:30]))
    err = np.abs(xs - np.array(grid))
    if err.max() > 1e-9 * max(abs(g) for g in grid) + 1e-12:
        k = int(err.argmax())
        raise core.Disagreement('row %d is for %.12g, the grid value is %.12g' % (k, xs[k], grid[k]))
    names, A, B, feed = ref.matrices(desc)
    if any(e[0] == 'H' for e in desc):
        alt = ref.matrices(desc, -1)[1]
    else:
        alt = None
    cols = np.array([np.asarray(r[ref.label(n)], dtype=float).ravel() for n in names])
    signs = set()
    for k, g in enumerate(grid):
        d = with_source(desc, sid, g)
        u = ref.vector(d, names, feed, lambda e: e[4])
        x = np.linalg.solve(A, u)
        scale = max(1., abs(x).max())
        bad = abs(cols[:, k] - x).max() > 1e-8 * scale
        if bad and alt is not None:
            y = np.linalg.solve(alt, u)
            if abs(cols[:, k] - y).max() <= 1e-8 * max(1., abs(y).max()):
                bad = False
                ctr.violation('ccvs-output-sign', 'sweep of a circuit with a current-controlled voltage '
                              'source: sign opposite to the documentation', {}, shared=True)
        if bad:
            i = int(abs(cols[:, k] - x).argmax())
            raise core.Disagreement('at %s = %g (row %d): %s = %.12g, the operating point is %.12g' % (
                sid, g, k, ref.label(names[i]), cols[i, k], x[i]))
    ctr.add('rows', len(grid))


def well_posed(desc):
    for h in (1, -1):
        if ref.dc(desc, h) is None:
            return False
    return True


def sweep(c, start, stop, step, sid, stype, how, points=None):
    ahkab = core.boot()
    from ahkab import dc_analysis
    if how == 'direct':
        return dc_analysis.dc_analysis(c, start, stop, step, sid, sweep_type=stype, outfile='dcs', verbose=0)
    an = ahkab.new_dc(start, stop, points, sid, sweep_type=stype, outfile='dcs')
    return ahkab.run(c, an)['dc']


def same(c, before):
    if state_of(c) != before:
        raise core.Disagreement('the sweep changed the circuit: %s' % [
            (a, b) for a, b in zip(before[0], state_of(c)[0]) if a != b][:2])


def one(case, ctr):
    kind = case[0]
    return {'grid': grid_case, 'circ': circ_case, 'nl': nl_case, 'fail': fail_case, 'name': name_case,
            'similar': similar_case}[kind](case, ctr)


def grid_case(case, ctr):
    _, sid, stype, start, stop, step, points = case
    ahkab = core.boot()
    desc = BACK
    c = ref.build(ahkab, desc)
    before = state_of(c)
    log = stype.upper().startswith('LOG')
    if log and points is None and start == stop and step <= 0:
        return
    if points is None:
        valid = (stop - start) * step > 0 if start != stop else True
        if log:
            valid = start > 0 and stop > 0 and step > 0 and (start == stop or (stop - start) * (step - 1) > 0)
        grid = (log_grid if log else linear_grid)(start, stop, step) if valid else None
    else:
        valid = points >= 2 or (points == 1 and start == stop)
        if log:
            valid = valid and start > 0 and stop > 0
        if valid and points == 1:
            grid = [start]
        elif valid and start == stop:
            return
        elif valid:
            grid = [start * (stop / start) ** (k / (points - 1.)) if log else
                    start + (stop - start) * k / (points - 1.) for k in range(points)]
            grid[-1] = stop
    ctr.add('sweeps')
    try:
        r = sweep(c, start, stop, step, sid, stype, 'direct' if points is None else 'run', points)
    except (ValueError, ZeroDivisionError, SystemExit) as e:
        same(c, before)
        if valid:
            raise
        ctr.add('refused')
        return
    same(c, before)
    if not valid:
        if r is None:
            ctr.add('refused')
            return
        raise core.Disagreement('a sweep that cannot end was accepted: %s' % (r,))
    if r is None:
        raise core.Disagreement('no result')
    judge(r, desc, sid, grid, ctr)
    ctr.seen('states', ('grid', sid[0], tuple(grid)))
    ctr.seen('kinds', 'log' if log else 'lin')


def circ_case(case, ctr):
    _, front, back, which = case
    ahkab = core.boot()
    desc = [gram.fix(gram.name(p, i), 0) for i, p in enumerate(front)]
    desc += BACK
    desc += [gram.fix(gram.name(p, 5 + i), 0) for i, p in enumerate(back)]
    if not well_posed(desc):
        ctr.add('singular_skipped')
        return
    if which == 'own':
        own = [e for e in desc if e[0] in 'VI' and e not in BACK]
        if not own:
            return
        sid = own[-1][1]
    else:
        sid = which
    c = ref.build(ahkab, desc)
    before = state_of(c)
    r = sweep(c, -1.5, 4.5, 2., sid, 'LIN', 'direct')
    same(c, before)
    ctr.add('sweeps')
    if r is None:
        raise core.Disagreement('no result')
    judge(r, desc, sid, [-1.5, .5, 2.5, 4.5], ctr)
    ctr.seen('states', ('circ', gram.text(desc), sid))


def nl_case(case, ctr):
    _, els, sid, grid = case
    ahkab = core.boot()
    from ahkab import dc_analysis, options
    options.dc_max_nr_iter = 200      # this process is this check's own worker
    lin = [('R', 'R1', 'a', '0', 400), ('R', 'R2', 'a', 'b', 200), ('R', 'R3', 'b', '0', 800),
           ('V', 'VS', 's', '0', 3, 0, None), ('R', 'R4', 's', 'a', 500),
           ('I', 'IS', '0', 'b', 1e-3, 0, None)]

    def make(v=None):
        c = ahkab.Circuit('t')
        d = lin if v is None else with_source(lin, sid, v)
        ref.build(ahkab, d[:4], circ=c)
        for i, e in enumerate(els):
            nl_add(ahkab, c, e, i)
        ref.build(ahkab, d[4:], circ=c)
        return c
    c = make()
    before = state_of(c)
    start, stop, n = grid
    r = sweep(c, start, stop, (stop - start) / (n - 1.), sid, 'LIN', 'direct')
    same(c, before)
    ctr.add('sweeps')
    vals = [start + (stop - start) * k / (n - 1.) for k in range(n)]
    rows = []
    got = [] if r is None else list(np.asarray(r[sid[0] + sid[1:].lower()], dtype=float).ravel())
    j = 0
    for v in vals:
        op = dc_analysis.op_analysis(make(v), outfile='op', verbose=0)
        here = j < len(got) and abs(got[j] - v) <= 1e-9 * max(abs(start), abs(stop))
        if not here:
            if op is not None:
                ctr.add('nl_row_skipped')     # another starting point may not converge
            continue
        if op is None:
            ctr.add('nl_no_op')
            j += 1
            continue
        for key in op.keys():
            a, b = float(np.asarray(r[key]).ravel()[j]), float(op[key][0][0])
            tol = (2e-5 + 2e-3 * abs(b)) if key.upper().startswith('V') else (1e-7 + 2e-3 * abs(b))
            if not abs(a - b) <= tol:
                raise core.Disagreement('%s = %g: %s = %.9g in the sweep, %.9g as operating point' % (
                    sid, v, key, a, b))
        rows.append(v)
        j += 1
    if j != len(got):
        raise core.Disagreement('rows for %s, the grid is %s' % (got, vals))
    ctr.add('nl_rows', len(rows))
    ctr.seen('states', case)


def fail_case(case, ctr):
    """A scripted outcome for each operating point of the sweep."""
    _, sid, script, skip = case
    ahkab = core.boot()
    from ahkab import dc_analysis, options
    c = ref.build(ahkab, BACK)
    before = state_of(c)
    real = dc_analysis.op_analysis
    grid = [float(k + 1) for k in range(len(script))]
    seen = []

    class Stop(Exception):
        pass

    def op(circ, *a, **kw):
        k = len(seen)
        el = [e for e in circ if e.part_id.lower() == sid.lower()][0]
        seen.append(el.dc_value)
        if k >= len(script):
            raise core.Disagreement('more operating points than values')
        if script[k] == 'none':
            return None
        if script[k] == 'raise':
            raise Stop()
        return real(circ, *a, **kw)
    dc_analysis.op_analysis = op
    old = options.dc_sweep_skip_allowed
    options.dc_sweep_skip_allowed = skip
    raised = False
    r = None
    try:
        try:
            r = sweep(c, 1., float(len(script)), 1., sid, 'LIN', 'direct')
        except Stop:
            raised = True
    finally:
        dc_analysis.op_analysis = real
        options.dc_sweep_skip_allowed = old
    same(c, before)
    ctr.add('fail_histories')
    for k, v in enumerate(seen):
        if abs(v - grid[k]) > 1e-9:
            raise core.Disagreement('attempt %d has the source at %r instead of %r' % (k, v, grid[k]))
    first_bad = [k for k, s in enumerate(script) if s == 'raise' or (s == 'none' and not skip)]
    if first_bad and script[first_bad[0]] == 'raise':
        if not raised:
            raise core.Disagreement('an exception in the solver was swallowed')
        ctr.add('raised')
        return
    if raised:
        raise core.Disagreement('unexpected exception')
    ok = [grid[k] for k, s in enumerate(script) if s == 'ok']
    if first_bad or not ok:
        if r is not None:
            raise core.Disagreement('outcomes %s (skipping %s): a result is reported' % (script, skip))
        ctr.add('no_result')
        return
    if r is None:
        raise core.Disagreement('outcomes %s (skipping %s): no result although %d values were solved' % (
            script, skip, len(ok)))
    judge(r, BACK, sid, ok, ctr)
    ctr.seen('states', case)


def name_case(case, ctr):
    """Letter case of the source name; a node with a similar name."""
    _, given, node = case
    ahkab = core.boot()
    ren = lambda n: node if n == 'b' else n
    desc = [('V', 'V10', 'p', '0', 3, 0, None), ('R', 'R11', 'p', 'a', 6)] + \
           [tuple(ren(x) if i in (2, 3) else x for i, x in enumerate(e)) for e in BACK]
    c = ref.build(ahkab, desc)
    before = state_of(c)
    r = sweep(c, 0., 2., 1., given, 'LIN', 'direct')
    same(c, before)
    ctr.add('sweeps')
    ctr.add('names')
    try:
        judge(r, desc, given, [0., 1., 2.], ctr)
    except core.Disagreement as e:
        if given.upper() == ('V%s' % node).upper():
            raise core.Disagreement('sweeping %s in a circuit with a node %s: %s' % (given, node, e),
                                    key='dc-sweep-name-collision')
        raise


def similar_case(case, ctr):
    """Sources with similar names: exactly the named one is swept."""
    _, names, k, extra = case
    ahkab = core.boot()
    nodes = ('p', 'q', 'r')
    desc = []
    for nm, n in zip(names, nodes):
        if nm[0].upper() == 'V':
            desc.append(('V', nm, n, '0', 3, 0, None))
            desc.append(('R', 'R' + n, n, 'a', 6))
        else:
            desc.append(('I', nm, n, '0', 2, 0, None))
            desc.append(('R', 'R' + n, n, 'a', 6))
    desc += [('R', 'R1', 'a', '0', 4)]
    desc += [('R', extra, 'a', '0', 8)]
    c = ref.build(ahkab, desc)
    before = state_of(c)
    r = sweep(c, 0., 2., 1., names[k], 'LIN', 'direct')
    same(c, before)
    ctr.add('sweeps')
    ctr.add('names')
    judge(r, desc, names[k], [0., 1., 2.], ctr)


def cases(thorough):
    vals = (-2., -1., 0., .5, 1., 3.) if not thorough else (-7., -2., -1., -.1, 0., .3, .5, 1., 3., 10.)
    steps = (.1, .25, .3, 1. / 3, .7, 1., 5.)
    pts = list(range(1, 13)) + [50, 100, 101]
    out = []
    for sid in ('VS', 'IS'):
        for a in vals:
            for b in vals:
                for st in steps:
                    for sg in (1, -1):
                        if sg < 0 and not thorough and st not in (.1, .3, .7, 5.):
                            continue
                        out.append(('grid', sid, 'LIN', a, b, sg * st, None))
                for p in pts:
                    out.append(('grid', sid, 'LIN', a, b, None, p))
        lv = (1e-3, .5, 1., 8., 10., 0., -1.)
        for a in lv:
            for b in lv:
                for st in (2., 10., 10 ** .1, 3., .5, .1, .3, -2., 1.01 if thorough else 1.5):
                    out.append(('grid', sid, 'LOG', a, b, st, None))
                for p in pts:
                    out.append(('grid', sid, 'LOG', a, b, None, p))
        out.append(('grid', sid, 'linear', 0., 1., .1, None))
        out.append(('grid', sid, 'lin', 0., 1., .1, None))
        out.append(('grid', sid, 'log', 1., 100., 10., None))
    for n in range(1, 7 if thorough else 6):
        for script in itertools.product(('ok', 'none', 'raise'), repeat=n):
            for skip in (True, False):
                for sid in ('VS', 'IS'):
                    out.append(('fail', sid, script, skip))
    for g in ('V10', 'v10', 'VS', 'vs', 'Vs', 'IS', 'is'):
        for node in ('b', '10', 'x1'):
            out.append(('name', g, node))
    pool = ('V1', 'V10', 'V11', 'V01', 'V1a', 'VS', 'VS1', 'I1', 'I10', 'I1a')
    for names in itertools.permutations(pool, 3 if thorough else 2):
        for k in range(len(names)):
            for extra in ('RV1', 'R' + names[k][1:] + 'x'):
                out.append(('similar', names, k, extra))
    A = gram.alphabet(kinds='RICGFVLHE')
    for p in A:
        for w in ('VS', 'IS', 'own'):
            out.append(('circ', (p,), (), w))
            out.append(('circ', (), (p,), w))
    B = gram.alphabet(vals=4)
    A2, B2 = (A, B) if thorough else (A[::2], B[::3])
    for p in A2:
        for q in B2:
            for w in ('VS', 'IS', 'own') if thorough else ('own',) if p[0] in 'VI' or q[0] in 'VI' else ('VS',):
                out.append(('circ', (p,), (q,), w))
    # non-linear: one device in every connection
    nd = []
    prs = [(p, q) for p in NLNODES for q in NLNODES if p != q]
    for p, q in prs:
        for m in (0, 1):
            nd.append((('D', p, q, m),))
    four = list(itertools.product(NLNODES, repeat=3))
    for d, g, s in four:
        if d == s:
            continue
        for b in ('0', 'a') if thorough else ('0',):
            for typ in (0, 1):
                nd.append((('Q', d, g, s, b, typ),))
                nd.append((('E', d, g, s, b, typ),))
    for (p, q), (p2, q2) in itertools.product(prs, prs):
        nd.append((('D', p, q, 0), ('D', p2, q2, 1)))
    for els in nd:
        for sid, grid in (('VS', (-1., 3., 5)), ('IS', (2e-3, -1e-3, 4))):
            out.append(('nl', els, sid, grid))
    return out


def run(chk):
    chk.explore(one, cases(chk.thorough), limit=60)
    for n, m in (('sweeps', 3000), ('refused', 200), ('rows', 20000), ('nl_rows', 1000), ('raised', 100),
                 ('no_result', 100), ('names', 20), ('kinds', 2)):
        chk.require(n, m)
    chk.assumptions += ['a value that cannot be solved is left out when the option allows skipping (the default)',
                        'sweeps of hysteretic switches depend on the history by definition and are not included']
    return chk.finish('states', 'sweeps', 'rows',
                      'every listed combination of start, stop, step or point count, linear and logarithmic, '
                      'for both source kinds; every 1-2 element extension of a backbone; non-linear devices in '
                      'every connection; every sequence of outcomes (solved, no solution, exception) of the '
                      'operating points of a sweep')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
