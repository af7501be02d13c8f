"""P25: initial conditions are applied to exactly the variables they name."""
import copy
import itertools
import os
import sys

import numpy as np

from vlib import core

PID = 'P25'
WORKERS_NODES = [('a', 'b', 'c'), ('n-1', 'out+', 'x_y'), ('10', '1', 'b.2'), ('INT7', 'V', 'I')]


def named_circuit(ahkab, nn, ids):
    a, b, c = nn
    k = ahkab.Circuit('t')
    k.add_resistor('R1', a, b, 2.)
    k.add_vsource(ids[0], a, '0', 1.)
    k.add_inductor(ids[1], b, c, 1.)
    k.add_capacitor('C1', c, '0', 1.)
    k.add_vcvs(ids[2], c, '0', a, b, 2.)
    k.add_ccvs(ids[3], b, '0', ids[0], 2.)
    k.add_isource('I1', a, c, 1.)
    return k


IDS = [('V1', 'L1', 'E1', 'H1'), ('Vin-x', 'L_s', 'E1', 'H+2'), ('V', 'L', 'E', 'H')]


def names_of(c):
    """The unknowns by documented position: nodes in internal order, then the
    currents of voltage-defined elements in circuit order."""
    from ahkab import circuit
    return [('V', c.nodes_dict[k]) for k in range(1, c.get_nodes_number())] + \
        [('I', e.part_id) for e in c if circuit.is_elem_voltage_defined(e)]


def named_case(case, ctr):
    _, ni, ii, subset, form = case
    ahkab = core.boot()
    nn, ids = WORKERS_NODES[ni], IDS[ii]
    c = named_circuit(ahkab, nn, ids)
    allv = [('V', n) for n in nn] + [('I', i) for i in ids]
    names = names_of(c)
    if sorted(names) != sorted(allv):
        raise core.Disagreement('the circuit has the unknowns %s' % (names,))
    chosen = [allv[k] for k in subset]
    val = {v: 1.5 + .25 * k * (-1) ** k for k, v in enumerate(allv)}
    if form == 3:                       # zero is a value too
        val = {v: 0. if k % 2 else 2. + k for k, v in enumerate(allv)}
    lab = {0: '%s(%s)', 1: '%s( %s )', 2: '%s (%s)', 3: '%s(%s)', 4: '%s(%s)', 5: '%s(%s)'}[form]
    d = {}
    for t, n in chosen:
        if form == 4:
            t = t.lower()
        if form == 5 and t == 'I':
            n = n.swapcase()
        d[lab % (t, n)] = val[(t if t in 'VI' else t.upper(), n if form != 5 or t != 'I' else n.swapcase())]
    before = dict(d)
    x = ahkab.new_x0(c, d)
    ctr.add('named')
    if d != before:
        raise core.Disagreement('the description was modified')
    want = np.array([val[n] if n in chosen else 0. for n in names])
    x = np.asarray(x, dtype=float)
    if x.shape != (len(names), 1):
        raise core.Disagreement('state of shape %s for %d unknowns' % (x.shape, len(names)))
    if not np.array_equal(x.ravel(), want):
        k = int(np.argmax(x.ravel() != want))
        raise core.Disagreement('%s: %s(%s) is %g instead of %g' % (d, names[k][0], names[k][1], x[k, 0], want[k]))
    ctr.seen('states', (case[1:4], tuple(want)))


BAD = ['V(zz)', 'V(A1)', 'I(R1)', 'I(C1)', 'I(I1)', 'I(V9)', 'Q(a)', 'Va', 'V', '', 'V()', 'I()', 'V(a', 'Va)',
       'V(a)x', 'IV(a)', 'xI(V1)', 'V(a,b)', 'V[a]', 'V(a b)', 'I(a)', 'V(V1)', 'a', 'V(a)(b)', '-V(a)']


def bad_case(case, ctr):
    _, label, with_good = case
    ahkab = core.boot()
    c = named_circuit(ahkab, WORKERS_NODES[0], IDS[0])
    d = {'V(a)': 1.} if with_good else {}
    d[label] = 2.
    try:
        x = ahkab.new_x0(c, d)
    except (ValueError, KeyError):
        ctr.add('refused')
        return
    raise core.Disagreement('the name %r was accepted and gave the state %s' % (label, np.ravel(x).tolist()))


def ic_case(case, ctr):
    """Element initial conditions applied to a given state."""
    _, els, as_op = case
    ahkab = core.boot()
    from ahkab import results
    c = ahkab.Circuit('t')
    c.add_resistor('R1', 'a', 'b', 2.)
    c.add_vsource('V1', 'a', 'd', 1.)
    c.add_model('diode', 'dm', dict(name='dm'))
    for n in 'abcd':
        c.add_resistor('RG' + n, n, '0', 3.)
    for k, (kind, p, q, ic) in enumerate(els):
        if kind == 'C':
            c.add_capacitor('C%d' % k, p, q, 1., ic=ic)
        elif kind == 'L':
            c.add_inductor('L%d' % k, p, q, 1., ic=ic)
        elif kind == 'D':
            c.add_diode('D%d' % k, p, q, 'dm', ic=ic)
        elif kind == 'O':
            c.add_diode('D%d' % k, p, q, 'dm', off=True)
    names = names_of(c)
    x0 = np.array([[.3 + .7 * k] for k in range(len(names))])
    start = x0.copy()
    arg = results.op_solution(x=x0, error=np.zeros(x0.shape), circ=c, outfile=None) if as_op else x0
    r = ahkab.icmodified_x0(c, arg)
    if as_op:
        if not isinstance(r, results.op_solution):
            raise core.Disagreement('an operating point was given, %s came back' % type(r))
        if not np.array_equal(np.asarray(arg.asarray(), dtype=float), start):
            raise core.Disagreement('the operating point given was modified')
        for k, (t, n) in enumerate(names):
            lab = 'V' + n if t == 'V' else 'I(%s)' % n
            if float(np.ravel(r[lab])[0]) != float(np.asarray(r.asarray())[k, 0]):
                raise core.Disagreement('%s and the data disagree' % lab)
        x = np.asarray(r.asarray(), dtype=float)
    else:
        x = np.asarray(r, dtype=float)
    if x.shape != start.shape:
        raise core.Disagreement('state of shape %s for %d unknowns' % (x.shape, len(names)))
    pos = {n: k for k, n in enumerate(names)}
    v = lambda y, n: 0. if n == '0' else y[pos[('V', n)], 0]
    caps = [(p, q, 0. if kind == 'O' else ic) for kind, p, q, ic in els
            if kind == 'O' or (kind in 'CD' and ic is not None)]
    # consistency of the conditions: spanning forest of what they fix
    pot, comp = {n: 0. for n in '0abcd'}, {n: n for n in '0abcd'}
    consistent = True
    redundant = 0
    for p, q, ic in caps:
        if comp[p] == comp[q]:
            consistent &= abs(pot[p] - pot[q] - ic) < 1e-12
            redundant += 1
        else:
            old, sh = comp[q], pot[p] - ic - pot[q]
            for n in comp:
                if comp[n] == old:
                    comp[n], pot[n] = comp[p], pot[n] + sh
    for k, (kind, p, q, ic) in enumerate(els):
        if kind == 'L':
            want = start[pos[('I', 'L%d' % k)], 0] if ic is None else ic
            if x[pos[('I', 'L%d' % k)], 0] != want:
                raise core.Disagreement('current of L%d is %g instead of %g' % (
                    k, x[pos[('I', 'L%d' % k)], 0], want))
    if x[pos[('I', 'V1')], 0] != start[pos[('I', 'V1')], 0]:
        raise core.Disagreement('the current of V1 changed')
    touched = set(n for p, q, ic in caps for n in (p, q))
    for n in 'abcd':
        if n not in touched and v(x, n) != v(start, n):
            raise core.Disagreement('the voltage of node %s, without initial condition, changed' % n)
    if consistent:
        ctr.add('consistent')
        for p, q, ic in caps:
            if abs(v(x, p) - v(x, q) - ic) > 1e-12:
                raise core.Disagreement('condition v(%s)-v(%s) = %g, the state has %g' % (
                    p, q, ic, v(x, p) - v(x, q)))
        changed = sum(v(x, n) != v(start, n) for n in 'abcd')
        if changed > len(caps) - redundant:
            raise core.Disagreement('%d node voltages changed for %d conditions' % (changed, len(caps)))
    else:
        ctr.add('inconsistent')
    ctr.add('element_ics')
    ctr.seen('states', (els, as_op))


NET = """t
v1 a 0 type=vdc vdc=3
r1 a b 2
l1 b c 1m%s
c1 c 0 1u%s
c2 b 0 2u%s
r2 c 0 5
"""


def net_case(case, ctr):
    """The state a transient of a netlist starts from."""
    _, ics, uic, subset, ic_first, explicit = case
    ahkab = core.boot()
    from ahkab import dc_analysis, transient
    txt = NET % tuple('' if i is None else ' ic=%g' % i for i in ics)
    allv = [('V', 'a', 3.), ('V', 'b', 1.25), ('V', 'c', 0.), ('I', 'v1', -.5), ('I', 'l1', .125)]
    chosen = [allv[k] for k in subset]
    icline = '.ic name=st1 ' + ' '.join('%s(%s)=%g' % t for t in chosen) + '\n'
    tran = '.tran tstep=1u tstop=4u uic=%d%s\n' % (uic, ' ic_label=st1' if uic == 3 else '')
    if not explicit:
        tran = '.tran 1u 4u uic=%d%s\n' % (uic, ' ic_label=st1' if uic == 3 else '')
    lines = ['.op\n', tran]
    if uic == 3 or subset:
        lines.insert(0 if ic_first else 2, icline)
    seen = []
    real = ahkab.ahkab.analysis['tran']

    def spy(circ, **kw):
        x0 = kw.get('x0')
        seen.append((circ, None if x0 is None else np.array(
            x0.asarray() if hasattr(x0, 'asarray') else x0, dtype=float)))
        return real(circ, **kw)
    with open('n.cir', 'w') as fp:
        fp.write(txt + ''.join(lines) + '.end\n')
    ahkab.ahkab.analysis['tran'] = spy
    try:
        r = ahkab.main('n.cir', outfile='n', verbose=0)
    finally:
        ahkab.ahkab.analysis['tran'] = real
    if len(seen) != 1:
        raise core.Disagreement('%d transient analyses' % len(seen))
    circ, x0 = seen[0]
    names = [(t, n.lower()) for t, n in names_of(circ)]
    op = {'va': 3., 'vb': 3. * 5 / 7, 'vc': 3. * 5 / 7, 'i(l1)': 3. / 7, 'i(v1)': -3. / 7}
    if uic == 0:
        want = {k: 0. for k in op}
    elif uic in (1, 2):
        want = dict(op)
        if uic == 2:
            li, c1, c2 = ics
            if li is not None:
                want['i(l1)'] = li
            if c1 is not None:
                want['vc'] = c1
            if c2 is not None:
                want['vb'] = c2
    else:
        want = {k: 0. for k in op}
        for t, n, val in chosen:
            want['v' + n if t == 'V' else 'i(%s)' % n] = val
    if x0 is None:
        x0 = np.zeros((len(names), 1))
    for k, (t, n) in enumerate(names):
        w = want['v' + n if t == 'V' else 'i(%s)' % n]
        if not abs(x0[k, 0] - w) <= 1e-6:
            raise core.Disagreement('uic=%d: the transient starts with %s(%s) = %g instead of %g' % (
                uic, t, n, x0[k, 0], w))
    if r.get('tran') is None:
        raise core.Disagreement('no transient result')
    # the first point is one step of the formula away from that state
    c3 = ahkab.Circuit('u')
    c3.add_vsource('v1', 'a', '0', 3.)
    c3.add_resistor('r1', 'a', 'b', 2.)
    c3.add_inductor('l1', 'b', 'c', 1e-3)
    c3.add_capacitor('c1', 'c', '0', 1e-6)
    c3.add_capacitor('c2', 'b', '0', 2e-6)
    c3.add_resistor('r2', 'c', '0', 5.)
    order = [names.index((t, n.lower())) for t, n in names_of(c3)]
    q = transient.transient_analysis(c3, 0., 1e-6, 4e-6, x0=x0[order, :], outfile='q', verbose=0)
    for lab in ('T', 'Va', 'Vb', 'Vc', 'I(L1)', 'I(V1)'):
        g, w = np.ravel(r['tran'][lab]), np.ravel(q[lab])
        if len(g) != len(w) or np.abs(g - w).max() > 1e-6 + 1e-6 * np.abs(w).max():
            raise core.Disagreement('uic=%d: %s does not continue from that state' % (uic, lab))
    ctr.add('netlists')
    ctr.seen('states', case)


def netbad_case(case, ctr):
    _, which = case
    ahkab = core.boot()
    ic, tr = {'nolabel': ('.ic name=st1 v(a)=1', '.tran 1u 4u uic=3'),
              'unknown': ('.ic name=st1 v(a)=1', '.tran 1u 4u uic=3 ic_label=st2'),
              'uic4': ('.ic name=st1 v(a)=1', '.tran 1u 4u uic=4'),
              'badnode': ('.ic name=st1 v(zz)=1', '.tran 1u 4u uic=3 ic_label=st1'),
              'badelem': ('.ic name=st1 i(r1)=1', '.tran 1u 4u uic=3 ic_label=st1'),
              'noname': ('.ic v(a)=1', '.tran 1u 4u uic=3 ic_label=st1'),
              'badvalue': ('.ic name=st1 v(a)=1zz', '.tran 1u 4u uic=3 ic_label=st1'),
              'noop': ('', '.tran 1u 4u uic=1')}[which]
    with open('n.cir', 'w') as fp:
        fp.write(NET % ('', '', '') + ('.op\n' if which != 'noop' else '') + (ic + '\n' if ic else '') + tr + '\n.end\n')
    try:
        r = ahkab.main('n.cir', outfile='n', verbose=0)
    except (SystemExit, ValueError, Exception) as e:
        ctr.add('refused')
        return
    raise core.Disagreement('%s / %s was accepted: %s' % (ic, tr, r))


def one(case, ctr):
    return {'named': named_case, 'bad': bad_case, 'ic': ic_case, 'net': net_case,
            'netbad': netbad_case}[case[0]](case, ctr)


def cases(thorough):
    out = []
    for ni in range(len(WORKERS_NODES)):
        for ii in range(len(IDS)):
            for n in range(8):
                for s in itertools.combinations(range(7), n):
                    for form in range(6):
                        if form in (0, 3) or thorough or n in (1, 2):
                            out.append(('named', ni, ii, s, form))
    for b in BAD:
        for g in (0, 1):
            out.append(('bad', b, g))
    prs = [(p, q) for p in '0abc' for q in '0abc' if p != q]
    vals = (None, 0., 1.5) if not thorough else (None, 0., 1.5, -2.)
    E = [(k, p, q, v) for k in 'CL' for p, q in prs for v in vals] + \
        [('D', p, q, v) for p, q in prs for v in (.5, 0.)] + [('O', p, q, None) for p, q in prs]
    for as_op in (False, True):
        out.append(('ic', (), as_op))
        for e in E:
            out.append(('ic', (e,), as_op))
    C = [e for e in E if e[3] is not None or e[0] == 'O']
    for e in C if not thorough else E:
        for f in C:
            out.append(('ic', (e, f), False))
    C3 = [('C', p, q, v) for p, q in prs for v in ((1.5,) if not thorough else (1.5, 0.))]
    for e, f, g in itertools.product(C3, C3, [x[:3] + (x[3] and 1.25,) for x in C3]):
        out.append(('ic', (e, f, g), False))
    for ics in itertools.product((None, 0., .25), repeat=3):
        for uic in (0, 1, 2):
            out.append(('net', ics, uic, (), True, uic != 1))
    for n in range(6):
        for s in itertools.combinations(range(5), n):
            for f in (True, False):
                out.append(('net', (None, .5, None), 3, s, f, True))
                out.append(('net', (.1, None, .5), 3, s, f, False))
    for w in ('nolabel', 'unknown', 'uic4', 'badnode', 'badelem', 'noname', 'badvalue', 'noop'):
        out.append(('netbad', w))
    return out


def run(chk):
    chk.explore(one, cases(chk.thorough), limit=60)
    for n, m in (('named', 2000), ('refused', 40), ('element_ics', 5000), ('consistent', 3000),
                 ('inconsistent', 100), ('netlists', 100)):
        chk.require(n, m)
    chk.assumptions += ['when the conditions of several elements contradict each other, only the nodes they touch may change']
    return chk.finish('states', 'element_ics', 'netlists',
                      'every subset of the unknowns named in six spellings over circuits with ordinary and unusual '
                      'names; every set of one to three element conditions over four nodes; every netlist '
                      'combination of uic, element conditions and named states; every malformed name of a list')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
