"""P15: printing and reading back.  Every element kind with every combination of
its options over a lattice of values, alone and in pairs, built with the
programming calls; the text the circuit prints, put next to the same model lines,
goes through the real parser and must describe the same circuit."""
import itertools
import sys

import numpy as np

from vlib import core, net

PID = 'P15'
VALUES = [1, 1.5, -2.5, 1e-12, 123456., 1e6, 3.25e21, 7e-25, 1. / 3, np.float64(2e-3), np.int64(4), 1000000, 999999.5, 1e-6, 100000., 2.2e-9]
FEW = [1, -2.5, 1e-12, 123456., 1. / 3, 1e6]
MODELS = [('diode', 'dm', {'IS': 1e-15, 'N': 1.5}), ('diode', 'DM2', {}), ('ekv', 'nm', {'TYPE': 'n', 'VTO': .5}),
          ('ekv', 'pm', {'TYPE': 'p', 'VTO': -.5}), ('mosq', 'qm', {'TYPE': 'n', 'VTO': .5}), ('mosq', 'qp', {'TYPE': 'p', 'VTO': -.5}),
          ('sw', 'sm', {'VT': .3, 'VH': .1, 'RON': 2., 'ROFF': 1e6})]
MODEL_LINES = ['.model %s %s %s' % (t, n, ' '.join('%s=%s' % kv for kv in p.items())) for t, n, p in MODELS]
NODES = [('a', 'b'), ('0', 'in'), ('N1', '0'), ('node_2', '12')]


def functions(th):
    """constructor name, arguments (positional lists), every combination over short lattices"""
    small = [0., 1., -1.5, 2e-3]
    pos = [1e-6, 2.5e-3]
    for a in itertools.product(small, small, [1e3, 2.5e6], [0., 1e-6], [0., 10.], [0., 90., -30.]):
        yield 'sin', a
    for k in range(6):
        # no figure may be lost
        yield 'sin', tuple([1.5, -2.5, 1e3, 2e-6, 10., 30.][:k] + [[1.23456, .765432, 12345.6, 1.23457e-6, 12.3457, 45.6789][k]]
                           + [1.5, -2.5, 1e3, 2e-6, 10., 30.][k + 1:])
    for a in itertools.product(small[:3], small[:3], [0., 1e-6], [1e-9, 2e-6], [3e-9], [5e-6], [1e-4]):
        yield 'pulse', a
    for a in itertools.product(small[:3], small[:3], [0., 1e-6], pos, [1e-3, 2e-6], pos):
        yield 'exp', a
    for a in itertools.product(small[:3], small[:3], [1e3], [0., .5], [10., 2.5], [0., 1e-6]):
        yield 'sffm', a
    for a in itertools.product(small[:3], [1e6, 12.5], [1e3], [0., 2.], [0., 1e-6]):
        yield 'am', a


def elements(th):
    """(method, args, kwargs) for every kind and option combination; models and functions by name."""
    n4 = [('a', 'b', '0', 'c'), ('0', 'In', 'in2', '0')]
    for v, n in itertools.product(VALUES, NODES):
        yield 'add_resistor', ('R1',) + n + (v,), {}
        yield 'add_resistor', ('Rload_1',) + n + (v,), {}
        if v > 0:
            for ic in [None, 0, 0., 1, -1.25, 1e-7, 123456.5]:
                for m, nm in (('add_capacitor', 'C1'), ('add_inductor', 'L1')):
                    yield m, (nm,) + n + (v,), {'ic': ic} if ic is not None else {}
    for v, n in itertools.product(VALUES + [0., 0], NODES):
        for ac in [None, 0, 0., 1, -1, 2.5, -1e-3, 1 + 0j, -2 + 0j, np.complex128(3)]:
            for m, nm in (('add_vsource', 'V1'), ('add_isource', 'I1')):
                yield m, (nm,) + n + (v,), {'ac_value': ac} if ac is not None else {}
    for v, n in itertools.product(VALUES + [0.], n4):
        yield 'add_vcvs', ('E1',) + n + (v,), {}
        yield 'add_vccs', ('G1',) + n + (v,), {}
    for v, n in itertools.product(VALUES + [0.], NODES):
        yield 'add_cccs', ('F1',) + n + ('V9', v), {}
        yield 'add_ccvs', ('H1',) + n + ('V9', v), {}
    for k in (.5, 1e-3, .123456, 1.):
        yield 'add_inductor_coupling', ('K1', 'L8', 'L9', k), {}
        yield 'add_inductor_coupling', ('K1', 'L9', 'L8', k), {}
    for n, mod, area, T, ic, off in itertools.product(NODES, ('dm', 'DM2'), (None, 1., 2.5, 10), (None, 300., 333.15), (None, 0., .7, -2),
                                                      (None, False, True)):
        kw = dict((k, v) for k, v in (('Area', area), ('T', T), ('ic', ic), ('off', off)) if v is not None)
        yield 'add_diode', ('D1',) + n + (mod,), kw
    for n, mod, w, l, m, nn in itertools.product(n4, ('nm', 'pm', 'qm', 'qp'), (1e-6, 2.5e-6, 1.), (1e-6, 1.8e-7), (None, 1, 3), (None, 1, 2)):
        kw = dict((k, v) for k, v in (('m', m), ('n', nn)) if v is not None)
        yield 'add_mos', ('M1',) + n + (w, l, mod), kw
    for n in n4:
        yield 'add_switch', ('S1',) + n + (None, 'sm'), {}
    for f, a in functions(th):
        yield 'add_vsource', ('V1', 'a', '0', 1.), {'function': (f, a)}
        yield 'add_isource', ('I1', '0', 'b', .5), {'function': (f, a), 'ac_value': 2}


def make(todo):
    ahkab = core.boot()
    c = ahkab.Circuit('the title of it')
    c.add_vsource('V9', 'x', '0', 1.)
    for t, n, p in MODELS:
        c.add_model(t, n, dict(p))
    if any(m == 'add_inductor_coupling' for m, a, k in todo):
        c.add_inductor('L8', 'x', '0', 1e-3)
        c.add_inductor('L9', 'y', '0', 2e-3)
    for m, a, k in todo:
        k = dict(k)
        if 'function' in k:
            f, fa = k['function']
            k['function'] = getattr(ahkab.time_functions, f)(*fa)
        getattr(c, m)(*a, **k)
    return c


def roundtrip(c, ctr, what, extra=MODEL_LINES):
    text = str(c)
    if not text.splitlines()[0].startswith('*'):
        raise core.Disagreement('the text printed does not begin with the title line:\n' + text)
    full = text + '\n' + '\n'.join(extra) + '\n'
    ctr.add('executions')
    ctr.seen('states', full)
    try:
        got = net.read(full)[0]
    except net.Refused as e:
        raise core.Disagreement('%s: what it prints can not be read (%s):\n%s' % (what, e, text))
    want, have = net.describe(c, True), net.describe(got, True)
    want = (want[0], want[1])
    d = net.diff(have, want, 6e-6)
    if d:
        raise core.Disagreement('%s: printed and read back: %s\n%s' % (what, d, text))
    again = str(got).lower().splitlines()[1:]
    if again != [l.lower() for l in text.splitlines()[1:]] and net.diff(net.describe(net.read(str(got) + '\n' + '\n'.join(extra) + '\n')[0], True),
                                                                       have, 6e-6):
        raise core.Disagreement('%s: a second round trip changes the circuit\n%s\n%s' % (what, text, '\n'.join(again)))
    ctr.add(type(list(c)[-1]).__name__)
    return text


def single_case(case, ctr):
    part, parts, th = case
    for x, e in enumerate(elements(th)):
        if x % parts == part:
            roundtrip(make([e]), ctr, '%s%s' % (e[0], e[1]))


REP = [('add_resistor', ('R1', 'a', 'b', 1e3), {}), ('add_capacitor', ('C1', 'b', '0', 1e-6), {'ic': 1}),
       ('add_inductor', ('L1', 'b', 'a', 1e-6), {}), ('add_vsource', ('V1', 'a', '0', 1.), {'ac_value': -1}),
       ('add_vsource', ('V2', 'a', '0', 1.), {'function': ('sin', (0., 1., 1e3))}), ('add_isource', ('I1', 'a', '0', 0.), {'ac_value': 1}),
       ('add_vcvs', ('E1', 'c', '0', 'a', 'b', 2.), {}), ('add_vccs', ('G1', 'c', '0', 'a', 'b', 2.), {}),
       ('add_cccs', ('F1', 'c', 'b', 'V9', 2.), {}), ('add_ccvs', ('H1', 'd', 'b', 'V9', 2.), {}),
       ('add_inductor_coupling', ('K1', 'L8', 'L9', .5), {}), ('add_diode', ('D1', 'a', 'c', 'dm'), {'Area': 2., 'off': True}),
       ('add_mos', ('M1', 'a', 'b', '0', '0', 1e-6, 2e-6, 'nm'), {}), ('add_mos', ('M2', 'a', 'b', '0', '0', 1e-6, 2e-6, 'qp'), {'m': 2}),
       ('add_switch', ('S1', 'a', 'b', '0', 'c', None, 'sm'), {})]


def seq_case(case, ctr):
    """all ordered pairs (thorough: triples) of element kinds"""
    first, depth = case
    rest = [i for i in range(len(REP)) if i != first]
    for tail in itertools.permutations(rest, depth - 1):
        todo = [REP[first]] + [REP[i] for i in tail]
        roundtrip(make(todo), ctr, [t[1][0] for t in todo])


SUB = """title
v1 a 0 vdc=1
x1 name=s p=a q=b
x2 name=s p=b q=0
r1 b 0 1
.subckt s p q
r1 p m 1
c1 m q 1u ic=2
v1 m q vdc=2 type=sin 0 1 1k
f1 p q v1 2
l1 p q 1m
l2 m q 1m
k1 l1 l2 .5
d1 p q dm
%s
.ends
"""


def sub_case(case, ctr):
    """circuits that came from netlists with subcircuits"""
    extra, = case
    t = SUB % extra + ('.subckt t p q\nr1 p m 1\ni1 m q idc=1\n.ends\n' if 't' in extra else '')
    c = net.read(t + '\n'.join(MODEL_LINES) + '\n')[0]
    roundtrip(c, ctr, 'subcircuit')


def used_case(case, ctr):
    """printing after analyses ran gives the same text as before"""
    ahkab = core.boot()
    k, = case
    todo = [('add_resistor', ('R77', 'a', '0', 1e3), {}), ('add_resistor', ('R78', 'x', 'a', 1e3), {}),
            ('add_resistor', ('R79', 'b', '0', 1e3), {}), ('add_resistor', ('R80', 'c', '0', 1e3), {}), ('add_resistor', ('R81', 'd', 'a', 1.), {}),
            REP[k]]
    c = make(todo)
    before = roundtrip(c, ctr, REP[k][1][0])
    for an in (ahkab.new_op(), ahkab.new_tran(0, 1e-5, 1e-6, None), ahkab.new_ac(1, 1e3, 3)):
        try:
            ahkab.run(c, an)
        except (Exception, SystemExit):
            pass
        after = str(c)
        ctr.add('after_analysis')
        if after != before:
            raise core.Disagreement('the circuit prints differently after an analysis:\n%s\n%s' % (before, after))
    roundtrip(c, ctr, REP[k][1][0])


def run(chk):
    th = chk.thorough
    parts = 32
    chk.explore(single_case, [(p, parts, th) for p in range(parts)], limit=300)
    chk.explore(seq_case, [(f, d) for f in range(len(REP)) for d in ((2, 3, 4) if th else (1, 2))], limit=900)
    chk.explore(sub_case, [('',), ('x9 name=t p=q q=m',), ('m1 p q m 0 nm w=1u l=1u',), ('h1 p m v1 3',), ('e1 p q m 0 3',), ('s1 p q m 0 sm',)], limit=60)
    chk.explore(used_case, [(k,) for k in range(len(REP))], limit=120)
    for n in ('Resistor', 'Capacitor', 'Inductor', 'InductorCoupling', 'VSource', 'ISource', 'EVSource', 'GISource', 'FISource', 'HVSource',
              'diode', 'ekv_device', 'mosq_device', 'switch_device', 'after_analysis'):
        chk.require(n, 2)
    chk.assumptions += ['AC phases other than 0 and 180 degrees and piece-wise linear or user-supplied time functions cannot be written in a '
                        'netlist and are not judged', 'values are compared to the six digits printed']
    return chk.finish('states', 'executions', 'executions',
                      'every element kind with every combination of options over a lattice of values (%d), every ordered sequence of up to %d '
                      'element kinds, circuits expanded from subcircuits, and circuits after analyses; printed and read back'
                      % (sum(1 for _ in elements(th)), 4 if th else 2))


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
