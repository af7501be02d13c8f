"""P01: the editing history of a circuit does not matter.

Explicit-state exploration of the real Circuit class: from the empty circuit,
every operation of a palette is applied in every reachable state, up to a
depth; states are identified by the complete contents of the circuit object.
Oracle: a dictionary model of the surviving elements, and a circuit built from
scratch from them."""
import copy
import sys

import numpy as np

from vlib import core

PID = 'P01'

# palette element: (part_id, kind, nodes, extra)
R1 = ('R1', 'R', ('a', 'b'), 2.)
R2 = ('R2', 'R', ('b', '0'), 3.)
R3 = ('R3', 'R', ('c', '0'), 5.)
R4 = ('R4', 'R', ('a', '0'), 7.)
R5 = ('R5', 'R', ('0', 'c'), 11.)
R6 = ('R6', 'R', ('c', 'a'), 13.)
C1 = ('C1', 'C', ('b', 'c'), 2.)
V1 = ('V1', 'V', ('a', '0'), 4.)
V2 = ('V2', 'V', ('b', 'c'), 1.)
I1 = ('I1', 'I', ('c', 'b'), 2.)
E1 = ('E1', 'E', ('c', '0', 'a', 'b'), 3.)
G1 = ('G1', 'G', ('b', '0', 'c', 'a'), 2.)
F1 = ('F1', 'F', ('c', '0'), ('V1', 2.))
H1 = ('H1', 'H', ('b', '0'), ('V1', 2.))
L1 = ('L1', 'L', ('a', 'b'), 1.)
L2 = ('L2', 'L', ('c', '0'), 4.)
K1 = ('K1', 'K', (), ('L1', 'L2', .5))
D1 = ('D1', 'D', ('a', 'b'), None)
D2 = ('D2', 'D', ('c', '0'), None)
M1 = ('M1', 'Q', ('c', 'a', 'b', '0'), None)
M2 = ('M2', 'N', ('b', 'c', '0', 'a'), None)
S1 = ('S1', 'S', ('a', 'b', 'c', '0'), None)
S2 = ('S2', 'S', ('b', '0', 'a', 'c'), None)

PALETTES = {
    'passive': (R1, R2, R3, V1, C1),
    'sources': (V1, I1, R1, R5, R6),
    'vcvs': (R1, R4, V1, E1, R3),
    'vccs': (R1, R2, G1, V1, R3),
    'cccs': (V1, F1, R2, R3, R1),
    'ccvs': (V1, H1, R4, R1, V2),
    'coupled': (L1, L2, K1, V1, R2),
    'diodes': (D1, D2, V1, R2, R6),
    'mosq': (M1, V1, R2, R3, R6),
    'ekv': (M2, V1, R2, R3, R6),
    'mixed': (M1, D1, E1, R4, R2),
    'switch': (S1, V1, R2, R3, S2),
}
GOOD = ('add', 'rmid', 'rmel', 'node', 'int')
NAMES = ('a', 'b', 'c', '0', 'u')


def put(c, el):
    pid, k, n, x = el
    if k in 'DQNS' and not c.models:
        models(c)
    if k == 'R':
        c.add_resistor(pid, n[0], n[1], x)
    elif k == 'C':
        c.add_capacitor(pid, n[0], n[1], x)
    elif k == 'L':
        c.add_inductor(pid, n[0], n[1], x)
    elif k == 'V':
        c.add_vsource(pid, n[0], n[1], x, ac_value=1.)
    elif k == 'I':
        c.add_isource(pid, n[0], n[1], x)
    elif k == 'E':
        c.add_vcvs(pid, n[0], n[1], n[2], n[3], x)
    elif k == 'G':
        c.add_vccs(pid, n[0], n[1], n[2], n[3], x)
    elif k == 'F':
        c.add_cccs(pid, n[0], n[1], x[0], x[1])
    elif k == 'H':
        c.add_ccvs(pid, n[0], n[1], x[0], x[1])
    elif k == 'K':
        c.add_inductor_coupling(pid, *x)
    elif k == 'D':
        c.add_diode(pid, n[0], n[1], 'dm')
    elif k in 'QN':
        c.add_mos(pid, n[0], n[1], n[2], n[3], 1e-6, 1e-6, 'mq' if k == 'Q' else 'mn')
    elif k == 'S':
        c.add_switch(pid, n[0], n[1], n[2], n[3], False, 'sw')


def models(c):
    c.add_model('diode', 'dm', dict(name='dm'))
    c.add_model('mosq', 'mq', dict(name='mq', TYPE='n', VTO=.4, KP=1e-3))
    c.add_model('ekv', 'mn', dict(name='mn', TYPE='n', VTO=.4, KP=1e-3))
    c.add_model('sw', 'sw', dict(name='sw', VT=1., VH=.2, RON=2., ROFF=50.))


def bad_ops(p):
    """Operations that must be refused whatever the state."""
    o = [('bad', 'zero-valued resistor on new nodes'), ('bad', 'unknown diode model on new nodes'),
         ('bad', 'unknown mos model'), ('bad', 'unknown switch model'), ('bad', 'second node is a number'),
         ('bad', 'remove a missing element'), ('bad', 'node name is a number'), ('bad', 'coupling of missing inductors')]
    return o


def do_bad(c, what):
    if what == 'zero-valued resistor on new nodes':
        c.add_resistor('RZ', 'x1', 'x2', 0)
    elif what == 'unknown diode model on new nodes':
        c.add_diode('DZ', 'x1', 'a', 'nope')
    elif what == 'unknown mos model':
        c.add_mos('MZ', 'x1', 'x2', 'x3', '0', 1e-6, 1e-6, 'nope')
    elif what == 'unknown switch model':
        c.add_switch('SZ', 'x1', 'x2', 'x3', '0', False, 'nope')
    elif what == 'second node is a number':
        c.add_capacitor('CZ', 'x1', 7, 1e-6)
    elif what == 'remove a missing element':
        c.remove_elem('R99')
    elif what == 'node name is a number':
        c.create_node(3)
    elif what == 'coupling of missing inductors':
        c.add_inductor_coupling('KZ', 'L1', 'L77', .5)


def describe(c):
    """What a user can see: elements with their terminals by name, nodes."""
    nd = c.nodes_dict
    out = []
    nm = lambda i: None if i is None else c.int_node_to_ext(i)
    for e in c:
        t = [nm(getattr(e, a, None)) for a in ('n1', 'n2', 'sn1', 'sn2', 'ng', 'nb')]
        if e.is_nonlinear:
            for i, p in enumerate(e.get_output_ports()):
                t.append(('out', nm(p[0]), nm(p[1])))
                for q in e.get_drive_ports(i):
                    t.append(('drive', nm(q[0]), nm(q[1])))
        t.append(repr(getattr(e, 'value', None)))
        if hasattr(e, 'coupling_devices'):
            t.append(sorted(k.part_id for k in e.coupling_devices))
        out.append((type(e).__name__, e.part_id, tuple(map(str, t))))
    names = sorted(k for k in nd if isinstance(k, str))
    return tuple(out), tuple(names)


def full_state(c):
    els = []
    for e in c:
        els.append((e.part_id, tuple((k, repr(v)) for k, v in sorted(vars(e).items())
                                     if isinstance(v, (int, float, str, tuple, type(None)))),
                    tuple(sorted(k.part_id for k in getattr(e, 'coupling_devices', ())))))
    return (tuple(els), tuple(sorted((str(k), str(v)) for k, v in c.nodes_dict.items())),
            getattr(c, 'internal_nodes', None))


class Model(object):
    """Surviving elements in order, and nodes."""

    def __init__(self):
        self.els, self.nodes, self.ints = (), frozenset(), 0

    def copy(self):
        m = Model()
        m.els, m.nodes, m.ints = self.els, self.nodes, self.ints
        return m

    def used(self):
        return set(n for e in self.els for n in e[2])


def ops_of(m, palette):
    have = set(e[0] for e in m.els)
    out = []
    for e in palette:
        if e[0] not in have:
            out.append(('add', e))
        else:
            out.append(('rmid', e))
            out.append(('rmel', e))
    for n in ('a', 'c', 'u'):
        out.append(('node', n))
    if m.ints < 2:
        out.append(('int',))
    out.append(('count',))
    return out + bad_ops(palette)


def apply(c, m, op):
    """Apply to the circuit and to the model; judge the refusals."""
    k = op[0]
    before = describe(c)
    expect_refusal = k == 'bad'
    may_refuse = False
    m2 = m.copy()
    if k == 'add':
        e = op[1]
        if e[1] == 'K' and not all(any(x[0] == l for x in m.els) for l in e[3][:2]):
            expect_refusal = True
        m2.els = m.els + (e,)
        m2.nodes = m.nodes | set(e[2])
    elif k in ('rmid', 'rmel'):
        e = op[1]
        m2.els = tuple(x for x in m.els if x is not e)
        gone = set(e[2]) - m2.used() - {'0'}
        m2.nodes = m.nodes - gone
        # an inductor that a coupling refers to
        may_refuse = any(x[1] == 'K' and e[0] in x[3][:2] for x in m2.els)
    elif k == 'node':
        expect_refusal = op[1] in m.nodes
        m2.nodes = m.nodes | {op[1]}
    elif k == 'int':
        m2.ints += 1
    try:
        if k == 'add':
            put(c, op[1])
        elif k == 'rmid':
            c.remove_elem(op[1][0].lower())
        elif k == 'rmel':
            c.remove_elem([x for x in c if x.part_id == op[1][0]][0])
        elif k == 'node':
            c.create_node(op[1])
        elif k == 'int':
            n = c.new_internal_node()
            if n in m.nodes:
                raise core.Disagreement('new internal node %s already exists' % n)
            m2.nodes = m.nodes | {n}
        elif k == 'count':
            n = c.get_nodes_number()
            if n != len(m.nodes):
                raise core.Disagreement('get_nodes_number() = %d, the nodes are %s' % (n, sorted(m.nodes)))
        elif k == 'bad':
            do_bad(c, op[1])
    except core.Disagreement:
        raise
    except Exception as ex:
        if not (expect_refusal or may_refuse):
            raise core.Disagreement('unexpected %s: %s' % (type(ex).__name__, ex))
        if describe(c) != before:
            raise core.Disagreement('the refused operation changed the circuit: %s -> %s' % (
                before, describe(c)))
        return m, 'refused'
    if expect_refusal:
        raise core.Disagreement('not refused')
    if may_refuse:      # accepted: the coupling must have gone as well
        m2.els = tuple(x for x in m2.els if x[1] != 'K')
    return m2, 'done'


def scratch(ahkab, m):
    c = ahkab.Circuit('t')
    for e in m.els:
        put(c, e)
    return c


def structure(c, m, ahkab):
    nd = c.nodes_dict
    names = [k for k in nd if isinstance(k, str)]
    ints = [k for k in nd if not isinstance(k, str)]
    if set(names) != set(m.nodes):
        raise core.Disagreement('nodes %s, in use or created: %s' % (sorted(names), sorted(m.nodes)))
    if len(ints) != len(names) or any(nd[nd[k]] != k for k in nd) or ('0' in nd and nd['0'] != 0):
        raise core.Disagreement('inconsistent node dictionary %s' % (nd,))
    f = scratch(ahkab, m)
    a, b = describe(c)[0], describe(f)[0]
    if a != b:
        d = [(x, y) for x, y in zip(a, b) if x != y] or [(len(a), len(b))]
        raise core.Disagreement('element after the history and built from scratch: %s' % (d[0],))
    return f


def simulate(c, f, m, ctr, ahkab):
    """Same results as the circuit built from scratch."""
    from ahkab import dc_analysis, ac
    if '0' not in m.used() or m.nodes - m.used():
        return False     # a floating created node makes the matrix singular
    res = []
    for x in (c, f):
        try:
            r = dc_analysis.op_analysis(x, outfile='op', verbose=0)
            res.append(None if r is None else
                       {k.upper(): float(np.asarray(r[k]).ravel()[0]) for k in r.keys()})
        except Exception as ex:
            res.append(type(ex).__name__)
    a, b = res
    nl = any(e[1] in 'DQNS' for e in m.els)
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            raise core.Disagreement('results for %s, from scratch for %s' % (sorted(a), sorted(b)))
        tol = 2e-3 if nl else 1e-8
        for k in a:
            if not abs(a[k] - b[k]) <= tol * max(abs(b[k]), 1e-3 if nl else 1.):
                raise core.Disagreement('%s = %.12g after the history, %.12g from scratch' % (k, a[k], b[k]))
        ctr.add('simulated')
        return True
    if nl and not (isinstance(a, str) or isinstance(b, str)):
        return False           # convergence may depend on the numbering
    if isinstance(a, dict) != isinstance(b, dict) or (isinstance(a, str) != isinstance(b, str)):
        raise core.Disagreement('operating point after the history: %s, from scratch: %s' % (a, b))
    return False


def one(case, ctr):
    name, start, prefix, depth = case
    ahkab = core.boot()
    from ahkab import options
    options.dc_max_nr_iter = 200
    palette = PALETTES[name]
    c, m, hist = ahkab.Circuit('t'), Model(), []
    if any(e[1] in 'DQNS' for e in palette):
        models(c)
    if start:
        for e in palette if start == 'full' else [x for x in palette[::-1] if x[1] != 'K']:
            put(c, e)
            m.els += (e,)
            m.nodes |= set(e[2])
        hist.append((start + ' circuit',))
    frontier = [(c, m, hist)]
    seen = set()
    level = 0
    show = lambda h: ' ; '.join(' '.join(str(x[0]) if isinstance(x, tuple) else str(x) for x in o) for o in h)
    while frontier and level < depth:
        nxt = []
        for c, m, hist in frontier:
            ops = ops_of(m, palette)
            if level < len(prefix):
                if prefix[level] >= len(ops):
                    return
                ops = [ops[prefix[level]]]
            for op in ops:
                h2 = hist + [op]
                c2 = copy.deepcopy(c)
                ctr.add('transitions')
                try:
                    m2, verdict = apply(c2, m, op)
                    ctr.add(verdict)
                    if verdict == 'refused':
                        continue
                    k = core.h64((name, full_state(c2), sorted(m2.nodes)))
                    if k in seen and level >= len(prefix):
                        continue
                    seen.add(k)
                    f = structure(c2, m2, ahkab)
                    if ctr.seen('states', (name, full_state(c2))):
                        # on a copy: asking for the size must not be needed before or after
                        c3 = copy.deepcopy(c2)
                        if simulate(c3, f, m2, ctr, ahkab):
                            structure(c3, m2, ahkab)
                        n = c3.get_nodes_number()
                        if n != len(m2.nodes):
                            raise core.Disagreement('get_nodes_number() = %d for the nodes %s' % (
                                n, sorted(m2.nodes)))
                        ctr.add('compared')
                        ctr.sample({'history': show(h2)}, 2)
                except core.Disagreement as e:
                    raise core.Disagreement('after [%s]: %s' % (show(h2), e))
                nxt.append((c2, m2, h2))
        frontier = nxt
        level += 1
    if frontier == []:
        ctr.add('fixpoints')


def run(chk):
    cs = []
    deep = 7 if chk.thorough else 4
    for name in sorted(PALETTES):
        for start, depth in ((None, deep), ('full', deep), ('reversed', deep)):
            for i in range(24):
                cs.append((name, start, (i,), depth))
    chk.explore(one, cs, limit=3000, keyfn=repr)
    for n, k in (('simulated', 2000), ('refused', 1000), ('compared', 5000)):
        chk.require(n, k)
    chk.assumptions += ['twelve palettes of five elements over three nodes and ground']
    return chk.finish('states', 'transitions', 'compared',
                      'breadth-first exploration of the operation histories (additions, removals by name and '
                      'by object, node creation, internal nodes, size queries, eight kinds of refused '
                      'operations) of twelve element palettes up to depth %d; every distinct circuit state is '
                      'compared with a circuit built from scratch, structure and operating point; starting from the empty '
                      'circuit and from the complete one in both orders' % deep)


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
