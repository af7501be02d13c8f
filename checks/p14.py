"""P14: subcircuits.  Every body of a grammar, every way of connecting the ports
of one and two instances, of nesting and of referring to elements by name, read
by the real parser and compared - elements, connections, references and operating
point - with the flat netlist that a small expander writes in place."""
import itertools
import sys

import numpy as np

from vlib import core, net

PID = 'P14'
MODELS = ['.model diode dm is=1f n=1.5', '.model ekv nm type=n vto=.5 kp=1m', '.model mosq qm type=n vto=.5 kp=1m',
          '.model sw sm vt=.3 vh=.1 ron=2 roff=1meg']
NNODES = dict(r=2, c=2, l=2, v=2, i=2, d=2, e=4, g=4, m=4, s=4, f=2, h=2, k=0)
NREFS = dict(f=1, h=1, k=2)


def expand(lines, subs, path=(), ports=None):
    """[(tokens, node indices, reference indices)] with private names made unique."""
    out = []

    def node(n):
        if n == '0':
            return '0'
        if ports is not None and n in ports:
            return ports[n]
        return n if not path else 'n_%s_%s' % ('_'.join(path), n)

    def name(x):
        return x if not path else x[0] + 'q' + '_'.join(path) + '_' + x[1:]
    for l in lines:
        t = l.split()
        k = t[0][0]
        if k == 'x':
            kv = dict(a.split('=') for a in t[1:])
            s = subs[kv.pop('name')]
            out += expand(s[1], subs, path + (t[0],), dict((p, node(kv[p])) for p in s[0]))
            continue
        n, r = NNODES[k], NREFS.get(k, 0)
        a = [name(t[0])] + [node(x) for x in t[1:1 + n]] + [name(x) for x in t[1 + n:1 + n + r]] + t[1 + n + r:]
        out.append(' '.join(a))
    return out


def written(top, subs, order=0):
    """The netlist with the calls; definitions before, after or among the elements."""
    defs = []
    for s, (ports, body) in subs.items():
        defs.append(['.subckt %s %s' % (s, ' '.join(ports))] + list(body) + ['.ends'])
    if order == 1:
        defs.reverse()
    flat = sum(defs, [])
    if order == 2:
        lines = flat + MODELS + list(top)
    elif order == 1:
        lines = list(top) + MODELS + flat
    else:
        lines = list(top[:1]) + flat + list(top[1:]) + MODELS
    return 'title\n' + '\n'.join(lines) + '\n'


def match(S, F):
    """None or what differs; otherwise the map of node names and of element names."""
    if len(S) != len(F):
        return '%d elements instead of %d' % (len(S), len(F)), None, None
    nodes, ids = {'0': '0'}, {}
    for a, b in zip(S, F):
        ids[a.part_id.lower()] = b.part_id.lower()
        for x in ('n1', 'n2', 'sn1', 'sn2', 'ng', 'nb'):
            if hasattr(a, x) != hasattr(b, x):
                return '%s is a %s' % (a.part_id, type(a).__name__), None, None
            if hasattr(a, x):
                p, q = str(S.nodes_dict[getattr(a, x)]), str(F.nodes_dict[getattr(b, x)])
                if nodes.setdefault(p, q) != q:
                    return '%s (%s of %s) is both %s and %s' % (p, x, a.part_id, nodes[p], q), None, None
    if len(ids) != len(S):
        return 'repeated element names %s' % sorted(e.part_id for e in S), None, None
    if len(set(nodes.values())) != len(nodes):
        return 'nodes merged or split: %s' % nodes, None, None
    if S.get_nodes_number() != F.get_nodes_number():
        return '%d nodes instead of %d' % (S.get_nodes_number(), F.get_nodes_number()), None, None
    for a, b in zip(S, F):
        if (a.part_id[0]).lower() != b.part_id[0].lower():
            return 'the element %s stands for %s' % (a.part_id, b.part_id), None, None
        if 'q' not in b.part_id and a.part_id.lower() != b.part_id.lower():
            return 'the top level element %s is called %s' % (b.part_id, a.part_id), None, None
        for x in ('source_id', 'L1', 'L2'):
            if hasattr(a, x):
                r = ids.get(str(getattr(a, x)).lower())
                if r != str(getattr(b, x)).lower():
                    return '%s of %s (%s) refers to %s (%s)' % (x, a.part_id, b.part_id, getattr(a, x), r), None, None
        if hasattr(a, 'coupling_devices'):
            p = sorted(ids[c.part_id.lower()] for c in a.coupling_devices)
            q = sorted(c.part_id.lower() for c in b.coupling_devices)
            if p != q:
                return 'couplings of %s: %s instead of %s' % (a.part_id, p, q), None, None
        da = [d for d in net.describe_elem(a, S.nodes_dict, False) if d[0] not in ('n1', 'n2', 'sn1', 'sn2', 'ng', 'nb')]
        db = [d for d in net.describe_elem(b, F.nodes_dict, False) if d[0] not in ('n1', 'n2', 'sn1', 'sn2', 'ng', 'nb')]
        if not net.close(da, db):
            return '%s: %s instead of %s' % (a.part_id, da, db), None, None
    for p, q in nodes.items():
        if not q.startswith('n_') and p != q:
            return 'the top level node %s is called %s' % (q, p), None, None
    return None, nodes, ids


def compare(top, subs, ctr, order=0, op=True):
    ahkab = core.boot()
    text = written(top, subs, order)
    flat = expand(top, subs)
    ftext = 'title\n' + '\n'.join(flat + MODELS) + '\n'
    ctr.add('executions')
    ctr.seen('states', text)
    try:
        F = net.read(ftext)[0]
    except net.Refused as e:
        raise core.Disagreement('the flat netlist is refused (%s):\n%s' % (e, ftext))
    try:
        S = net.read(text)[0]
    except net.Refused as e:
        raise core.Disagreement('refused (%s):\n%s' % (e, text))
    why, nodes, ids = match(S, F)
    if why:
        raise core.Disagreement('%s\n%s\nwritten in place:\n%s' % (why, text, ftext))
    if not op:
        return
    from ahkab import options, utilities
    options.dc_max_nr_iter = 100
    options.use_gmin_stepping = options.use_source_stepping = False
    if not utilities.check_circuit(F)[0]:
        return
    res = []
    for c in (S, F):
        try:
            r = ahkab.run(c, ahkab.new_op())
            res.append(dict((k.lower(), float(np.real(v))) for k, v in r['op'].items()) if 'op' in r and r['op'] is not None
                       else None)
        except (Exception, SystemExit) as e:
            res.append(type(e).__name__)
    ctr.add('op')
    if not isinstance(res[0], dict) or not isinstance(res[1], dict):
        if (res[0] is None) != (res[1] is None) or (isinstance(res[0], str) != isinstance(res[1], str)):
            raise core.Disagreement('operating point %s with the subcircuit, %s written in place:\n%s' % (res[0], res[1], text))
        return
    ctr.add('op_solved')
    want = {}
    back = dict((q, p) for p, q in nodes.items())
    bid = dict((q, p) for p, q in ids.items())
    for k, v in res[1].items():
        want['v' + back[k[1:]] if k[0] == 'v' else 'i(%s)' % bid[k[2:-1]]] = v
    if set(want) != set(res[0]):
        raise core.Disagreement('variables %s instead of %s\n%s' % (sorted(res[0]), sorted(want), text))
    for k in want:
        if not abs(want[k] - res[0][k]) <= 1e-9 + 1e-6 * abs(want[k]):
            raise core.Disagreement('%s is %.9g, written in place %.9g\n%s' % (k, res[0][k], want[k], text))


# element atoms: text with node slots {0}, {1}...
ATOMS = ['r1 {0} {1} 2', 'c1 {0} {1} 1u ic=2', 'l1 {0} {1} 1m ic=3', 'v1 {0} {1} vdc=3 vac=2', 'i1 {0} {1} idc=2',
         'v1 {0} {1} vdc=3 type=sin 0 1 1k', 'i1 {0} {1} idc=1 type=pulse 0 1 1u 1n 1n 3u 9u', 'd1 {0} {1} dm area=2 off',
         'e1 {0} {1} {2} {3} 2', 'g1 {0} {1} {2} {3} .25', 'm1 {0} {1} {2} {3} nm w=1u l=2u', 'm1 {0} {1} {2} {3} qm w=1u l=2u m=2',
         's1 {0} {1} {2} {3} sm']
GROUPS = [['v1 {0} {1} vdc=3', 'f1 {2} {3} v1 .5'], ['v1 {0} {1} vdc=3', 'h1 {2} {3} v1 2'],
          ['f1 {2} {3} v1 .5', 'v1 {0} {1} vdc=3'], ['v10 {2} 0 vdc=9', 'v1 {0} {1} vdc=3', 'f1 {2} {3} v1 .5'],
          ['l1 {0} {1} 1m', 'l2 {2} {3} 2m', 'k1 l1 l2 .5'], ['l1 {0} {1} 1m', 'l2 {2} {3} 2m', 'l10 {0} {3} 3m', 'k1 l2 l1 .5',
                                                              'k2 l10 l1 .25']]


def slots(lines):
    return 1 + max(int(x[0]) for l in lines for x in l.split('{')[1:])


TOPS = ['v1 a 0 vdc=1', 'r1 a b 1', 'r2 b 0 3', 'l1 b 0 1m', 'l2 a b 1m', 'k1 l1 l2 .1', 'f1 b 0 v1 .25', 'r4 m 0 1', 'r5 m b 2']


def body_case(case, ctr):
    """every body: all node choices for every atom and group; one or two instances."""
    k, two, quick = case
    b = ([[x] for x in ATOMS] + GROUPS)[k]
    n = slots(b)
    names = ('p', 'q', 'm', '0') if n == 2 or not quick else ('p', 'm', '0')
    for ns in itertools.product(names, repeat=n):
        body = [l.format(*ns) for l in b] + ['r3 p q 1', 'r9 m p 2', 'r10 m q 5']
        top = TOPS + ['x1 name=s p=a q=b']
        if two:
            top += ['x2 name=s p=0 q=a', 'r8 a 0 1']
        compare(top, {'s': (('p', 'q'), body)}, ctr, op=True)


CALLS_BODY = ['r1 a q 2', 'v1 q m vdc=2', 'f1 a m v1 .5', 'r2 m 0 1', 'l1 b 0 1m', 'r3 b a 1']     # ports a and q; b is private


def call_case(case, ctr):
    """two (thorough: three) instances, every way of connecting their ports, written in both orders."""
    maps, order = case
    top = ['v1 a 0 vdc=1', 'r1 a b 1', 'r2 b c 3', 'r3 c 0 1', 'f1 c 0 v1 .25']
    for flip in itertools.product((0, 1), repeat=len(maps)):
        t = list(top)
        for i, (m, f) in enumerate(zip(maps, flip)):
            kv = ['a=%s' % m[0], 'q=%s' % m[1]]
            if f:
                kv.reverse()
            call = 'x%s ' % ('1', '10', '2')[i] + ' '.join((['name=s'] + kv) if not f else kv + ['name=s'])
            t.insert((0, len(t), 2)[i], call)
        compare(t, {'s': (('a', 'q'), CALLS_BODY)}, ctr, order)


def port_case(case, ctr):
    """every number and naming of ports, including the names of the outer nodes."""
    n, quick = case
    outer = ['a', 'b', 'c', '0']
    for ports in itertools.permutations(('a', 'b', 'p', 'x1'), n):
        for conn in itertools.product(outer, repeat=n):
            body = ['r%d %s m %d' % (i + 1, p, i + 1) for i, p in enumerate(ports)] + ['r9 m 0 3', 'i1 m 0 idc=1', 'r8 c m 2']
            top = ['v1 a 0 vdc=1', 'r1 a b 1', 'r2 b c 3', 'r3 c 0 1',
                   'x1 name=s ' + ' '.join('%s=%s' % x for x in zip(ports, conn)), 'x1a name=s ' + ' '.join(
                       '%s=%s' % x for x in zip(ports, conn[::-1]))]
            compare(top, {'s': (ports, body)}, ctr, op=not quick)


def nest_case(case, ctr):
    """a subcircuit that calls another (and a third), all connections; the same element, node and instance names everywhere."""
    inner, outer2, order, deep = case
    s = (('p', 'q'), ['r1 p m 2', 'v1 m q vdc=2', 'f1 p q v1 .5', 'r2 m 0 1', 'r4 p q 1'])
    tb = ['r1 p m 1', 'x1 name=s p=%s q=%s' % inner, 'v1 p 0 vdc=4', 'h1 h 0 v1 3', 'r7 h m 1', 'r2 m q 1', 'r3 q 0 2']
    if outer2:
        tb.insert(0, 'x2 name=s p=m q=q')
    subs = {'s': s, 't': (('p', 'q'), tb)}
    top = ['v1 a 0 vdc=1', 'r1 a p 1', 'r2 p m 3', 'r3 m 0 1', 'f1 m 0 v1 .25']
    if deep:
        subs['u'] = (('q', 'p'), ['r1 p q 1', 'x1 name=t q=p p=m', 'r2 m 0 1', 'x2 name=s q=0 p=q', 'v1 q z vdc=1', 'r5 z 0 1'])
    for conn in itertools.product(('a', 'p', '0'), repeat=2):
        t = list(top)
        t.insert(2, 'x1 name=%s p=%s q=%s' % ('u' if deep else 't', conn[0], conn[1]))
        t.append('x2 name=s p=a q=m')
        if outer2:
            t.append('x3 name=t q=p p=m')
            t[1] = 'r1 a p 2'
        if conn[0] == '0' or (outer2 and deep):
            pass
        compare(t, subs, ctr, order)


def run(chk):
    th = chk.thorough
    nb = len(ATOMS) + len(GROUPS)
    chk.explore(body_case, [(k, two, not th) for k in range(nb) for two in (0, 1)], limit=600)
    ends = list(itertools.product(('a', 'b', 'c', '0'), repeat=2))
    calls = [((m1, m2), o) for m1 in ends for m2 in ends for o in range(3 if th else 1)] + [((m1,), o) for m1 in ends for o in range(3)]
    if th:
        calls += [((m1, m2, m3), 0) for m1 in ends for m2 in ends for m3 in ends]
    chk.explore(call_case, calls, limit=120)
    chk.explore(port_case, [(n, n > 2 and not th) for n in ((1, 2, 3, 4) if th else (1, 2, 3))], limit=600)
    chk.explore(nest_case, [(i, o2, o, d) for i in itertools.product(('p', 'q', 'm', '0', 'z'), repeat=2) for o2 in (0, 1)
                            for o in range(3) for d in (0, 1)], limit=120)
    for n, m in (('op', 1000), ('op_solved', 800)):
        chk.require(n, m)
    chk.assumptions += ['names in the netlists are free of "-", which the expansion uses in the names it makes']
    return chk.finish('states', 'executions', 'executions',
                      'one subcircuit body per element kind (and groups of elements referring to each other) with every choice of '
                      'nodes, every connection of %d instances, every naming of up to %d ports, every connection of nested calls up to '
                      'three levels, in three textual orders; structure and operating point against the flat netlist'
                      % (3 if th else 2, 4 if th else 3))


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
