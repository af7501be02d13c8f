"""P32: names carry no meaning.

Every circuit of a family is built under every assignment of names (from pools
that hold prefixes of each other, look like numbers, like ground, like other
elements or like internal variables) to its nodes and elements, and put through
every analysis of the real code; each result must be that of the plainly named
circuit, with the names exchanged."""
import itertools
import sys

import numpy as np

from vlib import core

PID = 'P32'
SUF = ('1', '10', '01', '1a', '11', 'x')
NODES = ('1', '10', '01', '00', '0a', 'V1', 'V10', 'T', 'in')
NODES3 = ('1', '10', '00', '0a', 'V1', 'L1', 'T', 'f')


# -- the circuits: roles -> circuit -------------------------------------------
def control(ahkab, n):
    """current-controlled sources of either kind sensing either source"""
    from ahkab import time_functions as tf
    c = ahkab.Circuit('t')
    c.add_vsource(n['V1'], n['a'], '0', 1., 1., function=tf.sin(0., 1., 3.))
    c.add_resistor(n['R1'], n['a'], n['b'], 2.)
    c.add_vsource(n['V2'], n['b'], n['c'], .25)
    c.add_resistor(n['R2'], n['c'], '0', 3.)
    c.add_cccs(n['F1'], n['b'], '0', n['V1'], .3)
    c.add_ccvs(n['H1'], n['d'], '0', n['V2'], .7)
    c.add_resistor(n['R3'], n['d'], n['c'], 5.)
    c.add_capacitor(n['C1'], n['c'], '0', .02)
    return c


def coupled(ahkab, n):
    """three inductors, two of them coupled"""
    from ahkab import time_functions as tf
    c = ahkab.Circuit('t')
    c.add_inductor(n['L3'], n['c'], n['d'], .5)
    c.add_resistor(n['R3'], n['d'], '0', .5)
    c.add_vsource(n['V1'], n['a'], '0', 1., 1., function=tf.sin(0., 1., 3.))
    c.add_inductor(n['L1'], n['a'], n['b'], .1)
    c.add_inductor(n['L2'], n['c'], '0', .3)
    c.add_resistor(n['R1'], n['b'], '0', 3.)
    c.add_resistor(n['R2'], n['c'], n['a'], 2.)
    c.add_inductor_coupling(n['K1'], n['L1'], n['L2'], .4)
    c.add_inductor_coupling(n['K2'], n['L2'], n['L3'], .2)
    c.add_capacitor(n['C1'], n['b'], n['c'], .05)
    return c


def linear(ahkab, n):
    """voltage-controlled sources and a current source"""
    from ahkab import time_functions as tf
    c = ahkab.Circuit('t')
    c.add_isource(n['I1'], '0', n['a'], .5, 1., function=tf.sin(0., 1., 3.))
    c.add_resistor(n['R1'], n['a'], n['b'], 2.)
    c.add_vcvs(n['E1'], n['c'], '0', n['a'], n['b'], 2.)
    c.add_vccs(n['G1'], n['b'], '0', n['c'], n['a'], .3)
    c.add_resistor(n['R2'], n['c'], n['b'], 4.)
    c.add_resistor(n['R3'], n['b'], '0', 7.)
    c.add_inductor(n['L1'], n['d'], n['a'], .1)
    c.add_resistor(n['R4'], n['d'], '0', 1.)
    return c


def devices(ahkab, n):
    """two diodes and two transistors, each with a model of its own"""
    from ahkab import time_functions as tf
    c = ahkab.Circuit('t')
    c.add_model('diode', n['m1'], {'name': n['m1'], 'IS': 1e-14})
    c.add_model('diode', n['m2'], {'name': n['m2'], 'IS': 1e-9})
    c.add_model('mosq', n['m3'], {'name': n['m3'], 'TYPE': 'n', 'VTO': .5, 'KP': 1e-4})
    c.add_model('mosq', n['m4'], {'name': n['m4'], 'TYPE': 'n', 'VTO': .7, 'KP': 3e-4})
    c.add_vsource(n['V1'], n['a'], '0', 1.2, 1., function=tf.sin(1.2, .1, 3.))
    c.add_resistor(n['R1'], n['a'], n['b'], 1e3)
    c.add_diode(n['D1'], n['b'], '0', n['m1'])
    c.add_resistor(n['R2'], n['a'], n['c'], 1e3)
    c.add_diode(n['D2'], n['c'], '0', n['m2'])
    c.add_resistor(n['R3'], n['a'], n['d'], 1e4)
    c.add_mos(n['M1'], n['d'], n['a'], '0', '0', 2e-6, 1e-6, n['m3'])
    c.add_mos(n['M2'], n['d'], n['b'], '0', '0', 2e-6, 1e-6, n['m4'])
    c.add_capacitor(n['C1'], n['d'], '0', 1e-6)
    return c


CIRCUITS = {
    'control': (control, 'abcd', ('V1', 'V2', 'F1', 'H1', 'R1', 'R2', 'R3', 'C1')),
    'coupled': (coupled, 'abcd', ('L1', 'L2', 'L3', 'K1', 'K2', 'V1', 'R1', 'R2', 'R3', 'C1')),
    'linear': (linear, 'abcd', ('I1', 'E1', 'G1', 'R1', 'R2', 'R3', 'R4', 'L1')),
    'devices': (devices, 'abcd', ('V1', 'D1', 'D2', 'M1', 'M2', 'R1', 'R2', 'R3', 'C1',
                                  'm1', 'm2', 'm3', 'm4')),
}
VALUES = {'control': {'V1': 1.1, 'V2': .25, 'F1': .3, 'H1': .7, 'R1': 2., 'R2': 3., 'R3': 5., 'C1': .02},
          'coupled': {'L1': .1, 'L2': .3, 'L3': .5, 'V1': 1.1, 'R1': 3., 'R2': 2., 'R3': .5, 'C1': .05,
                      'K1': .4, 'K2': .2},
          'linear': {'I1': 1.1, 'E1': 2., 'G1': .3, 'R1': 2., 'R2': 4., 'R3': 7., 'R4': 1., 'L1': .1}}


def plain(which):
    """the neutral names: no name is a prefix of another, none looks like a
    node voltage or a current"""
    n = {k: 'n%sq' % k for k in CIRCUITS[which][1]}
    for i, e in enumerate(CIRCUITS[which][2]):
        n[e] = e[0] + 'pqrtuvwxyzabc'[i] + 'k'
    return n


def analyses(ahkab, which, c, n, deep, sym):
    """Everything the analyses say, in terms of the roles."""
    from ahkab import dc_analysis, ac, transient, pz, symbolic
    out = []
    nodes = {n[k].upper(): k for k in CIRCUITS[which][1]}
    elems = {n[k].upper(): k for k in CIRCUITS[which][2]}

    def keys(r, *skip):
        ks = []
        for key in r.keys():
            k = key.upper()
            if key in skip:
                ks.append(key)
            elif k[:2] == 'I(' and k[2:-1] in elems:
                ks.append('I ' + elems[k[2:-1]])
            elif k[:1] == 'V' and k[1:] in nodes:
                ks.append('V ' + nodes[k[1:]])
            else:
                ks.append('? ' + k)
        return ks

    def table(name, r, *skip):
        ks = keys(r, *skip)
        a = np.asarray(r.asarray())
        out.append((name + ' variables', tuple(ks)))
        out.append((name + ' values', a))
        if len(set(k.upper() for k in r.keys())) == len(ks):
            for k, kk in zip(list(r.keys()), ks):
                out.append((name + ' ' + kk, np.asarray(r[k]).reshape(-1)))
    op = dc_analysis.op_analysis(c, outfile='stdout', verbose=0)
    table('op', op)
    src = [e for e in CIRCUITS[which][2] if e[0] in 'VI']
    for s in src:
        r = dc_analysis.dc_analysis(c, 0., 1., .5, n[s], 'LINEAR', outfile='dc', verbose=0)
        ks = list(r.keys())
        out.append(('dc %s variables' % s, tuple(keys(r, ks[0]))[1:]))
        out.append(('dc %s values' % s, np.asarray(r.asarray())))
    r = ac.ac_analysis(c, .1, 3, 10., 'LOG', outfile='ac', verbose=0)
    table('ac', r, 'f')
    x0 = np.arange(1., op.asarray().size + 1.).reshape(-1, 1) / 10. if which != 'devices' else op.asarray()
    r = transient.transient_analysis(c, 0., .05, .2, method='TRAP', use_step_control=False, x0=x0,
                                     outfile='tran', verbose=0)
    table('tran', r, 'T')
    if deep:
        r = transient.transient_analysis(c, 0., .05, .3, method='GEAR2', use_step_control=True, x0=x0,
                                         outfile='tran', verbose=0)
        table('tran adaptive', r, 'T')
    if which != 'devices':
        for s in src:
            r = pz.calculate_singularities(c, input_source=n[s], output_port=(n['b'], n['a']))
            for kind in 'pz':
                v = [complex(r[k]) for k in r.keys() if k[0] == kind]
                v.sort(key=lambda z: (round(z.real, 4), round(z.imag, 4)))
                out.append(({'p': 'poles ', 'z': 'zeros '}[kind] + s, np.array(v)))
    if which != 'devices' and sym:
        import sympy
        for e in c:
            e.is_symbolic = e.part_id[0] in sym
        up = {n[k].upper(): VALUES[which][k] for k in VALUES[which]}
        if which == 'coupled':
            for k, (i, j) in (('K1', ('L1', 'L2')), ('K2', ('L2', 'L3'))):
                up['M' + n[k][1:].upper()] = up[n[k].upper()] = \
                    VALUES[which][k] * np.sqrt(VALUES[which][i] * VALUES[which][j])
        for s in ([None] if which == 'coupled' else [None] + src[:1]):
            r, tf = symbolic.symbolic_analysis(c, source=(n[s] if s else None), ac_enable=True, verbose=0)
            for k in r.keys():
                u = str(k).upper()
                role = 'I ' + elems[u[2:-1]] if u[:2] == 'I[' and u[2:-1] in elems else \
                    'V ' + nodes[u[1:]] if u[:1] == 'V' and u[1:] in nodes else '? ' + u
                e = sympy.sympify(r[k])
                sub = {}
                for sy in e.free_symbols:
                    nm = sy.name
                    sub[sy] = complex(.3, 1.7) if nm == 's' else up.get(nm, complex('nan'))
                out.append(('symbolic %s %s' % (s, role), np.array([complex(e.subs(sub))])))
    return out


SRC = {'control': 'VF', 'coupled': 'V', 'linear': 'IE', 'devices': 'V'}
REF = {}


def same(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a == b
    if a.shape != b.shape:
        return False
    if not a.size:
        return True
    return bool(np.all(np.abs(a - b) <= 1e-7 * np.abs(a) + 1e-9 * np.abs(a).max() + 1e-15))


def one(case, ctr):
    which, names, deep, sym = case
    ahkab = core.boot()
    f = CIRCUITS[which][0]
    key = (which, deep, sym)
    if key not in REF:
        n0 = plain(which)
        r = analyses(ahkab, which, f(ahkab, n0), n0, deep, sym)
        bad = [x for x in r if isinstance(x[1], tuple) and any(str(k).startswith('?') for k in x[1])]
        if bad:
            raise core.Disagreement('%s with plain names %s: unknown variables %s' % (which, n0, bad))
        REF[key] = dict(r)
    ref = REF[key]
    n = plain(which)
    n.update(names)
    got = analyses(ahkab, which, f(ahkab, n), n, deep, sym)
    ctr.add('namings')
    ctr.add('results', len(got))
    ctr.seen('states', (which, sorted(n.items())))
    d = dict(got)
    for k in sorted(ref, key=str):
        if ' values' in k or ' variables' in k or k.startswith(('zeros', 'poles', 'symbolic')) or k in d:
            if k not in d:
                raise core.Disagreement('%s with the names %s: no result "%s" (results: %s)' % (
                    which, names, k, sorted(d)[:40]))
            ctr.add('compared')
            if not same(ref[k], d[k]):
                raise core.Disagreement('%s with the names %s: %s is\n%s\ninstead of\n%s' % (
                    which, names, k, d[k], ref[k]))
    new = sorted(k for k in d if k not in ref)
    if new:
        raise core.Disagreement('%s with the names %s: unexpected results %s' % (which, names, new))
    ctr.sample({'circuit': which, 'names': str(names)}, 3)


def namings(which, thorough):
    nodes, elems = CIRCUITS[which][1:]
    yield {}
    # nodes
    pool = NODES if len(nodes) == 3 or thorough else NODES3
    k = len(nodes) if thorough or len(nodes) == 3 else 2
    for where in itertools.combinations(nodes, k):
        for p in itertools.permutations(pool, k):
            yield dict(zip(where, p))
    # elements of one kind
    for letter in sorted(set(e[0] for e in elems)):
        g = [e for e in elems if e[0] == letter]
        for p in itertools.permutations(SUF, len(g)):
            yield {e: letter + s for e, s in zip(g, p)}
    # all elements with the same ending, nodes named like elements
    for s in SUF:
        cnt = {}
        q = {}
        for e in elems:
            cnt[e[0]] = cnt.get(e[0], 0) + 1
            q[e] = e[0] + s * cnt[e[0]]
        yield q
        for p in itertools.permutations(sorted(q.values())[:5], 2):
            z = dict(q)
            z.update(zip(nodes, p))
            yield z


def run(chk):
    cs = []
    for which in sorted(CIRCUITS):
        seen = set()
        nodes = CIRCUITS[which][1]
        for n in namings(which, chk.thorough):
            key = str(sorted(n.items()))
            if key not in seen:
                seen.add(key)
                # the symbolic solver takes a second: for some of the namings only
                named = set(n) - set(nodes)
                sym = chk.thorough or (len(named) != len(n) and not named and 'a' in n and 'b' in n) or \
                    (len(named) == len(n) and set(k[0] for k in named) != set('R') and
                     not any(v[1:] in ('11', 'x') for k, v in n.items() if k[0] in 'LK'))
                # only the elements renamed are symbols, the others have their values
                mine = ''.join(sorted(set(k[0] for k in n if k not in nodes)))
                mine = mine if len(mine) < 3 else 'LK' if which == 'coupled' else 'VI'
                cs.append((which, n, chk.thorough, sym and which != 'devices' and (mine or SRC[which])))
    cs.sort(key=lambda c: len(c[1]))
    chk.explore(one, cs, limit=300, keyfn=repr)
    chk.require('namings', 1500)
    chk.require('compared', 30000)
    chk.assumptions += ['names differ in more than their case']
    return chk.finish('states', 'results', 'namings',
                      'every assignment of names from the pools %s and %s to the nodes and to the elements '
                      'of one kind of four circuits, each through operating point, DC sweeps, AC, '
                      'transient, poles and zeros and symbolic analysis' % (NODES, SUF))


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
