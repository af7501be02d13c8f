"""P18: a result set gives exactly the computed data, through every accessor, in
every order of access (all sequences of accessor calls up to a depth on every
kind of result set)."""
import itertools
import os
import sys

import numpy as np

from vlib import core

PID = 'P18'

CIRC = {
    'one': [('I', 'I1', '0', 'a'), ('R', 'R1', 'a', '0')],
    'two': [('V', 'V1', 'a', '0'), ('R', 'R1', 'a', '0')],
    'prefix': [('V', 'VS', '2', '0'), ('R', 'R1', '2', '10'), ('L', 'L1', '10', '1'), ('R', 'R2', '1', '0'),
               ('V', 'V2', '100', '0'), ('E', 'E1', '11', '0', '1', '0')],
    'case': [('V', 'Vin', 'INP', '0'), ('R', 'R1', 'INP', 'Out'), ('C', 'C1', 'Out', '0')],
}
DCSWEEP = {'one': 'I1', 'two': 'V1', 'prefix': 'VS', 'case': 'Vin'}


def circuit(ahkab, name):
    c = ahkab.Circuit('results of ' + name)
    for e in CIRC[name]:
        if e[0] == 'V':
            c.add_vsource(e[1], e[2], e[3], 2., 1.)
        elif e[0] == 'I':
            c.add_isource(e[1], e[2], e[3], 1., 1.)
        elif e[0] == 'R':
            c.add_resistor(e[1], e[2], e[3], 2.)
        elif e[0] == 'L':
            c.add_inductor(e[1], e[2], e[3], .5)
        elif e[0] == 'C':
            c.add_capacitor(e[1], e[2], e[3], .5)
        elif e[0] == 'E':
            c.add_vcvs(e[1], e[2], e[3], e[4], e[5], 3.)
    return c


def names_of(c, name):
    n = ['V' + c.nodes_dict[i] for i in range(1, c.get_nodes_number())]
    return n + ['I(%s)' % e[1].upper() for e in CIRC[name] if e[0] in 'VLE']


def data(rows, cols, seed):
    pool = [.1, -1. / 3, 2e-13, 1e9 + 1. / 7, 0., -4.35, 7.7e-30, 1., np.pi, -2. ** .5, 5e-324, 3e300]
    return np.array([[pool[(seed + 5 * i + 3 * j + i * j) % len(pool)] for j in range(cols)]
                     for i in range(rows)])


def make(ahkab, kind, cname, n):
    """A result set, and what it should contain: [(name, values)]."""
    from ahkab import results, options
    import sympy
    c = circuit(ahkab, cname)
    names = names_of(c, cname)
    m = len(names)
    base = kind.split(':')[0]
    if base == 'op':
        x, err = data(m, 1, n), data(m, 1, n + 3)
        r = results.op_solution(x.copy(), err, c, 'o.op')
        if kind == 'op:file':
            r.write_to_file()
        return r, [(k, x[i]) for i, k in enumerate(names)]
    if base == 'tran':
        X, t = data(m, n, 1), np.cumsum(1. / (1 + np.arange(n)))
        op = results.op_solution(X[:, :1], X[:, :1], c, None)
        r = results.tran_solution(c, 0., 1., op, 'TRAP', 'o.tran')
        for i in range(n):
            r.add_line(t[i], X[:, i:i + 1])
        r.lock()
        return r, [('T', t)] + [(k, X[i]) for i, k in enumerate(names)]
    if base == 'dc':
        X, t = data(m, n, 2), -1. + np.arange(n) / 3.
        s = DCSWEEP[cname]
        r = results.dc_solution(c, -1., 1., s.upper() if n % 2 else s, 'LINEAR', 'o.dc')
        for i in range(n):
            r.add_op(t[i], results.op_solution(X[:, i:i + 1], X[:, i:i + 1], c, None))
        return r, [(s, t)] + [(k, X[i]) for i, k in enumerate(names)]
    if base == 'pss':
        X, t = data(m, n, 4), np.arange(n) / 7.
        r = results.pss_solution(c, 'shooting', 1., 'o.shooting')
        r.set_results(t.reshape(1, -1), X)
        return r, [('T', t)] + [(k, X[i]) for i, k in enumerate(names)]
    if base == 'ac':
        pool = np.array([1 + 2j, -.5j, -3., 3e-15 - 4e-15j, 0., -1 - 1j, 2e5j, .25])
        X = np.array([[pool[(3 * i + 5 * j + i * j) % 8] for j in range(n)] for i in range(m)])
        f = 10. ** np.arange(n) / 3.
        options.ac_phase_in_deg = kind == 'ac:deg'
        r = results.ac_solution(c, 1., 10., n, 'LOG', None, 'o.ac')
        for i in range(n):
            r.add_line(f[i], X[:, i:i + 1])
        return r, [('f', f)] + [(k, X[i]) for i, k in enumerate(names)]
    if base == 'pz':
        P = [(), (-1.,), (-2. + 1j, -2. - 1j), (-5., -5., -1. / 3, 1e9 + 2e8j, 1e9 - 2e8j)][n % 4]
        Z = [(), (0.,), (3.5, 3.5), (-1j, 1j, 7.)][n // 4 % 4]
        r = results.pz_solution(c, P, Z, None if kind == 'pz:none' else 'o.pz')
        srt = lambda v: sorted(v, key=lambda z: (complex(z).real, complex(z).imag))
        return r, [('p%d' % i, [complex(p)]) for i, p in enumerate(srt(P))] + \
            [('z%d' % i, [complex(p)]) for i, p in enumerate(srt(Z))]
    s, R = sympy.Symbol('s'), [sympy.Symbol(k) for k in ('R1', 'C1', 'R10')]
    exprs = [R[0] / (1 + s * R[1]), R[2] + 1, s * R[0], R[1] ** 2, R[0] - R[2] / 3, 1 / s, sympy.Integer(0)]
    if kind.startswith('symbolic:tf'):
        d = {}
        for i, k in enumerate(names[:1 + n]):
            d[k.upper() + '/V1'] = {'gain': exprs[i], 'gain0': exprs[(i + 1) % 7], 'poles': [R[0]], 'zeros': []}
        r = results.symbolic_solution(d, {}, c, 'o.tfs', tf=True)
    else:
        d = {}
        for i, k in enumerate(names[:1 + n]):
            d[sympy.Symbol(k.upper())] = exprs[i]
        r = results.symbolic_solution(d, {}, c, 'stdout' if kind == 'symbolic:none' else 'o.symbolic')
    if kind.endswith(':load'):
        r = results.symbolic_solution.load('o.tfs' if 'tf' in kind else 'o.symbolic')
    return r, [(str(k), v) for k, v in d.items()]


def equal(kind, got, want):
    if kind.startswith('symbolic'):
        return got == want
    g, w = np.array(got).ravel(), np.array(want).ravel()
    if g.shape != w.shape:
        return False
    if kind.startswith(('ac', 'pz')):
        return np.allclose(g, w, rtol=1e-14, atol=0.) or \
            bool(np.all(np.abs(g - w) <= 1e-14 * np.abs(w)))
    return np.array_equal(g, w)


class Wrong(Exception):
    pass


def expect(cond, msg, *a):
    if not cond:
        raise core.Disagreement(msg % a)


def pairs(kind, got, model, what):
    got = list(got)
    expect(len(got) == len(model), '%s gives %d variables, there are %d', what, len(got), len(model))
    for (gk, gv), (k, v) in zip(got, model):
        expect(str(gk).lower() == k.lower(), '%s gives %s, expected %s', what, gk, k)
        expect(equal(kind, gv, v), '%s: %s is %s, expected %s', what, k, gv, v)


SWAPS = (lambda s: s, lambda s: s.upper(), lambda s: s.lower(), lambda s: s.swapcase())
BAD = ('nobody', 'V', '', 'I(V1', 'Va ', 'p', 'I()', '|Va|', 'arg(Va)', 'ff')


def wrong_names(model):
    have = {k.lower() for k, _ in model}
    extra = [k[:-1] for k, _ in model] + [k + '0' for k, _ in model]
    return [b for b in list(BAD) + extra if b.lower() not in have]


def ops_for(kind, model):
    """name -> function(result); every one raises Disagreement when it differs."""
    sym = kind.startswith('symbolic')
    swept = kind.split(':')[0] in ('tran', 'dc', 'ac', 'pss')
    O = {}

    def keys(r):
        got = [str(k).lower() for k in r.keys()]
        expect(got == [k.lower() for k, _ in model], 'keys() is %s, expected %s', got, [k for k, _ in model])

    def values(r):
        got = list(r.values())
        expect(len(got) == len(model), 'values() has %d, expected %d', len(got), len(model))
        for g, (k, v) in zip(got, model):
            expect(equal(kind, g, v), 'values(): %s is %s, expected %s', k, g, v)

    def items(r):
        got = r.items()
        pairs(kind, got, model, 'items()')
        if hasattr(got, '__len__'):
            pairs(kind, got, model, 'items(), again')

    def length(r):
        expect(len(r) == len(model), 'len is %d, expected %d', len(r), len(model))

    def iterate(r):
        pairs(kind, iter(r), model, 'iteration')

    def abandon(r):
        for k, v in r:
            expect(str(k).lower() == model[0][0].lower() and equal(kind, v, model[0][1]),
                   'iteration starts with %s = %s, expected %s', k, v, model[0])
            break

    def nested(r):
        got = []
        for a in r:
            pairs(kind, [b for b in r], model, 'iteration inside another iteration')
            got.append(a)
            expect(len(got) <= len(model), 'an iteration with another one inside does not end')
        pairs(kind, got, model, 'iteration with another iteration inside')

    def twin(r):        # two iterators, every interleaving of their first steps
        n = min(len(model), 3)
        for order in itertools.product((0, 1), repeat=2 * n):
            if sum(order) != n:
                continue
            its, pos = [iter(r), iter(r)], [0, 0]
            for w in order:
                k, v = next(its[w])
                m = model[pos[w]]
                pos[w] += 1
                expect(str(k).lower() == m[0].lower() and equal(kind, v, m[1]),
                       'two iterations advanced as %s: one gives %s, expected %s', order, k, m[0])

    def getitem(r):
        for i, (k, v) in enumerate(model):
            for f in SWAPS:
                try:
                    g = r[f(k)]
                except KeyError:
                    raise core.Disagreement('[%r] is a key error' % f(k))
                expect(equal(kind, g, v), '[%r] is %s, expected %s', f(k), g, v)

    def backwards(r):
        for k, v in reversed(model):
            expect(equal(kind, r[k], v), '[%r] is %s, expected %s', k, r[k], v)

    def get(r):
        for k, v in model:
            for f in SWAPS:
                g = r.get(f(k))
                expect(g is not None and equal(kind, g, v), 'get(%r) is %s, expected %s', f(k), g, v)

    def unknown(r):
        for b in wrong_names(model):
            try:
                g = r[b]
            except KeyError:
                continue
            raise core.Disagreement('[%r] is %s, expected a key error' % (b, g))

    def default(r):
        mark = object()
        for b in wrong_names(model):
            expect(r.get(b) is None, 'get(%r) is %s, expected None', b, r.get(b))
            expect(r.get(b, mark) is mark, 'get(%r, default) is %s', b, r.get(b, mark))
            expect(r.get(b, default=5) == 5, 'get(%r, default=5) is %s', b, r.get(b, default=5))

    def contains(r):
        for k, _ in model:
            for f in SWAPS:
                expect(f(k) in r and r.has_key(f(k)), '%r is not found', f(k))
        for b in wrong_names(model):
            expect(b not in r and not r.has_key(b), '%r is found', b)

    def asarray(r):
        a = np.array(r.asarray())
        if kind.startswith('pz'):
            flat = np.array([v[0] for _, v in model], dtype=complex)
            a = a.ravel()
            if a.dtype.kind != 'c':         # real and imaginary parts, as they are stored
                a = a[0::2] + 1j * a[1::2]
            expect(a.shape == flat.shape and np.allclose(a, flat, rtol=1e-15),
                   'asarray() is %s, expected %s', a, flat)
            return
        expect(a.ndim == 2 and a.shape[0] == len(model), 'asarray() has shape %s for %d variables', a.shape,
               len(model))
        for i, (k, v) in enumerate(model):
            expect(equal(kind, a[i], v), 'asarray(): row of %s is %s, expected %s', k, a[i], v)

    def sweep(r):
        expect(r.get_xlabel().lower() == model[0][0].lower(), 'get_xlabel() is %s', r.get_xlabel())
        expect(equal(kind, r.get_x(), model[0][1]), 'get_x() is %s, expected %s', r.get_x(), model[0][1])

    def text(r):
        expect(isinstance(str(r), str) and len(str(r)) > 10, 'str() is %r', str(r))

    def symbols(r):
        for n in ('R1', 'r1', 'C1'):
            try:
                s = r.as_symbol(n)
            except ValueError:
                s = None
            there = any(n.upper() in {str(x) for x in (v['gain'] if isinstance(v, dict) else v).free_symbols}
                        for _, v in model)
            expect((s is not None) == there and (s is None or str(s) == n.upper()), 'as_symbol(%r) is %s', n, s)
            if there:
                expect(r.as_symbols('%s %s' % (n, n)) == [s, s], 'as_symbols differs')

    for f in (keys, values, items, length, iterate, abandon, nested, twin, getitem, backwards, get, unknown,
              default, contains, text):
        O[f.__name__] = f
    if not sym:
        O['asarray'] = asarray
    if swept:
        O['sweep'] = sweep
    if sym:
        O['symbols'] = symbols
    if not model:
        del O['abandon']
    return O


def seq_one(case, ctr):
    _, kind, cname, n, first, depth = case
    ahkab = core.boot()
    from ahkab import options
    try:
        r, model = make(ahkab, kind, cname, n)
        O = ops_for(kind, model)
        if kind == 'ac:deg' and n % 2:
            options.ac_phase_in_deg = False         # the setting changes after the analysis
        names = sorted(O)
        if first not in O:
            return
        for rest in itertools.product(names, repeat=depth - 1):
            done = []
            for o in (first,) + rest:
                done.append(o)
                try:
                    O[o](r)
                except core.Disagreement as e:
                    raise core.Disagreement('after %s: %s' % (done[:-1], e) if done[:-1] else str(e))
                ctr.add('transitions')
            ctr.add('sequences')
            ctr.seen('states', (kind, cname, n, tuple(done)))
        ctr.seen('kinds', kind)
    finally:
        options.ac_phase_in_deg = False


# -- results of real analyses: every access path tells the same ---------------------
def real_one(case, ctr):
    _, an, cname = case
    ahkab = core.boot()
    from ahkab import options
    c = circuit(ahkab, cname)
    src = DCSWEEP[cname]
    d = {'op': lambda: ahkab.new_op(outfile='r'), 'dc': lambda: ahkab.new_dc(0, 2, 5, src, outfile='r'),
         'ac': lambda: ahkab.new_ac(1, 100, 7, x0=None, outfile='r'),
         'tran': lambda: ahkab.new_tran(0, .1, .01, x0=None, outfile='r'),
         'pss': lambda: ahkab.new_pss(.1, points=5, outfile='r'),
         'shooting': lambda: ahkab.new_pss(.1, points=5, method='shooting', outfile='r'),
         'pz': lambda: ahkab.new_pz(src, ('2' if cname == 'prefix' else c.nodes_dict[1], '0'), x0=None, outfile='r'),
         'symbolic': lambda: ahkab.new_symbolic(src, outfile='r')}[an]()
    r = ahkab.run(c, [d])[d['type']]
    if an == 'symbolic':
        sols = [('symbolic', r[0]), ('symbolic:tf', r[1])]
    else:
        expect(r is not None, 'no result')
        sols = [({'shooting': 'pss'}.get(an, an), r)]
    for kind, s in sols:
        model = [(str(k), s[k] if kind == 'symbolic' or kind == 'symbolic:tf' else np.array(s[k]).ravel())
                 for k in list(s.keys())]
        if kind == 'tran':
            expect([k.lower() for k, _ in model] == ['t'] + [x.lower() for x in names_of(c, cname)],
                   'the variables are %s', [k for k, _ in model])
        for nme, f in sorted(ops_for(kind, model).items()):
            if nme == 'symbols':
                continue
            try:
                f(s)
            except core.Disagreement as e:
                raise core.Disagreement('%s: %s' % (nme, e))
            ctr.add('transitions')
    ctr.add('real')
    ctr.seen('states', case)


# -- a DC sweep of V1 with a node called 1 ---------------------------------------------
def clash_one(case, ctr):
    _, src, node = case
    ahkab = core.boot()
    c = ahkab.Circuit('t')
    c.add_vsource(src, 'x', '0', 1.)
    c.add_resistor('R1', 'x', node, 1.)
    c.add_resistor('R2', node, '0', 1.)
    r = ahkab.run(c, [ahkab.new_dc(0, 2, 3, src, outfile='r')])['dc']
    ctr.add('transitions')
    ctr.add('clashes')
    keys = [k.lower() for k in r.keys()]
    if len(set(keys)) != len(keys):
        raise core.Disagreement('the variables are %s: no name for the voltage of node %s' % (r.keys(), node),
                                key='dc-sweep-name-equals-node-voltage')
    g = np.array(r['V' + node]).ravel()
    if not np.allclose(g, [0., .5, 1.]):
        raise core.Disagreement('V%s is %s' % (node, g))


# -- the case-insensitive dictionary -----------------------------------------------
def dict_one(case, ctr):
    _, hist = case
    ahkab = core.boot()
    from ahkab.results import case_insensitive_dict
    d, model = case_insensitive_dict(), {}
    for i, upd in enumerate(hist):
        d.update({k: (i, k) for k in upd})
        for k in upd:
            model[k.lower()] = (i, k)
        ctr.add('transitions')
        expect(len(d) == len(model), 'after the updates %s there are %d elements: %s', hist[:i + 1], len(d), d)
        expect(sorted(k.lower() for k in d.keys()) == sorted(model), 'keys %s', d.keys())
        expect(sorted(k.lower() for k in d) == sorted(model), 'iteration %s', list(d))
        expect(sorted((k.lower(), v) for k, v in d.items()) == sorted(model.items()), 'items %s', d.items())
        expect(sorted(d.values()) == sorted(model.values()), 'values %s', d.values())
        for k in ('a', 'A', 'b', 'B', 'ab', 'Ab', 'aB', 'c', ''):
            want = model.get(k.lower())
            expect(d.get(k) == want and d.get(k, 7) == (7 if want is None else want), 'after the updates %s get(%r) '
                   'is %s, expected %s', hist[:i + 1], k, d.get(k), want)
            expect((k in d) == (want is not None) == d.has_key(k), '%r is %s', k, k in d)
            try:
                g = d[k]
            except KeyError:
                g = None
            expect(g == want, '[%r] is %s, expected %s', k, g, want)
    ctr.add('dicts')


def all_(case, ctr):
    {'seq': seq_one, 'dict': dict_one, 'real': real_one, 'clash': clash_one}[case[0]](case, ctr)


KINDS = ('op', 'op:file', 'tran', 'dc', 'ac', 'ac:deg', 'pss', 'pz', 'pz:none', 'symbolic', 'symbolic:none',
         'symbolic:load', 'symbolic:tf', 'symbolic:tf:load')
FIRST = ('abandon', 'asarray', 'backwards', 'contains', 'default', 'get', 'getitem', 'items', 'iterate', 'keys',
         'length', 'nested', 'sweep', 'symbols', 'text', 'twin', 'unknown', 'values')


def cases(thorough):
    def gen():
        for kind in KINDS:
            for cname in sorted(CIRC):
                for n in (range(1, 5) if not kind.startswith('pz') else range(16)):
                    for f in FIRST:
                        if thorough:
                            yield ('seq', kind, cname, n, f, 3 if n in (1, 2, 6) else 2)
                        elif not kind.startswith('pz') or cname == 'two':
                            yield ('seq', kind, cname, n, f, 2)
        for an in ('op', 'dc', 'ac', 'tran', 'pss', 'shooting', 'pz', 'symbolic'):
            for cname in sorted(CIRC):
                yield ('real', an, cname)
        for s in ('V1', 'v2', 'V10', 'Va', 'I1'):
            for nd in ('1', '2', '10', 'a', 'A', 'b'):
                if s[0] in 'Vv':
                    yield ('clash', s, nd)
        ups = [('a',), ('A',), ('b',), ('ab',), ('Ab',), ('a', 'B'), ('AB', 'a')]
        for k in range(1, 6 if thorough else 5):
            for h in itertools.product(ups, repeat=k):
                yield ('dict', h)
    return gen


def key(case):
    return repr(case)


def run(chk):
    chk.explore(all_, cases(chk.thorough), limit=120, keyfn=key)
    chk.require('sequences', 10000)
    chk.require('kinds', len(KINDS))
    chk.require('real', 30)
    chk.require('dicts', 1000)
    chk.require('clashes', 20)
    chk.assumptions += [
        'iterating over a result set gives (name, value) pairs, as the tests of every class have it (the '
        'overview in results.py says names)',
        'the values handed out are only read, not changed, by the caller',
        'complex values are stored as modulus and phase: compared to 1e-14']
    return chk.finish('states', 'transitions', 'sequences',
                      'every ordered pair (thorough: triple) of about 17 accessors x every kind of result set x '
                      'four circuits x 1..4 points; every interleaving of two iterations; real analyses')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
