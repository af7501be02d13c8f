"""P03: the AC solution is the phasor solution of the circuit equations at
every requested frequency (every circuit of a bounded grammar; every grid of a
bounded set; non-linear elements in every connection)."""
import itertools
import sys

import numpy as np

from vlib import core, gram, ref

PID = 'P03'
BACK = [('R', 'R1', 'a', '0', 4), ('R', 'R2', 'a', 'b', 2), ('R', 'R3', 'b', '0', 8),
        ('V', 'VS', 's', '0', 3, 1 - 2j, None), ('R', 'R4', 's', 'a', 5),
        ('C', 'C5', 'a', '0', 1, None), ('L', 'L6', 'b', 'c', 2, None),
        ('R', 'R7', 'c', '0', 3)]
AC = {'V': 2 + 1j, 'I': -1.5j}


def wave(t):
    return 3. - 7. * t


def desc_of(case):
    front, back, ks = case
    d = [gram.fix(gram.name(p, i), AC.get(p[0])) for i, p in enumerate(front)]
    d += BACK
    # (the sources at the end have a time function too: it has no say in an AC analysis)
    d += [gram.fix(gram.name(p, 5 + i), AC.get(p[0]), wave) for i, p in enumerate(back)]
    ls = [e[1] for e in d if e[0] == 'L']
    pairs = list(itertools.combinations(ls, 2))
    for n, (i, k) in enumerate(ks):
        if i >= len(pairs):
            return None
        l1, l2 = pairs[i]
        if k < 0:
            l1, l2, k = l2, l1, -k
        d.append(('K', 'K%d' % n, l1, l2, k))
    return d


def phasor(desc, w, hsign=1):
    names, A, B, feed = ref.matrices(desc, hsign)
    M = A + 1j * w * B
    u = ref.vector(desc, names, feed, lambda e: e[5], complex)
    if np.linalg.cond(M) > 1e7:
        return None
    return names, np.linalg.solve(M, u)


def grid(stype, start, stop, n):
    if n == 1:
        return [start]
    if stype == 'LIN':
        return [start + (stop - start) * i / (n - 1.) for i in range(n)]
    return [start * (stop / start) ** (i / (n - 1.)) for i in range(n)]


def compare(r, desc, freqs, hsign, ctr):
    got_f = np.array(r['f']).ravel()
    if len(got_f) != len(freqs):
        raise core.Disagreement('%d frequencies reported, %d requested' % (len(got_f), len(freqs)))
    for g, f in zip(got_f, freqs):
        if not core.close(float(np.real(g)), f, rel=1e-9, abs_=0):
            raise core.Disagreement('reported frequency %r, requested %r' % (g, f))
    for k, f in enumerate(freqs):
        s = phasor(desc, 2 * np.pi * f, hsign)
        if s is None:
            ctr.add('ill_conditioned_points')
            continue
        names, x = s
        scale = max(1., np.max(np.abs(x)))
        for nm, w in zip(names, x):
            g = complex(np.array(r[ref.label(nm)]).ravel()[k])
            if not abs(g - w) <= 1e-7 * scale:
                return '%s = %r at %g Hz, the circuit equations give %r' % (ref.label(nm), g, f, w)
        ctr.add('points')
    return None


def one(case, ctr):
    circ_case, (stype, start, stop, n) = case
    ahkab = core.boot()
    from ahkab import ac
    desc = desc_of(circ_case)
    if desc is None:
        return
    freqs = grid(stype or 'LOG', start, stop, n)
    if all(phasor(desc, 2 * np.pi * f) is None for f in freqs):
        ctr.add('singular_skipped')
        return
    c = ref.build(ahkab, desc)
    kw = {} if stype is None else {'sweep_type': stype}
    r = ac.ac_analysis(c, start, n, stop, outfile='ac', verbose=0, **kw)
    ctr.add('solved')
    ctr.add('transitions', len(desc) + n)
    if r is None:
        raise core.Disagreement('no AC solution although the equations have one')
    bad = compare(r, desc, freqs, 1, ctr)
    if bad and any(e[0] == 'H' for e in desc):
        if compare(r, desc, freqs, -1, ctr) is None:
            raise core.Disagreement('a current-controlled voltage source imposes -alpha*I '
                                    'in AC too: ' + bad, key='ccvs-output-sign')
    if bad:
        raise core.Disagreement(bad)
    for e in desc:
        ctr.seen('kinds', e[0])
    ctr.seen('states', [complex(np.round(x, 9)) for x in np.array(r[r.keys()[-1]]).ravel()] + [gram.text(desc)])
    ctr.sample({'circuit': gram.text(desc), 'frequencies': freqs}, 1)


def key(case):
    if case[0] == 'nl':
        return repr(case)
    d = desc_of(case[0]) or []
    return '%s @ %r' % (gram.text([e for e in d if e not in BACK]), case[1])


GRIDS = [(t, a, b, n) for t in ('LIN', 'LOG', None) for a, b in
         ((0.05, 0.5), (0.02, 2.), (1e-3, 1e3), (7., 7.), (0.3, 0.31))
         for n in (1, 2, 3, 4, 7, 11) if (n > 1 or a == b)]
G0 = ('LOG', 0.05, 0.5, 3)
G1 = ('LIN', 0.03, 0.4, 2)


def cases(thorough):
    A = gram.alphabet(0, loops=True, ctrl='all')
    B = gram.alphabet(4, ctrl='one', sens=('VS',))
    D = [p for p in A if p[0] in 'CL']
    D2 = [p for p in gram.alphabet(5) if p[0] in 'CL']

    def gen():
        for g in GRIDS:
            yield (((), (), ()), g)
            yield (((), (('L', 'a', '0', 5),), ((0, .5),)), g)
        for p in A:
            yield (((p,), (), ()), G0)
            yield (((), (p,), ()), G1)
        # every dynamic element with every other element
        for p in D:
            for q in (A if thorough else B):
                yield (((p,), (q,), ()), G0)
                if thorough:
                    yield (((q,), (p,), ()), G1)
                    yield (((q, p), (), ()), G1)
        for p in (A if thorough else B[::2]):
            for q in B:
                yield (((p,), (q,), ()), G1)
        # couplings: every pair/triple pattern of mutual inductors
        Ls = [p for p in A if p[0] == 'L']
        ks = [.5, -.5, .9]
        for p in Ls:
            for side in (0, 1):
                for k in ks:
                    yield (((p,), (), ((0, k),)) if side else ((), (p,), ((0, k),)), G0)
            for q in [x for x in D2 if x[0] == 'L']:
                for pat in ([(0, .5)], [(1, .5)], [(2, -.25)], [(0, .5), (1, .25)],
                            [(0, .3), (1, -.2), (2, .4)], [(2, .4), (0, .3)],
                            [(0, .5), (0, .25)], [(1, .4), (1, -.2), (0, .1)]):
                    yield (((p,), (q,), tuple(pat)), G0)
                    if thorough:
                        yield (((p, q), (), tuple(pat)), G1)
                        yield (((), (q, p), tuple(pat)), G1)
                # four inductors, each coupled to the three others, some twice
                for w in [x for x in D2 if x[0] == 'L'][::1 if thorough else 3]:
                    yield (((p, q), (w,), tuple((i, .1 + .02 * i) for i in range(6))), G0)
                    yield (((q, p), (w,), tuple((i, .1) for i in (0, 5, 5, 1, 2, 0))), G0)
            for q in B:
                if q[0] in 'VEHFG':
                    yield (((q, p), (), ((0, .5),)), G1)
                    yield (((p,), (q,), ((0, .5),)), G1)
        if thorough:
            S = gram.alphabet(2, ctrl='one')[::2]
            for p in D:
                for q in S:
                    for w in S[::2]:
                        yield (((p,), (q, w), ()), G1)
    return gen


# -- non-linear: linearised at the operating point --------------------------
NLNODES = ('0', 'a', 'b')


def nl_add(ahkab, c, e, i):
    from ahkab import diode, ekv, mosq, switch
    k = e[0]
    if k == 'D':
        nm = 'dm%d' % e[3]
        if nm not in c.models:
            c.add_model('diode', nm, [dict(name=nm, IS=1e-12),
                                      dict(name=nm, IS=1e-10, N=1.5, RS=0)][e[3]])
        c.add_diode('D%d' % i, e[1], e[2], model_label=nm)
    elif k in ('Q', 'E'):
        nm = '%s%d' % (k, e[5])
        typ = 'n' if e[5] == 0 else 'p'
        if nm not in c.models:
            c.add_model('mosq' if k == 'Q' else 'ekv', nm,
                        dict(name=nm, TYPE=typ, KP=50e-6, VTO=.4 if typ == 'n' else -.4))
        c.add_mos('M%d' % i, e[1], e[2], e[3], e[4], w=2e-6, l=1e-6, model_label=nm)
    elif k == 'S':
        nm = 'sw'
        if nm not in c.models:
            c.add_model('sw', nm, dict(name=nm, VT=1., VH=.2, RON=2., ROFF=50.))
        c.add_switch('S%d' % i, e[1], e[2], e[3], e[4], ic=False, model_label=nm)


def nl_one(case, ctr):
    _, els, ac_on = case
    ahkab = core.boot()
    from ahkab import ac, dc_analysis, options
    options.dc_max_nr_iter = 200      # this process is this check's own worker
    c = ahkab.Circuit('t')
    lin = [('R', 'R1', 'a', '0', 400), ('R', 'R2', 'a', 'b', 200), ('R', 'R3', 'b', '0', 800),
           ('V', 'VS', 's', '0', 3, 1. if ac_on else 0, None), ('R', 'R4', 's', 'a', 500),
           ('C', 'C5', 'a', '0', 1e-6, None), ('I', 'I6', '0', 'b', 1e-3, 1e-3j, None)]
    ref.build(ahkab, lin[:4], circ=c)
    for i, e in enumerate(els):
        nl_add(ahkab, c, e, i)
    ref.build(ahkab, lin[4:], circ=c)
    try:
        op = dc_analysis.op_analysis(c, outfile='op', verbose=0)
    except Exception:
        op = None
    if op is None:
        ctr.add('nl_no_op')
        return
    names, A, B, feed = ref.matrices(lin)
    x = np.array([float(op[ref.label(n)][0][0]) for n in names])
    pos = {n: i for i, n in enumerate(names)}
    byint = {i: (pos[('v', n)] if n != '0' else None)
             for i, n in c.nodes_dict.items() if isinstance(i, int)}

    def inject(el, xx):
        out = np.zeros(len(names))
        vs = lambda n: 0. if byint[n] is None else xx[byint[n]]
        (op_, on), = el.get_output_ports()
        v = [np.float64(vs(p) - vs(q)) for p, q in el.get_drive_ports(0)]
        if hasattr(el, 'istamp'):
            cur = float(np.array(el.istamp(v, 0, reduced=False)[1]).reshape(-1)[0])
        else:
            cur = float(el.i(0, v, 0))
        if byint[op_] is not None:
            out[byint[op_]] += cur
        if byint[on] is not None:
            out[byint[on]] -= cur
        return out

    def slope(el):
        J = np.zeros((len(names), len(names)))
        if hasattr(el, 'ekv_model'):    # approximate by design, see P09: take its own
            (op_, on), = el.get_output_ports()
            ports = el.get_drive_ports(0)
            vs = lambda n: 0. if byint[n] is None else x[byint[n]]
            v = [np.float64(vs(p) - vs(q)) for p, q in ports]
            for k, (p, q) in enumerate(ports):
                g = float(el.g(0, v, k, 0))
                for n, sg in ((op_, 1), (on, -1)):
                    for m, sm in ((p, 1), (q, -1)):
                        if byint[n] is not None and byint[m] is not None:
                            J[byint[n], byint[m]] += sg * sm * g
            return J
        for k in range(len(names)):
            h = 1e-5
            d = np.zeros(len(names))
            d[k] = h
            J[:, k] += (inject(el, x + d) - inject(el, x - d)) / (2 * h)
        return J
    J = sum(slope(el) for el in c if el.is_nonlinear)
    u = ref.vector(lin, names, feed, lambda e: e[5], complex)
    freqs = [10., 1e3]
    for x0 in (None, op):
        r = ac.ac_analysis(c, start=10., stop=1e3, points=2, sweep_type='LOG', x0=x0,
                           outfile='ac', verbose=0)
        ctr.add('solved')
        ctr.add('nl_solved')
        ctr.add('transitions', 2)
        if r is None:
            raise core.Disagreement('no AC solution')
        for k, f in enumerate(freqs):
            M = A + 2j * np.pi * f * B + J
            want = np.linalg.solve(M, u)
            for nm, w in zip(names, want):
                g = complex(np.array(r[ref.label(nm)]).ravel()[k])
                if not abs(g - w) <= 1e-4 * np.max(np.abs(want)) + 1e-12:
                    raise core.Disagreement('%s = %r at %g Hz, the circuit linearised at its '
                                            'operating point gives %r' % (ref.label(nm), g, f, w))
            ctr.add('points')
    for e in els:
        ctr.seen('kinds', 'nl' + e[0])
    ctr.seen('states', (els, [round(float(v), 9) for v in x]))


def nl_cases(thorough):
    prs = [(p, q) for p in NLNODES for q in NLNODES if p != q]
    one_ = [('D', p, q, m) for p, q in prs for m in (0, 1)]
    mos = [(k, d, g, s, b, t) for k in 'QE' for t in (0, 1)
           for d in NLNODES for g in ('s', '0', 'a', 'b') for s in NLNODES for b in ('0', 's')
           if d != s]
    sw = [('S', p, q, x, y) for p, q in prs for x, y in (('s', '0'), ('a', '0'), ('0', 's'), ('b', 'a'))]
    allo = one_ + mos + sw
    def gen():
        for e in allo:
            yield ('nl', (e,), 1)
        step = 1 if thorough else 6
        for e in one_:
            for f in (one_ + mos[::step] + sw):
                yield ('nl', (e, f), 0)
        if thorough:
            for e in mos[::3]:
                for f in mos[::7]:
                    yield ('nl', (e, f), 1)
    return gen


# -- requests that make no sense ------------------------------------------------
def grid_one(case, ctr):
    _, stype, start, stop, n, how = case
    ahkab = core.boot()
    from ahkab import ac
    log = stype != 'LIN'
    c = ahkab.Circuit('t')
    c.add_vsource('V1', 'a', '0', 1., 1.)
    c.add_resistor('R1', 'a', 'b', 2.)
    c.add_capacitor('C1', 'b', '0', .1)
    never = start > stop or (n < 2 and start != stop) or (log and (start <= 0 or stop <= 0))
    kw = {} if stype is None else {'sweep_type': stype}
    ctr.add('transitions')
    try:
        if how == 'run':
            r = ahkab.run(c, [ahkab.new_ac(start, stop, n, x0=None, outfile='ac', **kw)])['ac']
        else:
            r = ac.ac_analysis(c, start, n, stop, outfile='ac', verbose=0, **kw)
    except ValueError:
        if not never and start > 0 and n > 0:
            raise core.Disagreement('refused')
        ctr.add('grids_refused')
        return
    if never:
        raise core.Disagreement('a sweep from %r to %r with %r points is accepted: %s' % (
            start, stop, n, None if r is None else np.array(r['f'])))
    ctr.add('grids_accepted')
    want = grid('LIN' if not log else 'LOG', start, stop, n)
    if n != 1 and start == stop:
        return
    f = np.array(r['f']).ravel()
    if f.shape != np.shape(want) or not np.allclose(f, want, rtol=1e-9):
        raise core.Disagreement('the frequencies are %s, expected %s' % (f, want))
    v = np.array(r['Vb']).ravel()
    w = 1 / (1 + 2j * np.pi * f * .2)
    if not np.allclose(v, w, rtol=1e-8):
        raise core.Disagreement('Vb is %s, expected %s' % (v, w))


def grid_cases():
    lims = (-100., -1., -1e-9, 0., 1e-9, 1., 3., 100.)
    return [('grid', t, a, b, n, how) for t in ('LIN', 'LOG', None) for a in lims for b in lims
            for n in (-1, 0, 1, 2, 3) for how in ('run', 'direct')]


def run(chk):
    chk.explore(grid_one, grid_cases(), limit=20, keyfn=repr)
    chk.require('grids_refused', 500)
    chk.require('grids_accepted', 50)
    chk.explore(one, cases(chk.thorough), limit=20, keyfn=key)
    chk.explore(nl_one, nl_cases(chk.thorough), limit=20, keyfn=key)
    chk.require('solved', 3000)
    chk.require('kinds', 14)
    chk.require('nl_solved', 300)
    chk.assumptions += [
        'element values of order 1, frequencies such that reactances are of order 1',
        'points at which the reference matrix has a condition number above 1e7 are not judged',
        'non-linear cases: the slope of the device current is taken by central difference of '
        'the current function (the current function itself is judged by P09)']
    return chk.finish('states', 'transitions', 'solved',
                      'every 1- and 2-element extension (thorough: 3) of an RLC backbone over '
                      'the alphabet R I C G F V L H E, coupling patterns of up to 3 mutual '
                      'inductors, all grids of a list, and one or two non-linear devices in '
                      'every connection; each frequency point compared with (A+jwB)x=u')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
