"""P33: solver options change how a solution is found, never the solution.

Every combination of the options that steer the solution (damping, locking of the
controlling voltages, dense or sparse algebra, caches, starting guess, tolerances)
x every circuit of a family x every analysis, on the real code.  A combination may
fail to find a solution, and must then say so; what it reports must be the
solution."""
import itertools
import sys

import numpy as np

from vlib import core

PID = 'P33'


def build(ahkab, which):
    from ahkab import time_functions as tf
    c = ahkab.Circuit('t')
    if which == 'linear':
        c.add_vsource('V1', 'a', '0', 2., 1., function=tf.sin(2., 1., 3.))
        c.add_resistor('R1', 'a', 'b', 3.)
        c.add_resistor('R2', 'b', '0', 7.)
        c.add_inductor('L1', 'b', 'c', .1)
        c.add_capacitor('C1', 'c', '0', .05)
        c.add_isource('I1', '0', 'c', .5)
        c.add_vcvs('E1', 'd', '0', 'b', 'c', 2.)
        c.add_resistor('R3', 'd', 'c', 5.)
        c.add_cccs('F1', 'c', '0', 'V1', .3)
    elif which == 'diode':
        c.add_model('diode', 'dm', dict(name='dm', IS=1e-14))
        c.add_vsource('V1', 'a', '0', 3., 1., function=tf.sin(3., .5, 3.))
        c.add_resistor('R1', 'a', 'b', 1e3)
        c.add_diode('D1', 'b', 'c', 'dm')
        c.add_diode('D2', 'c', '0', 'dm')
        c.add_resistor('R2', 'c', '0', 1e4)
        c.add_capacitor('C1', 'c', '0', 1e-5)
    elif which == 'bridge':
        c.add_model('diode', 'dm', dict(name='dm', IS=1e-12))
        c.add_vsource('V1', 'a', 'b', 4., 1., function=tf.sin(4., 1., 3.))
        c.add_diode('D1', 'a', 'p', 'dm')
        c.add_diode('D2', 'b', 'p', 'dm')
        c.add_diode('D3', '0', 'a', 'dm')
        c.add_diode('D4', '0', 'b', 'dm')
        c.add_resistor('R1', 'p', '0', 1e3)
        c.add_capacitor('C1', 'p', '0', 1e-5)
    elif which == 'mos':
        c.add_model('mosq', 'mn', dict(name='mn', TYPE='n', VTO=.5, KP=1e-4, LAMBDA=.02))
        c.add_model('mosq', 'mp', dict(name='mp', TYPE='p', VTO=-.5, KP=1e-4, LAMBDA=.02))
        c.add_vsource('V1', 'p', '0', 2.5)
        c.add_vsource('V2', 'g', '0', 1.3, 1., function=tf.sin(1.3, .1, 3.))
        c.add_mos('M1', 'd', 'g', '0', '0', 2e-6, 1e-6, 'mn')
        c.add_mos('M2', 'd', 'g', 'p', 'p', 2e-6, 1e-6, 'mp')
        c.add_resistor('R1', 'd', '0', 1e5)
        c.add_capacitor('C1', 'd', '0', 1e-7)
    elif which == 'ekv':
        c.add_model('ekv', 'mn', dict(name='mn', TYPE='n', VTO=.4, KP=1e-4))
        c.add_vsource('V1', 'p', '0', 2.)
        c.add_vsource('V2', 'g', '0', 1.1, 1., function=tf.sin(1.1, .1, 3.))
        c.add_mos('M1', 'p', 'g', 's', '0', 1e-5, 1e-6, 'mn')
        c.add_resistor('R1', 's', '0', 1e4)
        c.add_capacitor('C1', 's', '0', 1e-6)
    elif which == 'switch':
        c.add_model('sw', 'sm', dict(name='sm', VT=1., VH=0., RON=10., ROFF=1e4))
        c.add_vsource('V1', 'a', '0', 1.5, 1., function=tf.sin(1.5, .2, 3.))
        c.add_resistor('R1', 'a', 'b', 100.)
        c.add_switch('S1', 'b', '0', 'a', '0', 0, 'sm')
        c.add_capacitor('C1', 'b', '0', 1e-4)
    elif which == 'mixed':
        c.add_model('diode', 'dm', dict(name='dm', IS=1e-14))
        c.add_model('mosq', 'mn', dict(name='mn', TYPE='n', VTO=.5, KP=1e-4))
        c.add_isource('I1', '0', 'a', 1e-3, 1e-3)
        c.add_diode('D1', 'a', 'b', 'dm')
        c.add_mos('M1', 'b', 'b', '0', '0', 1e-4, 1e-6, 'mn')
        c.add_resistor('R1', 'a', '0', 1e5)
        c.add_vccs('G1', 'c', '0', 'a', 'b', 1e-3)
        c.add_resistor('R2', 'c', '0', 1e3)
        c.add_inductor('L1', 'c', 'd', 1e-3)
        c.add_resistor('R3', 'd', '0', 1e3)
        c.add_capacitor('C1', 'a', '0', 1e-6)
    return c


WHICH = ('linear', 'diode', 'bridge', 'mos', 'ekv', 'switch', 'mixed')
SRC = {'mixed': 'I1'}
TIGHT = dict(ver=1e-7, vea=1e-9, ier=1e-7, iea=1e-13)
BASE = dict(nl_voltages_lock=True, nl_voltages_lock_factor=4, nr_damp_first_iters=False,
            dense_matrix_limit=400, cache_len=67108864, dc_use_guess=True)
DIMS = (('lock', ((True, 4), (True, .5), (True, 50), (False, 4))), ('damp', (False, True)),
        ('dense', (400, 0)), ('cache', (67108864, 0, 1, None)), ('guess', (True, False)),
        ('tight', (False, True)))


def settings(combo):
    lock, damp, dense, cache, guess, tight = combo
    o = dict(nl_voltages_lock=lock[0], nl_voltages_lock_factor=lock[1], nr_damp_first_iters=damp,
             dense_matrix_limit=dense, cache_len=cache, dc_use_guess=guess)
    if tight:
        o.update(TIGHT)
    return o


def analyse(ahkab, which, o):
    from ahkab import options, dc_analysis, ac, transient
    saved = {k: getattr(options, k) for k in list(BASE) + list(TIGHT)}
    for k, v in o.items():
        setattr(options, k, v)
    out = {}
    try:
        c = build(ahkab, which)
        op = dc_analysis.op_analysis(c, outfile='stdout', verbose=0)
        out['op'] = None if op is None else op.asarray().reshape(-1)
        c = build(ahkab, which)
        r = dc_analysis.dc_analysis(c, *((0., 2e-3, 1e-3, 'I1') if which == 'mixed' else (0., 2., 1., 'V1')),
                                    sweep_type='LINEAR', outfile='dc', verbose=0)
        out['dc'] = None if r is None else np.asarray(r.asarray())
        c = build(ahkab, which)
        r = ac.ac_analysis(c, 1., 3, 1e4, 'LOG', outfile='ac', verbose=0)
        out['ac'] = None if r is None else np.asarray(r.asarray())
        c = build(ahkab, which)
        x0 = dc_analysis.op_analysis(c, outfile='stdout', verbose=0)
        if x0 is not None:
            r = transient.transient_analysis(c, 0., .01, .04, method='TRAP', use_step_control=False, x0=x0,
                                             outfile='tran', verbose=0)
            out['tran'] = None if r is None else np.asarray(r.asarray())
        else:
            out['tran'] = None
    finally:
        for k, v in saved.items():
            setattr(options, k, v)
    return out


REF = {}


def off(a, b, o, tight):
    """the largest difference, in units of the tolerance in force"""
    if a.shape != b.shape:
        return float('inf')
    a, b = a.astype(complex), b.astype(complex)
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return float('inf')
    # rows are variables: compare each with the size it has anywhere
    a, b = (np.atleast_2d(z.T).T if z.ndim == 1 else z for z in (a, b))
    sz = np.maximum(np.abs(a), np.abs(b)).max(axis=-1, keepdims=True)
    tol = (1e-6 if tight else 2e-3) * sz + (1e-8 if tight else 1e-5) * np.maximum(sz.max(), 1e-6)
    return float((np.abs(a - b) / tol).max())


def one(case, ctr):
    which, combo = case
    ahkab = core.boot()
    if which not in REF:
        o = dict(BASE)
        o.update(TIGHT)
        REF[which] = analyse(ahkab, which, o)
        for k in sorted(REF[which]):
            if REF[which][k] is None:
                raise core.Disagreement('%s: no %s with the standard options and tight tolerances' % (which, k))
    ref = REF[which]
    o = settings(combo)
    got = analyse(ahkab, which, o)
    ctr.add('runs')
    ctr.seen('states', (which, combo))
    for k in sorted(ref):
        ctr.add('analyses')
        if got[k] is None:
            ctr.add('none')
            if combo[0] == (True, 4) and not combo[1] and not combo[5]:
                raise core.Disagreement('%s, %s: no solution with the options %s' % (which, k, o))
            continue
        ctr.add('solutions')
        d = off(ref[k], got[k], o, combo[5])
        ctr.maximum('distance in 1/1000 of the tolerance, %s' % k, int(1000 * min(d, 1e9)))
        if not d <= 1:
            raise core.Disagreement('%s, %s: with the options %s\n%s\ninstead of\n%s' % (
                which, k, o, got[k], ref[k]))
    ctr.sample({'circuit': which, 'options': str(o)}, 2)


def run(chk):
    dims = DIMS if chk.thorough else tuple((d[0], d[1][:2] if d[0] == 'cache' else d[1]) for d in DIMS)
    cs = [(w, c) for w in WHICH for c in itertools.product(*[d[1] for d in dims])]
    if not chk.thorough:        # damping takes hundreds of iterations: with two of the ways of locking
        cs = [c for c in cs if not (c[1][1] and c[1][0] in ((True, .5), (False, 4)))]
    cs.sort(key=lambda c: (sum(1 for x, d in zip(c[1], DIMS) if x != d[1][0]), str(c)))
    chk.explore(one, cs, limit=300, keyfn=repr)
    chk.require('runs', 600)
    chk.require('solutions', 2000)
    return chk.finish('states', 'analyses', 'runs', 'every combination of %s on seven circuits, through operating '
                      'point, DC sweep, AC and transient' % ', '.join(d[0] for d in DIMS))


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
