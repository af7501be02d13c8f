"""P09: device conductances are the slopes of the device currents; symmetries,
continuity, monotonicity, independence of the evaluation history."""
import itertools
import math
import sys

import numpy as np

from vlib import core, devices

PID = 'P09'

DIODES = [{}, {'N': 1.5}, {'IS': 1e-10, 'ISR': 1e-8}, {'ISR': 1e-9, 'NR': 3.},
          {'BV': 2.}, {'BV': 2., 'NBV': 2., 'N': 2.}, {'IKF': 1e-4}, {'IKF': 1e-3, 'ISR': 1e-8},
          {'RS': 10.}, {'RS': 2., 'BV': 2., 'IKF': 1e-3, 'N': 1.2}, {'RS': 100., 'ISR': 1e-7},
          {'RS': 10., 'TRS': 1e-2, 'TBV': 1e-3, 'BV': 3., 'XTI': 2.}]
MOS = [{}, {'VTO': .4}, {'VTO': .4, 'LAMBDA': .05, 'KP': 2e-4}, {'VTO': .8, 'GAMMA': .3, 'PHI': .6},
       {'VTO': 0., 'LAMBDA': 1e-3}, {'VTO': .3, 'GAMMA': .7, 'COX': 2e-3}]
GEO = [dict(w=2e-6, l=1e-6), dict(w=2e-6, l=1e-6, m=3), dict(w=20e-6, l=4e-6, m=2)]
LEV = (-1., 0., .35, .8, 1.7, 3.)
LEV_T = (-2., -1., -.3, 0., .2, .45, .9, 1.5, 2.2, 3.1)


def mk_mos(kind, par, geo, typ):
    from ahkab import ekv, mosq
    p = dict(par)
    if 'VTO' in p and typ == 'p':
        p['VTO'] = -p['VTO']
    ref = dict(p, TYPE=typ, **geo)
    if kind == 'ekv':
        m = ekv.ekv_mos_model(name='x', TYPE=typ, **p)
        mk = lambda: ekv.ekv_device('M1', 1, 2, 3, 4, geo['w'], geo['l'], m,
                                    M=geo.get('m', 1), N=geo.get('n', 1))
    else:
        m = mosq.mosq_mos_model(name='x', TYPE=typ, **p)
        mk = lambda: mosq.mosq_device('M1', 1, 2, 3, 4, geo['w'], geo['l'], m,
                                      M=geo.get('m', 1), N=geo.get('n', 1))
    return mk(), mk, ref


def evaluate(dev, V):
    """(I(n1->n2), dI/dnode...) with nodes given as a dict of voltages."""
    (n1, n2), = dev.get_output_ports()
    ports = dev.get_drive_ports(0)
    v = [np.float64(V[p] - V[q]) for p, q in ports]
    nodes = sorted(V)
    g = dict.fromkeys(nodes, 0.)
    if hasattr(dev, 'gstamp'):
        idx, st = dev.gstamp(v, 0, reduced=False)
        rows, cols = [i + 1 for i in idx[0]], [i + 1 for i in idx[1]]
        st = np.array(st)
        full = {}
        for a, b, x in zip(rows, cols, st.reshape(-1)):
            full[(a, b)] = full.get((a, b), 0.) + float(x)
        for (a, b), x in full.items():
            if a == n1:
                g[b] += x
            if abs(x + full.get((n2 if a == n1 else n1, b), 0.)) > 1e-9 + 1e-9 * abs(x) and a in (n1, n2):
                raise core.Disagreement('conductance stamp does not conserve current: '
                                        'rows %d/%d column %d' % (n1, n2, b))
        idx, st = dev.istamp(v, 0, reduced=False)
        st = [float(x) for x in np.array(st).reshape(-1)]
        if abs(st[0] + st[1]) > 0:
            raise core.Disagreement('current stamp does not conserve current: %r' % (st,))
        cur = st[0]
    else:
        cur = dev.i(0, v, 0)
        for k, (p, q) in enumerate(ports):
            x = dev.g(0, v, k, 0)
            g[p] += x
            g[q] -= x
    return float(cur), g


def current(dev, V):
    v = [np.float64(V[p] - V[q]) for p, q in dev.get_drive_ports(0)]
    if hasattr(dev, 'istamp'):
        return float(np.array(dev.istamp(v, 0, reduced=False)[1]).reshape(-1)[0])
    return float(dev.i(0, v, 0))


def slopes(dev, V, n, h):
    f = lambda d: current(dev, {k: (x + d if k == n else x) for k, x in V.items()})
    i0, p, m, p2, m2 = f(0.), f(h), f(-h), f(2 * h), f(-2 * h)
    return ((8 * (p - m) - (p2 - m2)) / (12 * h), (4 * p - p2 - 3 * i0) / (2 * h),
            (3 * i0 - 4 * m + m2) / (2 * h))


def check_slopes(dev, V, g, rel, atol, h, ctr, what):
    for n in V:
        s = slopes(dev, V, n, h)
        ctr.add('transitions', 5)
        scale = max(abs(x) for x in s)
        if not min(abs(g[n] - x) for x in s) <= atol + rel * scale:
            return '%s: at %s the conductance to node %d is %.9g, the slope of the current is %.9g' % (
                what, V, n, g[n], s[0])
        ctr.add('slopes')
    return None


def mos_case(case, ctr):
    _, kind, pi, gi, typ, di = case
    core.boot()
    lev = LEVELS
    par, geo = MOS[pi], GEO[gi]
    dev, mk, ref = mk_mos(kind, par, geo, typ)
    dn, _, refn = mk_mos(kind, par, geo, 'n')
    d1, _, _ = mk_mos(kind, par, dict(geo, m=1), typ)
    sg = 1. if typ == 'n' else -1.
    first = {}
    grid = [(lev[di], g, s, b) for g in lev for s in lev for b in lev]
    what = '%s %s %s %s' % (kind, typ, par, geo)
    for (d, g, s, b) in grid:
        V = {1: sg * d, 2: sg * g, 3: sg * s, 4: sg * b}
        i, gs = evaluate(dev, V)
        first[(d, g, s, b)] = i
        ctr.seen('states', (what, d, g, s, b))
        ctr.add('biases')
        if kind == 'mosq':
            w, vov = devices.mosq(ref, *[V[k] for k in (1, 2, 3, 4)])
            tol = 5e-9
        else:
            w, wg = devices.ekv(ref, *[V[k] for k in (1, 2, 3, 4)])
            tol = 1e-12
        if not abs(i - w) <= tol + 1e-6 * abs(w):
            raise core.Disagreement('%s: current at %s is %.9g, the device equations give %.9g'
                                    % (what, V, i, w))
        # symmetries
        m = current(dn, {1: d, 2: g, 3: s, 4: b})
        if not abs(i - sg * m) <= 1e-15 + 1e-9 * abs(m):
            raise core.Disagreement('%s: p-channel current %.9g at %s does not mirror the '
                                    'n-channel %.9g' % (what, i, V, m))
        sw = current(mk(), {1: V[3], 2: V[2], 3: V[1], 4: V[4]})
        if not abs(i + sw) <= (5e-9 if kind == 'mosq' else 1e-15) + 1e-9 * abs(i):
            if kind == 'mosq' and ref.get('LAMBDA', .5) * vov >= 2:
                ctr.violation('mosq-beyond-channel-length-domain', 'square-law MOS with LAMBDA*(VGS-VT) '
                              '>= 2: %s: the current at %s is %.9g, with drain and source swapped %.9g '
                              '(both should vanish at VDS = 0)' % (what, V, i, sw), case, shared=True)
                continue
            raise core.Disagreement('%s: current at %s is %.9g, with drain and source swapped '
                                    '%.9g' % (what, V, i, sw))
        one = current(d1, V)
        if not abs(i - geo.get('m', 1) * one) <= 1e-15 + 1e-9 * abs(i):
            raise core.Disagreement('%s: %d devices in parallel carry %.9g, one carries %.9g'
                                    % (what, geo.get('m', 1), i, one))
        # slopes
        if kind == 'mosq':
            # at VBS = 2 PHI the square root of the body effect has no slope
            vbs = sg * V[4] - min(sg * V[1], sg * V[3])
            if abs(2 * ref.get('PHI', .7) - vbs) < 1e-3:
                ctr.add('no_slope')
                continue
            bad = check_slopes(dev, V, gs, 1e-5, 2e-9 * geo.get('m', 1), 1e-5, ctr, what)
            if bad:
                raise core.Disagreement(bad)
        else:
            bad = check_slopes(dev, V, gs, 1e-4, 1e-10, 1e-4, ctr, what)
            want = dict(zip((1, 2, 3), wg))
            want[4] = -sum(wg)
            for n in V:
                if not abs(gs[n] - want[n]) <= 1e-11 + 1e-6 * max(abs(x) for x in wg):
                    raise core.Disagreement(bad or '%s: conductance to node %d at %s is %.9g, the '
                                            'EKV charge expressions give %.9g' % (what, n, V, gs[n], want[n]))
            if bad:
                ctr.violation('ekv-conductances-approximate', 'the EKV conductances ignore '
                              'velocity saturation and channel length modulation: ' + bad, case, shared=True)
    # history independence: the same biases in the reverse order
    for q in reversed(grid):
        V = dict(zip((1, 2, 3, 4), [sg * x for x in q]))
        i = current(dev, V)
        if not abs(i - first[q]) <= 1e-18 + 1e-12 * abs(i):
            raise core.Disagreement('%s: current at %s is %.12g, was %.12g before other biases '
                                    'were evaluated' % (what, V, i, first[q]))
    # monotone and continuous along the gate and drain
    for s, b in itertools.product((0., .7), (0., -1.)):
        prev = None
        for k in range(0, 61):
            gv = -1. + k * .05
            i = sg * current(dev, {1: sg * lev[di], 2: sg * gv, 3: sg * s, 4: sg * b})
            i = i if lev[di] >= s else -i
            if prev is not None and not (i >= prev - (5e-9 if kind == 'mosq' else 1e-10)):
                raise core.Disagreement('%s: |I| falls from %.6g to %.6g as the gate rises to %g '
                                        '(d=%g s=%g b=%g)' % (what, prev, i, gv, lev[di], s, b))
            prev = i
        prev = None
        for k in range(0, 81):
            dv = -1. + k * .05
            i = sg * current(dev, {1: sg * dv, 2: sg * lev[di], 3: sg * s, 4: sg * b})
            j = sg * current(dev, {1: sg * (dv + 1e-9), 2: sg * lev[di], 3: sg * s, 4: sg * b})
            ctr.add('monotone_points')
            vt_ok = True
            if kind == 'mosq':
                lo = min(dv, s)
                _, vov = devices.mosq(dict(refn), *[max(dv, s), lev[di], lo, b])
                vt_ok = (refn.get('LAMBDA', .5) * vov) < 2
            if not vt_ok:
                prev = None
                continue
            if prev is not None and not (i >= prev - 5e-9 - (5e-3 * abs(prev) if kind == 'ekv' else 0.)):
                raise core.Disagreement('%s: I falls from %.6g to %.6g as the drain rises to %g '
                                        '(g=%g s=%g b=%g)' % (what, prev, i, dv, lev[di], s, b))
            if not abs(i - j) <= 5e-9:
                raise core.Disagreement('%s: the current jumps by %.6g at d=%g (g=%g s=%g b=%g)'
                                        % (what, j - i, dv, lev[di], s, b))
            prev = i


def diode_case(case, ctr):
    _, pi, area, T = case
    core.boot()
    from ahkab import diode
    par = DIODES[pi]
    m = diode.diode_model('d', **par)
    mk = lambda mm: diode.diode('D1', 1, 2, mm, AREA=area, T=T)
    dev = mk(m)
    what = 'diode %s area=%s T=%s' % (par, area, T)
    vs = [k * .05 for k in range(-60, 17)] + [.72, .78, .801, -2.01, -1.999]
    if par.get('RS'):
        vs += [1., 1.1]
    first = {}
    order = sorted(vs)
    rs = bool(par.get('RS'))
    prev = None
    for v in order:
        i, g = evaluate(dev, {1: v, 2: 0.})
        first[v] = i
        w, wg = devices.diode(par, v, area or 1., T or 300.)
        ctr.seen('states', (what, v))
        ctr.add('biases')
        tol = 2e-3 if rs else 1e-6
        if not abs(i - w) <= 1e-13 + tol * abs(w):
            raise core.Disagreement('%s: current at %g V is %.9g, the diode equation gives %.9g'
                                    % (what, v, i, w))
        if not abs(g[1] - wg) <= 3e-12 + 10 * tol * abs(wg):
            raise core.Disagreement('%s: conductance at %g V is %.9g, the slope of the diode '
                                    'equation is %.9g' % (what, v, g[1], wg))
        h = 1e-3 if rs else 1e-5
        bad = check_slopes(mk(diode.diode_model('d', **par)), {1: v, 2: 0.}, g,
                           5e-2 if rs else 1e-5, 1e-9 if rs else 3e-12, h, ctr, what)
        if bad and not rs:
            raise core.Disagreement(bad)
        if prev is not None and not i >= prev - 1e-13 - tol * abs(i):
            raise core.Disagreement('%s: the current falls from %.6g to %.6g at %g V' % (what, prev, i, v))
        prev = i
        st = dev.gstamp([v], 0, reduced=False)[1]
        if abs(dev.g(0, [v], 0) - (st[0][0])) > 1e-11:
            raise core.Disagreement('%s: g() and gstamp() differ at %g V' % (what, v))
    for v in order[::-1] + order[::2]:
        i = evaluate(dev, {1: v, 2: 0.})[0]
        if not abs(i - first[v]) <= 1e-18 + (1e-6 if rs else 1e-12) * abs(i):
            raise core.Disagreement('%s: current at %g V is %.12g, was %.12g before' % (what, v, i, first[v]))


def temp_case(case, ctr):
    """Two diodes share a model; every sequence of temperature changes and
    evaluations of a bounded length."""
    _, pi, ops = case
    core.boot()
    from ahkab import diode
    par = DIODES[pi]
    m = diode.diode_model('d', **par)
    dv = [diode.diode('D1', 1, 2, m, T=None), diode.diode('D2', 1, 2, m, T=None)]
    T = [300., 300.]
    for op in ops:
        k, t = op
        if t is not None:
            dv[k].set_temperature(t)
            T[k] = t
        for v in (.3, .55, -.4):
            i, g = evaluate(dv[k], {1: v, 2: 0.})
            w, wg = devices.diode(par, v, 1., T[k])
            tol = 2e-3 if par.get('RS') else 1e-6
            ctr.add('transitions')
            if not abs(i - w) <= 1e-13 + tol * abs(w) or not abs(g[1] - wg) <= 3e-12 + 10 * tol * abs(wg):
                raise core.Disagreement('diode %s after %r: at %g V and %g K the current is %.9g and the '
                                        'conductance %.9g, the diode equation gives %.9g and %.9g'
                                        % (par, ops, v, T[k], i, g[1], w, wg))
    ctr.add('temperature_histories')
    ctr.seen('states', ('T', pi, tuple(T)))


SW = [dict(VT=1., VH=.5, RON=2., ROFF=50.), dict(VT=-1., VH=.6, RON=1., ROFF=1e6),
      dict(VT=.5, VH=0., RON=3., ROFF=300.), dict(VON=3., VOFF=1., RON=1., ROFF=1e3)]
SWL = (-3., -.95, .05, .95, 2.5, 4.)


def switch_case(case, ctr):
    """Every input sequence up to a depth: hysteresis state machine."""
    _, pi, ic, seq = case
    core.boot()
    from ahkab import switch
    par = SW[pi]
    m = switch.vswitch_model('s', **par)
    dev = switch.switch_device(1, 2, 3, 4, m, ic=ic, part_id='S1')
    other = switch.switch_device(1, 2, 3, 4, m, ic=not ic, part_id='S2')
    if 'VON' in par:
        VT, VH = 2., 2e-3
    else:
        VT, VH = par['VT'], par['VH']
    on = bool(ic)
    for vin in seq:
        for vo in (1., -.5, 0.):
            i, g = evaluate(dev, {1: vo, 2: 0., 3: vin, 4: 0.})
            ctr.add('transitions')
            if vin > VT + VH:
                on = True
            elif vin < VT - VH:
                on = False
            R = par['RON'] if on else par['ROFF']
            if not abs(i - vo / R) <= 1e-11 + 1e-6 * abs(i):
                raise core.Disagreement('switch %s started %s, control voltages %s: current %.9g at '
                                        '%g V, expected %s (R = %g)' % (par, 'on' if ic else 'off', seq,
                                                                        i, vo, 'on' if on else 'off', R))
            if not abs(g[1] - 1. / R) <= 1e-11 + 1e-6 / R or not abs(g[3]) <= 1e-9:
                raise core.Disagreement('switch %s: conductances %r, expected %g and 0' % (par, g, 1. / R))
            # the other switch of the same model goes its own way
            evaluate(other, {1: vo, 2: 0., 3: -vin, 4: 0.})
        ctr.seen('states', (pi, on, vin))
    ctr.add('switch_histories')


def switch_slope(case, ctr):
    _, pi, ic = case
    core.boot()
    from ahkab import switch
    par = SW[pi]
    m = switch.vswitch_model('s', **par)
    for k in range(-200, 201):
        base = m.VT + (m.VH if not ic else -m.VH)
        vin = base + k * 1e-4 * (1 if abs(k) < 100 else 3)
        for vo in (1., -.5, 3.):
            dev = switch.switch_device(1, 2, 3, 4, m, ic=ic, part_id='S1')
            V = {1: vo, 2: 0., 3: vin, 4: 0.}
            i, g = evaluate(dev, V)
            bad = check_slopes(dev, V, g, 1e-3, 1e-9, 1e-6, ctr, 'switch %s' % par)
            ctr.add('biases')
            if bad:
                raise core.Disagreement(bad)
        ctr.seen('states', ('sw', pi, ic, k))


DISPATCH = {'mos': mos_case, 'diode': diode_case, 'temp': temp_case, 'sw': switch_case, 'sws': switch_slope}
LEVELS = LEV


def one(case, ctr):
    DISPATCH[case[0]](case, ctr)


def run(chk):
    global LEVELS
    if chk.thorough:
        LEVELS = LEV_T
    cs = [('mos', k, p, g, t, d) for k in ('mosq', 'ekv') for p in range(len(MOS))
          for g in range(len(GEO)) for t in 'np' for d in range(len(LEVELS))]
    cs += [('diode', p, a, T) for p in range(len(DIODES)) for a in (None, 1., 3.)
           for T in (None, 300., 350., 260.)]
    tops = [(k, t) for k in (0, 1) for t in (None, 300., 360., 280.)]
    n = 4 if chk.thorough else 3
    cs += [('temp', p, s) for p in (0, 5, 8, 11) for s in itertools.product(tops, repeat=n)]
    n = 5 if chk.thorough else 4
    cs += [('sw', p, ic, s) for p in range(len(SW)) for ic in (False, True)
           for s in itertools.product(SWL, repeat=n)]
    cs += [('sws', p, ic) for p in range(3) for ic in (False, True)]
    chk.explore(one, cs, limit=300, keyfn=repr, maxviol=6)
    chk.require('biases', 30000)
    chk.require('slopes', 30000)
    chk.require('switch_histories', 5000)
    chk.require('temperature_histories', 1000)
    chk.assumptions += [
        'parameter sets and bias levels are the listed lattices; values between lattice points are '
        'covered only by the continuity sweeps',
        'EKV: the published equations themselves dip by up to 0.3 % where saturation sets in with a '
        'small LAMBDA; falls of up to 0.5 % are not judged',
        'square-law MOS: where LAMBDA*(VGS-VT) >= 2 the channel-length term of the model is '
        'outside its domain and monotonicity is not judged']
    return chk.finish('states', 'transitions', 'biases',
                      'every point of the voltage lattice for every device, parameter set, geometry '
                      'and polarity; every sequence of temperature changes and of switch control '
                      'voltages up to the depth; slope = 5-point difference of the real current')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
