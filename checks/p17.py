"""P17: analyses do not disturb each other: all histories of analyses up to a depth,
on circuits that share device models, each executed on the real code in a process
of its own; every result is compared with the one a fresh process gives."""
import contextlib
import os
import pickle
import sys

import numpy as np

from vlib import core, hist

PID = 'P17'


# -- the circuits -------------------------------------------------------------
def build(ahkab):
    from ahkab import time_functions as tf
    C = {}

    def new(name):
        C[name] = ahkab.Circuit(name)
        return C[name]
    c = new('lin')
    c.add_vsource('V1', 'a', '0', 1., 1., function=tf.sin(0., 1., 10.))
    c.add_resistor('R1', 'a', 'b', 2.)
    c.add_capacitor('C1', 'b', '0', .01, ic=.5)
    c.add_inductor('L1', 'b', 'c', .02)
    c.add_inductor('L2', 'd', '0', .03)
    c.add_inductor_coupling('K1', 'L1', 'L2', .5)
    c.add_resistor('R2', 'c', '0', 3.)
    c.add_resistor('R3', 'd', '0', 1.)
    c.add_isource('I1', '0', 'd', .5, .5)
    c.add_vcvs('E1', 'e', '0', 'b', 'd', 2.)
    c.add_resistor('R4', 'e', '0', 1.)
    c = new('dio')
    c.add_model('diode', 'dm', {'name': 'dm', 'IS': 1e-14, 'RS': 2.})
    dm = c.models['dm']
    c.add_vsource('V1', 'a', '0', .9, 1., function=tf.sin(0., 1., 10.))
    c.add_resistor('R1', 'a', 'b', 100.)
    c.add_diode('D1', 'b', '0', 'dm')
    c.add_diode('D2', 'b', '0', 'dm', T=340., Area=2.)
    c.add_capacitor('C1', 'b', '0', 1e-4)
    c = new('dio2')
    c.models['dm'] = dm                     # the same model
    c.add_isource('I1', '0', 'b', 1e-3, 1e-3)
    c.add_diode('D1', 'b', 'm', 'dm')
    c.add_vsource('V1', 'm', '0', 0., 0.)
    c.add_resistor('R1', 'b', '0', 1e4)
    c.add_capacitor('C1', 'b', '0', 1e-7, ic=.3)
    c = new('mos')
    c.add_model('mosq', 'mn', {'name': 'mn', 'TYPE': 'n', 'VTO': .5, 'KP': 1e-4, 'GAMMA': .4, 'PHI': .7,
                               'LAMBDA': .02, 'TCV': 1e-3, 'BEX': -1.5})
    mn = c.models['mn']
    c.add_vsource('V1', 'g', '0', 1.2, 1., function=tf.sin(1., .1, 10.))
    c.add_vsource('V2', 'p', '0', 2.)
    c.add_resistor('R1', 'p', 'd', 1e4)
    c.add_mos('M1', 'd', 'g', 's', '0', 2e-6, 1e-6, 'mn')
    c.add_resistor('R2', 's', '0', 1e3)
    c.add_capacitor('C1', 'd', '0', 1e-7)
    c = new('ekv')
    c.models['mn'] = mn
    c.add_model('ekv', 'ek', {'name': 'ek', 'TYPE': 'n', 'VTO': .4, 'KP': 5e-5, 'TCV': 1e-3, 'BEX': -1.5})
    c.add_vsource('V1', 'g', '0', .8, 1., function=tf.sin(.7, .1, 10.))
    c.add_vsource('V2', 'p', '0', 1.5)
    c.add_resistor('R1', 'p', 'd', 1e5)
    c.add_mos('M1', 'd', 'g', '0', '0', 2e-6, 1e-6, 'ek')
    c.add_mos('M2', 'd', 'g', '0', '0', 1e-6, 1e-6, 'mn')
    c.add_capacitor('C1', 'd', '0', 1e-7)
    for name, vh in (('sw', 0.), ('swh', .3)):
        switch(new(name), name, vh, tf)
    return C


def switch(c, name, vh, tf):
    c.add_model('sw', 'sm', {'name': 'sm', 'VT': 1. - .05 * (name == 'sw'), 'VH': vh, 'RON': 1., 'ROFF': 1e4})
    c.add_vsource('V1', 'a', '0', 1., 1., function=tf.sin(1., 1., 10.))
    c.add_vsource('V2', 'p', '0', 2.)
    c.add_resistor('R1', 'p', 'b', 100.)
    c.add_switch('S1', 'b', '0', 'a', '0', False, 'sm')
    c.add_capacitor('C1', 'b', '0', 1e-5)


def switches(st, ci):
    """The position of the switches."""
    return [bool(e.device.is_on) for e in st['circ'][ci] if e.part_id.upper().startswith('S')]


OUT = {'lin': 'c', 'dio': 'b', 'dio2': 'b', 'mos': 'd', 'ekv': 'd', 'sw': 'b', 'swh': 'b'}
SWEEP = {'lin': (0., 2.), 'dio': (0., 1.2), 'dio2': (0., .2), 'mos': (.2, 1.6), 'ekv': (.2, 1.2), 'sw': (0., 2.), 'swh': (0., 2.)}


def analyses(ahkab, name):
    """name -> (depends on the operating point?, description)"""
    lo, hi = SWEEP[name]
    o = 'h.out'
    A = {
        'op': (False, ahkab.new_op(outfile=o)),
        'op-noguess': (False, ahkab.new_op(guess=False, outfile=o)),
        'dc': (False, ahkab.new_dc(lo, hi, 5, 'V1', outfile=o)),
        'dcx': (True, ahkab.new_dc(hi, lo, 4, 'V1', x0='op', outfile=o)),
        'tran': (True, ahkab.new_tran(0, .04, .01, x0='op', method='TRAP', outfile=o)),
        'tran-ic': (True, ahkab.new_tran(0, .02, .01, x0='op+ic', outfile=o)),
        'tran0': (False, ahkab.new_tran(0, .02, .01, x0=None, method='IMPLICIT_EULER', outfile=o)),
        'ac': (True, ahkab.new_ac(1., 100., 3, x0='op', outfile=o)),
        'pss': (False, ahkab.new_pss(.1, points=10, outfile=o)),
        'shooting': (False, ahkab.new_pss(.1, points=10, method='shooting', outfile=o)),
        'pz': (True, ahkab.new_pz('V1', (OUT[name], '0'), x0='op', outfile=o)),
        'op-stuck': (False, ahkab.new_op(outfile=o)),
        'dc-stuck': (False, ahkab.new_dc(lo, hi, 5, 'V1', outfile=o)),
        'tran-stuck': (False, ahkab.new_tran(0, .02, .01, x0=None, outfile=o)),
        'bad-dc': (False, ahkab.new_dc(lo, hi, 5, 'V7', outfile=o)),
        'bad-ac': (True, ahkab.new_ac(-1., 100., 3, x0='op', outfile=o)),
        'bad-pz': (True, ahkab.new_pz('V7', (OUT[name], '0'), x0='op', outfile=o)),
    }
    if name in ('lin', 'dio2', 'mos'):
        A['symbolic'] = (False, ahkab.new_symbolic('V1' if name != 'mos' else None, ac_enable=name != 'mos', outfile=o))
    return A


LIST = {}


def names(name):
    return LIST[name]


@contextlib.contextmanager
def stuck(on):
    """The solver gives up at once (and the setting comes back)."""
    from ahkab import options
    names = ('dc_max_nr_iter', 'use_gmin_stepping', 'use_source_stepping', 'transient_max_nr_iter')
    if not on:
        yield
        return
    keep = [getattr(options, n) for n in names]
    mine = [2, False, False, 2]
    for n, v in zip(names, mine):
        setattr(options, n, v)
    try:
        yield
    finally:
        now = [getattr(options, n) for n in names]
        for n, v in zip(names, keep):
            setattr(options, n, v)
        if now != mine:
            raise core.Disagreement('the analysis changed the options %s from %s to %s' % (names, mine, now),
                                    key='options')


def plain(r, an):
    if r is None:
        return None
    if an == 'symbolic':
        out = {}
        for part in r:
            if part is not None:
                for k, v in part.items():
                    out[str(k)] = str(v if not isinstance(v, dict) else sorted(map(str, v.items())))
        return out
    return {str(k): np.array(v).ravel() for k, v in r.items()}


def perform(st, ci, an):
    """The result of the analysis, in plain form."""
    ahkab = st['ahkab']
    c = st['circ'][ci]
    d = st['an'][ci][an][1]
    try:
        with stuck(an.endswith('-stuck')):
            r = ahkab.run(c, [d])
    except (ValueError, KeyError, SystemExit, RuntimeError, ArithmeticError, np.linalg.LinAlgError) as e:
        return ('refused', type(e).__name__)
    return plain(list(r.values())[0], an)


def start(ahkab):
    C = build(ahkab)
    return {'ahkab': ahkab, 'circ': C, 'an': {k: analyses(ahkab, k) for k in C}, 'op': {k: None for k in C}}


def differ(got, want):
    """None, or what differs."""
    if isinstance(got, tuple) or isinstance(want, tuple) or got is None or want is None:
        if isinstance(got, tuple) and isinstance(want, tuple) or got is None and want is None:
            return None
        return 'it gives %s, alone it gives %s' % tuple(
            x if isinstance(x, tuple) or x is None else 'a result' for x in (got, want))
    if list(got) != list(want):
        return 'the variables are %s, alone they are %s' % (list(got), list(want))
    for k in got:
        g, w = got[k], want[k]
        if isinstance(g, str):
            if g != w:
                return '%s is %s, alone it is %s' % (k, g, w)
            continue
        if g.shape != w.shape:
            return '%s has %d values, alone it has %d' % (k, g.size, w.size)
        scale = np.max(np.abs(w)) if w.size else 0.
        if not np.all((np.abs(g - w) <= 1e-9 * np.abs(w) + 1e-12 * scale + 1e-15) | (g == w) | (g != g) & (w != w)):
            i = int(np.argmax(np.abs(g - w)))
            return '%s is %r, alone it is %r (value %d of %d)' % (k, g[i], w[i], i, g.size)
    return None


# -- what must not change -----------------------------------------------------
def snapshot(st):
    from ahkab import options, constants
    s = {}
    for mod in (options, constants):
        for k, v in vars(mod).items():
            if not k.startswith('_') and isinstance(v, (int, float, str, bool, type(None), list, tuple)):
                s[mod.__name__, k] = repr(v)
    for n, c in st['circ'].items():
        s['text', n] = str(c)
        s['nodes', n] = repr((sorted((str(k), str(v)) for k, v in c.nodes_dict.items()), len(c), c.title,
                              sorted(c.models)))
        for e in c:
            for a in ('value', 'dc_value', 'abs_ac', 'ac_value', 'ic', 'alpha', 'n1', 'n2', 'is_timedependent',
                      'dc_guess', 'part_id', 'coupling_devices'):
                if hasattr(e, a):
                    s[n, e.part_id, a] = repr(getattr(e, a)) if a != 'coupling_devices' else len(getattr(e, a))
    for n, A in st['an'].items():
        for a, (_, d) in A.items():
            s['description', n, a] = repr(sorted(d.items(), key=str))
    return s


def step(st, action, ctr):
    ctr.add('transitions')
    ctr.seen('kinds', action[1:])
    ahkab = st['ahkab']
    before = snapshot(st)
    if action[1] == 'hot':              # another temperature, an analysis there, and back
        from ahkab import constants
        t = constants.T
        ahkab.set_temperature(80.)
        try:
            perform(st, action[0], action[2])
        finally:
            ahkab.set_temperature(t - 273.15)
        if abs(constants.T - t) > 1e-9:
            raise core.Disagreement('the temperature is %r, it was %r' % (constants.T, t))
        constants.T = t
        if action[2].startswith('op'):
            st['op'][action[0]] = 'other'
        check_same(before, snapshot(st))
        return
    if action[1] == 'device-hot':
        for e in st['circ'][action[0]]:
            if hasattr(e, 'set_temperature') and hasattr(e, 'device'):
                t = e.device.T
                e.set_temperature(370.)
                with contextlib.suppress(ValueError):
                    perform(st, action[0], 'op-noguess')
                e.set_temperature(t)
                ctr.add('device temperatures')
        for m in st['circ'][action[0]].models.values():
            if hasattr(m, 'set_device_temperature'):
                t = m.get_device_temperature()
                m.set_device_temperature(370.)
                with contextlib.suppress(ValueError):
                    perform(st, action[0], 'op-noguess')
                m.set_device_temperature(t)
                ctr.add('model temperatures')
        st['op'][action[0]] = 'other'
        check_same(before, snapshot(st))
        return
    ci, an = action
    dep = st['an'][ci][an][0]
    state = st['op'][ci] if dep else None
    position = switches(st, ci)
    got = perform(st, ci, an)
    if state != 'other':
        fresh, want = BASE[ci, state, an]
        msg = differ(got, want)
        if msg:
            key = None
            if ci == 'swh' and position != fresh:
                key = 'switch-with-hysteresis-keeps-its-position'
            raise core.Disagreement('%s on %s: %s' % (an, ci, msg), key=key)
        ctr.add('compared')
        if isinstance(got, tuple):
            ctr.add('refused')
        elif got is None:
            ctr.add('failed')
    if an.startswith('op'):
        st['op'][ci] = an if isinstance(got, dict) and an != 'op-stuck' else 'other'
    ctr.seen('states', tuple(sorted((k, str(v)) for k, v in st['op'].items())) + (action,))
    check_same(before, snapshot(st))


def check_same(a, b):
    for k in a:
        if a[k] != b.get(k):
            raise core.Disagreement('%s was %s, is now %s' % (k, a[k], b.get(k)))


# -- the results of fresh processes ---------------------------------------------
BASE = {}


def base_one(case, ctr):
    _, ci, state, an, path = case
    ahkab = core.boot()

    def alone():
        st = start(ahkab)
        if state:
            perform(st, ci, state)
        return switches(st, ci), perform(st, ci, an)
    kind, val = hist.isolated(alone, 100)
    if kind != 'ok':
        raise core.Disagreement('%s on %s alone: %s %s' % (an, ci, kind, val))
    with open(os.path.join(path, 'base_%s_%s_%s' % (ci, state, an)), 'wb') as fp:
        pickle.dump(((ci, state, an), val), fp)
    ctr.add('baselines')
    if isinstance(val[1], dict):
        ctr.seen('solved', (ci, an))


def load(path):
    if BASE:
        return
    for f in os.listdir(path):
        if f.startswith('base_'):
            with open(os.path.join(path, f), 'rb') as fp:
                k, v = pickle.load(fp)
            BASE[k] = v


def tree_one(case, ctr):
    _, path, first, then, depth = case
    ahkab = core.boot()
    load(path)
    st = start(ahkab)

    def actions(state, trail):
        return [first] if not trail else then[len(trail) - 1]
    hist.tree(st, actions, step, depth, ctr, limit=800)


def key(case):
    return repr(case[2:4] if case[0] == 'tree' else case)[:300]


NAMES = ('lin', 'dio', 'dio2', 'mos', 'ekv', 'sw', 'swh')
ANS = ('op', 'op-noguess', 'dc', 'dcx', 'tran', 'tran-ic', 'tran0', 'ac', 'pss', 'shooting', 'pz', 'op-stuck',
       'dc-stuck', 'tran-stuck', 'bad-dc', 'bad-ac', 'bad-pz')
SYMB = ('lin', 'dio2', 'mos')


def acts(ci):
    return [(ci, a) for a in ANS] + [(ci, 'symbolic')] * (ci in SYMB)


def run(chk):
    allacts = [a for ci in NAMES for a in acts(ci)]
    hot = [(ci, 'hot', a) for ci in NAMES for a in ('op-noguess', 'tran', 'dc')] + \
        [(ci, 'device-hot') for ci in ('dio', 'dio2', 'mos', 'ekv')]
    base = []
    for ci in NAMES:
        A = ANS + ('symbolic',) * (ci in SYMB)
        for a in A:
            for s in (None, 'op', 'op-noguess'):
                if s is None or a in ('dcx', 'tran', 'tran-ic', 'ac', 'pz', 'bad-ac', 'bad-pz'):
                    base.append(('base', ci, s, a, chk.tmp))
    chk.explore(base_one, base, limit=120, keyfn=lambda c: repr(c[:4]))
    if not chk.ctr.viol:
        cases = []
        shared = {'dio': ('dio', 'dio2'), 'dio2': ('dio', 'dio2'), 'mos': ('mos', 'ekv'), 'ekv': ('mos', 'ekv'),
                  'lin': ('lin',), 'sw': ('sw',), 'swh': ('swh',)}
        light = ('op', 'dcx', 'tran', 'ac', 'pz', 'tran-ic')
        for f in allacts + hot:
            near = [a for ci in shared[f[0]] for a in acts(ci)]
            far = [(ci, a) for ci in NAMES if ci not in shared[f[0]] for a in ('op', 'ac', 'tran0')]
            if chk.thorough:
                third = [(f[0], a) for a in light] + [(ci, 'op') for ci in shared[f[0]] if ci != f[0]]
                for second in near + far + [h for h in hot if h[0] in shared[f[0]]]:
                    cases.append(('tree', chk.tmp, f, [[second], third], 3))
            else:
                for k in range(0, len(near), 9):
                    cases.append(('tree', chk.tmp, f, [near[k:k + 9]], 2))
                cases.append(('tree', chk.tmp, f, [far], 2))
                # the operating point, something else, what depends on it
                if f[1] == 'op':
                    mid = [a for a in near if a[0] == f[0]] + [h for h in hot if h[0] == f[0]]
                    for m in mid:
                        cases.append(('tree', chk.tmp, f, [[m], [(f[0], a) for a in light]], 3))
        chk.explore(tree_one, cases, limit=850, keyfn=key)
        chk.require('compared', 2000)
        chk.require('solved', 60)
        chk.require('refused', 100)
        chk.require('failed', 20)
        chk.require('device temperatures', 1)
        chk.require('model temperatures', 1)
    chk.assumptions += [
        'an analysis that starts from the operating point is compared with the one of a fresh process that has '
        'computed the same operating point',
        'results are compared to 1e-9 (the starting value of the inner iteration of a diode with series resistance '
        'is its last one)']
    return chk.finish('states', 'transitions', 'histories',
                      'every pair of %d analyses (thorough: also triples) on circuits sharing models, and pairs on '
                      'different circuits, including failing ones and excursions in temperature; each history in its '
                      'own process' % len(allacts))


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
