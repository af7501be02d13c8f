"""P27: what the operating point report says about each element is what the
reported solution implies."""
import itertools
import math
import re
import sys

import numpy as np

from vlib import core, devices, ref
from checks import p02
from checks.p03 import nl_add, NLNODES
from checks.p08 import BIAS, DPAR, current, lin_of, make

PID = 'P27'
DASH = re.compile(r'^-+(  +-+)*\s*$')


def cells(line, spans):
    return [line[a:b].strip() for a, b in spans]


def number(t):
    return float(t.strip('[] '))


def read_report(path):
    """({variable: (unit, value)}, [(header, row)], [mos block], total power)."""
    text = open(path, encoding='utf8').read()
    values, rest = text.split('ELEMENTS OP INFORMATION:')
    values = values.split('RESULTS:')[1]
    table, rows, mos, tot = {}, [], [], None

    def blocks(t):
        b = []
        for line in t.split('\n') + ['']:
            if line.strip() and not line.startswith('==='):
                b.append(line)
            elif b:
                yield b
                b = []

    def spans_of(d):
        s = [m.start() for m in re.finditer('-+', d)]
        return list(zip(s, s[1:] + [None]))
    for b in blocks(values):
        sp = spans_of(b[1])
        for line in b[2:]:
            n, u, v = cells(line, sp)[:3]
            if n in table:
                raise core.Disagreement('variable %s is in the report twice' % n)
            table[n] = (u, float(v))
    for b in blocks(rest):
        if b[0].startswith('Total power'):
            tot = float(re.match(r'Total power dissipation: (\S+) W', b[0]).group(1))
        elif DASH.match(b[0]):
            sp = spans_of(b[0])
            mos.append([cells(line, sp) for line in b[1:-1]])
        else:
            sp = spans_of(b[1])
            h = cells(b[0], sp)
            rows += [(h, cells(line, sp)) for line in b[2:]]
    return table, rows, mos, tot


def near(got, want, scale=1.):
    return abs(got - want) <= 1e-5 * max(abs(got), abs(want)) + 1e-11 * scale


def expected(e, v, i):
    """The columns of a linear element: {column: value}."""
    k, u = e[0], v(e[2]) - v(e[3])
    if k == 'R':
        return {'R': e[4], 'V(n1,n2)': u, 'I(n1->n2)': u / e[4], 'P': u * u / e[4]}
    if k == 'C':
        return {'V(n1-n2)': u, 'Q': e[4] * u, 'E': .5 * e[4] * u * u}
    if k == 'L':
        return {'(n1,n2)': e[4] * i, 'I(n1->n2)': i, 'E': .5 * e[4] * i * i}
    if k == 'V':
        return {'V(n1,n2)': u, 'I(n1->n2)': i, 'P': u * i}
    if k == 'I':
        return {'V(n1-n2)': u, 'I': e[4], 'P': u * e[4]}
    return None


def column(header, name):
    for j, h in enumerate(header):
        h = h.split(' [')[0]
        if h == name or (name == '(n1,n2)' and h.endswith('(n1,n2)') and h[0] not in 'VI'):
            return j
    raise core.Disagreement('no column %s among %s' % (name, header))


def compare(part, header, row, want, scale, atol=None):
    for n, w in want.items():
        got = number(row[column(header, n)])
        a = (atol or {}).get(n, 0.)
        if not (near(got, w, scale) or abs(got - w) <= a):
            raise core.Disagreement('%s: the report says %s = %.9g, the solution means %.9g'
                                    % (part, n, got, w))


def split(rows, desc):
    """Every element's row, once, under a header of its own kind."""
    out = {}
    for h, r in rows:
        if h[0] != 'Part ID':
            raise core.Disagreement('a block without Part ID: %s' % (h,))
        if r[0].upper() in out:
            raise core.Disagreement('%s is in the report twice' % r[0])
        if len(r) != len(h):
            raise core.Disagreement('%s: %d columns under %d headers' % (r[0], len(r), len(h)))
        out[r[0].upper()] = (h, r)
    return out


def table_check(table, r, names):
    if sorted(table) != sorted(ref.label(n).upper() for n in names):
        raise core.Disagreement('the report has the variables %s' % sorted(table))
    for n in names:
        u, val = table[ref.label(n).upper()]
        if u != ('V' if n[0] == 'v' else 'A'):
            raise core.Disagreement('%s is reported in %s' % (ref.label(n), u))
        if not near(val, float(r[ref.label(n)][0][0])):
            raise core.Disagreement('%s = %g in the report, %.9g in the results'
                                    % (ref.label(n), val, float(r[ref.label(n)][0][0])))


def linear_rows(lin, r, rows, scale, ctr):
    x = lambda u: float(r[ref.label(u)][0][0])
    v = lambda n: 0. if n == '0' else x(('v', n))
    seen = 0
    for e in lin:
        i = x(('i', e[1])) if e[0] in 'VL' else None
        want = expected(e, v, i)
        if want is None:
            if e[1].upper() in rows:
                raise core.Disagreement('%s has a row in the report' % e[1])
            continue
        if e[1].upper() not in rows:
            raise core.Disagreement('%s is missing from the report' % e[1])
        compare(e[1], *rows[e[1].upper()], want=want, scale=scale)
        ctr.seen('kinds', e[0])
        seen += 1
    return v, seen


def linear(case, ctr):
    ahkab = core.boot()
    from ahkab import dc_analysis
    desc = p02.desc_of(case)
    if ref.dc(desc) is None:
        ctr.add('singular_skipped')
        return
    c = ref.build(ahkab, desc)
    r = dc_analysis.op_analysis(c, outfile='op', verbose=0)
    if r is None:
        ctr.add('no_solution')
        return
    names = ref.unknowns(desc) if hasattr(ref, 'unknowns') else list(ref.dc(desc))
    table, rows, mos, tot = read_report('opinfo')
    table_check(table, r, names)
    sc = max([1.] + [abs(float(t[1])) for t in table.values()])
    rows = split(rows, desc)
    v, n = linear_rows(desc, r, rows, sc * sc, ctr)
    if len(rows) != n or mos:
        raise core.Disagreement('%d element rows for %d elements' % (len(rows), n))
    p = sum((v(e[2]) - v(e[3])) ** 2 / e[4] for e in desc if e[0] == 'R')
    if abs(tot - p) > 1e-5 * abs(p) + 1e-6 * sc * sc:
        raise core.Disagreement('total power %g W, the resistors dissipate %g W' % (tot, p))
    ctr.add('linear')
    ctr.add('transitions', n)
    ctr.seen('states', sorted(table.items()))


# ---------------------------------------------------------------- devices ----
DIO = [{}, {'N': 1.5, 'IS': 1e-10}, {'RS': 10.}, {'IKF': 1e-4}, {'BV': 2.}, {'ISR': 1e-9}, {'TBV': 1e-3, 'BV': 2.}]
MP = [{}, {'VTO': .4}, {'VTO': .8, 'GAMMA': .3, 'LAMBDA': .05}]
GEO = [dict(w=2e-6, l=1e-6), dict(w=6e-6, l=2e-6, m=3), dict(w=4e-6, l=1e-6, m=2, n=2)]


def dio_case(case, ctr):
    _, par, area, T, v = case
    ahkab = core.boot()
    from ahkab import dc_analysis, options
    options.dc_max_nr_iter = 400
    c = ahkab.Circuit('t')
    c.add_model('diode', 'dm', dict(par, name='dm'))
    c.add_vsource('V1', 'a', '0', v)
    c.add_diode('D1', 'a', '0', 'dm', Area=area, T=T)
    c.add_diode('Dx', '0', 'a', 'dm')
    c.add_resistor('R1', 'a', '0', 1e3)
    r = dc_analysis.op_analysis(c, outfile='op', verbose=0)
    if r is None:
        ctr.add('no_solution')
        return
    table, rows, mos, tot = read_report('opinfo')
    rows = split(rows, None)
    if sorted(rows) != ['D1', 'DX', 'R1', 'V1']:
        raise core.Disagreement('the report has the rows %s' % sorted(rows))
    v = float(r['Va'][0][0])
    P = v * v / 1e3
    for n, u, a, t in (('D1', v, area or 1., T or 300.), ('DX', -v, 1., 300.)):
        i, g = devices.diode(par, u, a, t)
        tol = 1e-3 * abs(i) + 1e-11 if par.get('RS') else 1e-5 * abs(i)
        compare(n, *rows[n], want={'V(n1-n2)': u, 'I(n1-n2)': i, 'P': u * i, 'gm': g, 'T': t}, scale=1.,
                atol={'I(n1-n2)': tol, 'P': abs(u) * tol, 'gm': 1e-3 * abs(g) + 1e-11})
        P += u * i
    if abs(tot - P) > 1e-3 * abs(P) + 1e-9:
        raise core.Disagreement('total power %g W, dissipated %g W' % (tot, P))
    ctr.add('diodes')
    ctr.add('transitions', 4)
    ctr.seen('states', (case, tuple(rows['D1'][1])))


def field(block, key):
    """The value two cells after `key` in a MOS block."""
    for row in block:
        for j, t in enumerate(row):
            if t.rstrip(': ') == key and j + 2 < len(row):
                return row[j + 2]
    raise core.Disagreement('no %s in the block %s' % (key, block[0]))


def slopes(f, par, at, h=1e-5):
    g, rough = [], []
    for k in range(4):
        a, b = list(at), list(at)
        a[k] += h
        b[k] -= h
        fa, f0, fb = f(par, *a)[0], f(par, *at)[0], f(par, *b)[0]
        g.append((fa - fb) / (2 * h))
        rough.append(abs((fa - f0) - (f0 - fb)) / h)
    return g, rough


def mos_case(case, ctr):
    _, kind, par, geo, typ, at = case
    ahkab = core.boot()
    from ahkab import dc_analysis, options
    options.dc_max_nr_iter = 400
    par = dict(par)
    if 'VTO' in par and typ == 'p':
        par['VTO'] = -par['VTO']
    c = ahkab.Circuit('t')
    c.add_model(kind, 'mm', dict(par, name='mm', TYPE=typ))
    for n, u in zip('dgsb', at):
        c.add_vsource('V' + n, n, '0', u)
    c.add_mos('M1', 'd', 'g', 's', 'b', geo['w'], geo['l'], 'mm', m=geo.get('m', 1), n=geo.get('n', 1))
    r = dc_analysis.op_analysis(c, outfile='op', verbose=0)
    if r is None:
        ctr.add('no_solution')
        return
    table, rows, mos, tot = read_report('opinfo')
    if len(mos) != 1 or len(rows) != 4:
        raise core.Disagreement('%d transistor blocks, %d rows' % (len(mos), len(rows)))
    b = mos[0]
    if b[0][0].split()[0] != 'M1':
        raise core.Disagreement('the block of M1 is headed %s' % b[0][0])
    rp = dict(par, TYPE=typ, **geo)
    f = devices.mosq if kind == 'mosq' else devices.ekv
    I, extra = f(rp, *at)
    m = geo.get('m', 1)
    d, g, s, bb = at
    what = dict(zip(('Vds', 'Vgs', 'Vbs') if kind == 'mosq' else ('Vdb', 'Vgb', 'Vsb'),
                    (d - s, g - s, bb - s) if kind == 'mosq' else (d - bb, g - bb, s - bb)))

    def say(n, w, tol):
        got = number(field(b, n))
        if not abs(got - w) <= tol:
            raise core.Disagreement('%s %s at d,g,s,b = %s: the report says %s = %.9g, it is %.9g'
                                    % (typ, kind, at, n, got, w))
        return got
    for n, w in what.items():
        say(n, w, 1e-5 * abs(w) + 1e-12)
    ids = say('Ids', I, 2e-5 * abs(I) + (5e-9 if kind == 'mosq' else 1e-11) * m)
    say('M/N', 0, 9e9) if False else None
    mn = [row[j + 2] for row in b for j, t in enumerate(row) if t == 'M/N:']
    if mn != ['%d/%d' % (m, geo.get('n', 1))]:
        raise core.Disagreement('the report says M/N = %s' % mn)
    if kind == 'mosq':
        gg, rough = slopes(f, rp, at)
        sg = 1. if typ == 'n' else -1.
        D, S = (d, s) if sg * (d - s) >= 0 else (s, d)
        vds, vgs, vbs = sg * (D - S), sg * (g - S), sg * (bb - S)
        VTO = .5 if par.get('VTO') is None else sg * par['VTO']
        PHI, GAM, LAM = par.get('PHI', .7), par.get('GAMMA', 1.), par.get('LAMBDA', .5)
        VT = VTO + GAM * (math.sqrt(max(2 * PHI - vbs, 0.)) - math.sqrt(2 * PHI))
        vov = vgs - VT
        say('VTH', sg * VT, 1e-5 * abs(VT) + 1e-9)
        say('VOD', vov, 1e-5 * abs(vov) + 1e-9)
        if abs(vov) > 1e-9:
            on = b[0][1]
            if on != ('ON' if vov > 0 else 'OFF'):
                raise core.Disagreement('%s mosq at d,g,s,b = %s: the overdrive is %g V, reported %s'
                                        % (typ, at, vov, on))
            ctr.seen('regions', (typ, on))
        if vov > 1e-9:
            want = 'SATURATION' if vds > vov + 1e-9 else 'LINEAR' if vds < vov - .5 * LAM * vov ** 2 - 1e-9 else None
            if want and want not in b[0]:
                raise core.Disagreement('%s mosq at d,g,s,b = %s: vds %g V, overdrive %g V, reported %s'
                                        % (typ, at, vds, vov, b[0]))
            ctr.seen('regions', (typ, want))
        if max(rough) < 1e-4 * max(abs(t) for t in gg) + 1e-12 and 2 * PHI - vbs > 1e-3:
            for n, w in (('gm', gg[1]), ('gmb', gg[3])):
                say(n, w, 1e-4 * abs(w) + 3e-9 * m)
            gd = gg[0]
            ro = number(field(b, 'ro'))
            if abs(1. / ro - gd) > 1e-4 * abs(gd) + 3e-9 * m:
                raise core.Disagreement('%s mosq at %s: ro = %g, the output conductance is %g' % (typ, at, ro, gd))
            ctr.add('slopes')
            va = number(field(b, 'VA'))
            if abs(va - ids * ro) > 1e-4 * abs(va) + 1e-9:
                raise core.Disagreement('VA = %g V but Ids*ro = %g' % (va, ids * ro))
    else:
        gmd, gmg, gms = extra
        sg = 1. if typ == 'n' else -1.
        for n, w in (('gmg', gmg), ('gms', gms)):
            say(n, w, 2e-3 * abs(w) + 1e-11 * m)
        rob = number(field(b, 'rob'))
        if abs(1. / rob - gmd) > 2e-3 * abs(gmd) + 1e-11 * m:
            raise core.Disagreement('%s ekv at %s: rob = %g, the drain conductance is %g' % (typ, at, rob, gmd))
        fi, ri = number(field(b, 'if')), number(field(b, 'ir'))
        if b[0][1][0] != typ.upper():
            raise core.Disagreement('a %s channel device is reported as %s' % (typ, b[0][1]))
        big = max(fi, ri)
        inv = 'STRONG' if big > 10 else 'WEAK' if big < .1 else 'MODERATE'
        if abs(math.log(big / 10.)) > 1e-6 and abs(math.log(big / .1)) > 1e-6 and inv + ' INVERSION' not in b[0]:
            raise core.Disagreement('forward and reverse currents %g, %g reported as %s' % (fi, ri, b[0]))
        if ids and abs(number(field(b, 'TEF')) - abs(gms * devices.vth() / ids)) > 5e-3 * abs(gms * devices.vth() / ids):
            raise core.Disagreement('TEF = %s, |gms*Vth/Ids| = %g' % (field(b, 'TEF'), abs(gms * devices.vth() / ids)))
        ctr.seen('regions', (typ, inv))
        ctr.add('slopes')
    P = (d - s) * I
    if abs(tot - P) > 1e-4 * abs(P) + 1e-8 * m:
        raise core.Disagreement('total power %g W, the transistor dissipates %g W' % (tot, P))
    ctr.add('transistors')
    ctr.add('transitions', 5)
    ctr.seen('states', (case, ids))


def mixed(case, ctr):
    """Devices inside a network: the rows are those of the solution."""
    els, bias, where = case
    ahkab = core.boot()
    from ahkab import dc_analysis, options
    options.dc_max_nr_iter = 400
    lin = lin_of(bias[0], bias[1], ())
    names = ref.matrices(lin)[0]
    c = make(ahkab, lin, els, where)
    r = dc_analysis.op_analysis(c, outfile='op', verbose=0)
    if r is None:
        ctr.add('no_solution')
        return
    table, rows, mos, tot = read_report('opinfo')
    table_check(table, r, names)
    rows = split(rows, None)
    v, n = linear_rows(lin, r, rows, 1e-3, ctr)
    P = sum((v(e[2]) - v(e[3])) ** 2 / e[4] for e in lin if e[0] == 'R')
    A = P
    nm = 0
    heads = dict((b[0][0].split()[0], b) for b in mos)
    if len(heads) != len(mos):
        raise core.Disagreement('two transistor blocks with the same name: %s' % [b[0][0] for b in mos])
    for k, e in enumerate(els):
        if e[0] in 'QE':
            nm += 1
            if 'M%d' % k not in heads:
                raise core.Disagreement('M%d is missing from the report' % k)
            b = heads['M%d' % k]
            i = current(e, v, False)[2]
            lab, at = (('Vds', 'Vgs', 'Vbs'), ((1, 3), (2, 3), (4, 3))) if e[0] == 'Q' else \
                      (('Vdb', 'Vgb', 'Vsb'), ((1, 4), (2, 4), (3, 4)))
            for t, (p, q) in zip(lab, at):
                if not near(number(field(b, t)), v(e[p]) - v(e[q])):
                    raise core.Disagreement('M%d: the report says %s = %s, it is %g' % (
                        k, t, field(b, t), v(e[p]) - v(e[q])))
            if abs(number(field(b, 'Ids')) - i) > 1e-4 * abs(i) + 1e-8:
                raise core.Disagreement('M%d: the report says Ids = %s, it is %g' % (k, field(b, 'Ids'), i))
            p = (v(e[1]) - v(e[3])) * i
        else:
            nme = '%s%d' % (e[0], k)
            if nme not in rows:
                raise core.Disagreement('%s is missing from the report' % nme)
            h, row = rows[nme]
            u = v(e[1]) - v(e[2])
            if e[0] == 'D':
                i = current(e, v, None)[2]
                compare(nme, h, row, {'V(n1-n2)': u, 'I(n1-n2)': i, 'P': u * i}, 1.)
            else:
                on = row[column(h, 'STATUS')]
                if on not in ('ON', 'OFF'):
                    raise core.Disagreement('%s: status %s' % (nme, on))
                i = current(e, v, on == 'ON')[2]
                R = u / i if i else None
                compare(nme, h, row, {'VO': u, 'VS': v(e[3]) - v(e[4]), 'I': i}, 1.)
                if R and abs(u) > 1e-9:
                    compare(nme, h, row, {'R': R}, 1.)
                ctr.seen('regions', ('S', on))
            n += 1
            p = u * i
        P += p
        A += abs(p)
        ctr.seen('kinds', e[0])
    if len(rows) != n or len(mos) != nm:
        raise core.Disagreement('%d rows and %d blocks for %d elements and %d transistors'
                                % (len(rows), len(mos), n, nm))
    if abs(tot - P) > 5e-3 * A + 1e-7:
        raise core.Disagreement('total power %g W, dissipated %g W' % (tot, P))
    if abs(tot - float(r.tot_power)) > 1e-5 * abs(tot) + 1e-12:
        raise core.Disagreement('total power %g W in the report, %g in the results' % (tot, float(r.tot_power)))
    ctr.add('mixed')
    ctr.add('transitions', n + nm)
    ctr.seen('states', (els, bias, round(tot, 9)))


def cases(thorough):
    A = p02.alphabet(True, False)
    B = p02.alphabet(False, False, vals=4)
    lin = [((p,), ()) for p in A] + [((), (p,)) for p in A]
    k = 1 if thorough else 7
    lin += [((p,), (q,)) for p, q in list(itertools.product(A, B))[::k]]
    lin += [((p, q), ()) for p, q in list(itertools.product(B, A))[::k]]
    dio = [('d', par, area, T, v) for par in DIO for area in (None, 2.5) for T in (None, 330.)
           for v in ((-3., -1., 0., .3, .6, .7, .8) if not thorough else
                     (-3., -2.1, -2., -1.5, -1., -.1, 0., .1, .2, .3, .4, .5, .6, .65, .7, .75, .8, .9))]
    lv = (-1., 0., .7, 2.) if not thorough else (-2., -1., -.3, 0., .4, .8, 1.5, 2.5)
    mos = [('m', kind, par, geo, typ, at) for kind in ('mosq', 'ekv') for par in MP for geo in GEO[:2 if kind == 'ekv' else 3]
           for typ in 'np' for at in itertools.product(lv, lv, lv, (0., -.5) if not thorough else (0., -.5, 1.))]
    if not thorough:
        mos = [c for k, c in enumerate(mos) if k % 3 == (k // 3) % 3]
    prs = [(p, q) for p in NLNODES for q in NLNODES if p != q]
    ds = [('D', p, q, m) for p, q in prs for m in (0, 1)]
    ms = [(k, d, g, s, b, t) for k in 'QE' for t in (0, 1) for d in NLNODES
          for g in ('s', '0', 'a', 'b') for s in NLNODES for b in ('0', 's', 'a') if d != s]
    sw = [('S', p, q, x, y) for p, q in prs for x, y in (('s', '0'), ('a', '0'), ('0', 's'), ('b', 'a'), ('a', 'b'))]
    st = 1 if thorough else 3
    mix = [((e,), b, w) for e in ds + ms[::st] + sw for b in BIAS[:(4 if thorough else 2)] for w in ('mid', 'first')]
    mix += [((e, f), BIAS[0], w) for e in ds[::2] for f in ds[::st] + ms[::9 * st] + sw[::3 * st] for w in ('mid', 'rev')]
    mix += [((e, f), BIAS[1], 'last') for e in ms[::11] for f in ms[::23] + sw[::7]]
    if thorough:
        mix += [((e, f, g), BIAS[0], 'mid') for e in ds[::2] for f in ms[::29] for g in sw[::5] + ds[1::5]]
    return lin, dio, mos, mix


def run(chk):
    lin, dio, mos, mix = cases(chk.thorough)
    chk.explore(linear, lin, limit=20, keyfn=p02.key)
    chk.explore(dio_case, dio, limit=20)
    chk.explore(mos_case, mos, limit=20)
    chk.explore(mixed, mix, limit=60)
    for n, m in (('linear', 1000), ('diodes', 150), ('transistors', 800), ('slopes', 400), ('mixed', 800),
                 ('kinds', 9), ('regions', 10)):
        chk.require(n, m)
    chk.assumptions += [
        'figures are compared at the six digits the report prints; the reference device equations are those of '
        'P08 and P09',
        'MOSFET blocks: terminal voltages, Ids, gm/gmb/ro (gmg/gms/rob), VTH, overdrive, VA, M/N and the region '
        'are judged; beta, effective sizes and charges are not; the band where the saturation limits of the '
        'current equation and of the textbook differ is not judged',
        'circuits without a solution are counted, not judged']
    return chk.finish('states', 'transitions', 'linear',
                      'every single element and (quick: every 7th; thorough: every) pair of linear elements around '
                      'a resistive backbone; diodes over parameters x area x temperature x bias; MOSFETs over '
                      'model x type x geometry x a terminal-voltage grid; one and two (thorough: three) devices in '
                      'every connection of a network: each report file is parsed back and each figure compared '
                      'with the value the solution implies')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
