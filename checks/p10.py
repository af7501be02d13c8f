"""P10: source waveforms follow their definition at every time, however they
are described."""
import itertools
import math
import os
import sys
from fractions import Fraction as Fr

import numpy as np

from vlib import core

PID = 'P10'
INF = float('inf')

ORDER = {'sin': ('vo', 'va', 'freq', 'td', 'theta', 'phase'),
         'exp': ('v1', 'v2', 'td1', 'tau1', 'td2', 'tau2'),
         'pulse': ('v1', 'v2', 'td', 'tr', 'tf', 'pw', 'per'),
         'sffm': ('vo', 'va', 'fc', 'mdi', 'fs', 'td'),
         'am': ('sa', 'oc', 'fm', 'fc', 'td')}
OPTIONAL = {'sin': {'td': 0., 'theta': 0., 'phase': 0.}, 'exp': {'td1': 0., 'td2': INF, 'tau2': INF},
            'pulse': {'td': 0.}, 'sffm': {'td': 0.}, 'am': {'td': 0.}}


# -- the documented definitions ---------------------------------------------
def want(kind, p, t):
    """The set of acceptable values at time t (more than one only at a jump)."""
    if kind == 'pulse':
        v1, v2 = Fr(p['v1']), Fr(p['v2'])
        td, tr, tf, pw, per = (Fr(p[k]) for k in ('td', 'tr', 'tf', 'pw', 'per'))
        td = max(td, Fr(0))
        u = Fr(t) - td
        if u < 0:
            return [float(v1)]
        u = u % per
        out = []
        for w in (u, per) if u == 0 and Fr(t) > td else (u,):
            # both sides of the end of a period, when the pulse is cut by it
            if w < tr or (w == tr and tr > 0):
                out.append(v1 + (v2 - v1) * w / tr)
            if tr <= w <= tr + pw:
                out.append(v2)
            if tr + pw <= w <= tr + pw + tf and tf > 0:
                out.append(v2 + (v1 - v2) * (w - tr - pw) / tf)
            if w >= tr + pw + tf:
                out.append(v1)
            if w == 0 and tr == 0:
                out.append(v1)
        return [float(x) for x in out]
    if kind == 'pwl':
        xs, ys = [Fr(x) for x in p['x']], [Fr(y) for y in p['y']]
        u = Fr(t) - Fr(p['td'])
        if u < 0:
            u = Fr(0)
        cand = [u]
        if p['repeat'] and u > xs[-1]:
            r = Fr(p['repeat_time'])
            if r == xs[-1]:
                r = Fr(0)
            w = (u - xs[-1]) % (xs[-1] - r)
            cand = [w + r] + ([xs[-1]] if w == 0 else [])
        out = []
        for w in cand:
            if w <= xs[0]:
                out.append(ys[0])
            elif w >= xs[-1]:
                out.append(ys[-1])
            else:
                for i in range(len(xs) - 1):
                    if xs[i] <= w <= xs[i + 1]:
                        out.append(ys[i] + (ys[i + 1] - ys[i]) * (w - xs[i]) / (xs[i + 1] - xs[i]))
        return [float(x) for x in out]
    if kind == 'sin':
        ph = math.radians(p['phase'])
        u = max(t - p['td'], 0.)
        return [p['vo'] + p['va'] * math.exp(-u * p['theta']) * math.sin(2 * math.pi * p['freq'] * u + ph)]
    if kind == 'exp':
        d = p['v2'] - p['v1']
        v = p['v1']
        if t >= p['td1']:
            v += d * -math.expm1(-(t - p['td1']) / p['tau1'])
        if t >= p['td2']:
            v -= d * (-math.expm1(-(t - p['td2']) / p['tau2']) if p['tau2'] < INF else 0.)
        return [v]
    if kind == 'sffm':
        u = t - p['td']
        if u <= 0:
            return [p['vo']]
        return [p['vo'] + p['va'] * math.sin(2 * math.pi * p['fc'] * u + p['mdi'] * math.sin(2 * math.pi * p['fs'] * u))]
    u = t - p['td']
    if u <= 0:
        return [0.]
    return [p['sa'] * (p['oc'] + math.sin(2 * math.pi * p['fm'] * u)) * math.sin(2 * math.pi * p['fc'] * u)]


def times(kind, p):
    g = {0.}
    if kind == 'pulse':
        td = max(p['td'], 0.)
        h = .0625 if p['per'] >= 1 else p['per'] / 64.
        for n in (0, 1, 2, 3, 7, 64):
            for b in (0., p['tr'], p['tr'] + p['pw'], p['tr'] + p['pw'] + p['tf'], p['per']):
                for e in (-h, 0., h, p['tr'] / 2, p['tf'] / 2):
                    g.add(td + n * p['per'] + b + e)
        g.update((td / 2, td - h))
    elif kind == 'pwl':
        span = p['x'][-1]
        for n in (0, 1, 2, 5):
            for x in p['x'] + (p['repeat_time'],):
                for e in (-.0625, 0., .0625, .25):
                    g.add(p['td'] + x + e)
                    if span != p['repeat_time']:
                        g.add(p['td'] + span + n * (span - p['repeat_time']) + x - p['repeat_time'] + e)
        g.update((p['td'], p['td'] / 2, p['td'] + 100.))
    else:
        for d in set(p.get(k, 0.) for k in ('td', 'td1', 'td2')):
            if d == INF:
                continue
            for e in (-.5, -.125, -1e-9, 0., 1e-9, .03125, .125, .25, .3, .5, .7, 1., 2.5, 3., 10.):
                g.add(d + e)
    return sorted(t for t in g if t >= 0)


def same_at(f, kind, p, ctr, what):
    for t in times(kind, p):
        ok = want(kind, p, t)
        got = float(f(t))
        scale = max(1., max(abs(x) for x in ok))
        if kind in ('pulse',):
            lim = 1e-9 * scale * (1 + 1. / max(min([x for x in (p['tr'], p['tf']) if x > 0] or [1.]), 1e-3))
        else:
            lim = 1e-9 * scale
        if not any(abs(got - w) <= lim for w in ok):
            raise core.Disagreement('%s %s: value %.12g at t=%.12g, by definition %s' % (
                what, kind, got, t, ' or '.join('%.12g' % w for w in ok)))
        ctr.add('evaluations')
    n = float(f(None))
    if not any(abs(n - w) <= 1e-9 * max(1., abs(w)) for w in want(kind, p, 0.)):
        raise core.Disagreement('%s %s: value %.12g without a time, at t=0 by definition %s' % (
            what, kind, n, want(kind, p, 0.)))


def api(kind, p):
    core.boot()
    from ahkab import time_functions as tf
    q = dict(p)
    if kind == 'sin':
        q['phi'] = q.pop('phase')
    return getattr(tf, kind)(**q)


def api_case(case, ctr):
    kind, vals = case
    if kind == 'pwl':
        p = dict(zip(('x', 'y', 'repeat', 'repeat_time', 'td'), vals))
    else:
        p = dict(zip(ORDER[kind], vals))
    f = api(kind, p)
    before = repr(sorted((k, repr(v)) for k, v in vars(f).items() if k != '_f'))
    same_at(f, kind, p, ctr, 'called from a script,')
    if repr(sorted((k, repr(v)) for k, v in vars(f).items() if k != '_f')) != before:
        raise core.Disagreement('%s: evaluating the function changed it' % kind)
    # any order of evaluation
    ts = times(kind, p)
    if [float(f(t)) for t in reversed(ts)] != [float(f(t)) for t in ts][::-1]:
        raise core.Disagreement('%s: the value depends on the order of evaluation' % kind)
    ctr.add('functions')
    ctr.seen('states', case)
    ctr.seen('kinds', kind)


def in_circuit(case, ctr):
    """A source with a function: V(t), I(t), and the DC value."""
    kind, vals, src = case
    ahkab = core.boot()
    p = dict(zip(ORDER[kind], vals))
    c = ahkab.Circuit('t')
    if src == 'V':
        c.add_vsource('V1', 'a', '0', dc_value=7., function=api(kind, p))
    else:
        c.add_isource('I1', 'a', '0', dc_value=7., function=api(kind, p))
    f = c[0].V if src == 'V' else c[0].I
    if float(f(None) if True else 0) != 7.:
        raise core.Disagreement('DC value %r of a source with dc_value 7 and a time function' % f(None))
    g = lambda t: want(kind, p, 0.)[0] if t is None else f(t)
    same_at(g, kind, p, ctr, 'as source %s,' % src)
    ctr.add('sources')


# -- netlist forms ----------------------------------------------------------
PARAMS = {'sin': dict(vo=.5, va=2., freq=.25, td=.75, theta=.125, phase=30.),
          'exp': dict(v1=1., v2=-3., td1=.5, tau1=.75, td2=2., tau2=1.5),
          'pulse': dict(v1=-1., v2=2.5, td=.5, tr=.25, tf=.5, pw=1., per=3.),
          'sffm': dict(vo=.25, va=1.5, fc=.5, mdi=2., fs=.125, td=.75),
          'am': dict(sa=2., oc=.5, fm=.125, fc=1., td=.25)}


def forms(kind, thorough):
    """(tokens, parameters meant) for every way to write the function."""
    o, opt = ORDER[kind], OPTIONAL[kind]
    p = PARAMS[kind]
    need = [k for k in o if k not in opt]
    out = []
    # positional prefix, then keywords for a subset of the rest, in orders
    for npos in range(len(o) + 1):
        rest = o[npos:]
        ro = [k for k in rest if k in opt]
        for keep in itertools.chain.from_iterable(itertools.combinations(ro, r) for r in range(len(ro) + 1)):
            kw = [k for k in rest if k not in opt or k in keep]
            orders = list(itertools.permutations(kw)) if len(kw) <= (5 if thorough else 4) else \
                [tuple(kw[i:] + kw[:i]) for i in range(len(kw))] + [tuple(reversed(kw))]
            for od in orders:
                meant = {k: opt[k] for k in rest if k not in kw}
                meant.update({k: p[k] for k in o if k not in meant})
                toks = ['%g' % p[k] for k in o[:npos]] + ['%s=%g' % (k, p[k]) for k in od]
                out.append((toks, meant))
    return out


def wrap(src, toks, kind, style):
    v = 'v' if src == 'V' else 'i'
    s = 'type=%s %s' % (kind, ' '.join(toks))
    if style == 0:
        return s
    if style == 1:
        return 'type=%sdc %sdc=7 %s' % (v, v, s)
    if style == 2:
        return '%s type=%sac %sac=3' % (s, v, v)
    if style == 3:
        return '%s %sdc=7 * a comment 3 4' % (s, v)
    if style == 4:
        return ('%s' % s).upper()
    if style == 5:
        return '%s\n+ %s' % (s[:len('type=' + kind)], '\n+'.join(' ' + t for t in toks))
    return '%sdc=7 %sac=3 %s*c' % (v, v, s + ' ')


def relabel(toks, src):
    """In a current source vo becomes io and so on."""
    out = []
    for t in toks:
        if '=' in t and t[0] == 'v':
            t = 'i' + t[1:]
        out.append(t)
    return out


def net_case(case, ctr):
    kind, src, style, ilabels, lo, hi, thorough = case
    ahkab = core.boot()
    from ahkab import netlist_parser
    fs = forms(kind, thorough)[lo:hi]
    lines = ['title', 'r1 a 0 1']
    for i, (toks, meant) in enumerate(fs):
        if ilabels:
            toks = relabel(toks, src)
        lines.append('%s%d a 0 %s' % (src, i, wrap(src, toks, kind, style)))
    with open('net.ckt', 'w') as fp:
        fp.write('\n'.join(lines) + '\n.op\n')
    c, d, pp = netlist_parser.parse_circuit('net.ckt')
    els = [e for e in c if e.part_id.upper() != 'R1']
    if len(els) != len(fs):
        raise core.Disagreement('%d sources read from %d lines' % (len(els), len(fs)))
    dc = 7. if style in (1, 3, 6) else None
    ac = 3. if style in (2, 6) else None
    for e, (toks, meant) in zip(els, fs):
        if e.dc_value != dc:
            raise core.Disagreement('line "%s": DC value %r instead of %r' % (wrap(src, toks, kind, style), e.dc_value, dc))
        if (e.abs_ac or None) != ac:
            raise core.Disagreement('line "%s": AC value %r instead of %r' % (wrap(src, toks, kind, style), e.abs_ac, ac))
        f = e.V if src == 'V' else e.I
        first = f(None)
        w = want(kind, meant, 0.)[0] if dc is None else dc
        if abs(first - w) > 1e-9:
            raise core.Disagreement('line "%s": %r in DC instead of %r' % (wrap(src, toks, kind, style), first, w))
        g = lambda t: want(kind, meant, 0.)[0] if t is None else f(t)
        same_at(g, kind, meant, ctr, 'written "%s",' % wrap(src, toks, kind, style))
        ctr.add('forms')
        ctr.seen('states', (kind, src, style, ilabels, toks))


def bad_case(case, ctr):
    """Lines that are not a description of the function are refused."""
    kind, src, how = case
    core.boot()
    from ahkab import netlist_parser
    o, opt, p = ORDER[kind], OPTIONAL[kind], PARAMS[kind]
    lines = []
    kv = lambda ks: ['%s=%g' % (k, p[k]) for k in ks]
    if how == 'missing':
        for k in o:
            if k not in opt:
                lines.append(kv([x for x in o if x != k]))
        lines += [['%g' % p[k] for k in o[:n]] for n in range(len(o)) if set(o[n:]) - set(opt)]
    elif how == 'repeated':
        for k in o:
            lines.append(kv(o) + kv([k]))
            lines.append(['%g' % p[k] for k in o] + kv([k]))
    elif how == 'surplus':
        lines.append(['%g' % p[k] for k in o] + ['5'])
    elif how == 'unknown':
        for w in ('foo=1', 'v3=1', 'x=2', '=3', 'tau=1', 'foo', 'a=b=c'):
            lines.append(kv(o[:-1]) + [w])
    elif how == 'notanumber':
        for k in o:
            lines.append(kv([x for x in o if x != k]) + ['%s=abc' % k])
            lines.append(kv([x for x in o if x != k]) + ['%s=' % k])
    for toks in lines:
        with open('net.ckt', 'w') as fp:
            fp.write('title\nr1 a 0 1\n%s1 a 0 type=%s %s\n' % (src, kind, ' '.join(toks)))
        try:
            c, d, pp = netlist_parser.parse_circuit('net.ckt')
        except netlist_parser.NetlistParseError:
            ctr.add('refused')
            continue
        raise core.Disagreement('"type=%s %s" was accepted' % (kind, ' '.join(toks)))


def cases(thorough):
    out = []
    P = itertools.product
    # pulse: dyadic values, so that break points are exact
    for v in P((0., -1.), (1., 2.5), (0., .5, -1., 2., 9.), (0., .25, 1.), (0., .5), (0., .5, 1.), (2., 3.5)):
        if v[3] + v[4] + v[5] <= v[6]:
            out.append(('pulse', v))
    for v in ((0., 5., 1e-9, 1e-10, 2e-10, 4e-10, 1e-9), (1., 0., .1, .1, .2, .3, .7),
              (-.3, 3.3, 33e-6, 1e-7, 3e-7, 1.1e-5, 7e-5), (0., 1., 1e-3, 1e-3, 1e-3, 1e-3, 5e-3)):
        out.append(('pulse', v))
    for v in P((0., .5), (1., -2.), (.25, 3.), (0., .75), (0., .5), (0., 90., -45., 360.)):
        out.append(('sin', v))
    for v in P((0., 1.), (1., -3.), (0., .5), (.25, 2.), (.5, 1., 4., INF), (.5, INF)):
        out.append(('exp', v))
    for v in P((0., .5), (1., -2.), (.5, 4.), (0., 2.), (.125, 1.), (0., .75)):
        out.append(('sffm', v))
        out.append(('am', v[1:]))
    shapes = [((0., 1.), (0., 2.)), ((0., .5, 2.), (1., 1., -1.)), ((.5, 1., 1.5, 3.), (0., 2., 2., -1.)),
              ((1., 2., 2.5), (3., 0., 1.)), ((0., 1., 2., 4.), (0., 0., 1., 0.))]
    for (x, y) in shapes:
        for td in (0., .75, 3.):
            out.append(('pwl', (x, y, False, 0, td)))
            for r in sorted(set((0.,) + x)):
                out.append(('pwl', (x, y, True, r, td)))
    net = []
    for kind in ORDER:
        n = len(forms(kind, thorough))
        for src in 'VI':
            for style in range(7):
                for il in (False, True) if src == 'I' and kind != 'am' else (False,):
                    for lo in range(0, n, 60):
                        net.append((kind, src, style, il, lo, lo + 60, thorough))
    bad = [(k, s, h) for k in ORDER for s in 'VI' for h in ('missing', 'repeated', 'surplus', 'unknown', 'notanumber')]
    return out, net, bad


def run(chk):
    a, n, b = cases(chk.thorough)
    chk.explore(api_case, a, limit=30)
    chk.explore(in_circuit, [(k, v, s) for k, v in a if k != 'pwl' for s in 'VI'][::(1 if chk.thorough else 3)], limit=30)
    chk.explore(net_case, n, limit=60)
    chk.explore(bad_case, b, limit=30)
    for nm, m in (('functions', 900), ('evaluations', 50000), ('forms', 4000), ('refused', 200), ('kinds', 6), ('sources', 100)):
        chk.require(nm, m)
    chk.assumptions += ['at a jump (zero rise or fall time) either side is accepted',
                        'PWL waveforms are constant before the first and after the last point',
                        'parameters on a lattice of exactly representable values']
    return chk.finish('states', 'evaluations', 'forms',
                      'every parameter combination of a lattice for each function, evaluated at every break '
                      'point, beside it, between and after up to 64 periods; every positional, keyword and '
                      'mixed way to write each function in a netlist for voltage and current sources')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
