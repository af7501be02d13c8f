"""P16: every way of writing an analysis directive produces the analysis that
was asked for; analyses run in the order of appearance; wrong directives are
refused (all spellings of a bounded grammar, all directive sequences)."""
import itertools
import os
import sys

import numpy as np

from vlib import core

PID = 'P16'

BODY = """title
V1 in 0 type=vdc vdc=3 vac=1 type=pulse v1=0 v2=2 td=0 tr=.1 tf=.1 pw=.9 per=2
V10 x 0 type=vdc vdc=1 vac=.5
I1 0 b type=idc idc=.5
R1 in a 2
R2 a 0 3
C1 a 0 1 ic=.5
L1 a b 2 ic=.25
R3 b 0 1
R4 x b 4
"""
SBODY = 'title\nV1 in 0 type=vdc vdc=3 vac=1\nV10 x 0 type=vdc vdc=1 vac=.5\nR1 in a 2\nR4 x a 4\nC1 a 0 1\n'
ICS = '.ic name=start1 v(a)=2 i(l1)=.5\n.ic name=start2 v(a)=1 v(b)=-1\n'


def circuit(ahkab, small=False):
    from ahkab import time_functions
    c = ahkab.Circuit('title')
    if small:
        c.add_vsource('V1', 'in', '0', 3, 1)
        c.add_vsource('V10', 'x', '0', 1, .5)
        c.add_resistor('R1', 'in', 'a', 2.)
        c.add_resistor('R4', 'x', 'a', 4.)
        c.add_capacitor('C1', 'a', '0', 1.)
        return c
    c.add_vsource('V1', 'in', '0', 3, 1, function=time_functions.pulse(
        v1=0., v2=2., td=0., tr=.1, tf=.1, pw=.9, per=2.))
    c.add_vsource('V10', 'x', '0', 1, .5)
    c.add_isource('I1', '0', 'b', .5)
    c.add_resistor('R1', 'in', 'a', 2.)
    c.add_resistor('R2', 'a', '0', 3.)
    c.add_capacitor('C1', 'a', '0', 1., ic=.5)
    c.add_inductor('L1', 'a', 'b', 2., ic=.25)
    c.add_resistor('R3', 'b', '0', 1.)
    c.add_resistor('R4', 'x', 'b', 4.)
    return c


NAMES = ['Vin', 'Va', 'Vx', 'Vb', 'I(V1)', 'I(V10)', 'I(L1)']


# -- expected results, through the functions of the programming interface -------
def direct(ahkab, c, kind, args, state):
    """args: dict of what was asked for; state: {'op': last operating point}."""
    from ahkab import dc_analysis, ac, transient, pz, symbolic, pss
    if kind == 'op':
        kw = {}
        if args.get('guess') in ('start1', 'start2'):
            kw['x0'] = ic(ahkab, c, args['guess'])
        r = dc_analysis.op_analysis(c, outfile='o.op', verbose=0, **kw)
        state['op'] = r
        return r
    if kind == 'dc':
        return dc_analysis.dc_analysis(c, args['start'], args['stop'], args['step'], args['source'],
                                       sweep_type={'lin': 'LINEAR', 'log': 'LOG'}[args.get('type', 'lin')],
                                       outfile='o.dc', verbose=0)
    if kind == 'ac':
        return ac.ac_analysis(c, args['start'], args['nsteps'], args['stop'],
                              sweep_type={'lin': 'LIN', 'log': 'LOG'}[args.get('type', 'log')],
                              outfile='o.ac', verbose=0)
    if kind == 'tran':
        u = args.get('uic', 0)
        x0 = None
        if u in (1, 2):
            x0 = state['op']
            if u == 2:
                x0 = ahkab.ahkab.icmodified_x0(c, x0)
        elif u == 3:
            x0 = ic(ahkab, c, args['ic_label'])
        kw = {}
        if args.get('method'):
            kw['method'] = {'trap': transient.TRAP, 'implicit_euler': transient.IMPLICIT_EULER}[args['method']]
        return transient.transient_analysis(c, args.get('tstart', 0.), args['tstep'], args['tstop'],
                                            x0=x0, outfile='o.tran', verbose=0, **kw)
    if kind == 'pz':
        o = args.get('output')
        return pz.calculate_singularities(c, args.get('source') if o else None,
                                          o if args.get('source') else None,
                                          shift=args.get('shift', 0.), outfile='o.pz')
    if kind == 'symbolic':
        return symbolic.symbolic_analysis(c, source=args.get('tf'), ac_enable=args.get('ac', True),
                                          outfile='o.symbolic', verbose=0)
    if kind == 'pss':
        return pss.pss_analysis(c, method=args.get('method', 'shooting'), period=args['period'],
                                points=args.get('points'), step=args.get('step'),
                                autonomous=args.get('autonomous', False), outfile='o.pss', verbose=0)
    raise ValueError(kind)


def ic(ahkab, c, label):
    d = {'start1': {'V(a)': 2., 'I(L1)': .5}, 'start2': {'V(a)': 1., 'V(b)': -1.}}[label]
    return ahkab.ahkab.new_x0(c, d)


def image(kind, r):
    """What a result contains, as {name: tuple}, names in lower case."""
    if r is None:
        return None
    if kind == 'symbolic':
        res, tfs = r if isinstance(r, tuple) else (r, None)
        out = {str(k).lower(): str(v).lower() for k, v in res.items()}
        for k, v in (tfs.items() if tfs else ()):
            out['tf ' + str(k).lower()] = sorted((str(a), str(b).lower()) for a, b in v.items())
        return out
    if kind == 'pz':
        return {'poles': np.array(r.poles), 'zeros': np.array(r.zeros)}
    return {str(k).lower(): np.array(r[k]).ravel() for k in r.keys()}


def same(kind, got, want):
    if (got is None) != (want is None):
        return 'result %s, expected %s' % (got, want)
    if got is None:
        return None
    if set(got) != set(want):
        return 'variables %s, expected %s' % (sorted(got), sorted(want))
    for k in want:
        g, w = got[k], want[k]
        if kind == 'symbolic':
            if g != w:
                return '%s is %s, expected %s' % (k, g, w)
            continue
        if g.shape != w.shape:
            return '%s has %d values, expected %d' % (k, g.size, w.size)
        if not np.allclose(g, w, rtol=1e-9, atol=1e-12, equal_nan=True):
            return '%s is %s, expected %s' % (k, g, w)
    return None


REF = {}


def reference(kind, args):
    """The result of one analysis asked for in a program (memoised)."""
    k = (kind, repr(sorted(args.items(), key=repr)))
    if k not in REF:
        ahkab = core.boot()
        c = circuit(ahkab, kind == 'symbolic')
        state = {}
        if kind == 'tran' and args.get('uic') in (1, 2):
            direct(ahkab, c, 'op', {}, state)
        REF[k] = image(kind, direct(ahkab, c, kind, args, state))
    return REF[k]


def write(text):
    with open('n.ckt', 'w') as fp:
        fp.write(text)


def netrun(ahkab, text):
    write(text)
    for f in os.listdir('.'):
        if f.startswith('out.'):
            os.remove(f)
    return ahkab.main('n.ckt', outfile='out', verbose=0)


# -- spellings -------------------------------------------------------------------
# directive: (positional parameters, keyword-only parameters); a parameter is
# (labels, spellings of one value, value, needed, key)
def P(labels, texts, value, needed=True, key=None):
    return (labels, texts, value, needed, key or labels[0])


GRAMMAR = {
    'op': ([], [P(('guess',), ('start1',), 'start1', False)]),
    'dc': ([P(('src', 'source'), ('V1', 'v1'), 'V1', key='source'), P(('start',), ('1', '1.', '1000m'), 1.),
            P(('stop',), ('4', '4e0'), 4.), P(('step',), ('1.5', '1500m'), 1.5)],
           [P(('type',), ('lin', 'LIN', 'Lin'), 'lin', False)]),
    'dc2': ([P(('src', 'source'), ('V10', 'v10'), 'V10', key='source'), P(('start',), ('2', '2.'), 2.),
             P(('stop',), ('16', '1.6e1'), 16.), P(('step',), ('2', '2000m'), 2.)],
            [P(('type',), ('log', 'LOG'), 'log', True)]),
    'dc3': ([P(('src', 'source'), ('I1', 'i1'), 'I1', key='source'), P(('start',), ('1', '1.'), 1.),
             P(('stop',), ('-1', '-1e0'), -1.), P(('step',), ('-.5', '-500m'), -.5)],
            [P(('type',), ('lin',), 'lin', False)]),
    'ac': ([P(('sweep_type', 'type'), ('lin', 'LIN'), 'lin', key='type'), P(('nsteps',), ('4', '4.', '4e0'), 4),
            P(('start',), ('.1', '100m'), .1), P(('stop',), ('1k', '1000', '1e3'), 1000.)], []),
    'ac2': ([P(('sweep_type', 'type'), ('log', 'LOG'), 'log', False, key='type'), P(('nsteps',), ('5', '5.'), 5),
             P(('start',), ('.1', '1e-1'), .1), P(('stop',), ('10', '10.0'), 10.)], []),
    'tran': ([P(('tstep',), ('.1', '100m', '1e-1'), .1), P(('tstop',), ('1', '1.', '1000m'), 1.),
              P(('uic',), ('0',), 0, False)],
             [P(('tstart',), ('.2', '200m'), .2, False), P(('method',), ('trap', 'TRAP'), 'trap', False)]),
    'tran2': ([P(('tstep',), ('.1',), .1), P(('tstop',), ('2',), 2.), P(('uic',), ('3',), 3)],
              [P(('ic_label',), ('start1',), 'start1'),
               P(('method',), ('implicit_euler', 'IMPLICIT_EULER'), 'implicit_euler', False),
               P(('tstart',), ('0', '.5'), None, False)]),
    'tran3': ([P(('tstep',), ('.1',), .1), P(('tstop',), ('2',), 2.), P(('uic',), ('1',), 1)],
              [P(('method',), ('trap',), 'trap', False)]),
    'tran4': ([P(('tstep',), ('.1',), .1), P(('tstop',), ('2',), 2.), P(('uic',), ('2', '2.', '2000m'), 2)],
              [P(('method',), ('implicit_euler',), 'implicit_euler', False)]),
    'pz': ([P(('output',), ('V(b,a)', 'v(b,a)'), 'V(b,a)'), P(('source', 'input'), ('V1', 'v1'), 'V1', key='source')],
           [P(('shift',), ('.1', '1e-1'), .1, False), P(('zeros',), ('1', 'True', 'true'), 1, False)]),
    'pz2': ([P(('output',), ('V(b)', 'V(b,0)'), 'V(b)'), P(('source', 'input'), ('V10',), 'V10', key='source')],
            [P(('zeros',), ('1',), 1, False), P(('shift',), ('2', '2.'), 2., False)]),
    'pz3': ([], [P(('shift',), ('.3',), .3, False)]),
    'symbolic': ([], [P(('tf',), ('V1', 'v1'), 'V1', False), P(('ac',), ('True', '1', 'true'), True, True)]),
    'symbolic2': ([], [P(('tf',), ('V10',), 'V10', False), P(('ac',), ('False', '0', 'false'), False, True)]),
    'pss': ([P(('period',), ('2', '2.', '2000m'), 2.)],
            [P(('points',), ('8', '8.'), 8), P(('method',), ('shooting', 'SHOOTING'), 'shooting', False),
             P(('autonomous',), ('False', '0', 'false'), False, False)]),
    'pss2': ([P(('period',), ('2',), 2.)],
             [P(('step',), ('.25', '250m'), .25), P(('method',), ('brute-force', 'BRUTE-FORCE'), 'brute-force')]),
    'pss4': ([P(('period',), ('2',), 2.)], [P(('method',), ('shooting',), 'shooting', False)]),
    'pss5': ([P(('period',), ('2',), 2.)], [P(('method',), ('brute-force',), 'brute-force')]),
    'pss3': ([P(('period',), ('2',), 2.)],
             [P(('points',), ('8',), 8), P(('method',), ('brute-force',), 'brute-force'),
              P(('autonomous',), ('0',), False, False)]),
}
SLOW = ('symbolic', 'symbolic2', 'pss', 'pss2', 'pss3', 'pss4', 'pss5')


def kind_of(g):
    return g.rstrip('0123456789')


def value_of(p, text):
    if p[2] is None:
        return float(text)
    return p[2]


def spellings(g, thorough):
    pos, kw = GRAMMAR[g]
    name = kind_of(g)
    n = 0
    allp = pos + kw
    optional = [p for p in allp if not p[3]]
    for drop in itertools.chain.from_iterable(itertools.combinations(optional, k)
                                              for k in range(len(optional) + 1)):
        have = [p for p in allp if p not in drop]
        lead = 0
        while lead < len(pos) and pos[lead] in have:
            lead += 1
        for npos in range(lead + 1):
            rest = [p for p in have if p not in pos[:npos]]
            for order in itertools.permutations(rest):
                n += 1
                variants = [0, 1, 2] if (thorough or len(order) < 3) and g not in SLOW else [n % 3]
                for v in variants:
                    args, toks = {}, []
                    for i, p in enumerate(list(pos[:npos]) + list(order)):
                        t = p[1][(v + (i if v == 2 else 0)) % len(p[1])]
                        args[p[4]] = value_of(p, t)
                        if i >= npos:
                            t = '%s=%s' % (p[0][(v + n) % len(p[0])], t)
                        toks.append(t)
                    line = ('.%s ' % name + ' '.join(toks)).rstrip()
                    for deco in ((0, 1, 2, 3) if thorough else ((n + v) % 4,)):
                        l2 = line
                        if deco == 1:
                            l2 = line.upper()
                        elif deco == 2:
                            l2 = line + ' * points=3 a note'
                        elif deco == 3:
                            k = line.rfind(' ')
                            l2 = line if k < 0 else line[:k] + '\n+ ' + line[k + 1:]
                        yield (g, l2, tuple(sorted(args.items())))


def spell_one(case, ctr):
    _, g, line, args = case
    args = dict(args)
    kind = kind_of(g)
    ahkab = core.boot()
    place = ctr.n.get('transitions', 0) % 3
    body = SBODY if kind == 'symbolic' else BODY
    ics = '' if kind == 'symbolic' else ICS
    text = body
    withop = kind == 'tran' and args.get('uic') in (1, 2)
    if kind == 'tran' and args.get('uic') in (1, 2):
        line = '.op\n' + line
    text += {0: ics + line + '\n', 1: line + '\n' + ics, 2: ''}[place]
    if place == 2:
        l = body.split('\n')
        text = '\n'.join([l[0], line] + l[1:]) + ics + '.end\n'
    ctr.add('transitions')
    r = netrun(ahkab, text)
    expect = ['op', kind] if withop else [kind]
    if list(r) != expect:
        raise core.Disagreement('analyses run: %s, expected %s' % (list(r), expect))
    got = image(kind, r[kind])
    want = reference(kind, args)
    bad = same(kind, got, want)
    if bad and kind == 'tran' and 'method' not in args:     # the documentation names two defaults
        bad2 = same(kind, got, reference(kind, dict(args, method='implicit_euler')))
        bad = bad if bad2 else None
    if bad:
        raise core.Disagreement(bad)
    ctr.add('solved')
    ctr.seen('states', (g, tuple(sorted(args.items())), place))
    ctr.seen('directives', g)


# -- refusals --------------------------------------------------------------------
def bad_lines():
    base = {'dc': [('src', 'V1'), ('start', '1'), ('stop', '4'), ('step', '1')],
            'ac': [('type', 'lin'), ('nsteps', '4'), ('start', '1'), ('stop', '10')],
            'tran': [('tstep', '.1'), ('tstop', '1')],
            'pss': [('period', '2'), ('points', '8')]}
    need = {'dc': ('src', 'start', 'stop', 'step'), 'ac': ('nsteps', 'start', 'stop'),
            'tran': ('tstep', 'tstop'), 'pss': ('period',)}
    j = lambda prs: ' '.join('%s=%s' % p for p in prs)
    for k, prs in base.items():
        # every set of missing required parameters
        for n in range(1, len(need[k]) + 1):
            for miss in itertools.combinations(need[k], n):
                yield 'missing', '.%s %s' % (k, j([p for p in prs if p[0] not in miss]))
        # positional prefixes that end too early
        for n in range(len(prs)):
            if need[k][-1] not in [p[0] for p in prs[:n]]:
                yield 'missing', '.%s %s' % (k, ' '.join(p[1] for p in prs[:n]))
        for bad in ('foo=1', 'tstop2=3', 'start1=3', 'x=', '=3', 'sta=1', 'steps=2', 'v1=3'):
            for at in range(len(prs) + 1):
                q = ['%s=%s' % p for p in prs]
                q.insert(at, bad)
                yield 'unknown', '.%s %s' % (k, ' '.join(q))
        for lab, val in prs:      # the same parameter twice
            yield 'twice', '.%s %s %s=%s' % (k, j(prs), lab, val)
        for i, (lab, val) in enumerate(prs):
            if lab in ('src', 'type'):
                continue
            for bad in ('abc', '1x2', '1,5', '--1', '1e', 'v1', 'none', '1z'):
                q = list(prs)
                q[i] = (lab, bad)
                yield 'type', '.%s %s' % (k, j(q))
                yield 'type', '.%s %s' % (k, ' '.join(p[1] for p in q))
    for l in ('.dc V1 1 4 1 7', '.dc V1 1 4 1 lin', '.ac lin 4 1 10 5', '.tran .1 1 0 3',
              '.pss 2 8', '.pz V(a) V1 .1 4', '.op 3', '.symbolic V1',
              '.dc V1 1 4 1 type=lin type=lin', '.tran .1 1 tstep=.1', '.pss 2 period=2 points=8',
              '.dc V1 1 4 1 src=V10', '.dc V1 1 4 1 source=V10', '.ac lin 4 1 10 sweep_type=lin',
              '.dc src=V1 source=V1 start=1 stop=4 step=1', '.ac type=lin sweep_type=log nsteps=4 start=1 stop=10'):
        yield 'surplus', l
    for l in ('.tran .1 1 uic=4', '.tran .1 1 uic=-1', '.tran .1 1 uic=1.5', '.tran .1 1 uic=abc',
              '.tran .1 1 uic=3', '.tran .1 1 uic=3 ic_label=nobody', '.tran .1 1 3',
              '.tran .1 1 uic=1', '.tran .1 1 uic=2',      # no operating point
              '.tran .1 1 method=foo', '.tran .1 1 method=', '.op guess=nobody',
              '.dc R1 1 4 1', '.dc nobody 1 4 1', '.dc V1 1 4 1 type=foo', '.dc V2 1 4 1', '.dc V 1 4 1',
              '.dc V1 1 4 0', '.dc V1 1 4 -1', '.dc V1 4 1 1', '.dc V1 0 4 2 type=log',
              '.ac foo 4 1 10', '.ac lin 4 10 1', '.ac lin 0 1 10', '.ac log 4 0 10', '.ac lin -3 1 10',
              '.tran .1 -1', '.tran -.1 1', '.tran 0 1', '.tran .1 1 tstart=2', '.tran .1 1 tstart=abc',
              '.pz V(a) nobody', '.pz V(nobody) V1', '.pz V(a) R1', '.pz output=a,b source=V1 shift=abc',
              '.pz V(a V1', '.pz V(a) V1 zeros=maybe', '.pz V() V1', '.pz foo V1',
              '.symbolic tf=nobody ac=0', '.symbolic ac=maybe', '.symbolic tf=R1 ac=0', '.symbolic foo=1',
              '.pss 2 points=8 method=foo', '.pss 2 points=8 autonomous=True', '.pss 2 points=8 autonomous=maybe',
              '.pss -2 points=8', '.pss 2 points=0', '.pss 2 points=-3', '.pss 2 step=0', '.pss 2 step=-.1',
              '.pss 2 step=3', '.foo', '.op1', '.opp guess=start1', '.trans .1 1', '.a', '.', '.dcx V1 1 4 1', '.tra .1 1'):
        yield 'value', l


def refuse_one(case, ctr):
    _, why, line, after = case
    ahkab = core.boot()
    from ahkab.netlist_parser import NetlistParseError
    text = BODY + ICS + ('' if not after else '.ac lin 2 1 2\n') + line + '\n'
    if line.startswith('.symbolic'):
        text = SBODY + line + '\n'
    ctr.add('transitions')
    write(text)
    try:
        r = ahkab.main('n.ckt', outfile='out', verbose=0)
    except (NetlistParseError, ValueError):      # refused
        ctr.add('refused')
        ctr.seen('reasons', why)
        return
    except SystemExit as e:
        if e.code in (0, None):
            raise core.Disagreement('the program ended with no error')
        ctr.add('refused')
        ctr.seen('reasons', why)
        return
    except Exception as e:
        if type(e) is not Exception:
            raise
        ctr.add('refused')      # a bare Exception is only ever raised on purpose
        return
    raise core.Disagreement('accepted, results %s' % {k: str(v)[:80] for k, v in r.items()})


# -- sequences ---------------------------------------------------------------------
SEQ = [('.op', 'op', {}), ('.dc V1 1 4 1', 'dc', dict(source='V1', start=1., stop=4., step=1.)),
       ('.dc src=V10 start=0 stop=1 step=.5', 'dc', dict(source='V10', start=0., stop=1., step=.5)),
       ('.ac lin 3 1 2', 'ac', dict(type='lin', nsteps=3, start=1., stop=2.)),
       ('.tran .1 .5 method=trap', 'tran', dict(tstep=.1, tstop=.5, method='trap')),
       ('.tran .1 .5 uic=1 method=trap', 'tran', dict(tstep=.1, tstop=.5, uic=1, method='trap')),
       ('.tran .1 .5 2 method=implicit_euler', 'tran', dict(tstep=.1, tstop=.5, uic=2, method='implicit_euler')),
       ('.tran .1 .5 uic=3 ic_label=start2 method=trap', 'tran',
        dict(tstep=.1, tstop=.5, uic=3, ic_label='start2', method='trap')),
       ('.op guess=start2', 'op', dict(guess='start2')),
       ('.pz V(b) V1', 'pz', dict(output='V(b)', source='V1')),
       ('.pss 2 points=6', 'pss', dict(period=2., points=6))]


def seq_one(case, ctr):
    _, seq = case
    ahkab = core.boot()
    from ahkab import dc_analysis, ac, transient, pz, pss
    code = {dc_analysis.op_analysis.__code__: 'op', dc_analysis.dc_analysis.__code__: 'dc',
            ac.ac_analysis.__code__: 'ac', transient.transient_analysis.__code__: 'tran',
            pz.calculate_singularities.__code__: 'pz', pss.pss_analysis.__code__: 'pss'}
    trace, depth = [], [0]

    def prof(frame, event, arg):
        k = code.get(frame.f_code)
        if k is None:
            return
        if event == 'call':
            if not depth[0]:
                trace.append(k)
            depth[0] += 1
        elif event == 'return':
            depth[0] -= 1
    lines = [SEQ[i][0] for i in seq]
    text = BODY + ICS + '\n'.join(lines) + '\n'
    kinds = [SEQ[i][1] for i in seq]
    # what should happen
    op, want, ok = False, {}, True
    for i in seq:
        line, kind, args = SEQ[i]
        if kind == 'op':
            op = True
        if args.get('uic') in (1, 2) and not op:
            ok = False
            break
        want[kind] = reference(kind, args)
    ctr.add('transitions', len(seq))
    write(text)
    sys.setprofile(prof)
    try:
        r = ahkab.main('n.ckt', outfile='out', verbose=0)
    except ValueError as e:
        sys.setprofile(None)
        if ok:
            raise
        ctr.add('refused')
        return
    finally:
        sys.setprofile(None)
    if not ok:
        raise core.Disagreement('a transient from the operating point was run, there is none yet')
    if trace != kinds:
        raise core.Disagreement('the analyses were run in the order %s, the file has %s' % (trace, kinds))
    if set(r) != set(kinds):
        raise core.Disagreement('results %s for %s' % (sorted(r), sorted(set(kinds))))
    for k in want:
        bad = same(k, image(k, r[k]), want[k])
        if bad:
            raise core.Disagreement('.%s after %s: %s' % (k, kinds, bad))
    ctr.add('sequences')
    ctr.seen('states', seq)


# -- the guess of an operating point -----------------------------------------------
BI = """bistable
Vdd dd 0 type=vdc vdc=5
R1 dd p 10k
R2 dd n 10k
M1 p n 0 0 nm w=10u l=1u
M2 n p 0 0 nm w=10u l=1u
.model mosq nm TYPE=n KP=50u VTO=.7
.ic name=up v(dd)=5 v(p)=5 v(n)=.1
.ic name=up1 v(dd)=5 v(p)=.1 v(n)=5
.ic name=dn v(dd)=5 v(p)=.1 v(n)=5
"""


def guess_one(case, ctr):
    _, line, want = case
    ahkab = core.boot()
    ctr.add('transitions')
    r = netrun(ahkab, BI + line + '\n')['op']
    p, n = float(r['Vp'][0][0]), float(r['Vn'][0][0])
    if (p > n) != (want == 'up'):
        raise core.Disagreement('the solution is v(p)=%g v(n)=%g, the guess was on the other side' % (p, n))
    ctr.add('guesses')


def one(case, ctr):
    {'spell': spell_one, 'refuse': refuse_one, 'seq': seq_one, 'guess': guess_one}[case[0]](case, ctr)


def key(case):
    return {'spell': lambda: 'directive %r' % case[2], 'refuse': lambda: 'refuse (%s) %r' % (case[1], case[2]),
            'seq': lambda: 'sequence %r' % ([SEQ[i][0] for i in case[1]],),
            'guess': lambda: 'guess %r' % case[1]}[case[0]]()


def cases(thorough):
    def gen():
        for g in sorted(GRAMMAR):
            for g_, l, a in spellings(g, thorough):
                yield ('spell', g, l, a)
        for why, l in bad_lines():
            yield ('refuse', why, l, 0)
            if thorough:
                yield ('refuse', why, l, 1)
        for n in (1, 2, 3) + ((4,) if thorough else ()):
            for s in itertools.product(range(len(SEQ)), repeat=n):
                if n == 4 and sum(SEQ[i][1] == 'pss' for i in s) > 1:
                    continue
                yield ('seq', s)
        for l in ('up', 'up1', 'dn'):
            for f in ('.op guess=%s', '.OP GUESS=%s', '.op ic_label=%s', '.op guess=1 ic_label=%s'):
                yield ('guess', f % l, 'up' if l == 'up' else 'dn')
    return gen


def run(chk):
    chk.explore(one, cases(chk.thorough), limit=30, keyfn=key)
    chk.require('solved', 400)
    chk.require('directives', len(GRAMMAR))
    chk.require('refused', 250)
    chk.require('reasons', 6)
    chk.require('sequences', 500)
    chk.require('guesses', 12)
    chk.assumptions += [
        'the expected result is the one of the analysis function called with the arguments written in '
        'the directive (those functions are judged by the other properties)',
        'not judged, because the documentation is silent or contradicts itself: positional parameters '
        'after keywords, the default of ac in .symbolic, the default .tran method (trap or implicit '
        'Euler accepted), the default .ac sweep type (logarithmic), zeros=0 with input and output']
    return chk.finish('states', 'transitions', 'solved',
                      'every positional prefix x every order of the remaining keywords x every set of '
                      'optional parameters of each directive, every listed wrong directive, every '
                      'sequence of up to 3 (thorough 4) directives of a palette of 11')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
