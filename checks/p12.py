"""P12: the layout of a netlist.  Every layout transformation at every place of
several netlists (and every pair on a short one) must leave the meaning - the
circuit, the analyses, the initial conditions and the post-processing - alone;
every form of every element line against the corresponding programming call."""
import itertools
import os
import sys

import numpy as np

from vlib import core, net

PID = 'P12'

N1 = """R1 in out 1k
C1 out 0 2u ic=1.5
L1 out mid 3m ic=-2m
L2 mid 0 4m
K1 L1 L2 .25
V1 in 0 type=vdc vdc=5 type=vac vac=2
I1 0 mid type=idc idc=1m iac=3m
E1 e1 0 in out 2.5
G1 e1 0 in out 1e-3
F1 e1 out V1 .5
H1 h1 0 V1 20
R2 h1 0 1Meg
D1 in d1 DM area=2 ic=.5
M1 d1 in 0 0 NM W=1u L=2u M=2
M2 d1 in 0 0 QM W=3u L=1u
S1 d1 0 in 0 SM
V2 d1 0 vdc=1 type=sin 0 1 1K 1m 2
I2 0 d1 idc=0 type=pulse v1=0 v2=1 td=1u tr=1n tf=2n pw=3u per=9u
.model diode DM IS=1f N=1.5
.model ekv NM TYPE=n VTO=.5 KP=1m
.model mosq QM TYPE=p VTO=-.5 KP=2m
.model sw SM VT=1 VH=.1 RON=2 ROFF=1Meg
.ic name=Start V(in)=1 I(L1)=2m
.op
.dc V1 start=0 stop=2 step=.5 type=lin
.ac lin 5 1 10k
.tran tstep=1u tstop=1m uic=2 method=trap
.plot tran v(in) V(out,mid)
.four 1k v(out)"""
N2 = """X1 name=DIV a=in b=mid
R3 mid 0 3k
X2 b=out name=DIV a=mid
V1 in 0 vdc=1
.op
.subckt DIV a b
R1 a b 1k
R2 b 0 2k
C1 b loc 1p
R9 loc 0 5
.ends
.tran 1u 1m"""
N3 = """V1 a 0 vdc=2
R1 a b 1k
C1 b 0 1u ic=1
.op
.tran 1u 1m uic=1"""


def logical(text):
    return [l.split() for l in text.splitlines()]


def meaning(text, files=(), name='net.ckt', ordered=True):
    c, an, ics, pp = net.read(text, files, name=name)
    return (net.describe(c, ordered=ordered), sorted((str(k), net.describe_model(m)) for k, m in c.models.items()),
            [sorted((k, repr(v)) for k, v in a.items()) for a in an],
            [sorted((k, sorted(v.items())) for k, v in i.items()) for i in ics],
            [sorted((k, repr(v)) for k, v in p.items()) for p in pp])


def unordered(m):
    (els, nodes), mods, an, ics, pp = m
    return (sorted(els, key=repr), nodes), mods, sorted(an), sorted(ics), sorted(pp)


# -- rendering: a layout is, for each logical line, a list of physical pieces --
class Layout(object):
    def __init__(self, lines):
        self.lines = [list(l) for l in lines]
        self.case = [None] * len(lines)
        self.sep = [' '] * len(lines)
        self.lead = [''] * len(lines)
        self.trail = [''] * len(lines)
        self.breaks = [()] * len(lines)       # token indices that start a continuation
        self.brk = ['+ '] * len(lines)
        self.before = [[] for _ in range(len(lines) + 1)]
        self.nl = '\n'
        self.title = 'a title'
        self.end = True

    def render(self, idx=None):
        out = []
        for i in (range(len(self.lines)) if idx is None else idx):
            out += self.before[i]
            toks = self.lines[i]
            if self.case[i]:
                toks = [self.case[i](t) for t in toks]
            cur, parts = [], []
            for k, t in enumerate(toks):
                if k in self.breaks[i]:
                    parts.append(cur)
                    cur = []
                cur.append(t)
            parts.append(cur)
            for k, p in enumerate(parts):
                out.append((self.lead[i] if k == 0 else self.brk[i]) + self.sep[i].join(p) +
                           (self.trail[i] if k == len(parts) - 1 else ''))
        if idx is None:
            out += self.before[-1]
        return self.nl.join(out) + (self.nl if self.end else '')

    def text(self):
        return self.title + self.nl + self.render()


def alt(t):
    return ''.join(c.upper() if k % 2 else c.lower() for k, c in enumerate(t))


CASES = [('lower', str.lower), ('upper', str.upper), ('alternate', alt),
         ('title', lambda t: t[:1].upper() + t[1:].lower())]
SEPS = [('two blanks', '  '), ('tab', '\t'), ('tab and blanks', ' \t ')]
LEADS = [('leading blank', ' '), ('leading tab', '\t'), ('leading blanks', '    ')]
TRAILS = [('trailing blank', ' '), ('trailing tab', '\t'), ('comment', ' * note'), ('comment glued', ' *note'),
          ('comment with =', ' *a=1 b=2'), ('stars', ' ** *')]
BEFORE = [('blank line', ['']), ('blanks line', ['   ']), ('comment line', ['* r9 in 0 1']), ('stars', ['***']),
          ('indented comment', ['  * x']), ('two', ['', '* .end']), ('directive comment', ['*.op'])]
BRKS = ['+ ', '+', ' + ', '+\t', '  +   ']


def moves(lines):
    """Every single layout change, as (description, function of a Layout)."""
    n = len(lines)
    out = []

    def seti(attr, i, v):
        def f(L):
            getattr(L, attr)[i] = v
        return f

    def setall(attr, v):
        def f(L):
            setattr(L, attr, [v] * n)
        return f
    for group, attr in ((CASES, 'case'), (SEPS, 'sep'), (LEADS, 'lead'), (TRAILS, 'trail')):
        for nm, v in group:
            out.append(('%s everywhere' % nm, setall(attr, v)))
            for i in range(n):
                out.append(('%s in line %d' % (nm, i), seti(attr, i, v)))
    for nm, v in BEFORE:
        for i in range(n + 1):
            out.append(('%s before line %d' % (nm, i), seti('before', i, list(v))))
    for i in range(n):
        for b in BRKS:
            for k in range(1, len(lines[i])):
                def f(L, i=i, k=k, b=b):
                    L.breaks[i] = (k,)
                    L.brk[i] = b
                out.append(('line %d continued at field %d with %r' % (i, k, b), f))

            def f(L, i=i, b=b):
                L.breaks[i] = tuple(range(1, len(L.lines[i])))
                L.brk[i] = b
            out.append(('line %d one field per line with %r' % (i, b), f))
        for p in itertools.combinations(range(1, len(lines[i])), 2):
            def f(L, i=i, p=p):
                L.breaks[i] = p
            out.append(('line %d continued at fields %s' % (i, p), f))
    for nm, v in (('CRLF', '\r\n'),):
        out.append((nm, lambda L, v=v: setattr(L, 'nl', v)))
    out.append(('no final newline', lambda L: setattr(L, 'end', False)))
    for t in ('', 'R7 in 0 1', '.op', '* remark', '+ more', 'Title With Case', '.end'):
        out.append(('title %r' % t, lambda L, t=t: setattr(L, 'title', t)))
    for tail in (['.end'], ['.END'], ['.end', 'R99 in 0 5'], ['.end', '.op', 'junk junk'], ['.end', '.end'],
                 ['.end', '+ 5'], [' .End  ', '.subckt zz a'], ['.end * done', 'q'], ['.end', '.ends']):
        out.append(('ending %s' % tail, lambda L, t=tail: L.before.__setitem__(n, L.before[n] + list(t))))
    return out


_REF = {}


def reference(which):
    if which not in _REF:
        text = {'N1': N1, 'N2': N2, 'N3': N3}[which]
        lines = logical(text)
        _REF[which] = (lines, meaning('title\n' + text + '\n'))
    return _REF[which]


def differ(a, b):
    names = ('circuit', 'models', 'analyses', 'initial conditions', 'post-processing')
    for n, x, y in zip(names, a, b):
        if not net.close(x, y, 1e-13):
            if n == 'circuit':
                return 'circuit: %s' % net.diff(x, y, 1e-13)
            return '%s: %s instead of %s' % (n, x, y)
    return None


def check(what, text, want, files=(), any_order=False, name='net.ckt'):
    try:
        got = meaning(text, files, name)
    except net.Refused as e:
        raise core.Disagreement('%s: refused (%s)\n%s' % (what, e, text))
    if any_order:
        got, want = unordered(got), unordered(want)
    d = differ(got, want)
    if d:
        raise core.Disagreement('%s: %s\n%s' % (what, d, text))


def layout_case(case, ctr):
    which, picks = case
    lines, want = reference(which)
    ms = moves(lines)
    L = Layout(lines)
    names = []
    for k in picks:
        names.append(ms[k][0])
        ms[k][1](L)
    t = L.text()
    ctr.seen('states', (which, t))
    check('; '.join(names), t, want)
    ctr.add('executions')
    ctr.sample({'netlist': which, 'layout': names, 'text': t[:120]}, 2)


# -- order of lines ----------------------------------------------------------
ORDER = {
    # groups whose inner order is free but for the coupling after its inductors;
    # analyses keep their own order
    'models': 'title\n@\n', }


def order_case(case, ctr):
    kind, perm = case
    if kind == 'small':
        pool = ['r1 a b 1k', 'm1 b a 0 0 nm w=1u l=1u', 'v1 a 0 vdc=1', '.model ekv nm type=n vto=.4',
                '.op', '.ic name=x v(a)=1']
    elif kind == 'ctrl':
        pool = ['v1 a 0 vdc=1', 'f1 b 0 v1 2', 'h1 c 0 v1 3', 'r1 b 0 1', 'r2 c 0 1', 'r3 a c 4']
    elif kind == 'coupl':
        pool = ['l1 a 0 1m', 'l2 b 0 4m', 'k1 l1 l2 .5', 'r1 a b 1', 'v1 a 0 vdc=1', '.op']
    elif kind == 'sub':
        pool = ['x1 name=s p=a q=b', ('.subckt s p q', 'r1 p q 1', 'd1 q 0 dm', '.ends'), 'v1 a 0 vdc=1',
                '.model diode dm is=1f', 'r1 b 0 1', 'x2 q=c name=s p=b']
    else:
        pool = ['.op', 'r1 a 0 1', '.dc v1 0 1 .5', 'v1 a 0 vdc=1', '.tran 1m 1', '.ac lin 3 1 2']

    def flat(p):
        out = []
        for i in p:
            out += list(pool[i]) if isinstance(pool[i], tuple) else [pool[i]]
        return 'title\n' + '\n'.join(out) + '\n'
    if kind == 'coupl' and (perm.index(2) < perm.index(0) or perm.index(2) < perm.index(1)):
        return
    base = tuple(range(len(pool)))
    want = meaning(flat(base))
    got = meaning(flat(perm))
    # elements come in the order of their lines, analyses in theirs
    d = differ(unordered(got), unordered(want))
    if d:
        raise core.Disagreement('lines in the order %s: %s\n%s' % (perm, d, flat(perm)))
    ans = [pool[i] for i in perm if isinstance(pool[i], str) and pool[i].startswith('.') and
           pool[i].split()[0] in ('.op', '.dc', '.tran', '.ac')]
    types = [dict((k, v) for k, v in a)['type'].strip("'") for a in got[2]]
    if types != [a.split()[0][1:] for a in ans]:
        raise core.Disagreement('analyses %s come out in the order %s' % (ans, types))
    ids = [dict(e)['id'] for e in got[0][0]]
    lines = [pool[i].split()[0] for i in perm if isinstance(pool[i], str) and not pool[i].startswith('.')]
    if kind != 'sub' and ids != lines:
        raise core.Disagreement('elements %s come out in the order %s' % (lines, ids))
    ctr.add('executions')
    ctr.seen('states', (kind, perm))


# -- includes ----------------------------------------------------------------
def include_case(case, ctr):
    which, i, j, how = case
    lines, want = reference(which)
    text = [' '.join(l) for l in lines]
    chunk, rest = text[i:j], text[:i] + ['@INC'] + text[j:]
    subs = [l for l in chunk if l.startswith('.sub')], [l for l in chunk if l.startswith('.ends')]
    inside = sum(1 for l in text[:i] if l.startswith('.subckt')) > sum(1 for l in text[:i] if l.startswith('.ends'))
    if inside or len(subs[0]) != len(subs[1]):
        return
    if 'K1 L1 L2 .25' in rest and ('L1 out mid 3m ic=-2m' in chunk or 'L2 mid 0 4m' in chunk):
        return      # documented: included text comes at the bottom, inductors must precede their coupling
    os.makedirs('sub dir'.replace(' ', '_'), exist_ok=True)
    files, name = [], 'net.ckt'
    body = '\n'.join(chunk) + '\n'
    if how == 'plain':
        inc, files = '.include part.inc', [('part.inc', body)]
    elif how == 'case':
        inc, files = '.INCLUDE Part-Two.INC', [('Part-Two.INC', body)]
    elif how == 'comment':
        inc, files = '.include part.inc * note', [('part.inc', body)]
    elif how == 'absolute':
        p = os.path.join(os.getcwd(), 'sub_dir', 'Abs.inc')
        inc, files = '.include ' + p, [(p, body)]
    elif how == 'directory':
        name = 'sub_dir/net.ckt'
        inc, files = '.include part.inc', [('sub_dir/part.inc', body), ('part.inc', 'R77 in 0 1\n')]
    elif how == 'nested':
        k = len(chunk) // 2
        inc, files = '.include a.inc', [('a.inc', '\n'.join(chunk[:k] + ['.include b.inc']) + '\n'),
                                        ('b.inc', '\n'.join(chunk[k:]) + '\n')]
        if any(l.startswith(('.subckt', '.ends', 'L1 ', 'L2 ', 'K1')) for l in chunk):
            return
    elif how == 'two':
        k = len(chunk) // 2
        inc, files = '.include a.inc\n.include b.inc', [('a.inc', '\n'.join(chunk[:k]) + '\n'),
                                                        ('b.inc', '\n'.join(chunk[k:]))]
        if any(l.startswith(('.subckt', '.ends', 'L1 ', 'L2 ', 'K1')) for l in chunk):
            return
    elif how == 'ended':
        inc, files = '.include part.inc', [('part.inc', body + '.end\njunk\n')]
    elif how == 'blank':
        inc, files = '.include part.inc', [('part.inc', '\n* c\n\n' + body.replace('\n', '\n\n* x\n'))]
    t = 'title\n' + '\n'.join(l if l != '@INC' else inc for l in rest) + '\n'
    if how == 'blank' and rest[-1] == '@INC':
        t += '.end\n'
    check('lines %d-%d through an included file (%s)' % (i, j, how), t, want, files, any_order=True, name=name)
    ctr.add('executions')
    ctr.add('includes')
    ctr.seen('states', case)


# -- element lines against the programming calls ------------------------------
def elements():
    from ahkab import time_functions as tf
    ids = ['1', 'ab_', '10', 'x.y', '1a']
    nodes = [('a', '0'), ('0', 'b'), ('n1', 'n10'), ('01', '1'), ('out+', 'in-'), ('a', 'a'), ('r1', 'v1')]
    vals = [('1k', 1e3), ('-2.5', -2.5), ('1e-6', 1e-6), ('3meg', 3e6)]
    out = []
    for i in ids:
        for a, b in nodes:
            for t, v in vals:
                out.append(('r%s %s %s %s' % (i, a, b, t), [('add_resistor', ('r' + i, a, b, v), {})]))
                out.append(('c%s %s %s %s' % (i, a, b, t), [('add_capacitor', ('c' + i, a, b, v), {})]))
                out.append(('l%s %s %s %s' % (i, a, b, t), [('add_inductor', ('l' + i, a, b, v), {})]))
                for ic, icv in (('0', 0.), ('-1m', -1e-3)):
                    out.append(('c%s %s %s %s ic=%s' % (i, a, b, t, ic), [('add_capacitor', ('c' + i, a, b, v), {'ic': icv})]))
                    out.append(('l%s %s %s %s ic=%s' % (i, a, b, t, ic), [('add_inductor', ('l' + i, a, b, v), {'ic': icv})]))
                for s, w in (('c', 'd'), ('0', a), (b, '0'), (b, a)):
                    out.append(('e%s %s %s %s %s %s' % (i, a, b, s, w, t), [('add_vcvs', ('e' + i, a, b, s, w, v), {})]))
                    out.append(('g%s %s %s %s %s %s' % (i, a, b, s, w, t), [('add_vccs', ('g' + i, a, b, s, w, v), {})]))
                for src in ('vq', 'vq1'):
                    pre = [('add_vsource', ('vq', 'q', '0', 1.), {}), ('add_vsource', ('vq1', 'q1', '0', 1.), {})]
                    ln = 'vq q 0 vdc=1\nvq1 q1 0 vdc=1\n'
                    out.append((ln + 'f%s %s %s %s %s' % (i, a, b, src, t), pre + [('add_cccs', ('f' + i, a, b, src, v), {})]))
                    out.append((ln + 'h%s %s %s %s %s' % (i, a, b, src, t), pre + [('add_ccvs', ('h' + i, a, b, src, v), {})]))
            for ch, add in (('v', 'add_vsource'), ('i', 'add_isource')):
                for dct, dcv in (('1', 1.), ('-3m', -3e-3), ('0', 0.)):
                    for act, acv in ((None, 0), ('2', 2.), ('5k', 5e3), ('0', 0.)):
                        for form in range(3):
                            d = '%sdc=%s' % (ch, dct)
                            x = '%sac=%s' % (ch, act)
                            td, tx = 'type=%sdc ' % ch, 'type=%sac ' % ch
                            if act is None:
                                ln = [d, td + d, td + d][form]
                            else:
                                ln = [d + ' ' + x, td + d + ' ' + tx + x, tx + x + ' ' + td + d][form]
                            out.append(('%s%s %s %s %s' % (ch, i, a, b, ln), [(add, (ch + i, a, b, dcv), {'ac_value': acv})]))
                for txt, f in (('type=sin 0 1 1k', tf.sin(0., 1., 1e3)), ('type=pulse 0 1 0 1u 1u 1m 2m',
                               tf.pulse(0., 1., 0., 1e-6, 1e-3, 1e-6, 2e-3)),
                               ('type=exp v1=0 v2=1 tau1=1m', tf.exp(0., 1., 0., 1e-3, float('inf'), float('inf')))):
                    for dct, dcv in ((None, None), ('2', 2.)):
                        for act, acv in ((None, 0), ('3', 3.)):
                            parts = [txt]
                            if dct:
                                parts.insert(0, '%sdc=%s' % (ch, dct))
                            if act:
                                parts.append('%sac=%s' % (ch, act))
                            out.append(('%s%s %s %s %s' % (ch, i, a, b, ' '.join(parts)),
                                        [(add, (ch + i, a, b, dcv), {'ac_value': acv, 'function': f})]))
    for md, par in (('diode', 'is=1f'), ('d', 'is=1f')):
        mm = [('add_model', ('diode', 'dm', {'IS': 1e-15}), {})]
        for a, b in nodes:
            for opts, kw in (('', {}), (' area=2', {'Area': 2.}), (' ic=.5', {'ic': .5}), (' off', {'off': True}),
                             (' off=1', {'off': True}), (' off=no', {'off': False}), (' t=310', {'T': 310.}),
                             (' area=3 ic=0 off=yes', {'Area': 3., 'ic': 0., 'off': True}), (' off area=2', {'Area': 2., 'off': True})):
                out.append(('.model %s dm %s\nd1 %s %s dm%s' % (md, par, a, b, opts), mm + [('add_diode', ('d1', a, b, 'dm'), kw)]))
    for mt in ('ekv', 'mosq'):
        for ty in 'np':
            mm = [('add_model', (mt, 'mm', {'TYPE': ty, 'VTO': .5, 'KP': 1e-3}), {})]
            for nd in itertools.product('abc0', repeat=4):
                for opts, kw in ((' w=1u l=2u', {}), (' l=2u w=1u m=3', {'m': 3}), (' n=2 w=1u l=2u m=4', {'m': 4, 'n': 2})):
                    out.append(('.model %s mm type=%s vto=.5 kp=1m\nm1 %s mm%s' % (mt, ty, ' '.join(nd), opts),
                                mm + [('add_mos', ('m1',) + nd + (1e-6, 2e-6, 'mm'), kw)]))
    for nd in itertools.product('abc0', repeat=4):
        for mp, kw in (('vt=1 vh=.1 ron=2 roff=3k', {'VT': 1., 'VH': .1, 'RON': 2., 'ROFF': 3e3}),
                       ('von=2 voff=1', {'VON': 2., 'VOFF': 1.}), ('', {})):
            out.append(('.model sw sm %s\ns1 %s sm' % (mp, ' '.join(nd)),
                        [('add_model', ('sw', 'sm', dict(kw)), {}), ('add_switch', ('s1',) + nd + (None, 'sm'), {})]))
    ind = 'l1 a 0 1m\nl10 b 0 4m\nl1a c 0 9m\n'
    pre = [('add_inductor', ('l1', 'a', '0', 1e-3), {}), ('add_inductor', ('l10', 'b', '0', 4e-3), {}),
           ('add_inductor', ('l1a', 'c', '0', 9e-3), {})]
    for x, y in itertools.permutations(('l1', 'l10', 'l1a'), 2):
        for kt in ('.5', 'k=.5', 'k=500m', '500m'):
            out.append((ind + 'k1 %s %s %s' % (x, y, kt), pre + [('add_inductor_coupling', ('k1', x, y, .5), {})]))
    return out


_EL = []


def element_case(case, ctr):
    lo, hi = case
    ahkab = core.boot()
    if not _EL:
        _EL.extend(elements())
    for line, calls in _EL[lo:hi]:
        c, an, ics, pp = net.read('title\n' + line + '\n')
        ref = ahkab.Circuit('t')
        for fn, args, kw in calls:
            getattr(ref, fn)(*args, **kw)
        d = net.diff(net.describe(c, True), net.describe(ref, True), 1e-14)
        if d:
            raise core.Disagreement('"%s" differs from %s%s: %s' % (line, calls[-1][0], calls[-1][1], d))
        if c.nodes_dict != ref.nodes_dict:
            raise core.Disagreement('"%s": nodes %s, by the call %s' % (line, c.nodes_dict, ref.nodes_dict))
        ctr.add('executions')
        ctr.add('element_lines')
        ctr.seen('states', line)


def run(chk):
    core.boot()
    th = chk.thorough
    cases = []
    n3 = len(moves(logical(N3)))
    for w in ('N1', 'N2', 'N3'):
        cases += [(w, (k,)) for k in range(len(moves(logical({'N1': N1, 'N2': N2, 'N3': N3}[w]))))]
    pairs = [(i, j) for i in range(n3) for j in range(i + 1, n3)]
    cases += [('N3', p) for p in pairs]
    if th:
        n2 = len(moves(logical(N2)))
        cases += [('N2', (i, j)) for i in range(n2) for j in range(i + 1, n2)]
    chk.explore(layout_case, cases, limit=60)
    oc = []
    for k in ('small', 'ctrl', 'coupl', 'sub', 'an'):
        oc += [(k, p) for p in itertools.permutations(range(6))]
    chk.explore(order_case, oc, limit=30)
    inc = []
    for w, t in (('N1', N1), ('N2', N2), ('N3', N3)):
        n = len(logical(t))
        for i in range(n):
            for j in range(i + 1, n + 1):
                for h in ('plain', 'case', 'comment', 'absolute', 'directory', 'nested', 'two', 'ended', 'blank'):
                    inc.append((w, i, j, h))
    chk.explore(include_case, inc, limit=30)
    n = len(elements())
    chk.explore(element_case, [(k, min(n, k + 100)) for k in range(0, n, 100)], limit=120)
    for nm, m in (('executions', 15000), ('includes', 1000), ('element_lines', 5000)):
        chk.require(nm, m)
    chk.assumptions += ['a continuation directly follows the line it continues (no comment or blank line between)',
                        'included text counts as appended at the bottom of the netlist, as documented',
                        'a coupling comes after its inductors, as documented']
    return chk.finish('states', 'executions', 'executions',
                      'every layout change at every place of three netlists that together use every kind of line, '
                      'all pairs of changes on the short one%s; all 720 orders of five groups of six lines; every '
                      'contiguous part of each netlist through an included file in nine ways; every listed form of '
                      'every element line against the programming call' % (' and on the one with subcircuits' if th else ''))


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
