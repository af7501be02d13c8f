"""P13: malformed netlists.  Every one-edit (thorough: two-edit) mutation of every
line, every subset of the lines, and every short sequence of structural lines,
judged by a small reference grammar: refused by the parser or the checker when
the grammar refuses, and otherwise exactly the circuit of the grammar."""
import itertools
import os
import sys

from checks.p11 import value as number
from vlib import core, net

PID = 'P13'


class Bad(Exception):
    """the line must be refused"""


class Skip(Exception):
    """outside what the property says"""


def num(t, cond=None):
    verdict, v = number(t)
    if verdict == 'no':
        raise Bad('number')
    if verdict != 'yes':
        raise Skip()
    return float(v)


def kv(tokens, allowed, flags=()):
    out = {}
    for t in tokens:
        if t.count('=') == 1 and not t.startswith('='):
            k, v = t.split('=')
        elif t in flags:
            k, v = t, None
        else:
            raise Bad('field ' + t)
        if k not in allowed and k not in flags:
            raise Bad('keyword ' + k)
        if k in out:
            raise Skip()
        out[k] = v
    return out


def truth(v):
    if v in (None, 'yes', 'true', '1', '1.0', '1.'):
        return True
    if v in ('no', 'false', '0', '0.0', '0.'):
        return False
    raise Skip() if number(v)[0] != 'no' else Bad('boolean')


FUNS = ('sin', 'pulse', 'exp', 'sffm', 'am')


def element(tok, inductors):
    """(method, args, kwargs) of one element line; models by label."""
    for i, t in enumerate(tok):
        if t.startswith('*'):
            tok = tok[:i]
            break
    k, n = tok[0][0], len(tok)
    if k not in 'rclkvidmegfhsx':
        raise (Skip() if k == 'y' else Bad('letter'))
    if len(tok[0]) < 2:
        raise Skip()

    def need(lo, hi=None):
        if n < lo or (hi is not None and n > hi):
            raise Bad('number of fields')
    if k == 'r':
        need(4, 4)
        v = num(tok[3])
        if v == 0:
            raise Bad('zero')
        return 'add_resistor', (tok[0], tok[1], tok[2], v), {}
    if k in 'cl':
        need(4, 5)
        v, p = num(tok[3]), kv(tok[4:], ('ic',))
        if v == 0:
            raise Skip()
        return ('add_capacitor' if k == 'c' else 'add_inductor',
                (tok[0], tok[1], tok[2], v), {'ic': num(p['ic'])} if 'ic' in p else {})
    if k == 'k':
        need(4, 4)
        t = tok[3]
        if number(t)[0] == 'no':
            p = kv([t], ('k',))
            t = p['k']
        v = num(t)
        if tok[1] not in inductors or tok[2] not in inductors or tok[1] == tok[2]:
            raise Bad('inductor')
        if not 0 < v <= 1:
            raise Skip()
        return 'add_inductor_coupling', (tok[0], tok[1], tok[2], v), {}
    if k in 'vi':
        need(3)
        dc, ac = k + 'dc', k + 'ac'
        types = [t for t in tok[3:] if t.startswith('type=')]
        rest = [t for t in tok[3:] if not t.startswith('type=')]
        for t in types:
            if t[5:] in FUNS:
                raise Skip()
            if t[5:] not in (dc, ac):
                raise Bad('type')
        p = kv(rest, (dc, ac))
        vals = dict((x, num(y)) for x, y in p.items())
        if dc not in vals:
            raise Bad('no value')
        return ('add_vsource' if k == 'v' else 'add_isource', (tok[0], tok[1], tok[2], vals[dc]),
                {'ac_value': vals.get(ac, 0)})
    if k in 'eg':
        need(6, 6)
        return 'add_vcvs' if k == 'e' else 'add_vccs', tuple(tok[:5]) + (num(tok[5]),), {}
    if k in 'fh':
        need(5, 5)
        return 'add_cccs' if k == 'f' else 'add_ccvs', tuple(tok[:4]) + (num(tok[4]),), {}
    if k == 'd':
        need(4)
        p = kv(tok[4:], ('area', 't', 'ic', 'off'), ('off',))
        kw = {}
        for x, y in (('area', 'Area'), ('t', 'T'), ('ic', 'ic')):
            if x in p:
                kw[y] = num(p[x])
        if 'off' in p:
            kw['off'] = truth(p['off'])
        return 'add_diode', (tok[0], tok[1], tok[2], tok[3]), kw
    if k == 'm':
        need(6)
        p = kv(tok[6:], ('w', 'l', 'm', 'n'))
        if 'w' not in p or 'l' not in p:
            raise Bad('dimensions')
        v = dict((x, num(y)) for x, y in p.items())
        if any(x <= 0 for x in v.values()):
            raise Bad('dimensions')
        if any(v.get(x, 1) != int(v.get(x, 1)) for x in 'mn'):
            raise Skip()
        return 'add_mos', tuple(tok[:5]) + (v['w'], v['l'], tok[5]), dict((x, int(v[x])) for x in 'mn' if x in v)
    if k == 's':
        need(6, 6)
        return 'add_switch', tuple(tok[:5]) + (None, tok[5]), {}
    need(2)
    raise Skip()


MODEL = {'add_diode': ('diode', 'd'), 'add_mos': ('ekv', 'mosq'), 'add_switch': ('sw',)}
PARAMS = {'diode': {'is', 'n', 'nbv', 'isr', 'nr', 'rs', 'cj0', 'm', 'vj', 'fc', 'cp', 'tt', 'bv', 'ibv', 'ikf', 'kf',
                    'af', 'ffe', 'temp', 'xti', 'eg', 'tbv', 'trs', 'ttt1', 'ttt2', 'tm1', 'tm2'},
          'sw': {'vt', 'vh', 'von', 'voff', 'ron', 'roff'}}
PARAMS['d'] = PARAMS['diode']
PARAMS['ekv'] = PARAMS['mosq'] = {'type', 'tnom', 'cox', 'gamma', 'nsub', 'phi', 'vto', 'kp', 'lambda', 'tox', 'vfb',
                                  'u0', 'tcv', 'bex'}


def model(tok):
    for i, t in enumerate(tok):
        if t.startswith('*'):
            tok = tok[:i]
            break
    if len(tok) < 3 or tok[1] not in PARAMS:
        raise Bad('model')
    p = {}
    keys = [t.split('=')[0] for t in tok[3:]]
    if len(set(keys)) != len(keys):
        raise Skip()
    for t in tok[3:]:
        if t.count('=') != 1 or t.startswith('='):
            raise Bad('model parameter')
        k, v = t.split('=')
        if k not in PARAMS[tok[1]]:
            if k in ('xj', 'akp', 'avt'):
                raise Skip()
            raise Bad('model parameter')
        if k in p:
            raise Skip()
        if k == 'type':
            if v not in ('n', 'p'):
                raise Bad('type')
            p[k.upper()] = v
        else:
            p[k.upper()] = num(v)
    if tok[1] == 'sw' and ('VON' in p) != ('VOFF' in p):
        raise Bad('von and voff')
    if tok[1] in ('ekv', 'mosq'):
        bad = ('GAMMA' in p and p['GAMMA'] <= 0) or ('U0' in p and p['U0'] <= 0) or p.get('NSUB', 1) < 0 or \
            p.get('PHI', 1) <= .1
        if bad:
            raise Bad('range')
        if any(p.get(x, 1) <= 0 for x in ('COX', 'TOX', 'NSUB', 'TNOM')) or 'NSUB' in p or 'TNOM' in p:
            raise Skip()
    return tok[1] if tok[1] != 'd' else 'diode', tok[2], p


def reference(lines):
    """Build the circuit a list of token lists describes, with the programming calls."""
    ahkab = core.boot()
    c = ahkab.Circuit('t')
    kinds, skip = {}, None
    els = []
    for tok in lines:
        if tok[0] == '.model':
            t, label, p = model(tok)
            if label in kinds:
                skip = True
            kinds[label] = t
            c.add_model(t, label, dict(p))
        elif tok[0].startswith('.'):
            raise Skip()
        else:
            els.append(tok)
    ids, ind, made = [], {}, []
    for tok in els:
        try:
            m, args, kw = element(tok, ind)
        except Skip:
            skip = True
            if tok[0][0] == 'l':
                ind[tok[0]] = 1
            continue
        if m == 'add_inductor':
            if args[3] <= 0:
                skip = True
            ind[args[0]] = 1
        if m in MODEL:
            label = args[-1]
            if label not in kinds or kinds[label] not in MODEL[m]:
                raise Bad('model')
            if m == 'add_diode' and 'Area' in kw and kw['Area'] <= 0:
                skip = True
        ids.append(args[0])
        made.append((m, args, kw))
    if skip:
        raise Skip()
    if len(set(ids)) != len(ids):
        raise Bad('repeated name')
    have = dict((a[0], m) for m, a, k in made)
    for m, a, k in made:
        if m in ('add_cccs', 'add_ccvs'):
            if a[3] not in have:
                raise Bad('sensing source')
            if have[a[3]] != 'add_vsource':
                if have[a[3]] not in ('add_vcvs', 'add_ccvs', 'add_inductor'):
                    raise Bad('sensing source')
                raise Skip()
    nodes = set()
    for m, a, k in made:
        getattr(c, m)(*a, **k)
    if '0' not in c.nodes_dict or c.get_nodes_number() < 2 or len(c) < 2:
        raise Bad('ground, nodes or elements')
    return c


def judge(lines, text, ctr, files=()):
    """Compare the parser's answer on `text` with the reference on `lines`."""
    try:
        ref = reference(lines)
        verdict = 'good'
    except Bad as e:
        verdict, why = 'bad', str(e)
    except Skip:
        verdict = 'skip'
    try:
        got = net.read(text, files, check=True)
    except net.Refused as e:
        ctr.add('refused')
        if verdict == 'good':
            raise core.Disagreement('a well-formed netlist was refused (%s):\n%s' % (e, text))
        return 'refused'
    ctr.add('accepted')
    if verdict == 'bad':
        raise core.Disagreement('a malformed netlist (%s) was accepted as %s:\n%s' % (
            why, [x[:2] for x in net.describe(got[0])[0]][:3], text))
    if verdict == 'good':
        d = net.diff(net.describe(got[0], True), net.describe(ref, True), 1e-14)
        if d:
            raise core.Disagreement('accepted as a different circuit: %s\n%s' % (d, text))
        ctr.add('same_circuit')
    return 'accepted'


BASE = [l.split() for l in """v1 a 0 vdc=1 vac=2
r1 a b 1k
c1 b 0 1u ic=1
l1 b c 1m
l2 c 0 2m ic=3
k1 l1 l2 .5
i1 0 c type=idc idc=1m
e1 d 0 a b 2
g1 d 0 a b 3
f1 d 0 v1 4
h1 e 0 v1 5
r2 e d 1
d1 a d dm area=2
m1 d a 0 0 nm w=1u l=2u
m2 d a 0 0 qm w=1u l=2u m=2
s1 d 0 a 0 sm
.model diode dm is=1f n=1
.model ekv nm type=n vto=.5
.model mosq qm type=p kp=1m
.model sw sm vt=1 ron=2""".splitlines()]
TOKENS = ['5', 'foo', 'x=1', '=', '=1', 'a=b=c', 'ic=1', 'ic=', 'ic', 'w=', 'w', 'w=-1', 'w=0', 'vdc=', 'vdc=x', 'vdc',
          'type=foo', 'type=', 'type', 'area=', 'area=x', 'off', 'off=maybe', 'off=1', 'k=', 'q=1', '0', 'nil', 'v9', 'l9',
          'l1', 'r1', 'v1', 'dm', 'nm', 'sm', 'ic=1x', 'm=x', 't=', '* c', '*', '1..2', 'is=x', 'is=', 'vt', 'idc=x',
          'iac=', 'k=x', 'vto=', 'vac=x', 'is', 'phi=0', 'gamma=-1', 'u0=-2', 'von=1']


def edits(tok, small=False):
    n = len(tok)
    for i in range(n):
        yield 'delete %d' % i, tok[:i] + tok[i + 1:]
    for i in range(n):
        for j in range(i + 1, n):
            t = list(tok)
            t[i], t[j] = t[j], t[i]
            yield 'swap %d %d' % (i, j), t
    for i in range(n):
        yield 'repeat %d' % i, tok[:i + 1] + tok[i:]
    for i in range(n + 1):
        for w in TOKENS if not small else TOKENS[:30]:
            if i < n and i > 0:
                yield 'replace %d by %s' % (i, w), tok[:i] + w.split() + tok[i + 1:]
            if i > 0:
                yield 'insert %s at %d' % (w, i), tok[:i] + w.split() + tok[i:]
    if n > 2:
        for i in range(1, n):
            yield 'first %d' % i, tok[:i]


def render(lines):
    return 'title\n' + '\n'.join(' '.join(l) for l in lines) + '\n'


def mutate_case(case, ctr):
    k, double, part = case
    for x, (name, t) in enumerate(edits(BASE[k], double)):
        if double and x % 64 != part:
            continue
        todo = [(name, t)]
        if double:
            todo = [(name + ', ' + n2, t2) for n2, t2 in edits(t, True)] if t else []
        for nm, tt in todo:
            if not tt:
                continue
            lines = BASE[:k] + [tt] + BASE[k + 1:]
            ctr.add('executions')
            # the line that begins a file's line with + or * is something else
            if tt[0][0] in '*+':
                continue
            judge(lines, render(lines), ctr)
            ctr.seen('states', (k, tuple(tt)))
    ctr.sample({'line': ' '.join(BASE[k]), 'edits': 'all'}, 1)


def subset_case(case, ctr):
    lo, hi = case
    # all subsets of the lines that others refer to, with all that refer to them
    lines = [l.split() for l in """v1 a 0 vdc=1
r1 a b 1
l1 b c 1m
l2 c 0 2m
k1 l1 l2 .5
f1 d 0 v1 4
h1 e 0 v1 5
d1 a d dm
m1 d a b b nm w=1u l=2u
s1 d b a b sm
.model diode dm
.model ekv nm type=n
.model sw sm""".splitlines()]
    for mask in range(lo, hi):
        sub = [l for i, l in enumerate(lines) if mask >> i & 1]
        if not sub:
            continue
        ctr.add('executions')
        judge(sub, render(sub), ctr)
        ctr.seen('states', ('subset', mask))


def dup_case(case, ctr):
    i, j, how = case
    lines = [list(l) for l in BASE]
    name = lines[i][0]
    if lines[i][0].startswith('.') or lines[j][0].startswith('.'):
        return
    if how == 'copy':
        lines.insert(j, list(lines[i]))
    else:       # another element of the same kind takes the name
        if i == j or lines[i][0][0] != lines[j][0][0]:
            return
        lines[j][0] = name
    text = render(lines)
    if how != 'copy':
        text = text.replace('\n%s ' % name, '\n%s ' % name.upper(), 1)
    ctr.add('executions')
    # a coupling or a sensing source may vanish as well: still malformed
    judge(lines, text, ctr)
    ctr.seen('states', case)


# -- structure: subcircuit definitions, calls, ends ---------------------------
ATOMS = ['.subckt s p q', '.subckt t p', '.ends', 'r1 p q 1', 'x1 name=s p=a q=0', 'x2 name=t p=a', '.end', 'v1 a 0 vdc=1']


def structure(seq):
    """'bad', 'good' (element names) or 'skip'."""
    subs, cur, top = {}, None, []
    for a in seq:
        if a == '.end':
            break
        if a.startswith('.subckt'):
            if cur is not None:
                return 'bad', 'nested declaration'
            cur = (a.split()[1], a.split()[2:], [])
        elif a == '.ends':
            if cur is None:
                return 'bad', '.ends alone'
            if cur[0] in subs:
                return 'bad', 'redefined'
            subs[cur[0]] = cur
            cur = None
        elif cur is not None:
            cur[2].append(a)
        else:
            top.append(a)
    if cur is not None:
        return 'bad', 'no .ends'
    ids = []

    def inst(lines, path):
        for a in lines:
            if a[0] == 'x':
                nm = a.split()[1][5:]
                if nm not in subs:
                    return 'unknown subcircuit'
                if nm in [p[1] for p in path]:
                    return 'recursive'
                r = inst(subs[nm][2], path + [(a.split()[0], nm)])
                if r:
                    return r
            else:
                ids.append(tuple(p[0] for p in path) + (a.split()[0],))
    r = inst(top, [])
    if r:
        return 'bad', r
    if len(set(ids)) != len(ids):
        return 'bad', 'repeated'
    # the checker wants two elements, two nodes and ground
    if len(ids) < 2 or not any(i[-1] == 'v1' for i in ids):
        return 'skip', ids
    return 'good', ids


def structure_case(case, ctr):
    pre, n = case
    for k in range(n + 1):
        for tail in itertools.product(range(len(ATOMS)), repeat=k):
            seq = [ATOMS[i] for i in pre + tail]
            v, why = structure(seq)
            ctr.add('executions')
            ctr.seen('states', ('structure', pre + tail))
            text = 'title\n' + '\n'.join(seq) + '\n'
            try:
                c = net.read(text, check=True)[0]
            except net.Refused as e:
                ctr.add('refused')
                if v == 'good':
                    raise core.Disagreement('refused (%s):\n%s' % (e, text))
                continue
            ctr.add('accepted')
            if v == 'bad':
                raise core.Disagreement('accepted although malformed (%s):\n%s' % (why, text))
            if v == 'good' and len(c) != len(why):
                raise core.Disagreement('%d elements, the text has %d:\n%s' % (len(c), len(why), text))


CALLS = {
    'missing name': 'x1 p=a q=0', 'unknown': 'x1 name=zz p=a q=0', 'missing port': 'x1 name=s p=a', 'no ports': 'x1 name=s',
    'unknown port': 'x1 name=s p=a q=0 r=b', 'repeated port': 'x1 name=s p=a p=b q=0', 'bare port': 'x1 name=s p=a q',
    'bare node': 'x1 name=s p=a q=0 b', 'positional': 'x1 a 0 s', 'empty port': 'x1 name=s p=a q=', 'two names':
    'x1 name=s name=s p=a q=0', 'empty name': 'x1 name= p=a q=0', 'only x': 'x1', 'double equal': 'x1 name=s p=a q=0=1',
    'no label': 'x1 =s p=a q=0', 'port swapped case': 'x1 name=s p=a * q=0'}
DECL = {'no name': '.subckt', 'comment name': '.subckt * x', 'ground port': '.subckt s 0 q', 'repeated port': '.subckt s p p q'}
FILES = {'missing file': ('.include nowhere.inc', ()), 'no file': ('.include', ()), 'surplus': ('.include a.inc b.inc', (('a.inc', ''),)),
         'itself': ('.include net.ckt', ()), 'loop': ('.include a.inc', (('a.inc', '.include b.inc\n'), ('b.inc', '.include a.inc\n'))),
         'directory': ('.include .', ()), 'bad content': ('.include a.inc', (('a.inc', 'r9 a 0\n'),)),
         'repeated element': ('.include a.inc', (('a.inc', 'v1 a 0 vdc=1\n'),)),
         'open subcircuit': ('.include a.inc', (('a.inc', '.subckt s p\nr1 p 0 1\n'),))}


def misc_case(case, ctr):
    kind, name = case
    files = ()
    sub = '.subckt s p q\nr1 p q 1\n.ends\n'
    base = 'title\nv1 a 0 vdc=1\nr1 a b 1\nr2 b 0 1\n'
    if kind == 'call':
        t = base + sub + CALLS[name] + '\n'
    elif kind == 'decl':
        t = base + DECL[name] + '\nr1 p q 1\n.ends\n'
    elif kind == 'file':
        t, files = base + FILES[name][0] + '\n', FILES[name][1]
    elif kind == 'letter':
        t = base + '%sz a b 1\n' % name
    elif kind == 'directive':
        t = base + name + '\n'
    elif kind == 'ground':
        t = 'title\nv1 a g vdc=1\nr1 a b 1\nr2 b g 1\n'.replace('g', name)
    elif kind == 'short':
        t = 'title\n' + name
    ctr.add('executions')
    ctr.add('misc')
    try:
        net.read(t, files, check=True)
    except net.Refused:
        ctr.add('refused')
        return
    raise core.Disagreement('%s %s: accepted\n%s' % (kind, name, t))


def run(chk):
    th = chk.thorough
    n = len(BASE)
    chk.explore(mutate_case, [(k, False, 0) for k in range(n)], limit=300, maxviol=30)
    if th:
        chk.explore(mutate_case, [(k, True, p) for k in range(n) for p in range(64)], limit=1200)
    chk.explore(subset_case, [(k, k + 256) for k in range(0, 8192, 256)], limit=120)
    chk.explore(dup_case, [(i, j, h) for i in range(n) for j in range(n) for h in ('copy', 'name')], limit=60)
    d = 5 if th else 4
    chk.explore(structure_case, [((a, b), d - 2 if not th else d - 1) for a in range(len(ATOMS)) for b in range(len(ATOMS))], limit=600)
    misc = [('call', k) for k in CALLS] + [('decl', k) for k in DECL] + [('file', k) for k in FILES] + \
        [('letter', ch) for ch in 'abjnopqtuwz+_1.#'] + \
        [('directive', d_) for d_ in ('.foo', '.icx name=a', '.opx', '.', '.endx', '.endsx', '.end.', '.opp', '.dcx v1 0 1 .1', '.acx lin 1 1 2', '.tranx 0 1 1', '.pzx', '.pssx', '.includex a.inc', '.subcktx s p q',
                                      '.modelx diode dm', '.modeldiode dm', '.plotx tran v(a)', '.fourx 1k v(a)', '.fftx v(a)', '..op', '.op.', '.tra', '.en', '.sub', '.mod', '.four', '.fft',
                                      '.plot', '.plot xyz v(1)', '.plot tran', '.ic', '.ic v(a)=1', '.ic name=x v(a)=z', '.four x v(a)',
                                      '.four 1k', '.fft', '.model', '.model diode', '.temperature 3')] + \
        [('ground', g) for g in ('gnd', '00', 'o', '1', 'g')] + [('short', t) for t in ('', '\n', 'r1 a 0 1\n', '.op\n', '* c\n')]
    misc.remove(('directive', '.four 1k'))
    chk.explore(misc_case, misc, limit=60, maxviol=40)
    for nm, m in (('refused', 10000), ('accepted', 500), ('same_circuit', 300), ('misc', 60)):
        chk.require(nm, m)
    chk.assumptions += ['a parameter repeated in a line, a bare element letter as a name and values outside the '
                        'physical range are not judged',
                        'the reference grammar (150 lines) states what each line must contain']
    return chk.finish('states', 'executions', 'executions',
                      'every one-edit%s mutation (delete, swap, repeat, replace, insert from %d texts, truncate) of '
                      'every kind of line, all 8192 subsets of a netlist whose lines refer to each other, every '
                      'repeated line and name, all sequences of up to %d structural lines, and a list of malformed '
                      'calls, declarations and files' % (' and two-edit' if th else '', len(TOKENS), d + 1 if th else d))


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
