"""P11: numbers of a netlist.  Every text over the number alphabet up to a length,
against a recogniser with exact arithmetic; then every number form, valid or
not, in every numeric field of every line."""
import itertools
import re
import sys
from fractions import Fraction

from vlib import core, net

PID = 'P11'
SCALE = {'': Fraction(1), 't': Fraction(10) ** 12, 'g': Fraction(10) ** 9, 'meg': Fraction(10) ** 6,
         'k': Fraction(1000), 'mil': Fraction(254, 10 ** 7), 'm': Fraction(1, 1000), 'u': Fraction(1, 10 ** 6),
         'n': Fraction(1, 10 ** 9), 'p': Fraction(1, 10 ** 12), 'f': Fraction(1, 10 ** 15)}
RX = re.compile(r'([+-]?)(?:(\d+)(?:\.(\d*))?|\.(\d+))(?:e([+-]?\d+))?(t|g|meg|k|mil|m|u|n|p|f)?', re.A)


def value(text):
    """(verdict, exact value): verdict 'yes', 'no', 'either'."""
    m = RX.fullmatch(text.lower())
    if not m:
        return 'no', None
    sign, a, b, c, e, s = m.groups()
    if a is None:
        a, b = '0', c
    b = b or ''
    if e is not None and abs(int(e)) > 290:
        return 'skip', None
    v = Fraction(int(a + b), 10 ** len(b)) * Fraction(10) ** int(e or 0) * SCALE[s or '']
    if sign == '-':
        v = -v
    return ('either' if e is not None and s else 'yes'), v


def same(x, v):
    if not isinstance(x, float) and not isinstance(x, int):
        return False
    w = float(v)
    return x == w or abs(x - w) <= 4e-16 * abs(w)


# -- the converter on every text --------------------------------------------
def texts_case(case, ctr):
    prefix, alphabet, n = case
    core.boot()
    from ahkab import netlist_parser as npar
    for k in range(0, n + 1):
        for tail in itertools.product(alphabet, repeat=k):
            t = prefix + ''.join(tail)
            verdict, v = value(t)
            if verdict == 'skip':
                continue
            try:
                x = npar.convert_units(t)
            except (ValueError, npar.NetlistParseError):
                ctr.add('refused')
                if verdict == 'yes':
                    raise core.Disagreement('the number %r was refused' % t)
                continue
            ctr.add('accepted')
            if verdict == 'no':
                raise core.Disagreement('%r is not a number but was read as %r' % (t, x))
            if not same(x, v):
                raise core.Disagreement('%r was read as %r, it means %r' % (t, x, float(v)))
            ctr.seen('states', (x,))
    ctr.sample({'texts beginning with': prefix, 'alphabet': alphabet, 'further characters': n}, 1)


# -- numbers in the fields of a netlist -------------------------------------
MODELS = '.model ekv em type=n vto=.4 kp=1e-4\n.model mosq qm type=n vto=.4 kp=1e-4\n.model diode dm is=1e-14\n' \
         '.model sw sm vt=1 vh=.1 ron=1 roff=1e6\n'


def elem(line, getter, cond=None, extra=''):
    return ('e', line, getter, cond, extra)


def by(attr):
    return lambda c, an, ics, pp: getattr(find(c, 'z'), attr)


def dev(attr):
    return lambda c, an, ics, pp: getattr(find(c, 'z').device, attr)


def find(c, tag):
    return [e for e in c if e.part_id[1:] == tag][0]


def fun(attr):
    return lambda c, an, ics, pp: getattr(find(c, 'z')._time_function, attr)


def anal(key):
    return lambda c, an, ics, pp: an[0][key]


def model(attr):
    return lambda c, an, ics, pp: getattr(c.models['z'], attr)


pos = lambda v: v > 0
nz = lambda v: v != 0
TF = {'sin': 'vo va freq td theta phase', 'exp': 'v1 v2 td1 tau1 td2 tau2', 'pulse': 'v1 v2 td tr tf pw per',
      'sffm': 'vo va fc mdi fs td', 'am': 'sa oc fm fc td'}


def fields():
    F = {}
    F['r'] = elem('rz 1 0 @', by('value'), nz)
    F['c'] = elem('cz 1 0 @', by('value'))
    F['c ic'] = elem('cz 1 0 1 ic=@', by('ic'))
    F['l'] = elem('lz 1 0 @', by('value'))
    F['l ic'] = elem('lz 1 0 1 ic=@', by('ic'))
    F['k'] = elem('kz la lb @', by('K'), lambda v: 0 < v < 1, 'la 1 0 1\nlb 2 0 4')
    F['k='] = elem('kz la lb k=@', by('K'), lambda v: 0 < v < 1, 'la 1 0 1\nlb 2 0 4')
    F['e'] = elem('ez 1 0 2 0 @', by('alpha'))
    F['g'] = elem('gz 1 0 2 0 @', by('alpha'))
    F['f'] = elem('fz 1 0 vs @', by('alpha'), None, 'vs 3 0 vdc=1')
    F['h'] = elem('hz 1 0 vs @', by('alpha'), None, 'vs 3 0 vdc=1')
    for ch, v in (('v', 'v'), ('i', 'i')):
        F[ch + ' dc'] = elem('%sz 1 0 %sdc=@' % (ch, v), by('dc_value'))
        F[ch + ' type dc'] = elem('%sz 1 0 type=%sdc %sdc=@ %sac=1' % (ch, v, v, v), by('dc_value'))
        F[ch + ' ac'] = elem('%sz 1 0 type=%sdc %sdc=1 %sac=@' % (ch, v, v, v),
                             lambda c, a, i, p: find(c, 'z').ac_value
                             if hasattr(find(c, 'z'), 'ac_value') else find(c, 'z').abs_ac, pos)
        for f, ls in TF.items():
            ls = ls.split()
            for k, l in enumerate(ls):
                rest = ['1' if j != k else '@' for j in range(len(ls))]
                # keep the fixed parameters admissible
                if f == 'pulse':
                    rest = [x if x == '@' else '0' for x in rest]
                    if k != 6:
                        rest[6] = '1e15'
                okp = (lambda v: v >= 0) if f in ('pulse', 'exp') and k > 1 else None
                attr = l if l != 'phase' else 'phi'
                F['%s %s %s' % (ch, f, l)] = elem('%sz 1 0 type=%s %s' % (ch, f, ' '.join(rest)), fun(attr), okp)
                F['%s %s %s=' % (ch, f, l)] = elem('%sz 1 0 vdc=0 type=%s %s'.replace('vdc', v + 'dc') % (
                    ch, f, ' '.join('%s=%s' % p for p in zip(ls, rest))), fun(attr), okp)
    for md in ('em', 'qm'):
        for p in 'wl':
            other = 'l' if p == 'w' else 'w'
            F['m %s %s' % (md, p)] = elem('mz 1 2 0 0 %s %s=1 %s=@' % (md, other, p), dev(p.upper()), pos)
        for p in 'mn':
            F['m %s %s' % (md, p)] = elem('mz 1 2 0 0 %s w=1 l=1 %s=@' % (md, p), dev(p.upper()),
                                          lambda v: v > 0 and v.denominator == 1)
    F['d area'] = elem('dz 1 0 dm area=@', dev('AREA'), pos)
    F['d ic'] = elem('dz 1 0 dm ic=@', by('ic'))
    F['d t'] = elem('dz 1 0 dm t=@', dev('T'), pos)
    for p in ('is', 'n', 'isr', 'nr', 'rs', 'cj0', 'm', 'vj', 'fc', 'cp', 'tt', 'bv', 'ibv', 'kf', 'af', 'xti', 'eg'):
        F['.model d ' + p] = elem('.model diode z %s=@' % p, model(p.upper()))
    for p in ('vt', 'vh', 'ron', 'roff'):
        F['.model sw ' + p] = elem('.model sw z %s=@' % p, model(p.upper()), pos)
    for t in ('ekv', 'mosq'):
        for p in ('tnom', 'cox', 'gamma', 'nsub', 'phi', 'vto', 'kp', 'tox', 'vfb', 'u0', 'tcv', 'bex', 'lambda'):
            F['.model %s %s' % (t, p)] = elem('.model %s z type=n vto=.5 phi=.7 gamma=.5 cox=1m kp=1m %s=@' % (t, p)
                                              if p not in ('vto', 'phi', 'gamma', 'cox', 'kp') else
                                              '.model %s z type=n %s=@' % (t, p), model(p.upper()),
                                              {'phi': lambda v: v > .2, 'tcv': None, 'vto': pos, 'vfb': None,
                                               'tnom': lambda v: 250 < v < 400}.get(p, pos))
    # (nominal values move with the temperature model: only what is stored as such)
    for t in ('ekv', 'mosq'):
        for p in ('vto', 'kp', 'phi'):
            del F['.model %s %s' % (t, p)]
        del F['.model %s tnom' % t]
    A = {'dc start': '.dc v1 start=@ stop=1 step=1', 'dc stop': '.dc v1 start=0 stop=@ step=1',
         'dc step': '.dc v1 start=0 stop=1 step=@', 'ac start': '.ac nsteps=5 start=@ stop=5',
         'ac stop': '.ac nsteps=5 start=1 stop=@', 'ac points': '.ac nsteps=@ start=1 stop=10',
         'tran tstep': '.tran tstep=@ tstop=1', 'tran tstop': '.tran tstep=1 tstop=@',
         'tran tstart': '.tran tstep=1 tstop=1 tstart=@', 'pss period': '.pss period=@ points=10',
         'pss points': '.pss period=1 points=@', 'pss step': '.pss period=1 points=10 step=@',
         'pz shift': '.pz shift=@'}
    for k, l in A.items():
        F['.' + k] = elem(l, anal(k.split()[1]))
    for k, l in {'dc start': '.dc v1 @ 1 1', 'dc stop': '.dc v1 0 @ 1', 'dc step': '.dc v1 0 1 @',
                 'ac points': '.ac lin @ 1 2', 'ac start': '.ac log 5 @ 2', 'ac stop': '.ac lin 5 1 @',
                 'tran tstep': '.tran @ 1', 'tran tstop': '.tran 1 @', 'pss period': '.pss @ points=10',
                 'pz shift': '.pz v(1,0) v1 @'}.items():
        F['.' + k + ' by position'] = elem(l, anal(k.split()[1]))
    F['.ic v'] = elem('.ic name=x v(1)=@ v(2)=1', lambda c, a, ics, p: ics[0]['x']['v(1)'])
    F['.ic i'] = elem('.ic name=x v(1)=1 i(v1)=@', lambda c, a, ics, p: ics[0]['x']['i(v1)'])
    F['.four'] = elem('.four @ v(1)', lambda c, a, ics, pp: pp[0]['fund'])
    for k in ('np', 'alpha', 'freq', 'fmin', 'fmax'):
        F['.fft ' + k] = elem('.fft v(1) %s=@' % k, (lambda k: lambda c, a, i, pp: pp[0][k])(k))
    return F


MANT = ['0', '1', '12', '1.5', '2.', '.5', '0.25', '007', '1.0']
EXPS = ['', 'e0', 'e3', 'e-3', 'e+2', 'E-12', 'E6']
BAD = ['', 'x', 'abc', '1x', '1kk', '1k5', '1..2', '1.2.3', '.', '+', '-', '--1', '+-1', '1+', '1-', '1e', '1e+',
       'e5', '1e1.5', '1ee2', '1me', '1mega', '1megg', '1mi', '1milli', '1g5', '1_0', '1,5', '1k-', 'nan', 'inf',
       '-inf', 'infinity', '0x10', '1j', '1a', '1q', 'k', 'meg', '1k1', '1e3x', '#1', '1;', '1 k', "'1'",
       '1%', '1/2', '1**2', '²', '1\xb5', 'true', 'none', '1d3', '1ohm', '1v', '1hz', '5s', '1kohm']


def suffixes():
    out = []
    for s in SCALE:
        if not s:
            continue
        out += sorted(set(''.join(c) for c in itertools.product(*[(x, x.upper()) for x in s])))
    return out


def forms(thorough):
    out = []
    for sg in ('', '+', '-'):
        for m in (MANT if thorough else MANT[1:6]):
            for e in EXPS:
                out.append(sg + m + e)
            for s in suffixes():
                out.append(sg + m + s)
    return out


_F = {}


def field_case(case, ctr):
    name, thorough = case
    if not _F:
        _F.update(fields())
    _, line, get, cond, extra = _F[name]
    base = 'title\nv1 1 0 vdc=1\nr1 1 2 1\nr2 2 0 1\n%s\n' % extra

    def text(t):
        return base + MODELS + line.replace('@', t) + '\n'
    for t in forms(thorough):
        verdict, v = value(t)
        if cond is not None and not cond(v):
            continue
        try:
            got = get(*net.read(text(t)))
        except net.Refused as e:
            raise core.Disagreement('field "%s": the number %r was refused (%s)' % (name, t, e))
        ctr.add('values')
        if isinstance(got, complex):
            got = got.real if got.imag == 0 else got
        if not same(got, v):
            raise core.Disagreement('field "%s": %r was read as %r, it means %r' % (name, t, got, float(v)))
        ctr.seen('states', (name, t.lower()))
    for t in BAD:
        if ' ' in t or (t == '' and '=@' not in line):
            continue
        try:
            got = get(*net.read(text(t)))
        except net.Refused:
            ctr.add('bad_refused')
            continue
        raise core.Disagreement('field "%s": %r is not a number, the line "%s" was accepted (%r)' % (
            name, t, line.replace('@', t), got))
    ctr.seen('fields', name)


def run(chk):
    th = chk.thorough
    A = '015.+-eEkMgilx'
    cases = [(a + b, A, 5 if th else 3) for a in A for b in A]
    B = '09.-ETtGgKkMmUuNnPpFfilLI_,\xb2'
    cases += [(a, B, 3 if th else 2) for a in ('1', '-2', '.5', '3.', '1e2', '1e-1', '')]
    cases += [(a + 'm', 'eEgGiIlLmM1', 4) for a in ('1', '2.5', '-.1', '1e3')]
    chk.explore(texts_case, cases, limit=600)
    chk.explore(field_case, [(f, th) for f in sorted(fields())], limit=300)
    for n, m in (('accepted', 3000), ('refused', 100000), ('fields', 150), ('values', 50000), ('bad_refused', 5000)):
        chk.require(n, m)
    chk.assumptions += ['an exponent together with a scale suffix may be accepted (with its value) or refused',
                        'exponents beyond 290 are left out; values are compared to 4e-16 relative',
                        'fields with a domain (positive, non zero, integer) get the numbers of the domain']
    return chk.finish('states', 'refused', 'values',
                      'every text up to length %d over the number alphabet through the converter; every sign, '
                      'mantissa, exponent and suffix form in every letter case, and every non-number of a list, '
                      'in every numeric field of element, model, analysis, initial condition and post-processing '
                      'lines through the real parser' % (7 if th else 5))


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
