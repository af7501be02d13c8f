"""P26: the command line, standard input, ahkab.main() and the script interface
give the same data; every option has the effect of the setting it stands for."""
import io
import itertools
import os
import re
import subprocess
import sys

import numpy as np

from vlib import core, hist

PID = 'P26'

# -- netlists, each with the circuit and the analyses a script would build -------
NL = {}
NL['rc'] = """A linear circuit
V1 a 0 type=vdc vdc=2 vac=1 type=pulse v1=0 v2=2 td=1e-6 tr=1e-6 pw=20e-6 tf=1e-6 per=50e-6
R1 a b 1e3
C1 b 0 1e-9 ic=.5
L1 b c 1e-3
R2 c 0 2e3
.op
.dc V1 start=0 stop=2 step=.5
.ac start=1 stop=1e6 nsteps=5
.tran tstep=1e-6 tstop=6e-6 uic=0
.end
"""
NL['nl'] = """Diodes and a transistor
V1 vdd 0 type=vdc vdc=3 vac=1
V2 g 0 type=vdc vdc=1.5
R1 vdd d 10e3
M1 d g s 0 nch w=10e-6 l=1e-6
R3 s 0 1e3
D1 s x dio
R2 x 0 1e3
C1 d 0 1e-12
.model ekv nch type=n vto=.4 kp=50e-6 cox=1e-3
.model diode dio is=1e-14
.op
.dc V2 start=.5 stop=1.5 step=.5
.ac start=1e3 stop=1e6 nsteps=4 sweep_type=LIN
.tran tstep=1e-9 tstop=5e-9 uic=1
.end
"""
NL['latch'] = """Two diodes back to back
V1 a 0 type=vdc vdc=5
R1 a b 100
D1 b c dio
D2 c 0 dio
R2 c 0 1e3
.model diode dio is=1e-14
.op
.end
"""
NL['pss'] = """Periodic
V1 a 0 type=sin vo=0 va=2 freq=1e3 td=0 theta=0
R1 a b 1e3
C1 b 0 100e-9
R2 b c 1e3
D1 c 0 dio
.model diode dio is=1e-14
.op
.pss period=1e-3 points=20 method=brute-force
.end
"""
NL['shoot'] = """Periodic
V1 a 0 type=sin vo=0 va=2 freq=1e3 td=0 theta=0
R1 a b 1e3
C1 b 0 100e-9
.pss period=1e-3 points=20 method=shooting
.end
"""
NL['ic'] = """Initial conditions of a directive
V1 a 0 type=vdc vdc=1
R1 a b 1e3
C1 b 0 1e-9
.ic name=start v(b)=.25
.tran tstep=.1e-6 tstop=1e-6 uic=3 ic_label=start
.tran tstep=.1e-6 tstop=1.5e-6 uic=3 ic_label=start method=implicit_euler
.end
"""
NL['pz'] = """Poles, zeros and formulas
V1 a 0 type=vdc vdc=1 vac=1
R1 a b 1e3
C1 b c 1e-9
R2 c 0 50
.pz output=V(b,0) source=V1
.symbolic tf=V1
.end
"""
NL['four'] = """Post-processing
V1 a 0 type=sin vo=0 va=1 freq=10e3 td=0 theta=0
R1 a b 1e3
D1 b 0 dio
.model diode dio is=1e-14
.tran tstep=1e-6 tstop=200e-6 uic=0
.four 10e3 V(b)
.fft V(b) np=32
.end
"""


def twin(name, outfile=None, verbose=0, opts=None):
    """(circuit, analyses) as a script builds them."""
    ahkab = core.boot()
    from ahkab import time_functions as tf
    opts = opts or {}
    kw = dict(outfile=outfile, verbose=verbose)
    method = opts.get('default_tran_method', 'TRAP')
    tk = dict(kw, method=method, use_step_control=not opts.get('transient_no_step_control', False))
    c = ahkab.Circuit(NL[name].splitlines()[0])
    if name == 'rc':
        c.add_vsource('V1', 'a', '0', 2., ac_value=1.,
                      function=tf.pulse(v1=0., v2=2., td=1e-6, tr=1e-6, pw=20e-6, tf=1e-6, per=50e-6))
        c.add_resistor('R1', 'a', 'b', 1e3)
        c.add_capacitor('C1', 'b', '0', 1e-9, ic=.5)
        c.add_inductor('L1', 'b', 'c', 1e-3)
        c.add_resistor('R2', 'c', '0', 2e3)
        return c, [ahkab.new_op(**kw), ahkab.new_dc(0., 2., 5, 'V1', **kw), ahkab.new_ac(1., 1e6, 5, **kw),
                   ahkab.new_tran(0., 6e-6, 1e-6, x0=None, **tk)]
    if name == 'nl':
        c.add_model('ekv', 'nch', dict(name='nch', TYPE='n', VTO=.4, KP=50e-6, COX=1e-3))
        c.add_model('diode', 'dio', dict(name='dio', IS=1e-14))
        c.add_vsource('V1', 'vdd', '0', 3., ac_value=1.)
        c.add_vsource('V2', 'g', '0', 1.5)
        c.add_resistor('R1', 'vdd', 'd', 1e4)
        c.add_mos('M1', 'd', 'g', 's', '0', 10e-6, 1e-6, 'nch')
        c.add_resistor('R3', 's', '0', 1e3)
        c.add_diode('D1', 's', 'x', 'dio')
        c.add_resistor('R2', 'x', '0', 1e3)
        c.add_capacitor('C1', 'd', '0', 1e-12)
        return c, [ahkab.new_op(**kw), ahkab.new_dc(.5, 1.5, 3, 'V2', **kw),
                   ahkab.new_ac(1e3, 1e6, 4, sweep_type='LIN', **kw), ahkab.new_tran(0., 5e-9, 1e-9, x0='op', **tk)]
    if name == 'latch':
        c.add_model('diode', 'dio', dict(name='dio', IS=1e-14))
        c.add_vsource('V1', 'a', '0', 5.)
        c.add_resistor('R1', 'a', 'b', 100.)
        c.add_diode('D1', 'b', 'c', 'dio')
        c.add_diode('D2', 'c', '0', 'dio')
        c.add_resistor('R2', 'c', '0', 1e3)
        return c, [ahkab.new_op(**kw)]
    if name in ('pss', 'shoot'):
        c.add_vsource('V1', 'a', '0', None, function=tf.sin(vo=0., va=2., freq=1e3, td=0., theta=0.))
        c.add_resistor('R1', 'a', 'b', 1e3)
        c.add_capacitor('C1', 'b', '0', 100e-9)
        if name == 'shoot':
            return c, [ahkab.new_pss(1e-3, points=20, method='shooting', **kw)]
        c.add_model('diode', 'dio', dict(name='dio', IS=1e-14))
        c.add_resistor('R2', 'b', 'c', 1e3)
        c.add_diode('D1', 'c', '0', 'dio')
        return c, [ahkab.new_op(**kw), ahkab.new_pss(1e-3, points=20, method='brute-force', **kw)]
    if name == 'ic':
        c.add_vsource('V1', 'a', '0', 1.)
        c.add_resistor('R1', 'a', 'b', 1e3)
        c.add_capacitor('C1', 'b', '0', 1e-9)
        x0 = ahkab.new_x0(c, {'V(b)': .25})
        t2 = dict(tk, method='IMPLICIT_EULER')
        return c, [ahkab.new_tran(0., 1e-6, .1e-6, x0=x0, **tk), ahkab.new_tran(0., 1.5e-6, .1e-6, x0=x0, **t2)]
    if name == 'pz':
        c.add_vsource('V1', 'a', '0', 1., ac_value=1.)
        c.add_resistor('R1', 'a', 'b', 1e3)
        c.add_capacitor('C1', 'b', 'c', 1e-9)
        c.add_resistor('R2', 'c', '0', 50.)
        return c, [ahkab.new_pz('V1', ('b', '0'), **kw), ahkab.new_symbolic(source='V1', **kw)]
    if name == 'four':
        c.add_model('diode', 'dio', dict(name='dio', IS=1e-14))
        c.add_vsource('V1', 'a', '0', None, function=tf.sin(vo=0., va=1., freq=10e3, td=0., theta=0.))
        c.add_resistor('R1', 'a', 'b', 1e3)
        c.add_diode('D1', 'b', '0', 'dio')
        return c, [ahkab.new_tran(0., 200e-6, 1e-6, x0=None, **tk)]
    raise KeyError(name)


# -- options: argument values, and the setting each stands for -------------------
OPTS = [
    ('-t', ['implicit_euler', 'IMPLICIT_EULER', 'trap', 'gear2', 'GEAR3', 'gear4', 'gear5', 'gear6'],
     'default_tran_method', str.upper),
    ('--t-fixed-step', [None], 'transient_no_step_control', lambda v: True),
    ('--v-absolute-tolerance', ['1e-6', '1e-3', '1e-10'], 'vea', float),
    ('--v-relative-tolerance', ['1e-3', '1e-6', '.1'], 'ver', float),
    ('--i-absolute-tolerance', ['1e-9', '1e-4', '1e-13'], 'iea', float),
    ('--i-relative-tolerance', ['1e-3', '1e-6', '.1'], 'ier', float),
    ('--h-min', ['1e-20', '1e-12', '1e-8'], 'hmin', float),
    ('--dc-max-nr', ['10000', '1e3', '2', '1'], 'dc_max_nr_iter', lambda v: int(float(v))),
    ('--t-max-nr', ['20', '5', '1'], 'transient_max_nr_iter', lambda v: int(float(v))),
    ('--t-max-time', ['0', '3', '1e2'], 'transient_max_time_iter', lambda v: int(float(v))),
    ('--s-max-nr', ['0', '2', '100'], 'shooting_max_nr_iter', lambda v: int(float(v))),
    ('--gmin', ['1e-12', '0', '1e-6', '1e-9'], 'gmin', float),
    ('--cmin', ['1e-18', '0', '1e-10', '1e-13'], 'cmin', float),
    ('--dc-guess', ['guess', 'none', 'None', 'NONE', 'GUESS'], 'dc_use_guess', lambda v: v.lower() != 'none'),
]
LONG = {'-t': '--tran-method', '-o': '--outfile', '-v': '--verbose', '-p': '--print'}
CONV = {o[0]: (o[2], o[3]) for o in OPTS}


def settings(opts):
    return {CONV[o][0]: CONV[o][1](v) for o, v in opts}


def argv(opts, form=0):
    """The command line words of some options, in one of the forms of writing."""
    out = []
    for o, v in opts:
        if form == 1:
            o = LONG.get(o, o)
        if v is None:
            out.append(o)
        elif o.startswith('--') and form == 2:
            out.append('%s=%s' % (o, v))
        elif not o.startswith('--') and form == 2:
            out.append(o + v)
        else:
            out += [o, v]
    return out


# -- reading what was printed ---------------------------------------------------
NUM = re.compile(r'^[+-]?(\d|\.\d|inf|nan)')


def tables(text):
    """The data tables of a text: (header names, rows of numbers)."""
    out, cur = [], None
    for line in text.splitlines():
        if line.startswith('#') and '\t' in line or re.match(r'^#\S+$', line):
            cur = (line[1:].split('\t'), [])
            out.append(cur)
        elif cur is not None and NUM.match(line.strip()):
            try:
                cur[1].append([float(v) for v in line.split('\t')])
            except ValueError:
                cur = None
    return [(h, np.array(r)) for h, r in out]


def capture(fn):
    so, se, si = sys.stdout, sys.stderr, sys.stdin
    raw = io.BytesIO()
    sys.stdout = out = io.TextIOWrapper(raw, encoding='utf8', write_through=True)
    sys.stderr = err = io.StringIO()
    code, res, exc = None, None, None
    try:
        res = fn()
    except SystemExit as e:
        code = e.code
    except Exception as e:
        exc = '%s: %s (%s)' % (type(e).__name__, e, hist.where())
    finally:
        sys.stdout, sys.stderr, sys.stdin = so, se, si
    out.flush()
    return code, res, exc, raw.getvalue().decode('utf8', 'replace'), err.getvalue()


def cli(words, stdin=None):
    """python -m ahkab <words>, in this (disposable) process."""
    import ahkab.__main__ as m
    sys.argv = ['ahkab'] + words

    def go():
        if stdin is not None:
            sys.stdin = io.StringIO(stdin)
        m._cli()
    return capture(go)


def pack(results):
    """The data of result sets, in plain form."""
    out = {}
    for an, r in results.items():
        if r is None or (isinstance(r, tuple) and r[0] is None):
            out[an] = None
        elif an == 'symbolic':
            r = r[0]
            out[an] = {str(k): str(r[k]) for k in r.keys()}
        else:
            d = {}
            for k in r.keys():
                d[str(k)] = np.array(r[k])
            if an == 'op':
                d['iterations'] = np.array([r.iterations])
            out[an] = d
    return out


def by_script(name, sets):
    """What a script gets with these settings."""
    ahkab = core.boot()
    from ahkab import options

    def go():
        for k, v in sets.items():
            setattr(options, k, v)
        c, ans = twin(name, opts=sets)
        for k in ('default_tran_method', 'transient_no_step_control'):
            # a script says these things analysis by analysis
            if k in sets:
                setattr(options, k, {'default_tran_method': 'TRAP'}.get(k, False))
        res = {}
        for a in ans:
            res.update(ahkab.run(c, [a]))
        return pack(res)
    return capture(go)[:3]


def by_main(name, sets, outfile, verbose):
    """What ahkab.main() returns, called by a script."""
    ahkab = core.boot()
    from ahkab import options

    def go():
        for k, v in sets.items():
            setattr(options, k, v)
        return pack(ahkab.main('t.ckt', outfile=outfile, verbose=verbose))
    return capture(go)


def near(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    fin = np.isfinite(a) & np.isfinite(b)
    if not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    if not fin.all() and not np.array_equal(a[~fin], b[~fin]) and not np.isnan(a[~fin]).any():
        return False
    if not fin.any():
        return True
    s = np.max(np.abs(b[fin])) if b[fin].size else 0.
    return bool(np.all(np.abs(a[fin] - b[fin]) <= tol * (np.abs(b[fin]) + s) + 1e-18))


EXT = {'op': '.op', 'dc': '.dc', 'ac': '.ac', 'tran': '.tran', 'pss': '.pss', 'pz': '.pz', 'symbolic': '.symbolic'}


def columns(an, d):
    """name -> column(s) a data table of this analysis has to contain."""
    out = {}
    for k, v in d.items():
        if k == 'iterations':
            continue
        v = np.asarray(v).ravel()
        if an == 'ac':
            if k == 'f':
                out['f'] = v.real
            else:
                out['|%s|' % k] = np.abs(v)
                out['arg(%s)' % k] = np.angle(v)
        elif an == 'pz':
            out['Re(%s)' % k] = v.real
            out['Im(%s)' % k] = v.imag
        else:
            out[k] = v.real
    return {k.upper(): v for k, v in out.items()}


def table_is(an, table, d, where):
    head, rows = table
    want = columns(an, d)
    got = [h.upper() for h in head]
    if sorted(got) != sorted(want):
        raise core.Disagreement('%s: the columns are %s instead of %s' % (where, head, sorted(want)))
    n = len(next(iter(want.values()))) if want else 0
    if rows.shape[:1] != (n,):
        raise core.Disagreement('%s: %d rows instead of %d' % (where, rows.shape[0], n))
    for j, h in enumerate(got):
        a, b = rows[:, j], want[h]
        if h.startswith('ARG('):
            a, b = np.exp(1j * a), np.exp(1j * b)
            mag = want['|' + h[4:-1] + '|']
            if not near(mag * a, mag * b):
                raise core.Disagreement('%s: the phase %s differs' % (where, head[j]))
        elif not near(a, b):
            raise core.Disagreement('%s: %s is %s instead of %s' % (where, head[j], a[:4], b[:4]))


def compare(an, got, want, where):
    if (got is None) != (want is None):
        raise core.Disagreement('%s: .%s %s' % (where, an, 'failed' if got is None else 'gave results'))
    if got is None:
        return
    if sorted(k.upper() for k in got) != sorted(k.upper() for k in want):
        raise core.Disagreement('%s: %s has the variables %s instead of %s' % (where, an, sorted(got), sorted(want)))
    up = {k.upper(): k for k in want}
    for k in got:
        a, b = got[k], want[up[k.upper()]]
        if an == 'symbolic':
            if a != b:
                raise core.Disagreement('%s: %s is %s instead of %s' % (where, k, a, b))
        elif not near(a, b):
            raise core.Disagreement('%s: %s of %s is %s instead of %s' % (
                where, k, an, np.asarray(a).ravel()[:4], np.asarray(b).ravel()[:4]))


VAR = re.compile(r'^(\S+)\s+([VA])\s+(\S+)\s+(\S+)\s+(\S+)\s*$')


def opinfo_is(text, d, where):
    """The table of an operating point: values to the printed precision."""
    vals = {m.group(1).upper(): float(m.group(3)) for m in map(VAR.match, text.splitlines()) if m}
    want = {k.upper(): float(np.ravel(v)[0]) for k, v in d.items() if k != 'iterations'}
    if sorted(vals) != sorted(want):
        raise core.Disagreement('%s: operating point of %s instead of %s' % (where, sorted(vals), sorted(want)))
    for k in want:
        if not core.close(vals[k], want[k], 1e-5, 1e-18):
            raise core.Disagreement('%s: %s is printed as %g instead of %g' % (where, k, vals[k], want[k]))


def formulas_are(text, d, where):
    lines = dict(l.split('\t = ') for l in text.splitlines() if '\t = ' in l)
    if lines != d:
        raise core.Disagreement('%s: the formulas are %s instead of %s' % (where, lines, d))


def cli_case(case, ctr):
    name, opts, out, verbose, pflag, stdin, form = case
    sets = settings(opts)

    def run_cli():
        if name is None:
            raise AssertionError
        text = NL[name]
        words = argv(list(opts) + ([('-o', out)] if out else []) +
                     ([('-v', str(verbose))] if verbose is not None else []) + ([('-p', None)] if pflag else []), form)
        sub = os.path.dirname(out) if out else ''
        if sub:
            os.mkdir(sub)
        if not stdin:
            with open('t.ckt', 'w') as fp:
                fp.write(text)
        pos = '-' if stdin else 't.ckt'
        # the netlist may come before, after or among the options
        words = {0: words + [pos], 1: [pos] + words, 2: words + [pos]}[form]
        code, _, exc, so, se = cli(words, text if stdin else None)
        files = {}
        for dp, dn, fn in os.walk('.'):
            for f in fn:
                p = os.path.normpath(os.path.join(dp, f))
                if p != 't.ckt':
                    with open(p, 'rb') as fp:
                        files[p] = fp.read()
        return code, exc, so, se, files

    def in_dir(fn):
        import shutil
        import tempfile
        d = tempfile.mkdtemp(dir=core.scratch())
        try:
            def go():
                os.chdir(d)
                tempfile.tempdir = core.scratch()
                return fn()
            kind, val = hist.isolated(go, 55)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if kind != 'ok':
            raise core.Disagreement('%s %s' % (kind, val))
        return val
    code, exc, so, se, files = in_dir(run_cli)
    _, want, wexc = in_dir(lambda: by_script(name, sets))
    ctr.add('runs')
    if exc is not None or wexc is not None:
        if name == 'four' and wexc is None and want['tran'] is None:
            return          # nothing to take the Fourier transform of
        if (exc is None) != (wexc is None):
            raise core.Disagreement('the command line ends with %s, the script with %s' % (exc, wexc))
        ctr.add('refused')
        if len(opts) == 1:
            ctr.add('effective:' + opts[0][0])
        return
    if code not in (0, None):
        raise core.Disagreement('exit status %r: %s %s' % (code, so[-200:], se[-200:]))
    txt = {k: v.decode('utf8', 'replace') for k, v in files.items()}
    fails = [a for a in want if want[a] is None]
    done = [a for a in want if want[a] is not None]
    # the analyses later in the netlist that need one that failed are not judged
    if out:
        expect = set(out + EXT[a] for a in done)
        if 'op' in done:
            expect.add(out + '.opinfo')
        got = set(txt)
        if name == 'four':
            expect.add(out + '.lis')
        if name == 'pz':
            expect.add(out + '.symbolic.tfs')
            got.add(out + '.symbolic.tfs')
        got -= set(out + EXT[a] for a in fails)
        if got != expect:
            raise core.Disagreement('the files are %s instead of %s' % (sorted(got), sorted(expect)))
        for a in done:
            if a == 'symbolic':
                continue
            tb = tables(txt[out + EXT[a]])
            if len(tb) != 1:
                raise core.Disagreement('%s contains %d tables' % (out + EXT[a], len(tb)))
            table_is(a, tb[0], want[a], out + EXT[a])
        if 'op' in done:
            opinfo_is(txt[out + '.opinfo'], want['op'], 'opinfo')
            m = re.search(r'reached in (\d+) iterations', txt[out + '.opinfo'])
            if not m or int(m.group(1)) != int(want['op']['iterations'][0]):
                raise core.Disagreement('the operating point took %s iterations, %d in a script' % (
                    m and m.group(1), want['op']['iterations'][0]))
        if 'symbolic' in done and (verbose is None or verbose > 2):
            formulas_are(so, want['symbolic'], 'formulas')
        if tables(so) and name != 'four':
            raise core.Disagreement('data tables on standard output as well as in files')
    else:
        if txt:
            raise core.Disagreement('the files %s were written' % sorted(txt))
        tb = tables(so)
        order = [a for a in re.findall(r'(?m)^\.(\w+)', NL[name]) if a in done and a not in ('op', 'symbolic')]
        if 'tran' in fails or 'pss' in fails:       # what was computed before they failed
            tb = [t for t in tb if t[0][0] != 'T']
        if name == 'ic':
            order = order[-1:]
            tb = tb[-1:]
        if name == 'four':
            tb = tb[:1]
        if len(tb) != len(order):
            raise core.Disagreement('%d data tables on standard output for the analyses %s' % (len(tb), order))
        for a, t in zip(order, tb):
            table_is(a, t, want[a], 'standard output, .%s' % a)
        if 'op' in done:
            opinfo_is(so, want['op'], 'standard output')
            m = re.search(r'reached in (\d+) iterations', so)
            if not m or int(m.group(1)) != int(want['op']['iterations'][0]):
                raise core.Disagreement('the operating point took %s iterations, %d in a script' % (
                    m and m.group(1), want['op']['iterations'][0]))
        if 'symbolic' in done:
            formulas_are(so, want['symbolic'], 'formulas')
    if pflag or (verbose or 0) > 3:
        if 'Parsed circuit' not in so:
            raise core.Disagreement('the circuit is not printed')
    elif 'Parsed circuit' in so:
        raise core.Disagreement('the circuit is printed, which nothing asked for')
    n = settings(opts).get('transient_max_time_iter', 0)
    if n and want.get('tran') is not None and len(next(iter(want['tran'].values()))) > n:
        raise core.Disagreement('%d time steps for a maximum of %d' % (len(next(iter(want['tran'].values()))), n))
    sig = core.h64([(a, None if want[a] is None else sorted((k, (np.round(np.asarray(v), 12) + 0.).tobytes() if a != 'symbolic' else v)
                                                            for k, v in want[a].items())) for a in sorted(want)])
    ctr.seen('states', (name, sig))
    ctr.seen('outcome:%s' % name, (sig,))
    for a in fails:
        ctr.add('failed analyses')
    ctr.add('data sets', len(done))
    if len(opts) == 1:
        base = BASE.get(name)
        if base is None:
            _, b, _ = in_dir(lambda: by_script(name, {}))
            base = BASE[name] = core.h64([(a, None if b[a] is None else sorted(
                (k, (np.round(np.asarray(v), 12) + 0.).tobytes() if a != 'symbolic' else v) for k, v in b[a].items())) for a in sorted(b)])
        if sig != base:
            ctr.add('effective:' + opts[0][0])
    # main(), called by a script
    if not stdin and len(opts) <= 1:
        def m():
            with open('t.ckt', 'w') as fp:
                fp.write(NL[name])
            if out and os.path.dirname(out):
                os.mkdir(os.path.dirname(out))
            c, res, ex, o, e = by_main(name, sets, out or 'stdout', 3 if verbose is None else verbose)
            return c, res, ex
        c, res, ex = in_dir(m)
        if ex or c is not None:
            raise core.Disagreement('ahkab.main() ends with %s %s' % (c, ex))
        for a in want:
            compare(a, res.get(a), want[a], 'ahkab.main()')
        ctr.add('mains')


BASE = {}

FAST = ['rc', 'nl', 'latch', 'ic']
ALLN = list(NL)


def cases(thorough):
    out = []
    for n in ALLN:
        # where the data go, how the netlist is given, what is printed
        for o in (None, 'o', 'dir/x.y'):
            for v in (None, 0, 1, 2, 3, 4, 5, 6):
                for p in (False, True):
                    for s in (False, True):
                        if n == 'four' and not thorough and (v not in (None, 0, 6) or p):
                            continue
                        out.append((n, (), o, v, p, s, 0))
        for o, vals, _, _ in OPTS:
            for v in vals:
                for form in (0, 1, 2):
                    if n == 'four' and not thorough and (form or v != vals[-1]):
                        continue
                    out.append((n, ((o, v),), 'o' if form else None, None, False, form == 2, form))
    one = [(o[0], v) for o in OPTS for v in o[1]]
    short = [(o[0], v) for o in OPTS for v in (o[1] if thorough else o[1][-2:])]
    for n in (ALLN if thorough else ['rc', 'latch']):
        for a, b in itertools.combinations(one if thorough and n != 'four' else short, 2):
            if a[0] != b[0]:
                out.append((n, (a, b), 'o', None, False, False, 0))
    if thorough:
        for n in ('rc', 'nl'):
            for a, b, c in itertools.combinations([(o[0], o[1][-1]) for o in OPTS], 3):
                out.append((n, (a, b, c), None, 5, False, True, 1))
    return out


# -- as a real program: exit status, standard streams ---------------------------
PROG = [
    ([], None, False), (['t.ckt', 't.ckt'], None, False), (['missing.ckt'], None, False), (['.'], None, False),
    (['--nonsense', 't.ckt'], None, False), (['-t', 'nomethod', 't.ckt'], None, False),
    (['--gmin', 'x', 't.ckt'], None, False), (['-v', 'x', 't.ckt'], None, False),
    (['--t-max-time', '', 't.ckt'], None, False), (['--h-min'], None, False),
    (['bad.ckt'], None, False), (['float.ckt'], None, False), (['-'], 'title\nR1 a b c d e\n.end\n', False),
    (['--help'], None, True), (['--version'], None, True),
    (['t.ckt'], None, True), (['-o', 'o', '-v', '0', 't.ckt'], None, True), (['-'], NL['rc'], True),
    (['-v', '0', '-p', '-'], NL['nl'], True), (['-t', 'gear2', '--t-fixed-step', '-o', 'o', 't.ckt'], None, True),
]


def prog_case(case, ctr):
    k, = case
    words, stdin, good = PROG[k]
    import shutil
    import tempfile
    d = tempfile.mkdtemp(dir=core.scratch())
    try:
        for f, t in (('t.ckt', NL['rc']), ('bad.ckt', 'title\nR1 a 0 1k\nQ1 a b c\n.op\n.end\n'),
                     ('float.ckt', 'title\nV1 a b 1\nR1 a b 1k\n.op\n.end\n')):
            with open(os.path.join(d, f), 'w') as fp:
                fp.write(t)
        env = dict(os.environ, PYTHONPATH=core.REPO, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONWARNINGS='ignore', PYTHONIOENCODING='utf8', MPLCONFIGDIR=core.scratch())
        p = subprocess.run([sys.executable, '-m', 'ahkab'] + words, cwd=d, env=env, timeout=100, capture_output=True,
                           input=(stdin or '').encode())
        files = sorted(set(os.listdir(d)) - {'t.ckt', 'bad.ckt', 'float.ckt'})
        so = p.stdout.decode('utf8', 'replace')
        ctr.add('programs')
        if (p.returncode == 0) != good:
            raise core.Disagreement('ahkab %s: exit status %d (%s)' % (' '.join(words), p.returncode, p.stderr[-300:]))
        if not good:
            if (files or tables(so)) and 'nomethod' not in words:
                raise core.Disagreement('ahkab %s: results %s although it failed' % (' '.join(words), files))
            return
        if words[0].startswith('--'):
            return
        name = 'nl' if stdin == NL['nl'] else 'rc'
        sets = {'default_tran_method': 'GEAR2', 'transient_no_step_control': True} if 'gear2' in words else {}
        kind, val = hist.isolated(lambda: by_script(name, sets), 90)
        want = val[1]
        for a in ('dc', 'ac', 'tran'):
            if '-o' in words:
                if sorted(files) != ['o.ac', 'o.dc', 'o.op', 'o.opinfo', 'o.tran']:
                    raise core.Disagreement('the files are %s' % files)
                with open(os.path.join(d, 'o.' + a)) as fp:
                    tb = tables(fp.read())
                table_is(a, tb[0], want[a], a)
            else:
                tb = tables(so)
                if len(tb) != 3 or files:
                    raise core.Disagreement('%d tables on standard output, files %s' % (len(tb), files))
                table_is(a, tb[('dc', 'ac', 'tran').index(a)], want[a], a)
            ctr.add('data sets')
        ctr.seen('states', ('prog', k))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(case, ctr):
    return (prog_case if len(case) == 1 else cli_case)(case, ctr)


def run(chk):
    core.boot()
    import ahkab.__main__
    todo = cases(chk.thorough) + [(k,) for k in range(len(PROG))]
    chk.explore(one, todo, limit=150.)
    chk.info['netlists'] = ALLN
    for o, _, _, _ in OPTS:
        chk.require('effective:' + o, 1)
    chk.require('data sets', 1000)
    chk.require('mains', 300)
    chk.require('programs', len(PROG))
    chk.assumptions.append('each run of the command line is the real entry point in a forked process with its own '
                           'directory; %d runs are separate interpreters' % len(PROG))
    return chk.finish('states', 'runs', 'data sets',
                      'every single option value in every form of writing, every destination, verbosity and input '
                      'channel for every netlist, all pairs of option values (triples when thorough)')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
