"""P23: Fourier post-processing of waveforms with known spectra (every combination of
harmonic content, length of the data, options, and directive spellings of a lattice)."""
import itertools
import os
import sys

import numpy as np

from vlib import core

PID = 'P23'
OVER = 40           # data points per fastest period looked at (twice the resampling of the code)


# -- the waveform --------------------------------------------------------------------
def wave(comp, f0, t):
    """comp: ((harmonic, amplitude, phase), ...)"""
    return sum((a * np.cos(2 * np.pi * k * f0 * t + p) for k, a, p in comp), np.zeros(len(t)))


def solution(ahkab, t, values, tstart, tstop):
    """A transient result set with these values of Vn1, Vn2 and I(V1)."""
    from ahkab import results
    c = ahkab.Circuit('t')
    c.add_vsource('V1', 'n1', '0', 1.)
    c.add_resistor('R1', 'n1', 'n2', 1.)
    c.add_resistor('R2', 'n2', '0', 1.)
    r = results.tran_solution(c, tstart, tstop, op=None, method='TRAP', outfile='w')
    for i in range(len(t)):
        r.add_line(t[i], np.array([[v[i]] for v in values]))
    r.lock()
    return r


def spoil(t, y, a, b):
    """Other values before a and after b."""
    y = y.copy()
    y[t < a] = 77.
    y[t > b] = -55.
    return y


def series(comp):
    """{harmonic: complex amplitude of exp(+jkwt)} at the origin of time."""
    d = {}
    for k, a, p in comp:
        d[k] = d.get(k, 0.) + (a * np.exp(1j * p) / 2 if k else a * np.cos(p))
    return d


def same_spectrum(what, F, comp, f0, stop, ks, n=None):
    """F[i] is proportional to the component of harmonic ks[i], with the phase it has at
    the end of the data (which is the phase at the start, whole periods earlier)."""
    s = series(comp)
    want = np.array([s.get(k, 0.) * np.exp(2j * np.pi * k * f0 * stop) for k in ks])
    F = np.asarray(F)
    if len(F) != len(want):
        raise core.Disagreement('%s: %d values, expected %d' % (what, len(F), len(want)))
    i = int(np.argmax(abs(want)))
    c = F[i] / want[i]
    if not abs(c.imag) <= 1e-6 * abs(c.real) or not c.real > 0:
        raise core.Disagreement('%s: the phase of harmonic %d is %g deg, expected %g' % (
            what, ks[i], np.angle(F[i], deg=True), np.angle(want[i], deg=True)))
    if not np.all(abs(F - c * want) <= 1e-6 * abs(c) * max(abs(want))):
        raise core.Disagreement('%s: the components are in the proportion %s, expected %s' % (
            what, np.round(F / c, 7).tolist(), np.round(want, 7).tolist()))


def thd_ref(comp, ks):
    s = series(comp)
    return np.sqrt(sum(abs(s.get(k, 0.)) ** 2 for k in ks if k > 1)) / abs(s[1])


LABELS = {'plain': 'Vn1', 'lower': 'vn1', 'one': ('Vn1',), 'none': ('vn1', None), 'current': 'I(V1)', 'diff': ('Vn1', 'Vn2')}


def values_for(label, y, t, f0):
    other = .3 * np.cos(2 * np.pi * 2 * f0 * t) + 4.
    if label == 'current':
        return (other, other, y)
    if label == 'diff':
        return (y + other, other, y)
    return (y, other, other)


# -- .FOUR ---------------------------------------------------------------------------
def four(case, ctr):
    _, comp, f0, P, first, label, garbage = case
    ahkab = core.boot()
    from ahkab import fourier
    h = 1. / f0 / OVER
    n = int(round(P * OVER))
    tstart, tstop = first / f0, (first + P) / f0
    t = tstart + (tstop - tstart) / n * np.arange(n + 1)
    y = wave(comp, f0, t)
    if garbage:     # not more than half of the simulation is used, if possible
        y = spoil(t, y, tstop - max(1., P / 2.) / f0 - h / 4, tstop + h)
    r = solution(ahkab, t, values_for(label, y, t, f0), tstart, tstop)
    if P < .99:
        try:
            fourier.fourier(LABELS[label], r, f0)
        except ValueError:
            ctr.add('refused')
            return
        raise core.Disagreement('a spectrum of less than one period')
    f, F, thd = fourier.fourier(LABELS[label], r, f0)
    ctr.add('transitions')
    ctr.add('four')
    if not (len(f) == 10 and np.allclose(f, f0 * np.arange(10), rtol=1e-9)):
        raise core.Disagreement('the frequencies are %s' % (f,))
    same_spectrum('fourier()', F, comp, f0, tstop, range(10))
    w = thd_ref(comp, range(10))
    if not abs(thd - w) <= 1e-6 * max(w, 1e-3) + 1e-8:
        raise core.Disagreement('THD is %r, expected %r' % (thd, w))
    ctr.seen('states', case)


# -- .FFT with a fundamental -----------------------------------------------------------
WINDOWS = {'RECT': np.ones, 'BART': np.bartlett, 'HANN': np.hanning, 'HAMM': np.hamming, 'BLACK': np.blackman,
           'HARRIS': lambda n: sum(a * np.cos(2 * np.pi * i * np.arange(n) / (n - 1)) for i, a in enumerate(
               (.35875, -.48829, .14128, -.01168)))}


def window(name, n, alpha):
    if name == 'GAUSS':
        return np.exp(-.5 * ((np.arange(n) - (n - 1) / 2.) / alpha) ** 2)
    if name == 'KAISER':
        return np.kaiser(n, alpha)
    return WINDOWS[name](n)


def interval(form, a, b, tstart, tstop):
    """(keyword arguments, start, stop)"""
    kw, start, stop = {}, tstart, tstop
    for word in form:
        k, v = (word.split('=') + [''])[:2]
        if v == 'None':
            kw[k] = None
        elif k in ('start', 'from'):
            kw[k] = start = a
        else:
            kw[k] = stop = b
    return kw, start, stop


def harmonic(case, ctr):
    _, comp, f0, P, first, form, ab, win, limits, label = case
    ahkab = core.boot()
    from ahkab import fourier
    n = int(round(P * OVER))
    tstart, tstop = first / f0, (first + P) / f0
    t = tstart + (tstop - tstart) / n * np.arange(n + 1)
    t[-1] = tstop
    i, j = int(round(ab[0] * OVER)), int(round(ab[1] * OVER))
    kw, start, stop = interval(form, t[i], t[j], tstart, tstop)
    h = 1. / f0 / OVER
    y = spoil(t, wave(comp, f0, t), start - h / 4, stop + h / 4)
    r = solution(ahkab, t, values_for(label, y, t, f0), tstart, tstop)
    if win is not None:
        kw['window'] = win
    for k, v in zip(('fmin', 'fmax'), limits):
        if v is not None:
            kw[k] = v * f0
    lo, hi = limits
    ks = [k for k in range(10) if k == 0 or (lo is None or k >= lo) and (hi is None or k <= hi)]
    N = int(np.floor((stop - start) * f0 * (1 + 1e-9)))
    bad = len(ks) < 2 or N < 1
    try:
        f, F, thd = fourier.spicefft(LABELS[label], r, f0, **kw)
    except ValueError as e:
        if bad:
            ctr.add('refused')
            return
        raise core.Disagreement('ValueError %s' % e)
    ctr.add('transitions')
    ctr.add('harmonic')
    if bad:
        raise core.Disagreement('frequencies %s although no data is left' % (f,))
    if not (len(f) == len(ks) and np.allclose(f, f0 * np.array(ks), rtol=1e-9)):
        raise core.Disagreement('the frequencies are %s, expected %s' % (f, f0 * np.array(ks)))
    name = (win or 'RECT').upper()
    if name == 'RECT':
        same_spectrum('spicefft()', F, comp, f0, stop, ks)
        w = thd_ref(comp, ks) if 1 in ks else None
    else:
        tt = stop - N / f0 + np.arange(20 * N) / f0 / 20
        want = np.fft.rfft(wave(comp, f0, tt) * window(name, 20 * N, 3.))[:10 * N:N][ks]
        if len(F) != len(want) or not np.all(abs(F - want) <= 1e-6 * max(abs(want))):
            raise core.Disagreement('window %s: the spectrum is %s, expected %s' % (win, F, want))
        w = np.sqrt(sum(abs(want[2:]) ** 2)) / abs(want[1]) if 1 in ks else None
    if w is not None and not abs(thd - w) <= 1e-6 * max(w, 1e-3) + 1e-8:
        raise core.Disagreement('THD is %r, expected %r' % (thd, w))
    ctr.seen('states', case)


# -- .FFT without a fundamental --------------------------------------------------------
def full(case, ctr):
    _, comp, m, form, ab, npts, win, alpha, limits = case[:9]
    label = case[9] if len(case) > 9 else 'plain'
    ahkab = core.boot()
    from ahkab import fourier
    M = 2048 if (npts or 1024) > 1024 else 1024     # data points in the whole interval
    f0 = 250.
    tstart, tstop = m / f0, (m + 4) / f0
    t = np.linspace(tstart, tstop, 2 * M + 1)
    i, j = int(round(ab[0] * 2 * M)), int(round(ab[1] * 2 * M))
    kw, start, stop = interval(form, t[i], t[j], tstart, tstop)
    h = t[1] - t[0]
    y = spoil(t, wave(comp, f0, t), start - h / 4, stop + h / 4)
    r = solution(ahkab, t, values_for(label, y, t, f0), tstart, tstop)
    n = 1024
    if npts is not None:
        kw['np'] = npts
        n = 2
        while n < npts:
            n *= 2
    if win is not None:
        kw['window'] = win
    if alpha is not None:
        kw['alpha'] = alpha
    fr = np.arange(n // 2) / (stop - start)
    for k, v in zip(('fmin', 'fmax'), limits):
        if v is not None:
            kw[k] = v / (stop - start)
    lo, hi = limits
    ks = np.array([k for k in range(n // 2) if k == 0 or (lo is None or k >= lo) and (hi is None or k <= hi)])
    bad = len(ks) < 2 and (lo or hi is not None)
    try:
        f, F, thd = fourier.spicefft(LABELS[label], r, **kw)
    except ValueError as e:
        if bad:
            ctr.add('refused')
            return
        raise core.Disagreement('ValueError %s' % e)
    ctr.add('transitions')
    ctr.add('full')
    if bad:
        raise core.Disagreement('frequencies %s although no data is left' % (f,))
    if thd is not None:
        raise core.Disagreement('a distortion without a fundamental: %r' % thd)
    if not (len(f) == len(ks) and np.allclose(f, fr[ks], rtol=1e-9)):
        raise core.Disagreement('%d frequencies from %s to %s, expected %d up to %s' % (len(f), f[:2], f[-1], len(ks), fr[ks][-1]))
    tt = np.linspace(start, stop, n, endpoint=False)
    want = np.fft.rfft(wave(comp, f0, tt) * window((win or 'RECT').upper(), n, 3. if alpha is None else alpha))[ks]
    if len(F) != len(want) or not np.all(abs(F - want) <= 1e-6 * max(abs(want))):
        i = int(np.argmax(abs(F - want)))
        raise core.Disagreement('the spectrum at %g Hz is %s, expected %s' % (f[i], F[i], want[i]))
    ctr.seen('states', case)


def misc(case, ctr):
    """Requests that make no sense."""
    _, kw = case
    ahkab = core.boot()
    from ahkab import fourier
    t = np.linspace(0, 1., 401)
    r = solution(ahkab, t, (np.cos(20 * np.pi * t),) * 3, 0., 1.)
    try:
        fourier.spicefft('Vn1', r, **dict(kw))
    except ValueError:
        ctr.add('refused')
        return
    raise core.Disagreement('%s accepted' % (kw,))


# -- tables ------------------------------------------------------------------------------
def rows(text):
    res = []
    for l in text.splitlines():
        w = l.split()
        if w and w[0].isdigit():
            res.append([float(x) for x in w])
    return res


def close(a, b, tol=2e-5):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-9


def after(text, mark):
    for l in text.splitlines():
        if mark in l:
            return float(l.split(mark)[1].split()[0])
    raise core.Disagreement('the table has no "%s": %r' % (mark, text[:300]))


def printed(case, ctr):
    _, kind, comp, label, form, to = case
    ahkab = core.boot()
    from ahkab import printing
    import io
    s = series(comp)
    f = 50. * np.arange(10)
    F = np.array([complex(s.get(k) or .001 * (k + 1)) for k in range(10)])
    keep = F.copy()
    lab = LABELS[label]
    name = {'plain': 'Vn1', 'lower': 'vn1', 'one': 'Vn1', 'none': 'vn1', 'current': 'I(V1)', 'diff': 'Vn1 - Vn2'}[label]
    so, sys.stdout = sys.stdout, io.StringIO()
    try:
        if kind == 'four':
            printing.print_fourier(lab, f, F, .25, **({} if to is None else {'outfile': to}))
        else:
            thd, uformat, win = form
            kw = {k: v for k, v in zip(('uformat', 'window'), (uformat, win)) if v is not None}
            printing.print_spicefft(lab, f, F, thd, **dict(kw, **({} if to is None else {'outfile': to})))
        text = sys.stdout.getvalue()
    finally:
        sys.stdout = so
    if to not in (None, 'stdout'):
        if text:
            raise core.Disagreement('printed on the standard output: %r' % text[:200])
        with open(to) as fp:
            text = fp.read()
        os.remove(to)
    ctr.add('transitions')
    ctr.add('printed')
    if not np.array_equal(F, keep):
        raise core.Disagreement('printing changed the data')
    if not text.splitlines()[0].endswith('transient response ' + name):
        raise core.Disagreement('the heading is %r' % text.splitlines()[0])
    tab = rows(text)
    if len(tab) != 9 or [int(x[0]) for x in tab] != list(range(1, 10)):
        raise core.Disagreement('the rows of the table are %s' % tab)
    ref = int(np.argmax(abs(F)))
    deg = np.angle(F, deg=True)
    if kind == 'four':
        if not close(after(text, 'DC component =  '), F[0].real):
            raise core.Disagreement('wrong DC: %r' % text[:200])
        if not close(after(text, 'distortion: '), 25.):
            raise core.Disagreement('wrong distortion: %r' % text[-80:])
        if not close(after(text, 'Normalization to f = '), f[ref]):
            raise core.Disagreement('wrong reference: %r' % text[:200])
        for k in range(1, 10):
            want = (f[k], abs(F[k]), abs(F[k]) / abs(F[ref]), deg[k], deg[k] - deg[ref])
            if not all(close(a, b) for a, b in zip(tab[k - 1][1:], want)):
                raise core.Disagreement('row %s, expected %s' % (tab[k - 1], want))
        return
    dB = 20 * np.log10(abs(F))
    norm = (uformat or 'NORM').upper() == 'NORM'
    off = dB[ref] if norm else 0.
    from ahkab import options
    if 'Window: %s\n' % options.WINDOWS_NAMES[(win or 'RECT').upper()] not in text:
        raise core.Disagreement('wrong window: %r' % text[:200])
    if norm and not (close(after(text, 'carrier at '), f[ref]) and close(after(text, 'Hz: magnitude '), dB[ref])):
        raise core.Disagreement('wrong reference: %r' % text[:300])
    if norm == ('carrier' not in text):
        raise core.Disagreement('wrong normalisation: %r' % text[:300])
    if not (close(after(text, 'Start Frequency: '), f[1]) and close(after(text, 'Stop Frequency: '), f[-1])):
        raise core.Disagreement('wrong limits: %r' % text[:300])
    if not close(after(text, 'DC component: mag = '), dB[0] - off, 1e-4):
        raise core.Disagreement('wrong DC: %r' % text[:300])
    if (thd is None) != ('distortion' not in text) or thd is not None and not close(after(text, 'distortion: '), 100 * thd):
        raise core.Disagreement('wrong distortion: %r' % text[-100:])
    for k in range(1, 10):
        want = (f[k], dB[k] - off, deg[k])
        if not all(close(a, b, 1e-4) for a, b in zip(tab[k - 1][1:], want)):
            raise core.Disagreement('row %s, expected %s' % (tab[k - 1], want))


# -- the directives -------------------------------------------------------------------------
NET = """title
V1 n1 0 type=sin vo=1 va=2 freq=10
R1 n1 n2 1
R2 n2 0 3
C1 n2 0 10m
.tran tstop=.45 tstep=.001
"""


def directive(case, ctr):
    """Each post-processing directive gives what the functions give for its arguments."""
    _, text, calls, toks = case
    ahkab = core.boot()
    from ahkab import fourier, printing
    import io
    if toks is None:
        with open('n.ckt', 'w') as fp:
            fp.write(NET + text + '\n.end\n')
        try:
            ahkab.main('n.ckt', outfile='n', verbose=0)
        except SystemExit as e:
            ctr.add('refused')
            if e.code:
                return
        except Exception:
            ctr.add('refused')
            return
        raise core.Disagreement('accepted')
    with open('n.ckt', 'w') as fp:
        fp.write(NET + text + '\n.end\n')
    so, sys.stdout = sys.stdout, io.StringIO()
    try:
        r = ahkab.main('n.ckt', outfile='n', verbose=0)['tran']
        out = sys.stdout.getvalue()
    finally:
        sys.stdout = so
    have = [out]
    if os.path.exists('n.lis'):
        with open('n.lis') as fp:
            have.append(fp.read())
        os.remove('n.lis')
    sys.stdout = io.StringIO()
    lis = None
    try:
        for kind, lab, kw in calls:
            kw = dict(kw)
            if kind == 'four':
                printing.print_fourier(lab, *fourier.fourier(lab, r, kw['fund']), outfile='stdout')
            else:
                u, w = kw.pop('uformat', 'NORM'), kw.get('window', 'RECT')
                printing.print_spicefft(lab, *fourier.spicefft(lab, r, **kw), uformat=u, window=w, outfile='ref.lis')
                with open('ref.lis') as fp:
                    lis = fp.read()
        want = [sys.stdout.getvalue()] + ([lis] if lis is not None else [])
    finally:
        sys.stdout = so
    ctr.add('transitions', len(calls))
    ctr.add('directives')
    strip = lambda l: [x.lower() for x in l]
    if strip(have) != strip(want):
        raise core.Disagreement('the directive gives %r, the functions %r' % (
            [h[:400] for h in have], [w[:400] for w in want]))
    ctr.seen('states', text)


def one(case, ctr):
    {'four': four, 'harm': harmonic, 'full': full, 'misc': misc, 'print': printed, 'dir': directive}[case[0]](case, ctr)
    ctr.sample({'case': repr(case)[:300]}, 2)


# -- enumeration ---------------------------------------------------------------------------
def comps(thorough):
    one_, two = [((1, 1., .3),)], []
    for dc in (0., 1.5, -.4):
        for k in range(2, 10):
            one_.append(((0, dc, 0.), (1, 2., -.7), (k, .5, 1.1)))
        one_.append(((0, dc, 0.), (1, 1., 2.)))
    for k, m in itertools.combinations(range(2, 10), 2):
        two.append(((0, .7, 0.), (1, .8, 1.), (k, 1.5, -.4), (m, .25, 2.2)))
    return one_ + two + [tuple([(0, .2, 0.)] + [(k, 1. / k, .37 * k * k) for k in range(1, 10)])]


ALL = ((0, .2, 0.),) + tuple((k, 1. / k, .37 * k * k) for k in range(1, 10))
NEG = tuple((k, -a, p) for k, a, p in ALL)
FORMS = [(), ('start',), ('stop',), ('from',), ('to',), ('start', 'stop'), ('from', 'to'), ('start', 'to'),
         ('from', 'stop'), ('start=None', 'stop=None'), ('from=None', 'to=None'), ('start=None', 'stop'),
         ('start', 'stop=None'), ('start=None', 'from', 'stop'), ('start', 'stop=None', 'to'),
         ('start=None', 'from', 'stop=None', 'to'), ('start', 'from=None', 'stop', 'to=None'), ('stop', 'start')]


def cases(thorough):
    C = comps(thorough)
    PS = (1, 1.5, 2, 2.5, 3, 4, 4.5, 7, 9.5, 10, 11, 20, 21.5, 30) + ((50, 100, 99.5) if thorough else ())
    FS = (1., 50., 1e3, 1 / 3., 7e5)

    def gen():
        for comp in C:
            for P in PS if thorough else (1, 2.5, 10):
                for f0 in FS if thorough else FS[1:2]:
                    yield ('four', comp, f0, P, 0, 'plain', True)
        for P in PS:
            for f0 in FS:
                for first in (0, 2.5, 10):
                    for label in LABELS:
                        for garbage in (True, False):
                            yield ('four', ALL, f0, P, first, label, garbage)
        for P in (.25, .5, .9):
            for f0 in FS:
                for first in (0, 2):
                    yield ('four', ALL, f0, P, first, 'plain', False)
        # harmonic analysis
        for comp in C:
            for P in PS if thorough else (1, 3.5, 10):
                yield ('harm', comp, 50., P, 0, (), (0, 0), None, (None, None), 'plain')
        for P in PS:
            for f0 in FS:
                for label in LABELS:
                    yield ('harm', ALL, f0, P, 2.5, (), (0, 0), None, (None, None), label)
                yield ('harm', NEG, f0, P, 0, (), (0, 0), None, (None, None), 'diff')
        for label in LABELS:
            for sign in (ALL, NEG):
                for form, ab in (((), (0, 4)), (('start', 'stop'), (1, 3)), (('from',), (.5, 4))):
                    for first in (0, .5, 1.25):
                        yield ('harm', sign, 50., 4, first, form, ab, None, (None, None), label)
                        yield ('four', sign, 50., 4, first, label, False)
                for n in (16, 64, None):
                    for form, ab in (((), (0, 1)), (('start', 'stop'), (.25, .75))):
                        yield ('full', sign, 0, form, ab, n, None, None, (None, None), label)
        spans = ((0, 3), (.5, 2.5), (1, 2), (1.25, 2.5), (2, 6), (.25, 6), (2, 2.5))
        for form in FORMS:
            for ab in spans:
                for f0 in FS:
                    for first in (0, 1.5):
                        yield ('harm', ALL, f0, 6, first, form, ab, None, (None, None), 'plain')
        LIM = (None, 0, .5, 1, 1.5, 2, 5, 8.5, 9, 9.5, 30)
        for lim in itertools.product(LIM, repeat=2):
            for f0 in FS:
                for P in (1, 3, 10):
                    yield ('harm', ALL, f0, P, 0, (), (0, 0), None, lim, 'plain')
        for win in ('RECT', 'BART', 'HANN', 'HAMM', 'BLACK', 'HARRIS', 'GAUSS', 'KAISER', 'rect', 'hann', 'Kaiser'):
            for P in (1, 2, 5, 5.5):
                for lim in ((None, None), (None, 5), (2, None)):
                    yield ('harm', ALL, 50., P, 0, (), (0, 0), win, lim, 'plain')
        # full transform
        for npts in (None, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512,
                     513, 1000, 1023, 1024, 1025, 2047, 2048):
            for win, alpha in ((None, None), ('HANN', None), ('GAUSS', 30.)):
                for form, ab in (((), (0, 1)), (('start', 'stop'), (.25, .75)), (('from', 'to'), (0, .5))):
                    yield ('full', ALL, 0, form, ab, npts, win, alpha, (None, None))
        for form in FORMS:
            for ab in ((0, .5), (.25, .75), (.5, 1), (.125, .625)):
                for m in (0, 3):
                    yield ('full', ALL, m, form, ab, 64, None, None, (None, None))
        for win in ('RECT', 'BART', 'HANN', 'HAMM', 'BLACK', 'HARRIS', 'GAUSS', 'KAISER', 'rect', 'gauss', 'hArris'):
            for alpha in (None, .5, 3., 8., 100):
                for n in (8, 64, None):
                    yield ('full', ALL, 0, (), (0, 1), n, win, alpha, (None, None))
        for lim in itertools.product((None, 0, .5, 1, 1.5, 3.5, 7, 30.5, 31, 31.5, 40), repeat=2):
            for n in (4, 8, 64):
                if all(x is None or x == 0 or x != int(x) for x in lim):
                    yield ('full', ALL, 0, (), (0, 1), n, None, None, lim)
        for w in ('', 'RECTANGULAR', 'HANNING', 'X', 'GAUSSIAN'):
            yield ('misc', (('window', w),))
            yield ('misc', (('window', w), ('freq', 10.)))
        for kw in ((('freq', .5),), (('freq', 10.), ('start', .95)), (('freq', 10.), ('to', .05))):
            yield ('misc', kw)
        # tables
        for comp in C:
            for label in LABELS:
                for to in (None, 'stdout', 'x.lis'):
                    yield ('print', 'four', comp, label, None, to)
        for comp in C if thorough else C[::4] + [ALL]:
            for label in ('plain', 'diff', 'one'):
                for form in itertools.product((None, .125), (None, 'NORM', 'UNORM', 'unorm', 'norm'),
                                              (None, 'RECT', 'hann', 'KAISER')):
                    for to in (None, 'x.lis'):
                        yield ('print', 'fft', comp, label, form, to)
        for d in directives(thorough):
            yield d
    return gen


def directives(thorough):
    labels = [('v(n1)', 'Vn1'), ('V(n2)', 'Vn2'), ('i(v1)', 'I(V1)'), ('v(n1,n2)', ('Vn1', 'Vn2')), ('v(n2,0)', 'Vn2')]
    for f, v in (('10', 10.), ('20', 20.), ('.01k', 10.), ('5', 5.)):
        for n in (1, 2, 3):
            for ls in itertools.permutations(labels, n):
                yield ('dir', '.four %s %s' % (f, ' '.join(l[0] for l in ls)),
                       tuple(('four', l[1], (('fund', v),)) for l in ls), 1)
    yield ('dir', '.four 10 v(n1) * comment', (('four', 'Vn1', (('fund', 10.),)),), 1)
    opts = [('start=.1', ('start', .1)), ('stop=.4', ('stop', .4)), ('from=.15', ('from', .15)), ('to=.35', ('to', .35)),
            ('np=64', ('np', 64)), ('format=unorm', ('uformat', 'unorm')), ('window=hann', ('window', 'hann')),
            ('freq=10', ('freq', 10.)), ('fmin=15', ('fmin', 15.)), ('fmax=61', ('fmax', 61.))]
    for n in range(len(opts) + 1):
        for sub in itertools.combinations(opts, n):
            k = [o[1][0] for o in sub]
            if 'start' in k and 'from' in k or 'stop' in k and 'to' in k:
                continue
            for rev in ((False, True) if n in (2, 3) else (False,)):
                s = sub[::-1] if rev else sub
                l = labels[n % len(labels)]
                yield ('dir', '.fft %s %s' % (l[0], ' '.join(o[0] for o in s)),
                       (('fft', l[1], tuple(o[1] for o in s)),), 1)
    for win in ('rect', 'bart', 'hann', 'hamm', 'black', 'harris', 'gauss', 'kaiser', 'GAUSS'):
        for a in ('', '2', '5'):
            for np_ in ('', '32'):
                kw = [('window', win)] + [('alpha', float(a or 0))] * bool(a) + [('np', 32)] * bool(np_)
                yield ('dir', '.fft v(n2) window=%s%s%s' % (win, ' alpha=' * bool(a) + a, ' np=' * bool(np_) + np_),
                       (('fft', 'Vn2', tuple(kw)),), 1)
    for a, b in itertools.permutations(('.four 10 v(n1)', '.fft v(n2) np=16', '.four 20 v(n2) i(v1)'), 2):
        calls = []
        for x in (a, b):
            calls += {'.four 10 v(n1)': [('four', 'Vn1', (('fund', 10.),))], '.fft v(n2) np=16': [('fft', 'Vn2', (('np', 16),))],
                      '.four 20 v(n2) i(v1)': [('four', 'Vn2', (('fund', 20.),)), ('four', 'I(V1)', (('fund', 20.),))]}[x]
        yield ('dir', a + '\n' + b, tuple(calls), 1)
    for t in ('.four', '.four 10 n1', '.four x v(n1)', '.four v(n1)', '.fft', '.fft np=64', '.fft v(n1) n=64',
              '.fft v(n1) start=x', '.fft v(n1) window=none', '.fft v(n1) format=x', '.fft v(n1) v(n2)',
              '.fft v(n1) np=64 np=32', '.four 10 v(zz)', '.fft v(zz)', '.fft n1', '.four .5 v(n1)'):
        yield ('dir', t, (), None)


def run(chk):
    chk.explore(one, cases(chk.thorough), limit=60)
    for name, n in (('four', 500), ('harmonic', 700), ('full', 500), ('printed', 500), ('directives', 300), ('refused', 50)):
        chk.require(name, n)
    chk.assumptions += [
        'data sampled finely enough that the resampling hits data points (the interpolation itself is not judged)',
        'spectra are judged up to one common real factor, the direct component as a transform gives it',
        'the distortion is not judged if the limits remove the fundamental']
    return chk.finish('states', 'transitions', 'states',
                      'all combinations of harmonics, periods, fundamentals, intervals, windows, limits and numbers of '
                      'points of a lattice; all option subsets of the directives')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
