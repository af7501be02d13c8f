"""P19: data files round-trip, in whole or in part (all write/append histories
and all selections of signals, first sample and number of samples)."""
import itertools
import os
import sys

import numpy as np

from vlib import core

PID = 'P19'

NAN, INF = float('nan'), float('inf')
# values whose text form is delicate: all must come back bit for bit
POOL = [0., -0., 1., -1., .1, 1. / 3, -2. / 3, np.pi, 1e-300, 5e-324, 1.7976931348623157e308,
        -2.2250738585072014e-308, 1e22, 123456789.123456789, -1e-17, 1 + 2.0 ** -52, 1 - 2.0 ** -53, INF, -INF,
        NAN, 6.02214076e23, 1e15 + .3, -9007199254740993., 4.35, 2.675, 1e-5, .7, 3.]
NAMES = {1: ['T'], 2: ['T', 'Va'], 3: ['T', 'Va', 'I(V1)'], 4: ['f', '|Va|', 'arg(Va)', 'Va1']}
PREFIX = {1: ['Va'], 2: ['Va', 'Vaa'], 3: ['V1', 'V10', 'V'], 4: ['I(V1)', 'V1', 'I(V10)', '1']}
ACCENT = {1: ['V\u00e9'], 2: ['V\u03a9', 'T'], 3: ['\u00f6', 'V\u4e2d', 'x'], 4: ['a', '\u00e0', '\u00c8', 'd']}
SETS = {'names': NAMES, 'prefix': PREFIX, 'accent': ACCENT}


def table(rows, cols, seed):
    n = len(POOL)
    return np.array([[POOL[(seed + 7 * i + 3 * j + i * j) % n] for j in range(cols)] for i in range(rows)],
                    dtype=float).reshape(rows, cols)


def identical(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and a.tobytes() == b.tobytes() or (
        a.shape == b.shape and np.array_equal(np.isnan(a), np.isnan(b)) and
        np.where(np.isnan(a), 0., a).tobytes() == np.where(np.isnan(b), 0., b).tobytes())


def write(csvlib, fn, how, names, hist, seed):
    """Carry out a history of writes; returns the table the file should have."""
    full = table(len(names), sum(hist), seed)
    k = 0
    if how == 'stale':           # something else was there before
        csvlib.write_csv(fn, table(len(names) + 1, 9, 5), ['z%d' % i for i in range(len(names) + 1)])
    if how == 'headers':
        h = list(names)
        csvlib.write_headers(fn, h)
        if h != list(names):
            raise core.Disagreement('write_headers changed the list of names it was given: %s' % h)
    for n, m in enumerate(hist):
        part = full[:, k:k + m]
        if how == 'fortran':
            part = np.asfortranarray(part)
        keep, kn = part.copy(), list(names)
        csvlib.write_csv(fn, part, kn, append=(n > 0 or how == 'headers'))
        if not identical(part, keep) or kn != list(names):
            raise core.Disagreement('writing changed its arguments')
        k += m
    return full


def one(case, ctr):
    kind, nset, sep, how, hist, seed, deep = case
    ahkab = core.boot()
    from ahkab import csvlib
    fn = 'data.csv'
    if os.path.exists(fn):
        os.remove(fn)
    old = csvlib.SEPARATOR
    csvlib.SEPARATOR = sep
    try:
        names = SETS[nset][kind]
        full = write(csvlib, fn, how, names, hist, seed)
        total = full.shape[1]
        ctr.add('files')
        ctr.seen('states', (kind, nset, sep, how, hist, seed))
        if csvlib.get_headers(fn) != names:
            raise core.Disagreement('headers %s, written as %s' % (csvlib.get_headers(fn), names))
        sels = [None, []]
        for k in range(1, kind + 1):
            sels += [list(s) for s in itertools.permutations(names, k)]
        sels += [[names[-1], names[-1]], [names[0], names[-1], names[0]]]
        if not deep:
            sels = sels[:3] + sels[3::3]
        for q, sel in enumerate(sels):
            for skip in range(total + 2):
                for ns in [None] + list(range(total + 2)):
                    if not deep and (skip + (ns or 0) + q) % 3 and not (skip == 0 and ns is None):
                        continue
                    s = sel
                    if s and (skip + q) % 2:
                        s = [x.upper() if q % 2 else x.lower() for x in s]
                        if len({n.lower() for n in names}) < len(names):
                            s = sel
                    load(csvlib, fn, names, full, s, skip, ns, ctr)
        # names that are not there
        for bad in ('nobody', 'V', names[0] + '_', names[-1][:-1], ''):
            if bad.lower() in [n.lower() for n in names]:
                continue
            for s in ([bad], [names[0], bad], [bad, names[-1]]):
                try:
                    r = csvlib.load_csv(fn, load_headers=s, verbose=0)
                except ValueError:
                    ctr.add('refused')
                    continue
                raise core.Disagreement('loading %s, of %s, gives %s' % (s, names, r[1]))
    finally:
        csvlib.SEPARATOR = old


def load(csvlib, fn, names, full, sel, skip, ns, ctr):
    total = full.shape[1]
    arg = None if sel is None else list(sel)
    kw = {}
    if skip:
        kw['skip'] = skip
    if ns is not None:
        kw['nsamples'] = ns
    data, heads, pos, eof = csvlib.load_csv(fn, load_headers=arg, verbose=0, **kw)
    ctr.add('transitions')
    low = [n.lower() for n in names]
    idx = [low.index(s.lower()) for s in sel] if sel else list(range(len(names)))
    end = total if ns is None else min(total, skip + ns)
    want = full[idx, skip:max(end, skip)]
    what = 'signals %s, from sample %d, %s samples, of %d' % (sel, skip, ns, total)
    if heads != [names[i] for i in idx]:
        raise core.Disagreement('%s: the names are %s' % (what, heads))
    if not identical(data, want):
        raise core.Disagreement('%s: %s, expected %s' % (what, np.array(data).tolist(), want.tolist()))
    if pos != skip + want.shape[1] and skip <= total:
        raise core.Disagreement('%s: reading stopped at %s, expected %d' % (what, pos, skip + want.shape[1]))
    if bool(eof) != (skip + want.shape[1] >= total):
        raise core.Disagreement('%s: end of file %s, expected %s' % (what, eof, skip + want.shape[1] >= total))
    ctr.add('loads')
    if sel and arg != list(sel):
        raise core.Disagreement('the list of names was changed')


def chain_one(case, ctr):
    """Read a growing file piece by piece: every way to alternate appends and
    reads of up to k samples, each read starting where the last one stopped."""
    _, acts = case
    ahkab = core.boot()
    from ahkab import csvlib
    fn = 'grow.csv'
    names = ['T', 'Va']
    total, pos, got = 0, 0, np.zeros((2, 0))
    full = table(2, 40, 3)
    started = False
    for a in acts:
        if a[0] == 'w':
            csvlib.write_csv(fn, full[:, total:total + a[1]], names, append=started)
            started = True
            total += a[1]
        elif started:
            data, heads, pos, eof = csvlib.load_csv(fn, load_headers=None, nsamples=a[1], skip=pos, verbose=0)
            got = np.hstack((got, data))
            ctr.add('transitions')
            want = full[:, :min(total, got.shape[1])]
            if not identical(got, want) or pos != got.shape[1]:
                raise core.Disagreement('after %s: read %s up to %s, the file has %s'
                                        % (acts, got.tolist(), pos, full[:, :total].tolist()))
            if bool(eof) != (pos == total):
                raise core.Disagreement('end of file %s at %d of %d' % (eof, pos, total))
            ctr.add('chained')


def all_(case, ctr):
    (chain_one if case[0] == 'chain' else one)(case, ctr)


def cases(thorough):
    N = 6 if thorough else 4

    def comps(n):
        """All ordered splits of n samples."""
        if n == 0:
            yield ()
        for f in range(1, n + 1):
            for r in comps(n - f):
                yield (f,) + r

    def gen():
        seed = 0
        for kind in (1, 2, 3, 4):
            for n in range(1, N + 1):
                for hist in comps(n):
                    for nset in ('names', 'prefix', 'accent'):
                        for sep in ('\t', ',', ';') if nset == 'names' else ('\t',):
                            for how in ('plain', 'stale', 'headers', 'fortran'):
                                seed += 1
                                yield (kind, nset, sep, how, hist, seed, thorough or (kind < 4 and n < 4))
        for i in range(len(POOL)):
            yield (3, 'names', '\t', 'plain', (2, 3), i, False)
        acts = [('w', 1), ('w', 3), ('r', 1), ('r', 2), ('r', None)]
        for k in range(2, (8 if thorough else 6)):
            for s in itertools.product(acts, repeat=k - 1):
                yield ('chain', (('w', 2),) + s)
    return gen


def key(case):
    return repr(case)


def run(chk):
    chk.explore(all_, cases(chk.thorough), limit=60, keyfn=key)
    chk.require('files', 400)
    chk.require('loads', 10000)
    chk.require('refused', 1000)
    chk.require('chained', 500)
    chk.assumptions += [
        'not-a-number is not compared bit for bit', 'signal names have no blanks, separators or # and do not '
        'differ in letter case alone', 'reading from past the end of the file: the position is not judged']
    return chk.finish('states', 'transitions', 'loads',
                      'all ordered splits of up to 4 (thorough 6) samples of 1..4 signals into writes and appends x '
                      'selections (all permutations of subsets, repeated names) x first sample x number of samples; '
                      'all alternations of appends and incremental reads up to 5 (7) steps')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
