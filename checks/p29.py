"""P29: each plot directive draws exactly the requested signals of the
requested analysis."""
import io
import itertools
import os
import re
import sys
import warnings

import numpy as np

from vlib import core

PID = 'P29'
NET = '''plots of a network
V1 a 0 vdc=1 vac=1 type=sin vo=.5 va=1 freq=1e3
R1 a n-1 1k
R2 n-1 b 2k
C1 b 0 1e-7
V2 c_2 0 vdc=3
L1 c_2 x.y 1e-3
R3 x.y 0 1k
'''
AN = {'tran': '.tran tstep=1e-5 tstop=3e-4', 'ac': '.ac start=10 stop=1e6 nsteps=12',
      'dc': '.dc v1 start=-1 stop=2 step=.5', 'pss': '.pss period=1e-3 points=12 method=brute-force'}
NODES = ['a', 'b', 'n-1', 'c_2', 'x.y']
PAIRS = [('a', 'b'), ('b', 'a'), ('n-1', 'b'), ('x.y', 'n-1'), ('a', '0'), ('0', 'a'), ('c_2', 'c_2'), ('0', '0'), ('zz', 'a'), ('a', 'zz')]
SINGLE = [('V', n) for n in NODES] + [('I', e) for e in ('v1', 'V2', 'L1')]
MISSING = [('V', 'zz'), ('I', 'r1'), ('I', 'zz'), ('V', 'n')]
MAGIC = {'png': b'\x89PNG', 'pdf': b'%PDF', 'svg': b'<?xml'}


def write(lab, style=0):
    k, n = lab[0], lab[1:]
    return (('%s(%s)' % (k, ','.join(n))), '%s( %s )' % (k.lower(), ' , '.join(n)),
            '%s (%s)' % (k, ', '.join(t.upper() for t in n)))[style % 3]


def signal(r, lab, an):
    """Candidate curves of a label, None for an unknown signal."""
    def one(k, n):
        if k == 'V' and n == '0':
            return np.zeros(np.shape(r.get_x()))
        nm = 'V' + n if k == 'V' else 'I(%s)' % n
        if nm.upper() not in [t.upper() for t in r.keys()] or nm.upper() == str(r.get_xlabel()).upper():
            return None
        return np.asarray(r[nm])
    d = [one(lab[0], n) for n in lab[1:]]
    if any(t is None for t in d):
        return None
    if len(d) == 1:
        return [np.abs(d[0]) if an == 'ac' else d[0]]
    if an == 'ac':
        return [np.abs(d[0]) - np.abs(d[1]), np.abs(d[0] - d[1])]
    return [d[0] - d[1]]


def same(a, b):
    a, b = np.asarray(a, dtype=complex).ravel(), np.asarray(b, dtype=complex).ravel()
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-15)


def figures(pylab):
    return [pylab.figure(n) for n in pylab.get_fignums()]


def judge_figure(fig, r, an, labels, what, ctr, title=None, log=None):
    """The curves of a figure are those of the labels."""
    want = [(l, signal(r, l, an)) for l in labels]
    want = [(l, s) for l, s in want if s is not None]
    if len(fig.axes) != 1:
        raise core.Disagreement('%s: %d axes in the figure' % (what, len(fig.axes)))
    ax = fig.axes[0]
    lines = list(ax.lines)
    if len(lines) != len(want):
        raise core.Disagreement('%s: %d curves for %d signals (%s)' % (
            what, len(lines), len(want), [l.get_label() for l in lines]))
    for l, cands in want:
        for line in lines:
            if same(line.get_xdata(orig=True), r.get_x()) and any(same(line.get_ydata(orig=True), c) for c in cands):
                t = line.get_label().upper()
                if an.upper() in t and all(n.upper() in t for n in l[1:] if n != '0'):
                    lines.remove(line)
                    break
        else:
            raise core.Disagreement('%s: no curve of %s among %s' % (what, l, [t.get_label() for t in lines]))
        ctr.add('curves')
    if title is not None and ax.get_title().upper() != title.upper():
        raise core.Disagreement('%s: the figure is headed %r' % (what, ax.get_title()))
    if str(r.get_xlabel()).upper() not in ax.get_xlabel().upper():
        raise core.Disagreement('%s: the abscissa %s is labelled %r' % (what, r.get_xlabel(), ax.get_xlabel()))
    if (ax.get_xscale() == 'log') != (an == 'ac') or ax.get_yscale() != 'linear':
        raise core.Disagreement('%s: the scales are %s and %s' % (what, ax.get_xscale(), ax.get_yscale()))
    lo, hi = sorted(ax.get_xlim())
    x = np.asarray(r.get_x(), dtype=float).ravel()
    if lo > x.min() + 1e-9 * abs(x).max() or hi < x.max() - 1e-9 * abs(x).max():
        raise core.Disagreement('%s: the figure shows %g to %g, the data reach from %g to %g' % (what, lo, hi, x.min(), x.max()))
    lo, hi = sorted(ax.get_ylim())
    for line in ax.lines:
        y = np.real(np.asarray(line.get_ydata(orig=True)))
        if y.min() < lo - 1e-9 * abs(lo) or y.max() > hi + 1e-9 * abs(hi):
            raise core.Disagreement('%s: part of %s is out of the figure' % (what, line.get_label()))
    if ax.get_legend() is None or len(ax.get_legend().get_texts()) != len(ax.lines):
        raise core.Disagreement('%s: the legend does not name the curves' % what)


_cache = {}


def world():
    """The results of the network, once for each process."""
    ahkab = core.boot()
    warnings.simplefilter('ignore')
    import pylab
    if 'w' not in _cache:
        with open('net.cir', 'w') as f:
            f.write(NET + '\n'.join(AN.values()) + '\n')
        so, sys.stdout = sys.stdout, io.StringIO()
        try:
            r = ahkab.main('net.cir', outfile='net', verbose=0)
        finally:
            sys.stdout = so
        if set(r) < set(AN):
            raise core.Disagreement('the analyses gave %s' % sorted(r))
        _cache['w'] = r
    pylab.close('all')
    return ahkab, pylab, _cache['w']


def clean():
    for f in os.listdir('.'):
        if f.startswith('plt'):
            os.remove(f)


def files(n, kind, what):
    got = sorted(f for f in os.listdir('.') if f.startswith('plt'))
    if len(got) != n or any(not f.endswith('.' + kind) for f in got):
        raise core.Disagreement('%s: %d figures, the files %s' % (what, n, got))
    for f in got:
        with open(f, 'rb') as fp:
            if not fp.read(16).startswith(MAGIC[kind]):
                raise core.Disagreement('%s: %s is no %s file' % (what, f, kind))


def contents(r):
    return dict((n, (list(v.keys()), np.array(v.asarray()).copy())) for n, v in r.items())


def unchanged(a, b):
    return a.keys() == b.keys() and all(a[k][0] == b[k][0] and np.array_equal(a[k][1], b[k][1]) for k in a)


def directive(case, ctr):
    """A list of directives on given results."""
    dirs, kind, fast = case
    ahkab, pylab, R = world()
    from ahkab import netlist_parser, options, plotting
    import ahkab.ahkab as main
    clean()
    text = []
    todo = []
    for an, labels, style in dirs:
        text.append('.plot %s %s' % (an, ' '.join(write(l, style) for l in labels)))
        if an in R and any(signal(R[an], l, an) is not None for l in labels):
            todo.append((an, labels))
    before = contents(R)
    old, save = options.plotting_outtype, plotting.save_figure
    options.plotting_outtype = kind
    saved = []
    if fast:
        plotting.save_figure = lambda f, fig=None: saved.append(f)
    so, sys.stdout = sys.stdout, io.StringIO()
    try:
        pp = netlist_parser.parse_postproc(None, [(t.lower(), 1) for t in text])
        main.process_postproc(pp, 'The heading', R, 'plt')
    finally:
        sys.stdout = so
        options.plotting_outtype, plotting.save_figure = old, save
    figs = figures(pylab)
    what = ' / '.join(text)
    if len(figs) != len(todo):
        raise core.Disagreement('%s: %d figures for %d plots' % (what, len(figs), len(todo)))
    for f, (an, labels) in zip(figs, todo):
        judge_figure(f, R[an], an, labels, what, ctr, 'The heading')
        ctr.seen('analyses', an)
    if fast:
        if len(set(saved)) != len(todo) or any(not s.endswith('.' + kind) for s in saved):
            raise core.Disagreement('%s: the files %s' % (what, saved))
    else:
        files(len(todo), kind, what)
        ctr.add('files', len(todo))
    if not unchanged(before, contents(R)):
        raise core.Disagreement('%s: plotting changed the results' % what)
    ctr.add('directives', len(dirs))
    ctr.add('transitions', len(dirs))
    ctr.seen('states', what)


def script(case, ctr):
    """plot_results() with names of the result set."""
    an, pairs, out = case
    ahkab, pylab, R = world()
    from ahkab import options, plotting
    clean()
    r = R[an]

    def data(n):
        if n[:1] == '|':
            return None if data(n[1:-1]) is None else np.abs(data(n[1:-1]))
        if n[:4] == 'arg(':
            return None if data(n[4:-1]) is None else np.angle(data(n[4:-1]), deg=options.ac_phase_in_deg)
        return np.asarray(r[n]) if n.upper() in [t.upper() for t in r.keys()] else None
    want = []
    for p, q in pairs:
        d = data(p), (data(q) if q else 0.)
        if d[0] is not None and d[1] is not None:
            want.append((p, q, d[0] - d[1]))
    before = contents(R)
    so, sys.stdout = sys.stdout, io.StringIO()
    try:
        plotting.plot_results('heading', list(pairs), r, 'plt.png' if out else None)
    finally:
        sys.stdout = so
    what = 'plot_results(%s, %s)' % (list(pairs), an)
    figs = figures(pylab)
    if len(figs) != bool(want):
        raise core.Disagreement('%s: %d figures' % (what, len(figs)))
    if want:
        lines = list(figs[0].axes[0].lines)
        if len(lines) != len(want):
            raise core.Disagreement('%s: %d curves for %d signals' % (what, len(lines), len(want)))
        for (p, q, d), line in zip(want, lines):
            if not same(line.get_ydata(orig=True), d) or not same(line.get_xdata(orig=True), r.get_x()):
                raise core.Disagreement('%s: the curve of %s is wrong' % (what, (p, q)))
            if p not in line.get_label() or q and q not in line.get_label():
                raise core.Disagreement('%s: the curve of %s is called %r' % (what, (p, q), line.get_label()))
            ctr.add('curves')
    files(1 if want and out else 0, 'png', what)
    if not unchanged(before, contents(R)):
        raise core.Disagreement('%s: plotting changed the results' % what)
    ctr.add('scripts')
    ctr.add('transitions')
    ctr.seen('states', case)


N = r'[^\s,()]+'
WELL = re.compile(r'\s*((v\s*\(\s*%s\s*(,\s*%s\s*)?\)|i\s*\(\s*%s\s*\))\s*)+$' % (N, N, N))


def texts(case, ctr):
    """Every text over an alphabet as the labels of a directive."""
    head, alpha, length = case
    core.boot()
    from ahkab import netlist_parser, printing
    printing.print_general_error = printing.print_parse_error = lambda *a, **k: None
    for n in range(length + 1):
        for t in itertools.product(alpha, repeat=n):
            s = head + ''.join(t)
            d = re.sub(r'\([^()]*\)', '', s)
            if ',' in d:
                continue                # separators between labels: not judged
            try:
                got = netlist_parser.parse_postproc(None, [('.plot tran ' + s, 1)])
                ok = True
            except netlist_parser.NetlistParseError:
                ok = False
            if ok != bool(WELL.match(s)):
                raise core.Disagreement('.plot tran %s is %s' % (s, 'accepted' if ok else 'refused'))
            ctr.add('texts')
            ctr.add('accepted' if ok else 'refused')
    ctr.add('transitions')
    ctr.seen('states', case)


def program(case, ctr):
    """Complete netlists through main()."""
    ans, dirs, out = case
    ahkab, pylab, _ = world()
    clean()
    with open('prog.cir', 'w') as f:
        f.write(NET + '\n'.join([AN[a] for a in ans] + ['.plot %s %s' % (an, ' '.join(write(l, k) for l in labels))
                                                        for an, labels, k in dirs]) + '\n')
    so, sys.stdout = sys.stdout, io.StringIO()
    try:
        R = ahkab.main('prog.cir', outfile=out, verbose=0)
    finally:
        sys.stdout = so
    what = '%s then %s' % (ans, [d[:2] for d in dirs])
    todo = [(an, l) for an, l, k in dirs if an in R and any(signal(R[an], t, an) is not None for t in l)]
    if out == 'stdout':
        todo = []
    figs = figures(pylab)
    if len(figs) != len(todo):
        raise core.Disagreement('%s: %d figures for %d plots' % (what, len(figs), len(todo)))
    for f, (an, labels) in zip(figs, todo):
        judge_figure(f, R[an], an, labels, what, ctr, 'plots of a network')
    if out != 'stdout':
        got = [f for f in os.listdir('.') if f.startswith('plt') and f.endswith('.png')]
        if len(got) != len(todo):
            raise core.Disagreement('%s: the files %s' % (what, got))
    ctr.add('programs')
    ctr.add('transitions', len(dirs))
    ctr.seen('states', case)


def do(case, ctr):
    {'dir': directive, 'script': script, 'text': texts, 'prog': program}[case[0]](case[1], ctr)


def cases(th):
    labels = SINGLE + [('V',) + p for p in PAIRS] + MISSING
    for an in sorted(AN):
        for k, l in enumerate(labels):
            for st in range(3):
                yield 'dir', (((an, (l,), st),), 'png', st > 0)
        for k, (p, q) in enumerate(itertools.product(labels, repeat=2)):
            if th or an == 'tran' or k % 7 == 0:
                yield 'dir', (((an, (p, q), k),), 'png', True)
        if th:
            for k, t in enumerate(itertools.product(labels[::2], repeat=3)):
                yield 'dir', (((an, t, k),), 'png', True)
    short = [(an, (l,), 0) for an in sorted(AN) + ['none'][:0] for l in (SINGLE[1], ('V', 'b', 'n-1'), MISSING[0])]
    for t in itertools.product(short, repeat=2):
        yield 'dir', (t, 'svg', False)
    for kind in ('pdf', 'svg'):
        yield 'dir', (tuple(short[:3]), kind, False)
    names = {'tran': ['Va', 'VN-1', 'I(V1)', '|Vb|', 'Vzz', 'arg(Va)'], 'dc': ['Va', 'VN-1', 'I(V1)', '|Vb|', 'Vzz'],
             'ac': ['|Va|', 'arg(Va)', '|I(V1)|', 'arg(I(L1))', '|Vzz|', 'Vb'], 'pss': ['Va', 'VB', 'I(L1)', 'Vzz']}
    for an, nn in sorted(names.items()):
        one = [(p, q) for p in nn for q in [None, ''] + nn]
        for p in one:
            yield 'script', (an, (p,), True)
            yield 'script', (an, (p,), False)
        for k, t in enumerate(itertools.product(one, repeat=2)):
            if th or k % 11 == 0:
                yield 'script', (an, t, False)
    alpha = 'vi(),a '
    for h in itertools.product(alpha, repeat=2):
        yield 'text', (''.join(h), alpha, 6 if th else 4)
    for h in ('v(a)', 'v(a,b)', 'i(a)', 'v(a', 'v(a,', 'i(v(', 'v(n-1)', 'v(a) '):
        yield 'text', (h, alpha, 5 if th else 4)
    ans = sorted(AN)
    for n in range(1, 5):
        for sub in itertools.combinations(ans, n):
            for k, an in enumerate(ans):
                yield 'prog', (sub, ((an, (('V', 'b'), ('I', 'v1')), k),), 'plt')
    for sub in itertools.permutations(ans, 2):
        for a, b in itertools.product(sub, repeat=2):
            yield 'prog', (sub, ((a, (('V', 'a', 'n-1'), ('V', 'zz')), 0), (b, (('I', 'L1'),), 1)), 'plt')
    yield 'prog', (('dc', 'ac'), (('ac', (('V', 'a'),), 0), ('dc', (('V', 'b'),), 0)), 'stdout')


def run(chk):
    chk.explore(do, list(cases(chk.thorough)), limit=120)
    for n, k in (('curves', 1000), ('files', 100), ('directives', 1000), ('scripts', 100), ('texts', 50000), ('accepted', 200),
                 ('programs', 80), ('analyses', 4)):
        chk.require(n, k)
    chk.assumptions += [
        'the order of the curves and their style are not judged; V(n1,n2) of an AC analysis may be drawn as the '
        'difference of the magnitudes (as its legend says) or as the magnitude of the difference',
        'commas between labels are not judged; the drawing itself is done by matplotlib']
    return chk.finish('states', 'transitions', 'directives',
                      'every label in three spellings, every pair (thorough: triple) of labels for each analysis, pairs of '
                      'directives, three file formats, every pair of names in the script interface, every text of up to six '
                      '(thorough: eight) characters over the label alphabet, every subset of analyses with every directive')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
