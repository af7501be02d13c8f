"""P06: whatever sequence of convergence outcomes occurs, the reported solution
converged with the complete circuit and unscaled sources.

The Newton solver is replaced by a scripted one; the decision tree of its
outcomes is explored completely (stateless, depth first) on the real strategy
code, for every combination of enabled strategies."""
import itertools
import sys

import numpy as np

from vlib import core

PID = 'P06'
KINDS = ('fail', 'singular', 'overflow', 'nan')


class Runaway(Exception):
    pass


class Tree(object):
    """One execution following a prefix of choices; defaults to 0 (converge)."""

    def __init__(self, prefix, nkinds, limit):
        self.prefix, self.nk, self.limit = prefix, nkinds, limit
        self.trace = []
        self.calls = []       # (mna, T, x0, verdict, x)

    def choose(self):
        i = len(self.trace)
        if i >= self.limit:
            raise Runaway()
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append(c)
        return c

    def solver(self, x, mna, circ, T, MAXIT, nv, locked_nodes, time=None, *a, **kw):
        c = self.choose()
        k = len(self.calls)
        out = np.full((mna.shape[0], 1), 1e-7 * (k + 1)) + self.base
        self.calls.append((np.array(mna), np.array(T, dtype=float).reshape(-1), c, out))
        if c == 0:
            return out, np.full((mna.shape[0], 1), 1e-9), True, 2, [[], []]
        kind = KINDS[c - 1]
        if kind == 'singular':
            raise np.linalg.LinAlgError('Singular matrix')
        if kind == 'overflow':
            raise OverflowError('math range error')
        if kind == 'nan':
            return np.full((mna.shape[0], 1), float('nan')), np.full((mna.shape[0], 1), float('nan')), \
                False, MAXIT, [[], []]
        return out, np.full((mna.shape[0], 1), 1.), False, MAXIT, [[], []]


def circ_of(ahkab, which):
    c = ahkab.Circuit('t')
    c.add_vsource('V1', 'a', '0', 2.)
    c.add_resistor('R1', 'a', 'b', 3.)
    c.add_resistor('R2', 'b', '0', 7.)
    c.add_isource('I1', 'b', '0', .5)
    if which == 'nl':
        c.add_model('diode', 'dm', dict(name='dm'))
        c.add_diode('D1', 'b', '0', 'dm')
    if which == 'tr':
        c.add_capacitor('C1', 'b', '0', 1.)
        c.add_vsource('V2', 'c', '0', 1., function=lambda t: 4. + t)
        c.add_resistor('R3', 'c', 'b', 2.)
    return c


def classify(call, mna, N, gmins):
    """Is the system of this call the complete one?"""
    nn = GNODES[0]
    M, T, c, x = call
    if not np.allclose(T, N, rtol=1e-12, atol=1e-15):
        return 'sources %s instead of %s' % (T, N)
    D = M - mna
    off = D - np.diag(np.diag(D))
    if np.abs(off).max() > 1e-15:
        return 'a different circuit matrix'
    d = np.diag(D)
    for g in gmins:
        if np.abs(d[:nn] - g).max() <= 1e-9 * g + 1e-16 and (len(d) == nn or np.abs(d[nn:]).max() == 0):
            return None
    return 'conductances to ground %s' % (d[:nn],)


GNODES = [0]
CACHE = {}


def method(call, mna, N, gmins):
    """Which strategy made this attempt (the last step of the stepping
    methods is the complete circuit too)?"""
    key = (call[0].tobytes(), call[1].tobytes(), mna.tobytes(), N.tobytes(), tuple(gmins), GNODES[0])
    if key not in CACHE:
        if len(CACHE) > 5000:
            CACHE.clear()
        bad = classify(call, mna, N, gmins)
        CACHE[key] = 'standard' if bad is None else 'source' if bad.startswith('sources') else 'gmin'
    return CACHE[key]


def one(case, ctr):
    cfg, prefix0 = case
    target, opts, gmin, nk = cfg
    ahkab = core.boot()
    from ahkab import dc_analysis, options, utilities, transient
    which = {'solve_t': 'tr', 'tran': 'tr'}.get(target, 'nl')
    c = circ_of(ahkab, which)
    nn = GNODES[0] = c.get_nodes_number() - 1
    mna, N = dc_analysis.generate_mna_and_N(c, verbose=0)
    mna = utilities.remove_row_and_col(mna)
    N = utilities.remove_row(N, rrow=0)
    Nf = np.array(N, dtype=float).reshape(-1)
    if which == 'tr':
        tt = np.zeros(len(Nf))
        # branch currents follow the order V1, V2
        tt[nn + 1] = -(4. + .5)
        Ntran = np.array([[.1 * (k + 1)] for k in range(len(Nf))])
    saved = {k: getattr(options, k) for k in ('use_standard_solve_method', 'use_gmin_stepping',
                                              'use_source_stepping', 'gmin')}
    real = dc_analysis.mdn_solver
    stack = [tuple(prefix0)]
    try:
        (options.use_standard_solve_method, options.use_gmin_stepping,
         options.use_source_stepping) = opts
        options.gmin = gmin
        while stack:
            prefix = stack.pop()
            t = Tree(prefix, nk, 120)
            t.base = .3
            dc_analysis.mdn_solver = t.solver
            res = op = None
            try:
                if target == 'solve':
                    G = dc_analysis.build_gmin_matrix(c, gmin, mna.shape[0], 0)
                    res = dc_analysis.dc_solve(mna, N, c, Gmin=G, verbose=0)
                elif target == 'solve0':
                    res = dc_analysis.dc_solve(mna, N, c, x0=np.ones((mna.shape[0], 1)), verbose=0)
                elif target == 'solve_t':
                    res = dc_analysis.dc_solve(mna, N, c, Ntran=Ntran, time=.5, verbose=0)
                elif target == 'op':
                    op = dc_analysis.op_analysis(c, outfile='op', verbose=0)
                elif target == 'opguess':
                    op = dc_analysis.op_analysis(c, guess=False, x0=np.ones((mna.shape[0], 1)),
                                                 outfile='op', verbose=0)
            except Runaway:
                raise core.Disagreement('%s %s: more than 120 attempts with outcomes %s' % (
                    target, opts, t.trace[:40]))
            finally:
                dc_analysis.mdn_solver = real
            if len(t.trace) < len(prefix0) and any(prefix0[len(t.trace):]):
                continue            # this part of the tree is empty
            ctr.add('executions')
            ctr.add('transitions', len(t.calls))
            ctr.seen('states', (cfg, t.trace))
            what = '%s, enabled (standard, gmin, source) = %s, outcomes %s' % (target, opts, t.trace)
            oks = [k for k, cl in enumerate(t.calls) if cl[2] == 0]
            want = Nf if which == 'nl' else Nf + tt + Ntran.reshape(-1)
            gl = {'solve': [gmin], 'solve0': [0.], 'solve_t': [0.]}.get(target, [0., gmin])
            tried = [method(cl, mna, want, gl) for cl in t.calls]
            for name, on in zip(('standard', 'gmin', 'source'), opts):
                used = (tried[:1] == ['standard']) if name == 'standard' else (name in tried)
                if used and not on:
                    raise core.Disagreement('%s: the %s method is switched off but was used' % (what, name))
                if target.startswith('solve') and on and not used and not res[2]:
                    raise core.Disagreement('%s: no solution is reported although the %s method was '
                                            'not tried' % (what, name))
            if target.startswith('solve'):
                x, err, conv, it = res
                gm = [gmin] if target == 'solve' else [0.]
                if conv:
                    ctr.add('solutions')
                    j = [k for k in oks if np.array_equal(t.calls[k][3], x)]
                    if not j:
                        raise core.Disagreement('%s: the reported solution is not one that converged' % what)
                    bad = classify(t.calls[j[0]], mna, want, gm)
                    if bad:
                        raise core.Disagreement('%s: the reported solution converged with %s' % (what, bad))
                else:
                    ctr.add('none')
                    if x is not None:
                        raise core.Disagreement('%s: not converged but a solution is returned' % what)
                    if not any(t.trace):
                        raise core.Disagreement('%s: every attempt converged, yet no solution is reported' % what)
            else:
                full = [k for k in oks if classify(t.calls[k], mna, Nf, [0., gmin]) is None]
                if op is None:
                    ctr.add('none')
                    if not any(t.trace):
                        raise core.Disagreement('%s: every attempt converged, yet no solution is reported' % what)
                else:
                    ctr.add('solutions')
                    got = op.asarray().reshape(-1)
                    j = [k for k in oks if np.allclose(t.calls[k][3].reshape(-1), got, rtol=0, atol=1e-12)]
                    if not j:
                        raise core.Disagreement('%s: the reported solution is not one that converged' % what)
                    if not [k for k in j if k in full]:
                        raise core.Disagreement('%s: the reported solution converged with %s' % (
                            what, classify(t.calls[j[-1]], mna, Nf, [0., gmin])))
            # branch on every choice not fixed by the prefix
            for i in range(len(prefix), len(t.trace)):
                if t.trace[i] == 0:
                    for alt in (nk if isinstance(nk, tuple) else range(1, nk + 1)):
                        stack.append(tuple(t.trace[:i]) + (alt,))
    finally:
        dc_analysis.mdn_solver = real
        for k, v in saved.items():
            setattr(options, k, v)
    ctr.sample({'config': str(cfg)}, 2)


def run(chk):
    cs = []
    for opts in itertools.product((True, False), repeat=3):
        if not any(opts):
            continue
        for gmin in (1e-12, 1e-9, 1e-3, 0.):
            for target in ('solve', 'solve0', 'solve_t'):
                cs.append(((target, opts, gmin, 4), ()))
            for target in ('op', 'opguess'):
                # one way of failing per execution; all mixtures in the thorough run
                for kind in (1, 2, 3, 4):
                    if chk.thorough or kind == 1 or (target == 'op' and gmin == 1e-12):
                        cs.append(((target, opts, gmin, (kind,)), ()))
                if chk.thorough and target == 'op' and gmin in (1e-12, 1e-3):
                    for first in itertools.product((0, 1, 2), repeat=5):
                        cs.append(((target, opts, gmin, 2), first))
    cs.sort(key=lambda q: (len(q[1]) > 0, -sum(q[0][1]), str(q)))
    chk.explore(one, cs, limit=800, keyfn=repr)
    chk.require('executions', 5000)
    chk.require('solutions', 2000)
    chk.require('none', 500)
    chk.assumptions += ['the Newton iteration is scripted: it converges, does not converge, diverges to '
                        'NaN, meets a singular matrix or overflows']
    return chk.finish('states', 'transitions', 'executions',
                      'the complete tree of Newton outcomes (each call converges or fails in one of the '
                      'listed ways) of the solution strategies, for every combination of enabled '
                      'strategies and four minimum conductances')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
