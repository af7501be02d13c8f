"""P05: adaptive time stepping under every sequence of per-step outcomes.

The solver of one time step is replaced by a scripted one; the real time loop
runs on top of it.  A reference controller knows which trial points must have
been accepted; everything else is an invariant of the observed calls."""
import itertools
import sys

import numpy as np

from vlib import core

PID = 'P05'
# outcomes: G exact prediction, F solver failure, B/C large error in the
# first/last unknown


class Script(object):
    def __init__(self, script, start, t0, n, method, apost, ahkab):
        self.script, self.start = script, start
        self.calls = []                 # (time, outcome, x)
        self.acc = [(t0, None)]         # accepted (time, x)
        self.n, self.method, self.apost = n, method, apost
        self.pending = None             # (time, x, must be accepted)
        self.errors = []
        self.steps = []

    def need(self):
        return 2 if self.method == 'IMPLICIT_EULER' else 3

    def settle(self):
        """The verdict on the previous solved trial is fixed by its outcome."""
        if self.pending is not None:
            t, x, ok = self.pending
            if ok:
                self.acc.append((t, x))
            self.pending = None

    def predict(self, t):
        pts = self.acc[-self.need():]
        if len(pts) < self.need():
            return None
        out = np.zeros((self.n, 1))
        for (ti, xi) in pts:            # Lagrange
            w = 1.
            for (tj, _) in pts:
                if tj != ti:
                    w *= (t - tj) / (ti - tj)
            out += w * xi
        return out

    def ratio(self, t):
        h = t - self.acc[-1][0]
        if self.method == 'IMPLICIT_EULER':
            hp = h + self.acc[-1][0] - self.acc[-2][0]
            return min(h / (h + hp), 1. / (1. + hp))
        a, b = t - self.acc[-2][0], t - self.acc[-3][0]
        return h ** 3 / 12. / (h * a * b / 6. + h ** 3 / 12.)

    def __call__(self, mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None, **kw):
        self.settle()
        k = len(self.calls)
        t, last = float(time), self.acc[-1][0]
        if self.acc[0][1] is None:
            self.acc[0] = (last, np.array(self.x_init))
        if not t > last:
            self.errors.append('attempt %d at t=%r does not advance beyond the accepted t=%r' % (k, t, last))
            raise StopRun()
        if self.calls and self.calls[-1][1] != 'ok' and not t < self.calls[-1][0]:
            self.errors.append('after a failed or rejected attempt at t=%r the next one is at t=%r: '
                               'the step was not reduced' % (self.calls[-1][0], t))
            raise StopRun()
        self.steps.append((t - last, last, t))
        if len(self.calls) > 4000:
            self.errors.append('more than 4000 attempts')
            raise StopRun()
        i = k - self.start
        o = self.script[i] if 0 <= i < len(self.script) else 'G'
        if o == 'F':
            self.calls.append((t, 'F', None))
            return None, None, False, 5
        pred = self.predict(t)
        if pred is None:
            x = np.full((self.n, 1), .1 * (k + 1)) + np.arange(self.n).reshape(-1, 1)
            ok = True
        else:
            x = pred.copy()
            ok = True
            if o in 'BC':
                j = 0 if o == 'B' else self.n - 1
                tol = 1e-6 + 1e-3 * abs(self.acc[-1][1][j, 0])
                x[j, 0] += 100. * tol / self.ratio(t) * (1 if k % 2 else -1)
                ok = not self.apost
            elif o == 'G' and self.method != 'IMPLICIT_EULER':
                pass
        self.calls.append((t, 'ok' if ok else 'R', x))
        self.pending = (t, x, ok)
        return x, np.zeros((self.n, 1)), True, 3


class StopRun(Exception):
    pass


def run_one(case, ctr):
    cfg, start, script = case
    method, hmax, t0, tstop, apost, pred0, hmin, maxit, control = cfg
    ahkab = core.boot()
    from ahkab import transient, dc_analysis, options
    c = ahkab.Circuit('t')
    c.add_vsource('V1', 'a', '0', 1.)
    c.add_resistor('R1', 'a', 'b', 1.)
    c.add_capacitor('C1', 'b', '0', 1.)
    n = 3
    s = Script(script, start, t0, n, method, apost and control, ahkab)
    s.x_init = np.array([[.3], [.2], [-.1]])
    saved = {k: getattr(options, k) for k in ('transient_use_aposteriori_step_control', 'hmin',
             'transient_prediction_as_x0', 'transient_max_time_iter')}
    options.transient_use_aposteriori_step_control = apost
    options.transient_prediction_as_x0 = pred0
    if hmin:
        options.hmin = hmin
    options.transient_max_time_iter = maxit
    real = dc_analysis.dc_solve
    dc_analysis.dc_solve = s
    failed = None
    r = None
    try:
        r = transient.transient_analysis(c, t0, hmax, tstop, method=method,
                                         use_step_control=control, x0=np.array(s.x_init),
                                         outfile='tr', verbose=0)
        if r is None:
            failed = 'None'
    except StopRun:
        pass
    except ValueError as e:
        if 'too small' not in str(e):
            raise
        failed = 'too small'
    finally:
        dc_analysis.dc_solve = real
        for k, v in saved.items():
            setattr(options, k, v)
    s.settle()
    what = '%s, outcomes %s from attempt %d' % (cfg, ''.join(script), start)
    ctr.add('executions')
    ctr.add('transitions', len(s.calls))
    if s.errors:
        raise core.Disagreement('%s: %s' % (what, s.errors[0]))
    floor = hmin or 1e-20
    for h, last, t in s.steps:
        if control and h < floor * (1 - 1e-9) - 4e-16 and not t >= tstop - 1e-12:
            raise core.Disagreement('%s: a step of %g was tried, the minimum is %g' % (what, h, floor))
        if h > hmax * (1 + 1e-9) + 1e-15:
            raise core.Disagreement('%s: a step of %g was used, the maximum is %g' % (what, h, hmax))
    for _, o, _ in s.calls:
        ctr.seen('outcomes', o)
    if failed:
        ctr.add('reported_failures')
        nacc = len(s.acc) - 1
        if failed == 'too small':
            h = s.steps[-1][0]
            # (a step that is tiny next to the time has an error estimate made of rounding noise)
            noise = s.calls[-1][1] == 'R' and h < 1e-9 * max(s.steps[-1][2], 1e-3)
            if not (s.calls[-1][1] != 'ok' and
                    (noise or h * (.05 if s.calls[-1][1] == 'F' else 1e-5) < max(floor, np.spacing(s.steps[-1][2])))):
                raise core.Disagreement('%s: "step too small" reported after a step of %g (%s), the '
                                        'minimum is %g' % (what, h, s.calls[-1][1], floor))
        elif control:
            if not (maxit and nacc >= maxit):
                raise core.Disagreement('%s: failure reported without a reason' % what)
        elif not (s.calls[-1][1] == 'F' or (maxit and nacc >= maxit)):
            raise core.Disagreement('%s: failure reported without a reason' % what)
        ctr.seen('states', ('failed', cfg, len(s.calls), [round(a[0], 12) for a in s.acc]))
        return
    if not control and any(o == 'F' for _, o, _ in s.calls):
        raise core.Disagreement('%s: a fixed-step analysis with a failed step returned a result' % what)
    if maxit and len(s.acc) - 1 > maxit:
        raise core.Disagreement('%s: %d iterations used, the limit is %d' % (what, len(s.acc) - 1, maxit))
    T = np.array(r['T'], dtype=float).ravel()
    X = np.array([np.array(r[k], dtype=float).ravel() for k in ('VA', 'VB', 'I(V1)')])
    want = s.acc[1:]
    if len(T) != len(want):
        raise core.Disagreement('%s: %d rows reported, %d trial points were acceptable (attempts %s)'
                                % (what, len(T), len(want), [(c_[0], c_[1]) for c_ in s.calls][-6:]))
    for k, (t, x) in enumerate(want):
        if abs(T[k] - t) > 1e-9 * hmax or np.abs(X[:, k] - x.ravel()).max() > 1e-12 * (1 + np.abs(x).max()):
            raise core.Disagreement('%s: row %d is t=%r %s, the accepted point is t=%r %s' % (
                what, k, T[k], X[:, k], t, x.ravel()))
    if not (np.diff(np.concatenate(([t0], T))) > 0).all():
        raise core.Disagreement('%s: the times do not increase: %s' % (what, T))
    if T[-1] < tstop:
        raise core.Disagreement('%s: the result ends at %r, before the stop time %r' % (what, T[-1], tstop))
    ctr.seen('states', (cfg, [round(x, 12) for x in T]))
    ctr.sample({'config': str(cfg), 'outcomes': ''.join(script), 'first attempt': start, 'rows': len(T)}, 2)
    if T[-1] > tstop + 1e-9 * hmax:
        if not control:
            # a fixed step that does not divide the interval reaches past its end by less than a step
            if T[-1] >= tstop + hmax:
                raise core.Disagreement('%s: fixed step goes on to %r' % (what, T[-1]))
            return
        # known: the step is limited to the time left before the step just done
        last_h, before = T[-1] - (T[-2] if len(T) > 1 else t0), (T[-3] if len(T) > 2 else t0)
        retried = len(s.calls) > 1 and s.calls[-2][1] != 'ok'
        if retried or last_h > (tstop - before) * (1 + 1e-9):
            raise core.Disagreement('%s: the result ends at %r, beyond the stop time %r' % (what, T[-1], tstop))
        raise core.Disagreement('the last accepted step may carry an adaptive transient past its stop '
                                'time: %s ends at %r' % (what, T[-1]), key='overshoots-stop-time')


def key(case):
    return '%r' % (case,)


def count_calls(cfg):
    """Number of attempts of the undisturbed run (by the real loop)."""
    ctr = core.Counter()
    try:
        run_one((cfg, 0, ()), ctr)
    except core.Disagreement:
        pass
    return ctr.n.get('transitions', 30)


def plan(thorough, ctrmax):
    base = []
    for method in ('TRAP', 'IMPLICIT_EULER'):
        for hmax, t0, tstop in ((.1, 0., 1.), (1., 0., 1.), (.3, .5, 1.7)):
            for apost, pred0 in ((True, True), (True, False), (False, True)):
                base.append((method, hmax, t0, tstop, apost, pred0, None, 0, True))
    d = 6 if thorough else 4

    def gen():
        for b in base:
            n = min(ctrmax, 60)
            for start in range(0, n):
                for s in itertools.product('GFBC', repeat=d):
                    if s[0] == 'G' and start + 1 < n:
                        continue        # same execution as a later start
                    yield (b, start, s)
        # minimum step and iteration limits
        for method in ('TRAP', 'IMPLICIT_EULER'):
            for hmin in (1e-5, 5e-5, 1e-7):
                for s in itertools.product('GFBC', repeat=d + 1):
                    yield ((method, .1, 0., 1., True, True, hmin, 0, True), 3, s)
            for maxit in (1, 2, 5, 9, 14, 40):
                for s in itertools.product('GFB', repeat=d):
                    yield ((method, .1, 0., 1., True, True, None, maxit, True), 2, s)
                    yield ((method, .2, 0., 1., True, True, None, maxit, False), 0, s)
            for hm in (.1, .25, .3, 1.):
                for start in range(6):
                    for s in itertools.product('GFB', repeat=3):
                        yield ((method, hm, 0., 1., True, True, None, 0, False), start, s)
    return gen


def run(chk):
    chk.explore(run_one, plan(chk.thorough, 26 if chk.thorough else 24), limit=20, keyfn=key)
    chk.require('executions', 20000)
    chk.require('reported_failures', 500)
    chk.require('outcomes', 3)
    chk.assumptions += [
        'the solver of one step is scripted: it fails, returns the extrapolated point (error zero) or '
        'a point whose estimated error is at least 100 times the target',
        'disturbances come in one window of consecutive attempts, anywhere in the run']
    return chk.finish('states', 'transitions', 'executions',
                      'all sequences of outcomes {exact, solver failure, error too large in the first '
                      'or in the last unknown} of the window length, the window placed at every attempt '
                      'of the run, for both formulas, three step limits and the step-control options, '
                      'executed on the real time loop')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
