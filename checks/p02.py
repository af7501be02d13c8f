"""P02: the DC operating point of a linear circuit is the solution of its
Kirchhoff and element equations (every circuit of a bounded grammar)."""
import itertools
import sys

from vlib import core, ref

PID = 'P02'
NODES = ('0', 'a', 'b')


def alphabet(self_loops, ctrl_all, vals=0):
    """Every element over the nodes {0,a,b}; `s` carries the sensing source."""
    pairs = [(p, q) for p in NODES for q in NODES if p != q]
    loops = pairs + [(p, p) for p in NODES[1:]] if self_loops else pairs
    ctrl = [(p, q) for p in NODES for q in NODES] if ctrl_all else \
           [('0', 'a'), ('a', 'b'), ('b', '0'), ('a', 'a'), ('b', 'a')]
    out = []
    for p, q in loops:
        out.append(('R', p, q, 3 + vals))
        out.append(('I', p, q, 2 + vals))
        out.append(('C', p, q, 5))
        out.append(('F', p, q, 'VS', 7 + vals))
        out.append(('F', p, q, 'VT', 3 + vals))
        for s1, s2 in ctrl:
            out.append(('G', p, q, s1, s2, 2 + vals))
    for p, q in pairs:
        out.append(('V', p, q, 5 + vals))
        out.append(('L', p, q, 2))
        out.append(('H', p, q, 'VS', 9 + vals))
        out.append(('H', p, q, 'VT', 9 + vals))
        for s1, s2 in ctrl:
            out.append(('E', p, q, s1, s2, 3 + vals))
    return out


def name(proto, i):
    return (proto[0], '%s%d' % (proto[0], 10 + i)) + tuple(proto[1:])


def fix(e):
    if e[0] in ('C', 'L'):
        return e + (None,)
    if e[0] in ('V', 'I'):
        return e + (0,)
    return e


# resistive backbones: a and b always have a path to ground; VS and VT sense
BACK = [('R', 'R1', 'a', '0', 4), ('R', 'R2', 'a', 'b', 2), ('R', 'R3', 'b', '0', 8),
        ('V', 'VS', 's', '0', 3, 0), ('R', 'R4', 's', 'a', 5),
        ('V', 'VT', 't', 'b', 1, 0), ('R', 'R5', 't', '0', 16)]


def desc_of(case):
    front, back = case
    d = [fix(name(p, i)) for i, p in enumerate(front)]
    d += BACK
    d += [fix(name(p, 5 + i)) for i, p in enumerate(back)]
    return d


def power(desc, sol):
    """Power dissipated by the resistors (equal, by Tellegen's theorem, to the
    power the sources deliver)."""
    v = lambda n: 0 if n == '0' else sol[('v', n)]
    return sum((v(e[2]) - v(e[3])) ** 2 / ref.Fraction(e[4]) for e in desc if e[0] == 'R')


def agree(r, want, scale):
    worst = 0.
    for u, w in want.items():
        got = float(r[ref.label(u)][0][0])
        err = abs(got - float(w))
        if not err <= 1e-9 * scale + 1e-12:
            return u, got, float(w)
        worst = max(worst, err / scale)
    return worst


def one(case, ctr):
    ahkab = core.boot()
    from ahkab import dc_analysis
    desc = desc_of(case)
    ctr.add('built')
    want = ref.dc(desc)
    if want is None:
        ctr.add('singular_skipped')
        return
    c = ref.build(ahkab, desc)
    r = dc_analysis.op_analysis(c, outfile='op', verbose=0)
    ctr.add('solved')
    ctr.add('transitions', len(desc))
    if r is None:
        raise core.Disagreement('no operating point although the equations have '
                                'exactly one solution')
    scale = max([1.] + [abs(float(x)) for x in want.values()])
    if len(r) != len(want):
        raise core.Disagreement('%d variables reported, circuit has %d' % (len(r), len(want)))
    a = agree(r, want, scale)
    used = want
    if isinstance(a, tuple) and any(e[0] == 'H' for e in desc):
        alt = ref.dc(desc, hsign=-1)
        if alt is not None:
            s2 = max([1.] + [abs(float(x)) for x in alt.values()])
            b = agree(r, alt, s2)
            if not isinstance(b, tuple):
                used = alt
                sgn = a
                a = b
                ctr.violation('ccvs-output-sign', 'a current-controlled voltage source '
                              'imposes v(n1)-v(n2) = -alpha*I(source); its documentation '
                              'says +alpha*I(source). First case: %s = %g, documented %g'
                              % (ref.label(sgn[0]), sgn[1], sgn[2]), case, shared=True)
    if isinstance(a, tuple):
        raise core.Disagreement('%s = %.12g, the circuit equations give %.12g'
                                % (ref.label(a[0]), a[1], a[2]))
    ctr.maximum('relative_error', a)
    p = float(power(desc, used))
    if not core.close(float(r.tot_power), p, rel=1e-6, abs_=1e-6 * scale * scale):
        raise core.Disagreement('total power %.12g W, dissipated by the resistors %.12g W'
                                % (float(r.tot_power), p))
    for e in case[0] + case[1]:
        ctr.seen('kinds', e[0])
    ctr.seen('states', sorted(want.items()))
    ctr.sample({'circuit': [' '.join(map(str, e)) for e in desc],
                'solution': {ref.label(k): float(v) for k, v in used.items()}}, 1)


def key(case):
    return ' | '.join(' '.join(map(str, e)) for e in desc_of(case) if e not in BACK)


def cases(thorough):
    A = alphabet(True, True)

    def gen():
        for p in A:
            yield ((p,), ())
            yield ((), (p,))
        # every ordered pair, one element before and one after the backbone,
        # and both on the same side
        for p in A:
            for q in A:
                yield ((p,), (q,))
        A2 = alphabet(False, False)
        A2b = alphabet(False, False, vals=4)
        if not thorough:
            A2 = A2[::3]
        for p in A2:
            for q in A2b:
                yield ((p, q), ())
                if thorough:
                    yield ((), (p, q))
        if thorough:
            S = alphabet(False, False)
            S = [e for e in S if e[1] < e[2] or e[0] in 'VEH']
            S = S[::2]
            for p in S:
                for q in S[::2]:
                    for w in S[::2]:
                        yield ((p,), (q, w))
    return gen


def run(chk):
    chk.explore(one, cases(chk.thorough), limit=20, keyfn=key)
    chk.require('solved', 5000)
    chk.require('kinds', 9)
    chk.assumptions += [
        'element values are small integers; scaling by value is linear and not enumerated here',
        'circuits whose equations have no unique solution are counted and not judged']
    return chk.finish('states', 'transitions', 'solved',
                      'every ordered pair (thorough: triples) of elements R I C F G V L H E '
                      'over all node pairs of {0,a,b} (self loops and every control pair '
                      'included) added before/after a resistive backbone; the operating point '
                      'and total power of the real analysis are compared with the exact '
                      'rational solution of the tableau; distinct = distinct solutions')


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
