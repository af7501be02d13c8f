"""Independent reference for linear circuits.

A circuit description is a list of tuples (kind, name, ...):

  ('R', id, n1, n2, value)          ('C', id, n1, n2, value, ic|None)
  ('L', id, n1, n2, value, ic|None) ('K', id, L1, L2, k)
  ('V', id, n1, n2, dc, ac[, fn])   ('I', id, n1, n2, dc, ac[, fn])
  ('E', id, n1, n2, s1, s2, a)      ('G', id, n1, n2, s1, s2, a)
  ('F', id, n1, n2, vsrc, a)        ('H', id, n1, n2, vsrc, a)

Conventions (from the element documentation, not from the stamping code):
passive sign convention, a positive element current enters at n1 and leaves
at n2; ground is '0'.  The circuit is written as  A x + B x' = u  with
x = node voltages followed by the currents of V, E, H and L elements.
"""
from fractions import Fraction

VDEF = ('V', 'E', 'H', 'L')


def nodes_of(desc):
    """Node names, in order of first appearance, without ground."""
    out = []
    for e in desc:
        k = e[0]
        if k == 'K':
            continue
        ns = list(e[2:4])
        if k in ('E', 'G'):
            ns += list(e[4:6])
        for n in ns:
            if n != '0' and n not in out:
                out.append(n)
    return out


def unknowns(desc):
    return [('v', n) for n in nodes_of(desc)] + \
           [('i', e[1]) for e in desc if e[0] in VDEF]


def system(desc, hsign=1, num=Fraction):
    """Return (names, A, B, rows): A x + B x' = u, rows maps sources to the
    positions of u they feed, as {source id: [(row, sign)]}."""
    names = unknowns(desc)
    pos = {n: i for i, n in enumerate(names)}
    N = len(names)
    A = [[num(0)] * N for _ in range(N)]
    B = [[num(0)] * N for _ in range(N)]
    feed = {}

    def add(M, r, c, v):
        if r is None or c is None:
            return
        M[r][c] += v

    def v(n):
        return None if n == '0' else pos[('v', n)]

    def cond(M, n1, n2, s1, s2, g):
        # current g*(v_s1 - v_s2) leaves n1 and enters n2
        for n, sg in ((n1, 1), (n2, -1)):
            add(M, v(n), v(s1), sg * g)
            add(M, v(n), v(s2), -sg * g)

    for e in desc:
        k, name = e[0], e[1]
        if k == 'K':
            continue
        n1, n2 = e[2], e[3]
        if k in VDEF:
            i = pos[('i', name)]
            add(A, v(n1), i, num(1))
            add(A, v(n2), i, num(-1))
            add(A, i, v(n1), num(1))
            add(A, i, v(n2), num(-1))
        if k == 'R':
            cond(A, n1, n2, n1, n2, num(1) / num(e[4]))
        elif k == 'C':
            cond(B, n1, n2, n1, n2, num(e[4]))
        elif k == 'G':
            cond(A, n1, n2, e[4], e[5], num(e[6]))
        elif k == 'I':
            feed[name] = [(v(n), s) for n, s in ((n1, -1), (n2, 1)) if n != '0']
        elif k == 'V':
            feed[name] = [(i, 1)]
        elif k == 'E':
            add(A, i, v(e[4]), -num(e[6]))
            add(A, i, v(e[5]), num(e[6]))
        elif k == 'F':
            j = pos[('i', e[4])]
            add(A, v(n1), j, num(e[5]))
            add(A, v(n2), j, -num(e[5]))
        elif k == 'H':
            add(A, i, pos[('i', e[4])], -num(e[5]) * hsign)
        elif k == 'L':
            add(B, i, i, -num(e[4]))
    byname = {e[1]: e for e in desc}
    for e in desc:
        if e[0] == 'K':
            l1, l2 = byname[e[2]], byname[e[3]]
            m = float(e[4]) * (float(l1[4]) * float(l2[4])) ** .5
            m = num(m)
            a, b = pos[('i', l1[1])], pos[('i', l2[1])]
            add(B, a, b, -m)
            add(B, b, a, -m)
    return names, A, B, feed


def rhs(desc, names, feed, value, num=Fraction):
    """u for source values given by value(element tuple)."""
    u = [num(0)] * len(names)
    for e in desc:
        if e[0] in ('V', 'I'):
            val = num(value(e))
            for r, s in feed[e[1]]:
                u[r] += s * val
    return u


def solve(A, u):
    """Exact Gauss-Jordan; None when singular."""
    n = len(A)
    M = [list(A[i]) + [u[i]] for i in range(n)]
    for c in range(n):
        p = None
        for r in range(c, n):
            if M[r][c] != 0:
                p = r
                break
        if p is None:
            return None
        M[c], M[p] = M[p], M[c]
        piv = M[c][c]
        rowc = M[c]
        if piv != 1:
            inv = 1 / piv
            rowc = M[c] = [x * inv if x else x for x in rowc]
        for r in range(n):
            if r != c:
                f = M[r][c]
                if f:
                    row = M[r]
                    M[r] = [a - f * b if b else a for a, b in zip(row, rowc)]
    return [M[i][n] for i in range(n)]


def dc(desc, hsign=1):
    """Exact DC solution {unknown: Fraction} or None when singular."""
    names, A, B, feed = system(desc, hsign)
    x = solve(A, rhs(desc, names, feed, lambda e: e[4]))
    if x is None:
        return None
    return dict(zip(names, x))


def label(u):
    return ('V%s' % u[1]) if u[0] == 'v' else ('I(%s)' % u[1])


def build(ahkab, desc, circ=None, title='t'):
    """Build the same circuit through ahkab's public Circuit interface."""
    c = ahkab.Circuit(title) if circ is None else circ
    for e in desc:
        add(c, e)
    return c


def add(c, e):
    k, name = e[0], e[1]
    if k == 'R':
        c.add_resistor(name, e[2], e[3], float(e[4]))
    elif k == 'C':
        c.add_capacitor(name, e[2], e[3], float(e[4]), ic=e[5] if len(e) > 5 else None)
    elif k == 'L':
        c.add_inductor(name, e[2], e[3], float(e[4]), ic=e[5] if len(e) > 5 else None)
    elif k == 'K':
        c.add_inductor_coupling(name, e[2], e[3], float(e[4]))
    elif k in 'VI':
        f = e[6] if len(e) > 6 else None
        getattr(c, 'add_vsource' if k == 'V' else 'add_isource')(
            name, e[2], e[3], dc_value=None if e[4] is None else float(e[4]),
            ac_value=e[5] if len(e) > 5 and e[5] is not None else 0, function=f)
    elif k == 'E':
        c.add_vcvs(name, e[2], e[3], e[4], e[5], float(e[6]))
    elif k == 'G':
        c.add_vccs(name, e[2], e[3], e[4], e[5], float(e[6]))
    elif k == 'F':
        c.add_cccs(name, e[2], e[3], e[4], float(e[5]))
    elif k == 'H':
        c.add_ccvs(name, e[2], e[3], e[4], float(e[5]))
    else:
        raise ValueError(k)


def matrices(desc, hsign=1):
    """The same system in floating point: names, A, B (numpy), feed."""
    import numpy as np
    names, A, B, feed = system(desc, hsign, float)
    return names, np.array(A, dtype=float).reshape(len(names), -1), \
        np.array(B, dtype=float).reshape(len(names), -1), feed


def vector(desc, names, feed, value, dtype=float):
    import numpy as np
    u = np.zeros(len(names), dtype=dtype)
    for e in desc:
        if e[0] in ('V', 'I'):
            v = value(e)
            if v is None:
                continue
            for r, s in feed[e[1]]:
                u[r] += s * v
    return u
