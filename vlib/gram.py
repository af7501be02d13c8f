"""Bounded element alphabets shared by the linear-circuit checks."""
NODES = ('0', 'a', 'b')


def alphabet(vals=0, loops=False, ctrl='few', kinds='RICGFVLHE', sens=('VS',), nodes=NODES,
             orient=True):
    pairs = [(p, q) for p in nodes for q in nodes if p != q]
    if not orient:
        pairs = [(p, q) for p, q in pairs if p < q]
    lp = pairs + ([(p, p) for p in nodes[1:]] if loops else [])
    ctl = {'all': [(p, q) for p in nodes for q in nodes],
           'few': [('0', 'a'), ('a', 'b'), ('b', '0'), ('b', 'a')],
           'one': [('a', '0'), ('b', 'a')]}[ctrl]
    out = []
    for p, q in lp:
        if 'R' in kinds:
            out.append(('R', p, q, 3 + vals))
        if 'I' in kinds:
            out.append(('I', p, q, 2 + vals))
        if 'C' in kinds:
            out.append(('C', p, q, 2 + vals))
        if 'F' in kinds:
            out += [('F', p, q, s, 3 + vals) for s in sens]
        if 'G' in kinds:
            out += [('G', p, q, a, b, 2 + vals) for a, b in ctl]
    for p, q in pairs:
        if 'V' in kinds:
            out.append(('V', p, q, 5 + vals))
        if 'L' in kinds:
            out.append(('L', p, q, 3 + vals))
        if 'H' in kinds:
            out += [('H', p, q, s, 4 + vals) for s in sens]
        if 'E' in kinds:
            out += [('E', p, q, a, b, 3 + vals) for a, b in ctl]
    return out


def name(proto, i):
    return (proto[0], '%s%d' % (proto[0], 10 + i)) + tuple(proto[1:])


def fix(e, ac=None, fn=None):
    """Complete a named element tuple to the form vlib.ref uses."""
    if e[0] in ('C', 'L') and len(e) == 5:
        return e + (None,)
    if e[0] in ('V', 'I') and len(e) == 5:
        return e + (ac, fn)
    return e


def text(desc):
    return ' | '.join(' '.join(str(x) for x in e if x is not None) for e in desc)
