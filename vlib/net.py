"""Reading netlist texts through the real parser, and describing what came out."""
import os

from . import core


class Refused(Exception):
    pass


def read(text, files=(), check=False, name='net.ckt'):
    """The circuit and the directives of a netlist text; Refused when the parser
    (or the circuit checker) says so.  Any other exception passes through."""
    ahkab = core.boot()
    from ahkab import netlist_parser as npar, utilities
    for fn, t in files:
        with open(fn, 'w') as fp:
            fp.write(t)
    with open(name, 'w') as fp:
        fp.write(text)
    try:
        circ, directives, post = npar.parse_circuit(name)
        ics = npar.parse_ics(directives)
        an = npar.parse_analysis(circ, directives)
        pp = npar.parse_postproc(circ, post)
    except npar.NetlistParseError as e:
        raise Refused('parser: %s' % e)
    if check:
        ok, why = utilities.check_circuit(circ)
        if not ok:
            raise Refused('checker: %s' % why)
    return circ, an, ics, pp


def describe_fun(f):
    if f is None:
        return None
    d = dict((k, v) for k, v in vars(f).items() if isinstance(v, (int, float, str)) and not k.startswith('_'))
    return (type(f).__name__, sorted((k, float(v) if isinstance(v, (int, float)) else v) for k, v in d.items()))


def num(v):
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, complex):
        return (float(v.real), float(v.imag))
    return float(v)


MOSPARS = ('TNOM', 'COX', 'GAMMA', 'NSUB', 'PHI', 'VTO', 'KP', 'TOX', 'VFB', 'U0', 'TCV', 'BEX',
           'LAMBDA', 'XJ', 'AVT', 'AKP', 'NPMOS', 'TEMP')
DIOPARS = ('IS', 'N', 'NBV', 'ISR', 'NR', 'RS', 'CJ0', 'M', 'VJ', 'FC', 'CP', 'TT', 'BV', 'IBV', 'IKF', 'KF',
           'AF', 'FFE', 'TEMP', 'XTI', 'EG', 'TBV', 'TRS', 'TTT1', 'TTT2', 'TM1', 'TM2', 'T')
SWPARS = ('VT', 'VH', 'RON', 'ROFF')


def describe_model(m):
    pars = {'ekv_mos_model': MOSPARS, 'mosq_mos_model': MOSPARS, 'diode_model': DIOPARS, 'vswitch_model': SWPARS}
    t = type(m).__name__
    return (t, str(m.name).lower(), tuple((p, num(getattr(m, p, None))) for p in pars[t]))


def describe_elem(e, nodes, names=True):
    """What an element is, in terms of external node names (lower case)."""
    nm = lambda n: str(nodes[n]).lower()
    t = type(e).__name__
    d = [('kind', t)]
    if names:
        d.append(('id', e.part_id.lower()))
    for a in ('n1', 'n2', 'sn1', 'sn2', 'ng', 'nb'):
        if hasattr(e, a):
            d.append((a, nm(getattr(e, a))))
    for a in ('value', 'alpha', 'ic', 'dc_value', 'ac_value', 'abs_ac', 'arg_ac', 'K', 'M'):
        if hasattr(e, a):
            d.append((a, num(getattr(e, a))))
    for a in ('source_id', 'L1', 'L2'):
        if hasattr(e, a) and names:
            d.append((a, str(getattr(e, a)).lower()))
    if hasattr(e, '_time_function'):
        d.append(('fun', describe_fun(e._time_function)))
        d.append(('timedep', bool(e.is_timedependent)))
    if hasattr(e, 'device'):
        for a in ('W', 'L', 'M', 'N', 'AREA', 'T', 'is_on'):
            if hasattr(e.device, a):
                d.append((a, num(getattr(e.device, a))))
    if hasattr(e, 'off'):
        d.append(('off', bool(e.off)))
    m = getattr(e, 'ekv_model', None) or getattr(e, 'mosq_model', None) or getattr(e, 'model', None)
    if m is not None:
        d.append(('model', describe_model(m)))
    if hasattr(e, 'coupling_devices'):
        d.append(('coupled', sorted(c.part_id.lower() for c in e.coupling_devices) if names else
                  len(e.coupling_devices)))
    return tuple(d)


def describe(circ, ordered=False, names=True):
    els = [describe_elem(e, circ.nodes_dict, names) for e in circ]
    nodes = sorted(str(k).lower() for k in circ.nodes_dict if isinstance(k, str) or not isinstance(k, int))
    if not ordered:
        els = sorted(els, key=repr)
    return els, nodes


def close(a, b, rel=1e-12, abs_=0.):
    """Structural comparison with a tolerance for numbers."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(close(x, y, rel, abs_) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return a == b or abs(a - b) <= rel * max(abs(a), abs(b)) + abs_ or (a != a and b != b)
    return a == b


def diff(a, b, rel=1e-12):
    """First difference between two descriptions, as text (None if equal)."""
    (ea, na), (eb, nb) = a, b
    if len(ea) != len(eb):
        return '%d elements instead of %d: %s / %s' % (len(ea), len(eb), [x[:2] for x in ea], [x[:2] for x in eb])
    for x, y in zip(ea, eb):
        if not close(x, y, rel):
            dx = [p for p, q in zip(x, y) if not close(p, q, rel)] if len(x) == len(y) else x
            dy = [q for p, q in zip(x, y) if not close(p, q, rel)] if len(x) == len(y) else y
            return '%s: %s instead of %s' % (x[1], dx, dy)
    if na != nb:
        return 'nodes %s instead of %s' % (na, nb)
    return None
