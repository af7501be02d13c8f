"""P20: queueing and running analyses: all histories of queue/run operations up to
a depth, on two circuits, with reused descriptions and dependencies on the
operating point, are executed on the real code (one process per history)."""
import copy
import os
import sys

import numpy as np

from vlib import core, hist

PID = 'P20'
R, C, F = 2., .5, 3.
IC = 7.25

_OPENED = []
_hooked = []


def audit(event, args):
    """Every file opened for writing, by name (the order in which results are produced)."""
    if event == 'open' and isinstance(args[0], str):
        mode, flags = args[1], args[2]
        if (mode and 'w' in mode) or (mode is None and flags is not None and flags & os.O_TRUNC):
            _OPENED.append(os.path.basename(args[0]))


def circuit(ahkab, title, v):
    c = ahkab.Circuit(title)
    c.add_vsource('V1', 'a', '0', v, 1.)
    c.add_resistor('R1', 'a', 'b', R)
    c.add_capacitor('C1', 'b', '0', C, ic=IC)
    return c


def descriptions(ahkab):
    """The descriptions the histories use, again and again."""
    import numpy as np
    op = ahkab.new_op(outfile='op1')
    d = {
        'op': op, 'op2': ahkab.new_op(outfile='op2', guess=False),
        'dc': ahkab.new_dc(1, 3, 3, 'V1', outfile='dc1'),
        'ac': ahkab.new_ac(F, 2 * F, 2, sweep_type='LIN', x0='op', outfile='ac1'),
        'tran': ahkab.new_tran(0, .1, .05, x0='op', outfile='tr1'),
        'tran2': ahkab.new_tran(0, .1, .05, x0='op', method='TRAP', outfile='tr2'),
        'tranic': ahkab.new_tran(0, .1, .05, x0='op+ic', outfile='tr3'),
        'tran0': ahkab.new_tran(0, .1, .05, x0=None, outfile='tr4'),
        'tranx': ahkab.new_tran(0, .1, .05, x0=np.array([[1.], [2.], [3.]]), outfile='tr5'),
        'bad': ahkab.new_dc(1, 3, 3, 'V9', outfile='bad1'),
    }
    return d


def start(ahkab):
    st = {'ahkab': ahkab, 'circ': [circuit(ahkab, 'first', 1.), circuit(ahkab, 'second', -4.)],
          'v': [1., -4.], 'op': [None, None], 'queue': [], 'desc': descriptions(ahkab)}
    st['pristine'] = copy.deepcopy(st['desc'])
    return st


KIND = {'op': 'op', 'op2': 'op', 'dc': 'dc', 'ac': 'ac', 'tran': 'tran', 'tran2': 'tran', 'tranic': 'tran',
        'tran0': 'tran', 'tranx': 'tran', 'bad': 'dc'}


def model_run(st, ci, names):
    """What running these descriptions has to give: [(name, first/whole data)], error?"""
    out = []
    for n in names:
        v, op = st['v'][ci], st['op'][ci]
        if n == 'bad':
            return out, True
        if n in ('op', 'op2'):
            st['op'][ci] = v
            out.append((n, {'Va': [v], 'Vb': [v], 'I(V1)': [0.]}))
        elif n == 'dc':
            out.append((n, {'V1': [1., 2., 3.], 'Va': [1., 2., 3.], 'Vb': [1., 2., 3.]}))
        elif n == 'ac':
            f = np.array([F, 2 * F])
            out.append((n, {'f': f, 'Va': np.ones(2), 'Vb': 1 / (1 + 2j * np.pi * f * R * C)}))
        else:
            # the capacitor holds its starting voltage (without a starting point: nothing)
            vb = {'tran': op, 'tran2': op, 'tranic': None if op is None else IC, 'tran0': None, 'tranx': 2.}[n]
            out.append((n, {'Vb': [0. if vb is None else vb]}))
    return out, False


def check_data(name, r, want):
    if r is None:
        raise core.Disagreement('%s gave nothing' % name)
    for k, w in want.items():
        g = np.array(r[k]).ravel()
        if name.startswith('tran'):
            g = g[:1]
        if g.shape != np.shape(w) or not np.allclose(g, w, rtol=1e-4, atol=2e-3):
            raise core.Disagreement('%s: %s is %s, expected %s' % (name, k, g, w))


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and np.array_equal(a, b)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(map(same, a, b))
    return type(a) == type(b) and a == b


FORMS = {'list': list, 'tuple': tuple, 'one': lambda l: l[0]}


def step(st, action, ctr):
    ahkab, d = st['ahkab'], st['desc']
    ctr.add('transitions')
    ctr.seen('kinds', action[0])
    if action[0] == 'set':
        _, ci, v = action
        st['circ'][ci].get_elem_by_name('V1').dc_value = v
        st['v'][ci] = v
    elif action[0] == 'queue':
        ahkab.queue(*[d[n] for n in action[1]])
        st['queue'] = st['queue'] + list(action[1])
    elif action[0] == 'scribble':
        # queue copies of the descriptions, then overwrite those copies
        mine = [copy.deepcopy(d[n]) for n in action[1]]
        ahkab.queue(*mine)
        st['queue'] = st['queue'] + list(action[1])
        for m in mine:
            for v in m.values():
                if isinstance(v, np.ndarray):
                    v[...] = -77.
                elif isinstance(v, list):
                    del v[:]
            m['outfile'] = 'scribbled'
            m['type'] = 'op'
    else:
        _, ci, form, names = action
        c = st['circ'][ci]
        if form in ('queued', 'none'):
            names, st['queue'] = st['queue'], []
        want, fails = model_run(st, ci, names)
        before = list(_OPENED)
        passed = None
        try:
            if form == 'queued':
                res = ahkab.run(c)
            elif form == 'none':
                res = ahkab.run(c, None)
            else:
                passed = FORMS[form]([d[n] for n in names])
                res = ahkab.run(c, passed) if form != 'one' or ci else ahkab.run(c, an_list=passed)
        except ValueError:
            if not fails:
                raise
            ctr.add('failing')
            res = None
        else:
            if fails:
                raise core.Disagreement('an analysis of an unknown source did not fail')
        if passed is not None and form != 'one':
            if len(passed) != len(names) or any(p is not d[n] for p, n in zip(passed, names)):
                raise core.Disagreement('the list passed in was changed')
        # executed once each, in the order given: the order their files are written in
        own = {st['pristine'][n]['outfile'] for n in st['pristine'] if n != 'bad'}
        got = [f for f in _OPENED[len(before):] if f in own]
        expected = [d[n]['outfile'] for n, _ in want for _ in range(st['opens'][n])]
        if got != expected:
            raise core.Disagreement('the analyses performed wrote %s, expected %s' % (got, expected))
        if res is not None:
            last = {}
            for n, w in want:
                last[KIND[n]] = (n, w)
            if set(res) != set(last):
                raise core.Disagreement('results for %s, expected %s' % (sorted(res), sorted(last)))
            for k, (n, w) in last.items():
                check_data(n, res[k], w)
                if res[k].netlist_title != c.title:
                    raise core.Disagreement('%s was run on %s' % (n, res[k].netlist_title))
        # earlier ones of the same kind: what is in their files
        lastname = {n: w for n, w in want}
        for n, w in lastname.items():
            check_file(st, n, w)
    for n in d:
        if not same(d[n], st['pristine'][n]):
            raise core.Disagreement('the description %s was changed: %s' % (n, d[n]))
    for ci in (0, 1):
        if st['circ'][ci].get_elem_by_name('V1').dc_value != st['v'][ci]:
            raise core.Disagreement('the source of circuit %d was changed' % ci)
    ctr.seen('states', (tuple(st['queue']), tuple(st['v']), tuple(st['op'])))


def check_file(st, n, want):
    from ahkab import csvlib
    fn = st['desc'][n]['outfile']
    if not os.path.exists(fn):
        return
    data, headers, _, _ = csvlib.load_csv(fn, load_headers=[], verbose=0)
    h = [x.upper() for x in headers]
    for k, w in want.items():
        if k.upper() in h and KIND[n] != 'ac':
            g = data[h.index(k.upper())]
            g = g[:1] if n.startswith('tran') else g
            if g.shape != np.shape(w) or not np.allclose(g, w, rtol=1e-4, atol=2e-3):
                raise core.Disagreement('the file of %s has %s = %s, expected %s' % (n, k, g, w))


def all_actions(thorough):
    A = []
    for ci in (0, 1):
        A += [('run', ci, 'queued', ()), ('run', ci, 'list', ('op',)), ('run', ci, 'one', ('tran',)),
              ('set', ci, 2.5)]
    A += [('run', 0, 'none', ()), ('run', 1, 'one', ('op2',)), ('run', 0, 'tuple', ('op', 'tran', 'op2', 'tranic')),
          ('run', 0, 'list', ('tran', 'tran2')), ('run', 1, 'tuple', ('ac', 'dc', 'op2')), ('run', 0, 'one', ('tranic',)),
          ('run', 0, 'list', ('tran0', 'tranx')), ('run', 1, 'list', ('tranic', 'dc', 'tranx')),
          ('run', 0, 'list', ('op', 'bad', 'dc')), ('run', 1, 'list', ()), ('run', 0, 'tuple', ()),
          ('queue', ('op',)), ('queue', ('tran', 'op')), ('queue', ('dc',)), ('queue', ('bad', 'op2')),
          ('scribble', ('tranx', 'dc')), ('queue', ('tranic', 'tranic')), ('queue', ('op2', 'ac', 'tran2'))]
    return A


def prefix_one(case, ctr):
    _, prefix, depth, thorough = case
    ahkab = core.boot()
    if not _hooked:
        _hooked.append(1)
        sys.addaudithook(audit)
    st = start(ahkab)
    # how many times one analysis of each kind opens its file, when it is run alone
    st['opens'] = {}
    for n in st['desc']:
        def alone():
            if n == 'bad':
                return 0
            del _OPENED[:]
            ahkab.run(st['circ'][0], [st['desc'][n]])
            return len([f for f in _OPENED if f == st['desc'][n]['outfile']])
        kind, val = hist.isolated(alone)
        if kind != 'ok':
            raise core.Disagreement('%s alone: %s' % (n, val))
        st['opens'][n] = val
        if n != 'bad' and val < 1:
            raise core.Disagreement('%s alone writes no file' % n)
    acts = all_actions(thorough)

    def actions(state, trail):
        if len(trail) < len(prefix):
            return [prefix[len(trail)]]
        return acts
    hist.tree(st, actions, step, depth, ctr, limit=600)


def cases(thorough):
    acts = all_actions(thorough)
    return [('tree', (a, b), 4 if thorough else 3, thorough) for a in acts for b in acts]


def run(chk):
    chk.explore(prefix_one, cases(chk.thorough), limit=700)
    chk.require('histories', 5000)
    chk.require('kinds', 3)
    chk.require('failing', 50)
    chk.assumptions += ['an empty list of analyses is a list of analyses: it runs nothing',
                        'analyses queued are gone from the queue also when one of them fails']
    return chk.finish('states', 'transitions', 'histories',
                      'every history of %d operations out of %d (run a list, a tuple, one description, nothing or the '
                      'queue on one of two circuits; queue; change a source), each in its own process'
                      % (4 if chk.thorough else 3, len(all_actions(False))))


if __name__ == '__main__':
    sys.exit(core.main(PID, run))
