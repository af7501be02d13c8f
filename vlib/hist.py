"""Explicit-state exploration of histories: the real process is the state, and
fork() keeps a copy of it at every branching point."""
import os
import pickle
import signal
import traceback

from . import core


def _send(w, obj):
    with os.fdopen(w, 'wb') as fp:
        pickle.dump(obj, fp, protocol=4)


def isolated(fn, limit=60.):
    """The value of fn() in a forked process: what it changes does not stay.

    Returns ('ok', value), ('hang', None) or ('error', text)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                with core.time_limit(limit):
                    res = ('ok', fn())
            except core.Hang:
                res = ('hang', None)
            except BaseException as e:
                res = ('error', '%s: %s (%s)' % (type(e).__name__, e, where()))
            _send(w, res)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as fp:
            data = fp.read()
    except core.Hang:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('error', 'the process died')


def where():
    tb = traceback.format_exc().strip().splitlines()
    loc = [l.strip() for l in tb if l.strip().startswith('File')]
    return loc[-1] if loc else ''


def tree(state, actions, step, depth, ctr, trail=(), limit=60.):
    """Execute every history of up to `depth` actions from the present state.

    actions(state, trail) lists what may come next; step(state, action, ctr)
    executes it, updates `state` and raises Disagreement.  Every step happens in
    a process of its own, forked from the one its history has led to."""
    for a in actions(state, trail):
        path = trail + (a,)

        def child():
            c = core.Counter()
            try:
                step(state, a, c)
            except core.Disagreement as e:
                c.violation(e.key or repr(path), 'history %s: %s' % (list(path), e), path, shared=bool(e.key))
            except core.Hang:
                raise
            except (Exception, SystemExit) as e:
                c.violation(repr(path), 'history %s: unexpected %s: %s (%s)' % (
                    list(path), type(e).__name__, e, where()), path)
            else:
                if depth > 1:
                    tree(state, actions, step, depth - 1, c, path, limit)
            c.add('histories')
            return c
        # the time limit of a branch covers everything below it
        kind, val = isolated(child, limit)
        if kind == 'ok':
            merge(ctr, val)
        elif kind == 'hang':
            ctr.violation(repr(path), 'history %s: no answer' % (list(path),), path)
        else:
            ctr.violation(repr(path), 'history %s: %s' % (list(path), val), path)
        if getattr(ctr, 'unkeyed', 0) > 6:
            return


def merge(ctr, other):
    ctr.merge(other)
    ctr.unkeyed = getattr(ctr, 'unkeyed', 0) + getattr(other, 'unkeyed', 0)
