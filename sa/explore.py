"""Enumerates the partitions (paths) of an analysis root."""
import time
import engine as E
from engine import Ctx, setctx, Infeasible, Unsupported, PathLimit, Abort


# no partition is started after this time (set by check.py), so that a check always answers
FINAL = [None]


class Path:
    __slots__ = ('status', 'why', 'loc', 'result', 'effects', 'notes', 'log', 'facts', 'doms', 'cls', 'trace', 'ctx')


def explore(config, run, limit=200000, deadline=None, on_path=None, first=()):
    """Runs `run()` once per partition, in depth-first order.

    on_path(path) is called while the partition's context is still current.
    Returns a summary dict."""
    st = {'paths': 0, 'infeasible': 0, 'aborts': 0, 'unsupported': {}, 'limited': 0, 'complete': True}
    prefix = list(first)
    floor = len(prefix)
    while True:
        c = Ctx(prefix, config)
        setctx(c)
        p = Path()
        p.why = p.loc = p.result = None
        try:
            config.start()
            p.result = run()
            p.status = 'ok'
        except Infeasible:
            p.status = 'infeasible'
        except Unsupported as e:
            p.status = 'unsupported'
            p.why = str(e)
            p.loc = c.line
        except PathLimit as e:
            p.status = 'limit'
            p.why = str(e)
        except RecursionError:
            p.status = 'limit'
            p.why = 'recursion'
        except Abort as e:
            p.status = 'abort'
            p.why = e.why
            p.loc = e.loc
        p.effects, p.notes, p.log = c.effects, c.notes, c.log
        p.facts, p.doms, p.cls, p.trace, p.ctx = c.facts, c.doms, c.cls, c.trace, c
        if p.status == 'infeasible':
            st['infeasible'] += 1
        else:
            st['paths'] += 1
            if p.status == 'abort':
                st['aborts'] += 1
            elif p.status == 'unsupported':
                k = '%s @%s' % (p.why, p.loc)
                st['unsupported'][k] = st['unsupported'].get(k, 0) + 1
            elif p.status == 'limit':
                st['limited'] += 1
            if on_path:
                on_path(p)
        t = c.trace
        while len(t) > floor and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if len(t) <= floor:
            break
        prefix = [x[0] for x in t]
        prefix[-1] += 1
        if st['paths'] + st['infeasible'] >= limit or (deadline and time.time() > deadline) or \
                (FINAL[0] and time.time() > FINAL[0]):
            st['complete'] = False
            break
    return st
