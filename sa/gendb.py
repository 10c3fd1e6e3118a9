"""Runs rules over every partition of every mutation generator, in parallel."""
import multiprocessing
import os
import time
import engine as E
import clangmodel as M
import explore
import gen
import gencheck as G
import stdmodel
from engine import T, Cell

KIND = {'clang::BinaryOperator': 'bin', 'clang::UnaryOperator': 'un', 'clang::Expr': 'expr', 'clang::Stmt': 'stmt'}
FLAGS = ('GetOptimiseMutations', 'GetOnlyTrackMutantCoverage', 'GetShowAstNodeTypes')

_state = {}


def program(prog_dict):
    M.init_ops(prog_dict)
    P = E.Program(prog_dict, stdmodel.MODELS)
    P.ranges, P.infos = gen.summarise(P)
    return P


def tasks(P, langs=(True, False), opts=(True, False)):
    out = []
    for c, ctor, app, node in gen.root_classes(P):
        kind = KIND.get(node)
        if kind is None:
            for b, k in KIND.items():
                if node and P.is_subclass(node, b):
                    kind, node = k, b
                    break
        if kind is None:
            raise E.Unsupported('generator %s for %s' % (c, node))
        for cxx in langs:
            for opt in opts:
                if kind == 'bin':
                    sub = [([M.BO[o]], None) for o in M.BIN_OK]
                elif kind == 'un':
                    sub = [([M.UO[o]], None) for o in M.UN_OK]
                elif kind == 'expr':
                    sub = [(None, 'lv'), (None, 'prv')]
                else:
                    sub = [(None, None)]
                for o, vk in sub:
                    out.append({'cls': c, 'ctor': ctor, 'app': app, 'node': node, 'kind': kind, 'cxx': cxx,
                                'opt': opt, 'ops': o, 'vk': vk})
    return out


def run_variants(P, cf, t, variants):
    """Runs the generator once per flag setting on the same partition."""
    def run():
        out = {}
        for name, fl in variants.items():
            base = {'GetOptimiseMutations': t['opt'], 'GetOnlyTrackMutantCoverage': False,
                    'GetShowAstNodeTypes': False}
            base.update(fl)
            cf.flags = base
            for f in FLAGS:
                E.C.facts.pop(T('flag', f), None)
            n0 = len(E.C.effects)
            res = gen.run_generator(P, cf, t['cls'], t['ctor'], t['app'])()
            out[name] = (res, E.C.effects[n0:])
        return out
    return run


def split_prefixes(P, t, variants, n):
    """first decisions of the exploration, to distribute a large root over processes."""
    return [()]


def worker(job):
    i, first = job
    P, ts, rule, variants, assert_mode, deadline = _state['v']
    t = ts[i]
    cf = gen.GenConfig(P, t['node'], t['cxx'], {}, t['ops'], assert_mode=assert_mode, vk=t['vk'])
    found = {}
    info = {'task': describe(t), 'obligations': 0, 'unread': {}, 'aborts': {}, 'collect': []}

    def on_path(p):
        if p.status == 'abort':
            k = (p.why, p.loc)
            info['aborts'][k] = info['aborts'].get(k, 0) + 1
            if rule.abort:
                for f in rule.abort(P, cf, t, p):
                    add(f, p)
            return
        if p.status != 'ok':
            return
        try:
            fs, n = rule.path(P, cf, t, p, info)
        except G.Unreadable as x:
            info['unread'][str(x)] = info['unread'].get(str(x), 0) + 1
            return
        info['obligations'] += n
        for f in fs:
            add(f, p)

    def add(f, p):
        f = tuple(f)
        if f not in found:
            found[f] = [0, describe(t), [repr(x) for x in p.log][:40]]
        found[f][0] += 1

    st = explore.explore(cf, run_variants(P, cf, t, variants), on_path=on_path, first=first, deadline=deadline,
                         limit=400000)
    return i, st, found, info


def describe(t):
    op = ''
    if t['ops']:
        op = ' ' + (M.bname if t['kind'] == 'bin' else M.uname)(t['ops'][0])
    return '%s%s%s %s opt=%d' % (t['cls'], op, ' ' + t['vk'] if t['vk'] else '', 'C++' if t['cxx'] else 'C', t['opt'])


class Rule:
    """path(P, config, task, path, info) -> (findings, number of obligations)."""
    abort = None

    def __init__(self, path, abort=None):
        self.path = path
        self.abort = abort


def run(P, rule, variants=None, langs=(True, False), opts=(True, False), assert_mode='assume', seconds=600, ts=None):
    ts = ts if ts is not None else tasks(P, langs, opts)
    variants = variants or {'base': {}}
    _state['v'] = (P, ts, rule, variants, assert_mode, time.time() + seconds)
    # heavier roots first
    cost = {'expr': 0, 'bin': 1, 'un': 2, 'stmt': 3}
    jobs = [(i, ()) for i in sorted(range(len(ts)), key=lambda i: (cost[ts[i]['kind']], not ts[i]['opt'], not ts[i]['cxx']))]
    big = []
    for i, _ in jobs:
        if ts[i]['kind'] == 'expr':
            big += [(i, pre) for pre in prefixes(P, ts, i, variants, assert_mode, 3)]
        else:
            big.append((i, ()))
    total = {'paths': 0, 'infeasible': 0, 'aborts': 0, 'unsupported': {}, 'limited': 0, 'complete': True,
             'roots': len(ts), 'obligations': 0, 'unread': {}, 'abort_sites': {}, 'collect': []}
    found = {}
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(8, os.cpu_count() or 1)) as pool:
        for i, st, fs, info in pool.imap_unordered(worker, big):
            for k in ('paths', 'infeasible', 'aborts', 'limited'):
                total[k] += st[k]
            total['complete'] &= st['complete']
            for k, n in st['unsupported'].items():
                total['unsupported'][k] = total['unsupported'].get(k, 0) + n
            total['obligations'] += info['obligations']
            for k, n in info['unread'].items():
                total['unread'][k] = total['unread'].get(k, 0) + n
            for k, n in info['aborts'].items():
                total['abort_sites'][k] = total['abort_sites'].get(k, 0) + n
            total['collect'] += info['collect']
            for f, v in fs.items():
                if f in found:
                    found[f][0] += v[0]
                else:
                    found[f] = v
    return found, total


def prefixes(P, ts, i, variants, assert_mode, depth):
    """all decision prefixes of length `depth` of a root (found by running it)."""
    t = ts[i]
    cf = gen.GenConfig(P, t['node'], t['cxx'], {}, t['ops'], assert_mode=assert_mode, vk=t['vk'])
    run = run_variants(P, cf, t, variants)
    out = []
    todo = [()]
    while todo:
        pre = todo.pop()
        if len(pre) == depth:
            out.append(pre)
            continue
        c = E.Ctx(list(pre), cf)
        E.setctx(c)
        try:
            cf.start()
            run()
        except (E.Infeasible, E.Unsupported, E.PathLimit, E.Abort, RecursionError):
            pass
        if len(c.trace) <= len(pre):
            out.append(pre)
            continue
        for k in range(c.trace[len(pre)][1]):
            todo.append(pre + (k,))
    return out
