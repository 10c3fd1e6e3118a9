"""Rules over the visitor analysis, run in parallel over scenarios."""
import multiprocessing
import os
import time
import build
import engine as E
import gen
import gendb
import scenarios
import visit
from visit import node_of
from report import Finding, rel

_state = {}
_VP = []


class Enough(Exception):
    pass


def program():
    if not _VP:
        P = visit.program(build.export())
        P.mkind = {}
        for c, ctor, app, node in gen.root_classes(P):
            for b, k in (('clang::BinaryOperator', 'bin'), ('clang::UnaryOperator', 'un'), ('clang::Expr', 'expr'),
                         ('clang::Stmt', 'stmt')):
                if node == b or P.is_subclass(node, b):
                    P.mkind[c] = k
                    break
        _VP.append(P)
    return _VP[0]


def vfile(P):
    for k in visit.overrides(P, visit.visitor_class(P))['traverse'].values():
        return rel(P.fns[k].get('file') or '?')
    return '?'


def worker(j):
    P, scens, rule, assert_mode = _state['v']
    i, cxx, opt = j
    s = scens[i]
    res = {'i': i, 'cxx': cxx, 'opt': opt, 'found': [], 'ok': 0, 'abort': {}}

    def on_path(cf, p):
        if p.status == 'abort':
            res['abort'][(p.why, p.loc)] = res['abort'].get((p.why, p.loc), 0) + 1
            return
        if p.status != 'ok':
            return
        res['ok'] += 1
        for msg, line in rule(P, cf, s, p):
            res['found'].append((msg, line, [repr(x) for x in p.log][:30]))
            raise Enough()
    t0 = time.time()
    st = {'paths': 0, 'infeasible': 0, 'complete': False, 'unsupported': {}, 'limited': 0}
    try:
        st = visit.explore_scenario(P, s, cxx, opt, on_path, limit=int(os.environ.get('VLIMIT', '20000')), deadline=time.time() + 240, assert_mode=assert_mode)
    except Enough:
        pass
    res['st'] = st
    res['t'] = time.time() - t0
    return res


def run(rep, P, scens, rule, rule_name, label, assert_mode='assume', collect=False):
    """applies rule to every partition of every scenario; adds findings."""
    _state['v'] = (P, scens, rule, assert_mode)
    jobs = [(i, cxx, opt) for i, s in enumerate(scens) for cxx in s.langs for opt in s.opts]
    seen = {}
    ok = 0
    dead = []
    f = vfile(P)
    unsup = {}
    aborts = {}
    hits = []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(8, os.cpu_count() or 1)) as pool:
        for r in pool.imap_unordered(worker, jobs, chunksize=4):
            s = scens[r['i']]
            ok += r['ok']
            if r['t'] > 3 and os.environ.get('VSLOW'):
                print('slow', s.name, r['cxx'], r['opt'], round(r['t'], 1), r['st']['paths'], r['st']['infeasible'])
            if not r['ok'] and not r['found']:
                dead.append('%s %s' % (s.name, 'C++' if r['cxx'] else 'C'))
            rep.count('visitor_partitions', r['st']['paths'] or r['ok'])
            for k, n in r['st']['unsupported'].items():
                unsup[k] = unsup.get(k, 0) + n
            for k, n in r['abort'].items():
                aborts.setdefault(k, s.name)
            if not r['st']['complete'] and not r['found']:
                rep.note('incomplete', rep.coverage.get('incomplete', 0) + 1)
            if r['found'] and s not in hits:
                hits.append(s)
            for msg, line, log in r['found']:
                key = getattr(s, 'key', None) or msg
                k = (key, msg)
                if k not in seen:
                    seen[k] = (s, line, log, r)
    if collect:
        return hits
    for (key, msg), (s, line, log, r) in sorted(seen.items(), key=lambda x: str(x[0])):
        rep.add(Finding(key.replace(' ', '-') if getattr(s, 'key', None) else key, '%s:%s' % (f, line), rule_name, msg,
                        'scenario %s, %s, optimisations %s; %s' % (s.name, 'C++' if r['cxx'] else 'C',
                                                                   'on' if r['opt'] else 'off', ', '.join(log)[:900])))
    rep.count(label + '_scenarios', len(jobs))
    if unsup:
        rep.note('not_analysed_constructs', dict(list(unsup.items())[:20]))
    if dead:
        rep.note('scenarios_without_partition', dead[:20])
    if ok == 0:
        raise build.AnalysisError('no partition of the visitor could be analysed: %s' % list(unsup)[:3])
    rep.visit_aborts = aborts
    return dead


def forbidden(kinds=None, descend=True):
    def rule(P, cf, s, p):
        ks = kinds or getattr(s, 'kinds', None)
        for e in p.effects:
            if e[0] == 'newmut':
                n = node_of(e)
                k = P.mkind.get(e[1])
                if n in s.forbidden and (ks is None or k in ks):
                    yield ('%s can be mutated (%s)' % (s.what, e[1].split('::')[-1]), e[-1])
            if descend and getattr(s, 'descend', True) and e[0] == 'descend' and e[1] in s.forbidden:
                yield ('%s can be mutated (its parts are traversed)' % s.what, e[-1])
    return rule


def required():
    def rule(P, cf, s, p):
        have = set()
        for e in p.effects:
            if e[0] == 'newmut':
                have.add((node_of(e), P.mkind.get(e[1])))
        for t, k in s.must:
            if (t, k) not in have:
                yield ('%s is not mutated although it is eligible (%s)' %
                       (s.what, {'expr': 'replacement of the expression', 'bin': 'replacement of the operator',
                                 'un': 'replacement of the operator', 'stmt': 'removal'}[k]), 0)
    return rule
