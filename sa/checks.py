"""One entry per property: builds the resolved program, runs the rules, fills in a report."""
import build
import engine as E
import gencheck as G
import gendb
from report import Report, Finding, rel

REG = {}


def prop(pid):
    def d(f):
        REG[pid] = f
        return f
    return d


def run(pid, tier):
    if pid not in REG:
        import checks_more  # noqa: F401
    rep = Report()
    REG[pid](rep, tier)
    return rep


_P = []


def program():
    if not _P:
        _P.append(gendb.program(build.export()))
    return _P[0]


def where_of(P, desc, line):
    cls = desc.split(' ')[0]
    for k, f in P.fns.items():
        if f.get('cls') == cls and f['qn'].endswith('::Apply'):
            return '%s:%s' % (rel(f.get('file') or '?'), line)
    return '%s:%s' % (cls, line)


def merge_gen(rep, P, found, total, rule, least=500):
    for f, (n, desc, log) in sorted(found.items(), key=lambda x: str(x[0])):
        line, msg = f[0], f[1]
        key = f[2] if len(f) > 2 else msg
        rep.add(Finding(key, where_of(P, desc, line), rule, msg + ' [%s]' % desc,
                        '%d partition(s); first: %s' % (n, ', '.join(log)[:1200])))
    for k in ('roots', 'paths', 'infeasible', 'obligations', 'aborts'):
        rep.count('generator_' + k, total[k])
    rep.note('generator_complete', rep.coverage.get('generator_complete', True) and total['complete'])
    if total['unsupported']:
        rep.note('not_analysed_constructs', dict(list(total['unsupported'].items())[:20]))
    if total['unread']:
        rep.note('not_read_emissions', dict(list(total['unread'].items())[:20]))
    if total['paths'] < least or total['obligations'] == 0:
        raise build.AnalysisError('only %d generator partitions were analysed (%d obligations); unsupported: %s' %
                                  (total['paths'], total['obligations'], list(total['unsupported'])[:3]))


GEN_ASSUME = [
    'clang API: the same question about the same node has the same answer; Rewriter insertion order as documented',
    'generators run on nodes that satisfy the visitor guards (arithmetic builtin types, range in the main file); '
    'the guards themselves are checked under C10-C13',
]


def gp(P, cf, t, p, v='base'):
    res, eff = p.result[v]
    return G.GenPath(P, cf, t['kind'], res, eff)


MODES = {'base': {}, 'show': {'GetShowAstNodeTypes': True}}
ALLMODES = {'base': {}, 'show': {'GetShowAstNodeTypes': True}, 'track': {'GetOnlyTrackMutantCoverage': True},
            'track+show': {'GetOnlyTrackMutantCoverage': True, 'GetShowAstNodeTypes': True}}


def each_mode(P, cf, t, p, modes, fn):
    """fn(g) -> (findings, obligations) for every option setting."""
    out, n = [], 0
    for v in modes:
        g = gp(P, cf, t, p, v)
        if g.unread:
            raise G.Unreadable(g.unread)
        fs, k = fn(g)
        n += k
        for f in fs:
            f = tuple(f)
            if v != 'base':
                f = (f[0], 'with option %s: %s' % (v, f[1])) + f[2:]
            out.append(f)
        if out:
            break       # the same defect shows in the other modes
    return out, n


@prop('C01')
def c01(rep, tier):
    P = program()

    def path(P, cf, t, p, info):
        def one(g):
            if t['kind'] == 'stmt':
                return G.check_stmt(g, 'disabled'), 2
            return G.check_disabled(g), 2
        return each_mode(P, cf, t, p, MODES, one)
    found, total = gendb.run(P, gendb.Rule(path), variants=MODES)
    merge_gen(rep, P, found, total, 'a construct whose mutants are disabled keeps its value, operand evaluations and '
              'result object')
    rep.explanation = ('Every mutation generator is interpreted abstractly on every partition of operator, operand '
                       'types, value categories, constants and language; the text it emits is read as code and '
                       'evaluated under "no mutant" and "another mutant"; the value must be the original operator '
                       'applied to the original operands, each operand evaluated as often as before, through its own '
                       'type, and an lvalue result must stay the same object.')
    rep.assumptions = GEN_ASSUME


@prop('C03')
def c03(rep, tier):
    P = program()

    def path(P, cf, t, p, info):
        def one(g):
            if t['kind'] == 'stmt':
                return G.check_stmt(g, 'actions'), 1
            return G.check_actions(g), 2 + len(g.inst)
        return each_mode(P, cf, t, p, MODES, one)
    found, total = gendb.run(P, gendb.Rule(path), variants=MODES)
    merge_gen(rep, P, found, total, 'enabling the k-th id of a group performs the k-th reported action')
    rep.explanation = ('For every partition of every generator and every reported mutant k, the emitted code is '
                       'evaluated with exactly id+k enabled and compared with the meaning of the action recorded in '
                       'the mutation info; ids next to the group must leave the construct unchanged; the recorded '
                       'original operator must be the operator.')
    rep.assumptions = GEN_ASSUME


@prop('C23')
def c23(rep, tier):
    P = program()

    def path(P, cf, t, p, info):
        def one(g):
            fs = G.well_formed(g)
            if t['kind'] == 'stmt':
                fs = fs + G.check_stmt(g, 'form')
            fs = fs + G.check_glue(g, P, p)
            return fs, 2
        return each_mode(P, cf, t, p, MODES, one)
    found, total = gendb.run(P, gendb.Rule(path), variants=MODES)
    merge_gen(rep, P, found, total, 'the rewritten text is one well-formed construct anchored on the original one')
    rep.explanation = ('The insertions and replacements that each generator performs are assembled, per partition, '
                       'into the text that replaces the construct; it must parse as one expression (statement) in '
                       'which the original operands appear unbroken, call only declared functions, replace exactly '
                       'the operator symbol and not run into a preceding identifier.')
    rep.assumptions = GEN_ASSUME
