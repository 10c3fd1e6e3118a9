"""Analysis roots for the mutation generators (subclasses of dredd::Mutation)."""
import re
import engine as E
import clangmodel as M
import stdmodel
from engine import T, Term, TStr, Cell, Obj, Vec, NULL, Ptr, rv, hashable, base_type, strip_targs, Unsupported
from clangmodel import Config, bos, uos, ARITH, BIN_OK, UN_OK, G_ASSIGN, G_LOG

NODE = T('n')


def root_classes(prog):
    """[(class, ctor key, Apply key, node class)]: every concrete repo class derived from
    dredd::Mutation, found by the class hierarchy."""
    out = []
    for c, r in prog.p['records'].items():
        if not r.get('repo') or c == 'dredd::Mutation' or not prog.is_subclass(c, 'dredd::Mutation'):
            continue
        app = ctor = None
        for k, f in prog.fns.items():
            if f.get('cls') == c and f.get('isctor') and f['p']:
                if base_type(f['p'][0]['t']) == c:
                    continue
                ctor = k
            if f.get('cls') == c and f['qn'].split('::')[-1] == 'Apply' and f.get('ov'):
                app = k
        if app is None or ctor is None:
            continue
        node = None
        for p in prog.fns[ctor]['p']:
            b = base_type(p['t'])
            if prog.is_subclass(b, 'clang::Stmt'):
                node = b
        out.append((c, ctor, app, node))
    return out


def sym_arg(config, t, node):
    b = base_type(t)
    s = strip_targs(b)
    if s in M.SINGLETON:
        return Cell(T(M.SINGLETON[s]))
    if config.prog.is_subclass(b, 'clang::Stmt'):
        config.setcls(node, b)
        return Cell(node)
    if b == 'dredd::Options':
        return Cell(T('options'))
    if b == 'int' and t.rstrip().endswith('&') and not t.startswith('const'):
        return Cell(T('id'))
    if b == 'int':
        return T('first')
    if s in ('std::unordered_set', 'std::set'):
        return Cell(Vec([], 'uset'))
    if b == 'bool':
        return T('arg', 'bool')
    raise Unsupported('generator parameter of type ' + t)


RANGES = ('clang::SourceRange', 'clang::SourceLocation', 'clang::CharSourceRange')


def branches(prog, x, depth=0, seen=None):
    """does the exported body (transitively) contain a branch?"""
    seen = seen if seen is not None else set()
    if isinstance(x, dict):
        if x.get('k') in ('If', 'Cond', 'While', 'Do', 'For', 'RangeFor', 'Switch'):
            return True
        f = x.get('f')
        if isinstance(f, str) and f in prog.fns and f not in seen:
            seen.add(f)
            if branches(prog, prog.fns[f].get('b'), depth + 1, seen):
                return True
        return any(branches(prog, v, depth, seen) for v in x.values() if isinstance(v, (dict, list)))
    if isinstance(x, list):
        return any(branches(prog, v, depth, seen) for v in x)
    return False


def mentions(x, name):
    if isinstance(x, dict):
        f = x.get('f')
        if isinstance(f, str) and name in f:
            return True
        return any(mentions(v, name) for v in x.values() if isinstance(v, (dict, list)))
    if isinstance(x, list):
        return any(mentions(v, name) for v in x)
    return False


def summarise(prog):
    """Functions that compute a range in the main file from a range, and classes that describe a
    range, are replaced by opaque summaries; they are analysed on their own (C10, C04)."""
    ranges, infos = [], []
    for k, f in prog.fns.items():
        ps = [base_type(p['t']) for p in f['p']]
        if any(prog.repo_record(p) for p in ps) or not ps:
            continue
        if not f.get('isctor') and base_type(f['ret'] or '') in RANGES and 'clang::SourceRange' in ps and \
                'clang::Preprocessor' in ps and branches(prog, f.get('b')):
            ranges.append(k)
            prog.opaque[k] = 'MR'
        if f.get('isctor') and ps[0] in RANGES and not prog.is_subclass(f['cls'], 'dredd::Mutation') and \
                branches(prog, f.get('b')):
            infos.append(k)
            prog.opaque[k] = 'info'
        if not f.get('isctor') and base_type(f['ret'] or '') == 'bool' and mentions(f.get('b'), 'getCharacterData') and \
                any(p in RANGES for p in ps):
            prog.opaque[k] = 'textpred'
    return ranges, infos


class GenConfig(Config):
    """Generator precondition (guaranteed by the visitor, checked separately)."""

    def __init__(self, prog, node_cls, cxx, flags, ops=None, assert_mode='assume', vk=None):
        Config.__init__(self, prog, cxx, flags, None, assert_mode)
        self.node_cls = node_cls
        self.ops = ops
        n = NODE
        r = self.roots
        self.mains = set()
        nodes = [n]
        if node_cls == 'clang::BinaryOperator':
            l, rr = T('.getLHS', n), T('.getRHS', n)
            nodes += [l, rr]
        elif node_cls == 'clang::UnaryOperator':
            nodes += [T('.getSubExpr', n)]
        if node_cls in ('clang::BinaryOperator', 'clang::UnaryOperator', 'clang::Expr'):
            for x in nodes:
                r[('tc', T('ty', x))] = ARITH
        if node_cls == 'clang::Expr':
            r[('vk', n)] = frozenset([vk] if vk else ['lv', 'prv'])
            if vk == 'lv':
                r[('tc', T('ty', n))] = ARITH - {'bool'}
        self.vk = vk
        self.mains = set(nodes)
        self.setup = self.prepare

    def prepare(self, _):
        E.C.cls[NODE] = (self.node_cls, frozenset())
        for x in self.mains:
            if x is not NODE:
                E.C.cls[x] = ('clang::Expr', frozenset())
            if self.node_cls != 'clang::Stmt':
                E.C.facts[T('.isValueDependent', x)] = False
                E.C.facts[T('.isTypeDependent', x)] = False
                E.C.facts[T('.isInstantiationDependent', x)] = False
        if self.node_cls == 'clang::Expr' and self.vk == 'lv':
            E.C.facts[T('const', T('ty', NODE))] = False
        if self.ops is not None:
            E.C.doms[T('op', NODE)] = frozenset(self.ops)

    def invalid(self, x):
        y = x
        while y.f in ('MR', '.getBegin', '.getEnd', '.off', 'ext', 'CSR', 'EXT') and isinstance(y.a[0], Term):
            y = y.a[0]
        if y.f == '.getSourceRange' and y.a[0] in self.mains:
            return False
        if y.f == '.getOperatorLoc' and y.a[0] is NODE and self.node_cls == 'clang::BinaryOperator':
            return False    # guaranteed by the visitor, checked under C10
        if y.f == 'SR':
            return Config.invalid(self, y)
        return Config.invalid(self, x)


def run_generator(prog, config, cls, ctor, app):
    def run():
        cf, af = prog.fns[ctor], prog.fns[app]
        o = prog.construct(cls, ctor, [sym_arg(config, p['t'], NODE) for p in cf['p']])
        args = [sym_arg(config, p['t'], NODE) for p in af['p']]
        res = prog.invoke(app, Cell(o), args)
        ids = [a for a, p in zip(args, af['p']) if base_type(p['t']) == 'int' and p['t'].rstrip().endswith('&')]
        sets = [a.v for a, p in zip(args, af['p']) if type(a) is Cell and isinstance(a.v, Vec)]
        return {'pb': rv(res), 'id': ids[0].v if ids else None, 'decls': sets[0] if sets else None, 'obj': o}
    return run
