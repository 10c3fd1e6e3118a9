"""Abstract interpretation of the AST visitor on skeleton ASTs.

A scenario is a small skeleton of an AST (declarations, statements, type locations ...) in which some
nodes are fully described, some are left open, and facts about nodes can be fixed.  The traversal that
clang::RecursiveASTVisitor performs is modelled on the skeleton; every override that the repository's
visitor declares is interpreted, on all partitions of the facts that are left open.  The result of a
partition is the list of mutations that were created and of open nodes that were descended into."""
import clangmodel as M
import engine as E
import explore
import gen
import gendb
from engine import T, Term, Cell, Obj, Vec, Ptr, NULL, Iter, rv, hashable, base_type, strip_targs, truth, Unsupported
from clangmodel import Config

OPEN = None


class Node:
    def __init__(self, term, cls, kids=(), exact=True, role=None, parent=None):
        self.term, self.cls, self.exact, self.role = term, cls, exact, role
        self.kids = list(kids) if kids is not OPEN else OPEN
        self.parent = parent


class Stop(Exception):
    pass


class Scenario:
    """Built by scenarios.py.  roots: nodes traversed in order."""

    def __init__(self, name):
        self.name = name
        self.nodes = {}
        self.facts = {}
        self.doms = {}
        self.cls = {}
        self.top = None
        self.forbidden = []         # open nodes that must not be mutated or descended into
        self.must = []
        self.values = {}
        self.two_parents = False
        self.langs = (True, False)
        self.opts = (True, False)
        self.prop = None
        self.rule = ''

    def node(self, term, cls, kids=(), exact=True, role='stmt'):
        n = Node(term, 'clang::' + cls, kids, exact, role)
        self.nodes[term] = n
        for k in n.kids or ():
            k.parent = n
        return n


class VisitConfig(Config):
    def __init__(self, prog, scen, cxx, flags, assert_mode='assume'):
        Config.__init__(self, prog, cxx, flags, None, assert_mode)
        self.s = scen
        self.vcls = visitor_class(prog)
        self.over = overrides(prog, self.vcls)
        self.setup = self.prepare
        self.roots['iter_bound'] = 2

    def prepare(self, _):
        for t, n in self.s.nodes.items():
            if n.cls != 'clang::?':
                E.C.cls[t] = (n.cls, frozenset())
        for t, c in self.s.cls.items():
            E.C.cls[t] = c
        for t, v in self.s.facts.items():
            E.C.facts[t] = v
        for t, d in self.s.doms.items():
            E.C.doms[t] = frozenset(d)
        self.obj = None
        self.vecs = {}

    # ---------------------------------------------------------------- the AST
    def isa(self, n, cls):
        k = self.s.nodes.get(n)
        if k is not None and k.exact:
            return self.prog.is_subclass(k.cls, cls)
        return Config.isa(self, n, cls)

    def parents(self, t):
        k = self.s.nodes.get(t.a[0])
        if k is not None and k.parent is not None and not getattr(k, 'open_parent', False):
            return [k.parent.term]
        return Config.parents(self, t)

    def null(self, v):
        if v in self.s.nodes:
            return False
        return Config.null(self, v)

    def equal(self, a, b):
        if isinstance(a, Term) and isinstance(b, Term) and a in self.s.nodes and b in self.s.nodes:
            return a == b
        if isinstance(a, Term) and isinstance(b, Term) and a.f in ('in', 'isa') and b.f in ('in', 'isa'):
            return truth(a) == truth(b)
        return Config.equal(self, a, b)

    def theory(self, t):
        if t.f == 'eq' and t.a[0] in self.s.nodes and t.a[1] in self.s.nodes:
            return t.a[0] is t.a[1]
        if t.f == 'eq':
            x, y = locnode(t.a[0]), locnode(t.a[1])
            if x is not None and y is not None and x in self.s.nodes and y in self.s.nodes and x is not y:
                sl = getattr(self.s, 'sameloc', None)
                return sl is not None and {x, y} == set(sl)
        if t.f == 'lt':
            r = self.position(t.a[0], t.a[1])
            if r is not None:
                return r
        if t.f == '.HasSideEffects' and len(t.a) > 1:
            return self.s.facts.get(T('.HasSideEffects', t.a[0]))
        if t.f == 'twoparents' and not self.s.two_parents:
            return False
        if t.f == 'tynull':
            return False if t.a[0].f == 'ty' else None
        return Config.theory(self, t)

    def position(self, a, b):
        """comparison of line or column numbers of the two ends of a node's range."""
        x, y = endpoint(a), endpoint(b)
        if x is None or y is None or x[0] is not y[0] or x[1] == y[1] or x[0] not in self.s.nodes:
            return None
        bad = x[0] in getattr(self.s, 'inconsistent', ())
        if x[1] == 'b':
            return not bad
        return False if not bad else None

    def invalid(self, x):
        y = x
        while y.f in ('MR', '.getBegin', '.getEnd', '.off', 'SR', '.getBeginLoc', '.getEndLoc') and isinstance(y.a[0], Term):
            y = y.a[0]
        r = getattr(self.s, 'badrange', {})
        if y in r or (y.f == '.getSourceRange' and y.a[0] in r):
            return True
        if y.f == '.getOperatorLoc':
            return False
        if y.f == '.getSourceRange' and (y.a[0] in self.s.nodes or y.a[0].f in ('.getLHS', '.getRHS', '.getSubExpr')
                                         and y.a[0].a[0] in self.s.nodes):
            k = self.s.nodes.get(y.a[0])
            if not getattr(k, 'open_range', False):
                return False
        return Config.invalid(self, x)

    def iter_sym(self, t):
        if t.f in ('.body', '.children', '.decls', '.arguments', '.inits') and t.a[0] in self.s.nodes:
            n = self.s.nodes[t.a[0]]
            if n.kids is not OPEN:
                return iter([Cell(k.term) for k in n.kids])
        return Config.iter_sym(self, t)

    def kidvec(self, v):
        n = self.s.nodes.get(v)
        if n is None or n.kids is OPEN:
            return None
        return Vec([Cell(k.term) for k in n.kids])

    def m_body(self, prog, info, v, a, o):
        r = self.kidvec(v)
        return NotImplemented if r is None else r

    m_children = m_body
    m_decls = m_body

    def m_getStmtExprResult(self, prog, info, v, a, o):
        n = self.s.nodes.get(v)
        if n is None or n.kids is OPEN or not n.kids:
            return NotImplemented
        for k in reversed(n.kids):
            if k.cls != 'clang::NullStmt':
                return k.term
        return n.kids[-1].term

    def m_body_begin(self, prog, info, v, a, o):
        r = self.kidvec(v)
        if r is None:
            return NotImplemented
        return Iter(self.samevec(v, r), 0)

    def m_body_end(self, prog, info, v, a, o):
        r = self.kidvec(v)
        if r is None:
            return NotImplemented
        return Iter(self.samevec(v, r), len(r.items))

    def samevec(self, v, r):
        return self.vecs.setdefault(v, r)

    def pure(self, prog, info, qn, n, v, vals):
        k = T('.' + n, v)
        if k in self.s.values:
            return self.s.values[k]
        return Config.pure(self, prog, info, qn, n, v, vals)

    def m_size(self, prog, info, v, a, o):
        if 'CompoundStmt' in (info.get('qn') or ''):
            r = self.kidvec(v)
            if r is not None:
                return len(r.items)
        return Config.m_size(self, prog, info, v, a, o)

    def m_getNumArgs(self, prog, info, v, a, o):
        r = self.kidvec(v)
        return NotImplemented if r is None else len(r.items)

    def m_getStmtClass(self, prog, info, v, a, o):
        return T('.getStmtClass', v)

    def m_GetBuiltinType(self, prog, info, v, a, o):
        # out parameters: no error, and the mask of arguments that must be constant
        i = rv(a[0])
        for x in a[1:]:
            p = rv(x)
            if isinstance(p, Ptr):
                m = getattr(self.s, 'mask', {})
                p.c.v = m[i] if isinstance(i, int) and i in m else T('icemask', hashable(i))
        return T('btype', hashable(i))

    def m_isNullPointerConstant(self, prog, info, v, a, o):
        if v in self.s.nodes:
            return 2 if v in getattr(self.s, 'nullconst', ()) else 0
        return T('.isNullPointerConstant', v)

    # ---------------------------------------------------------------- traversal
    def call(self, key, args):
        return truth(self.prog.invoke(key, Cell(self.obj), args))

    def rav(self, prog, info, n, obj, v, vals):
        if not n.startswith('Traverse'):
            return True
        what = n[len('Traverse'):]
        t = rv(vals[0]) if vals else NULL
        if t is NULL:
            return True
        if what in ('Stmt', 'Decl', 'TypeLoc'):
            return self.dispatch(t, what)
        return self.default(t)

    def dispatch(self, t, kind):
        for x, key in self.over['traverse'].items():
            if x in ('Stmt', 'Decl', 'TypeLoc', 'Type', 'Attr', 'LambdaCapture', 'TemplateArgumentLoc'):
                continue
            c = 'clang::' + x
            k = self.s.nodes.get(t)
            if k is not None and k.exact:
                if k.cls == c:
                    return self.call(key, [t])
                continue
            if self.compatible(t, c) and self.isa(t, c):
                return self.call(key, [t])
        return self.default(t)

    def compatible(self, t, c):
        pos = (E.C.cls.get(t) or (None,))[0]
        sub = self.prog.is_subclass
        return pos is None or sub(c, pos) or sub(pos, c)

    def default(self, t):
        post = self.over['post']
        if not post:
            self.visit(t)
        k = self.s.nodes.get(t)
        if k is None or k.kids is OPEN:
            E.C.effect('descend', t, E.C.line)
        else:
            for x in k.kids:
                self.derived(x)
        if post:
            self.visit(t)
        return True

    def derived(self, k):
        """what the traversal of a parent does with child k."""
        tr = self.over['traverse']
        if k.role in ('stmt', 'decl', 'typeloc'):
            n = {'stmt': 'Stmt', 'decl': 'Decl', 'typeloc': 'TypeLoc'}[k.role]
            ok = self.call(tr[n], [k.term]) if n in tr else self.dispatch(k.term, n)
        elif k.role == 'targ':
            n = 'TemplateArgumentLoc'
            ok = self.call(tr[n], [k.term]) if n in tr else self.default(k.term)
        elif k.role == 'attr':
            n = 'Attr'
            ok = self.call(tr[n], [k.term]) if n in tr else self.default(k.term)
        elif k.role == 'capture':
            n = 'LambdaCapture'
            init = k.kids[0].term if k.kids else NULL
            ok = self.call(tr[n], [k.parent.term, k.term, init]) if n in tr else self.default(k.term)
        else:
            raise Unsupported('role ' + k.role)
        if not ok:
            raise Stop()

    def visit(self, t):
        for x, key in self.over['visit']:
            c = 'clang::' + x
            if not self.compatible(t, c):
                continue
            if self.isa(t, c):
                if not self.call(key, [t]):
                    raise Stop()


def locnode(t):
    while isinstance(t, Term) and t.f in ('.getBegin', '.getSourceRange', '.getLocation', '.getBeginLoc', 'MR'):
        t = t.a[0]
        if isinstance(t, Term) and t.f == 'SR':
            t = t.a[0]
    return t if isinstance(t, Term) else None


def endpoint(t):
    """(node, 'b' or 'e') if t is a line, column or offset of one end of the range of a node."""
    if isinstance(t, E.Lin):
        r = [endpoint(a) for a in t.m if isinstance(a, Term)] if isinstance(t.m, dict) else \
            [endpoint(a) for a, _ in t.m if isinstance(a, Term)]
        r = [x for x in r if x is not None]
        return r[0] if r else None
    if not isinstance(t, Term):
        return None
    if 'LineNumber' in t.f or 'ColumnNumber' in t.f or t.f.endswith(('getFileOffset', 'getLine', 'getColumn')):
        for a in t.a:
            if isinstance(a, Term):
                x = a
                w = 'b'
                while isinstance(x, Term) and x.f in ('.getBegin', '.getEnd', '.getBeginLoc', '.getEndLoc', '.getSourceRange',
                                                      'MR', 'ploc', '.getPresumedLoc', '.getFullLoc'):
                    if x.f in ('.getEnd', '.getEndLoc'):
                        w = 'e'
                    x = x.a[0]
                if isinstance(x, Term) and x.f not in ('SM', 'AC'):
                    return (x, w)
    if t.f.startswith('op') or t.f in ('add', 'out'):
        for a in t.a:
            r = endpoint(a)
            if r is not None:
                return r
    return None


def visitor_class(prog):
    out = []
    for c, r in prog.p['records'].items():
        if r.get('repo') and any(strip_targs(base_type(b)) == 'clang::RecursiveASTVisitor' for b in r.get('bases') or []):
            if any(k for k, f in prog.fns.items() if f.get('cls') == c and f.get('b') is not None and
                   f['qn'].split('::')[-1].startswith('Traverse')):
                out.append(c)
    if len(out) != 1:
        import build
        raise build.AnalysisError('AST visitor class not found: %s' % out)
    return out[0]


_ov = {}


def overrides(prog, cls):
    key = id(prog)
    if key in _ov:
        return _ov[key]
    tr, vi = {}, []
    post = False
    todo, seen = [cls], set()
    while todo:
        c = todo.pop(0)
        if c in seen:
            continue
        seen.add(c)
        todo += [b for b in prog.bases.get(c, ()) if prog.repo_record(b)]
        for k, f in prog.fns.items():
            if f.get('cls') != c:
                continue
            n = f['qn'].split('::')[-1]
            if n.startswith('Traverse') and f['p'] and n[8:] not in tr:
                tr[n[8:]] = k
            elif n.startswith('Visit') and len(f['p']) == 1:
                vi.append((n[5:], k))
            elif n.startswith('WalkUpFrom') or n.startswith('dataTraverse'):
                raise Unsupported('override of ' + n)
            elif n == 'shouldTraversePostOrder':
                post = returns_true(f.get('b'))
    # base classes first
    vi.sort(key=lambda x: len(prog.supers.get('clang::' + x[0]) or ()) if prog.is_subclass('clang::' + x[0], 'clang::' + x[0]) else 0)
    _ov[key] = {'traverse': tr, 'visit': vi, 'post': post}
    return _ov[key]


def returns_true(b):
    s = repr(b)
    return "'k': 'Bool'" in s and ("'v': True" in s or "'v': 1" in s)


def program(prog_dict):
    """resolved program in which the construction of a mutation is an observable event."""
    P = gendb.program(prog_dict)
    muts = {ctor: c for c, ctor, app, node in gen.root_classes(P)}
    inner = P.ctor_hook

    def hook(key, cls, vals):
        if key in muts:
            E.C.effect('newmut', cls, tuple(hashable(rv(v)) for v in vals), E.C.line)
            return T('C:' + cls, *[hashable(v) for v in vals])
        return inner(key, cls, vals)
    P.ctor_hook = hook
    P.muts = muts
    P.rec_bound = 4
    P.rec_free = set(overrides(P, visitor_class(P))['traverse'].values())
    P.max_depth = 200
    return P


def run(P, cf, s):
    vc = cf.vcls
    ctor = [k for k, f in P.fns.items() if f.get('cls') == vc and f.get('isctor') and f['p'] and
            base_type(f['p'][0]['t']) != vc]

    def go():
        args = []
        for p in P.fns[ctor[0]]['p']:
            args.append(gen.sym_arg(cf, p['t'], None))
        cf.obj = P.construct(vc, ctor[0], args)
        stopped = False
        try:
            for r in s.top:
                cf.derived(r)
        except Stop:
            stopped = True
        return {'stopped': stopped, 'visitor': cf.obj}
    return go


def node_of(m):
    """the AST node a newmut effect is about."""
    for a in m[2]:
        if isinstance(a, Term) and a.f not in ('PP', 'AC', 'SM', 'LO', 'CI'):
            return a
    return None


def explore_scenario(P, s, cxx, opt, on_path, limit=60000, deadline=None, assert_mode='assume'):
    cf = VisitConfig(P, s, cxx, {'GetOptimiseMutations': opt}, assert_mode)
    return explore.explore(cf, run(P, cf, s), limit=limit, deadline=deadline, on_path=lambda p: on_path(cf, p))
