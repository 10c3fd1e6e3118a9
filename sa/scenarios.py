"""Skeleton ASTs for the visitor analysis: what must never be mutated, and what must be."""
import clangmodel as M
from engine import T, NULL, tstr
from visit import Scenario, OPEN

ARITH = frozenset(['bool', 'sint', 'uint', 'float'])
E_ = T('E')
EXPRS = ['IntegerLiteral', 'DeclRefExpr', 'BinaryOperator', 'CallExpr', 'CXXOperatorCallExpr', 'CXXMemberCallExpr',
         'ImplicitCastExpr', 'CStyleCastExpr', 'MemberExpr', 'UnaryOperator', 'CompoundAssignOperator',
         'ArraySubscriptExpr', 'ConditionalOperator', 'ParenExpr', 'ExprWithCleanups', 'FloatingLiteral',
         'CXXStaticCastExpr', 'CharacterLiteral', 'CXXBoolLiteralExpr', 'UnaryExprOrTypeTraitExpr', 'StmtExpr',
         'BinaryConditionalOperator', 'CXXFunctionalCastExpr']


class B(Scenario):
    """Scenario with helpers; facts about context nodes are benign unless stated."""

    def __init__(self, name):
        Scenario.__init__(self, name)
        self.n = 0
        self.nullconst = set()
        self.inconsistent = set()
        self.mask = {}

    def ctx(self, cls, kids=(), term=None, tc=('other',), role='stmt'):
        """fully described context node."""
        if term is None:
            self.n += 1
            term = T('%s%d' % (cls, self.n))
        n = self.node(term, cls, kids, role=role)
        if role == 'stmt':
            self.doms[T('tc', T('ty', term))] = frozenset(tc)
            self.doms[T('vk', term)] = frozenset(['prv'])
            self.facts[T('sugar', T('ty', term), 'clang::DecltypeType')] = False
        if role == 'decl':
            self.decl(term, cls)
        return n

    def decl(self, t, cls):
        f = self.facts
        if cls.endswith(('FunctionDecl', 'MethodDecl', 'ConstructorDecl', 'ConversionDecl')):
            f[T('.isConstexpr', t)] = False
            f[T('.isConsteval', t)] = False
            f[T('.isConstexprSpecified', t)] = False
            self.values[T('.getTrailingRequiresClause', t)] = NULL
            self.values[T('.getNameAsString', t)] = tstr('f')
            self.values[T('.getName', t)] = tstr('f')
        if cls.endswith('VarDecl'):
            f[T('.isConstexpr', t)] = False
            f[T('.isStaticLocal', t)] = False
            f[T('.hasAttr<clang::ConstInitAttr>', t)] = False
            f[T('.hasConstantInitialization', t)] = False
            f[T('sugar', T('ty', t), 'clang::TemplateSpecializationType')] = False
            self.doms[T('tc', T('ty', t))] = frozenset(['sint'])
        if cls.endswith('FieldDecl'):
            self.doms[T('tc', T('ty', t))] = frozenset(['sint'])

    def focus(self, cls, term=E_, kids=OPEN, tc=ARITH, vk=('prv',), benign=True):
        """the expression of interest; everything that could exclude it is switched off."""
        n = self.node(term, cls, kids)
        if kids is OPEN:
            self.facts[T('has', T('.children', term), 0)] = False
        if benign:
            self.benign(term, cls, tc, vk)
        return n

    def benign(self, t, cls='', tc=ARITH, vk=('prv',)):
        f = self.facts
        ty = T('ty', t)
        if tc is not None:
            self.doms[T('tc', ty)] = frozenset(tc)
        if vk is not None:
            self.doms[T('vk', t)] = frozenset(vk)
        f[T('sugar', ty, 'clang::DecltypeType')] = False
        f[T('const', ty)] = False
        f[T('.refersToBitField', t)] = False
        f[T('.refersToVectorElement', t)] = False
        f[T('.usesADL', t)] = False
        f[T('.HasSideEffects', t)] = True
        self.values[T('.getBuiltinCallee', t)] = 0
        f[T('has', T('.arguments', t), 0)] = False
        self.values[T('.IgnoreParens', t)] = t
        if cls == 'BinaryOperator':
            self.doms[T('op', t)] = frozenset([M.BO['Add']])
        if cls == 'CompoundAssignOperator':
            self.doms[T('op', t)] = frozenset([M.BO['AddAssign']])
        if cls == 'UnaryOperator':
            self.doms[T('op', t)] = frozenset([M.UO['Minus']])
        for a in ('.getSubExpr', '.getLHS', '.getRHS', '.getBase'):
            x = T(a, t)
            self.values[T('.IgnoreParens', x)] = x
            f[T('.refersToBitField', x)] = False
            f[T('has', T('.children', x), 0)] = False
            f[T('.refersToVectorElement', x)] = False
            self.cls.setdefault(x, ('clang::IntegerLiteral', frozenset()))
            if a != '.getBase':
                self.doms.setdefault(T('tc', T('ty', x)), ARITH)

    RELEASE = ('.isConstexpr', '.isConsteval', '.isConstexprSpecified', '.isStaticLocal',
               '.hasAttr<clang::ConstInitAttr>', '.hasConstantInitialization')

    def release(self, focus=()):
        """forgets what plays no part in why the place is forbidden: it is forbidden whatever holds there."""
        for t, v in list(self.facts.items()):
            if v is False and t.f in self.RELEASE and t.a[0] in self.nodes and self.nodes[t.a[0]].role == 'decl':
                del self.facts[t]
        for t in self.nodes:
            if self.nodes[t].role == 'decl' and self.nodes[t].cls.endswith(('VarDecl', 'FieldDecl')):
                k = T('tc', T('ty', t))
                if self.doms.get(k) == frozenset(['sint']):
                    self.doms[k] = ARITH | frozenset(['ptr', 'record', 'enum'])
        for t in focus:
            self.facts.pop(T('const', T('ty', t)), None)
            self.facts.pop(T('.HasSideEffects', t), None)

    def body(self, *stmts):
        return self.ctx('CompoundStmt', list(stmts))

    def fn(self, *kids, **k):
        f = self.ctx(k.get('cls', 'FunctionDecl'), list(kids), term=k.get('term', T('F')), role='decl')
        self.top = [f]
        return f

    def in_fn(self, *stmts):
        return self.fn(self.body(*stmts))

    def ret(self, e):
        return self.ctx('ReturnStmt', [e])

    def var(self, kids, term=None, cls='VarDecl'):
        v = self.ctx(cls, kids, term=term or T('V'), role='decl')
        return self.ctx('DeclStmt', [v])


CTX_E = ['IntegerLiteral', 'BinaryOperator', 'CallExpr', 'ImplicitCastExpr', 'DeclRefExpr']


def enum(P, name, val):
    for n, v in P.p['enums'].get(name) or []:
        if n.split('::')[-1] == val:
            return int(v)
    return None


# ------------------------------------------------------------------------------------------- C11
def constant_contexts(P):
    """[(scenario, [forbidden terms])]: code that must stay constant."""
    out = []
    CXX, C = (True,), (False,)

    def add(name, build, langs=(True, False), es=CTX_E, what=None, key=None):
        for cls in es:
            s = B('%s/%s' % (name, cls))
            s.what = what or name
            s.key = key
            s.langs = langs
            e = build(s, cls)
            s.forbidden = [x.term for x in (e if isinstance(e, list) else [e])]
            s.descend = what != 'code outside a function'
            if s.descend:
                s.release(s.forbidden)
            out.append(s)

    def constexpr_fn(s, c):
        e = s.focus(c)
        s.in_fn(s.ret(e))
        s.facts[T('.isConstexpr', T('F'))] = True
        s.facts.pop(T('.isConstexprSpecified', T('F')))
        s.facts.pop(T('.isConsteval', T('F')))
        return e
    add('the body of a constexpr function', constexpr_fn, CXX)

    def constexpr_method(s, c):
        e = s.focus(c)
        m = s.ctx('CXXMethodDecl', [s.body(s.ret(e))], role='decl', term=T('Meth'))
        r = s.ctx('CXXRecordDecl', [m], role='decl')
        s.top = [r]
        s.facts[T('.isConstexpr', T('Meth'))] = True
        s.facts.pop(T('.isConstexprSpecified', T('Meth')))
        s.facts.pop(T('.isConsteval', T('Meth')))
        return e
    add('the body of a constexpr member function', constexpr_method, CXX)

    def constexpr_var(s, c):
        e = s.focus(c)
        s.in_fn(s.var([e]))
        s.facts[T('.isConstexpr', T('V'))] = True
        return e
    add('the initialiser of a constexpr variable', constexpr_var, CXX)

    def constinit_var(s, c):
        e = s.focus(c)
        s.in_fn(s.var([e]))
        s.facts[T('.hasAttr<clang::ConstInitAttr>', T('V'))] = True
        s.facts[T('.isStaticLocal', T('V'))] = True
        return e
    add('the initialiser of a constinit variable', constinit_var, CXX)

    def c_static(s, c):
        e = s.focus(c)
        s.in_fn(s.var([e]))
        s.facts[T('.isStaticLocal', T('V'))] = True
        return e
    add('the initialiser of a static local variable in C', c_static, C)

    def case_in_block(s, c):
        k = T('case')
        e = s.focus(c, T('.getLHS', k))
        sub = s.ctx('BreakStmt', term=T('.getSubStmt', k))
        cs = s.ctx('CaseStmt', [e, sub], term=k)
        sw = s.ctx('SwitchStmt', [s.ctx('DeclRefExpr'), s.body(cs)])
        s.in_fn(sw)
        return e
    add('a case label', case_in_block)

    def case_range(s, c):
        k = T('case')
        lo = s.focus(c, T('.getLHS', k))
        hi = s.focus(c, T('.getRHS', k))
        sub = s.ctx('BreakStmt', term=T('.getSubStmt', k))
        cs = s.ctx('CaseStmt', [lo, hi, sub], term=k)
        s.in_fn(s.ctx('SwitchStmt', [s.ctx('DeclRefExpr'), s.body(cs)]))
        return [lo, hi]
    add('a case range', case_range)

    def case_nested(s, c):
        k1, k2 = T('case1'), T('.getSubStmt', T('case1'))
        e1, e2 = s.focus(c, T('.getLHS', k1)), s.focus(c, T('.getLHS', k2))
        sub = s.ctx('BreakStmt', term=T('.getSubStmt', k2))
        c2 = s.ctx('CaseStmt', [e2, sub], term=k2)
        c1 = s.ctx('CaseStmt', [e1, c2], term=k1)
        s.in_fn(s.ctx('SwitchStmt', [s.ctx('DeclRefExpr'), s.body(c1)]))
        return [e1, e2]
    add('one of several case labels of a statement', case_nested)

    def case_no_block(s, c):
        k1, k2 = T('case1'), T('.getSubStmt', T('case1'))
        e1, e2 = s.focus(c, T('.getLHS', k1)), s.focus(c, T('.getLHS', k2))
        sub = s.ctx('BreakStmt', term=T('.getSubStmt', k2))
        c2 = s.ctx('CaseStmt', [e2, sub], term=k2)
        c1 = s.ctx('CaseStmt', [e1, c2], term=k1)
        s.in_fn(s.ctx('SwitchStmt', [s.ctx('DeclRefExpr'), c1]))
        return [e1, e2]
    add('a case label outside a block', case_no_block)

    def case_in_loop(s, c):
        k1 = T('case1')
        e1 = s.focus(c, T('.getLHS', k1))
        sub = s.ctx('BreakStmt', term=T('.getSubStmt', k1))
        c1 = s.ctx('CaseStmt', [e1, sub], term=k1)
        lab = s.ctx('LabelStmt', [s.ctx('DoStmt', [c1])])
        s.in_fn(s.ctx('SwitchStmt', [s.ctx('DeclRefExpr'), s.body(lab)]))
        return e1
    add('a case label inside another statement', case_in_loop)

    def arr(tl):
        def f(s, c):
            e = s.focus(c)
            t = s.ctx(tl, [e], role='typeloc')
            s.in_fn(s.var([t]))
            return e
        return f
    add('the size of an array', arr('ConstantArrayTypeLoc'))
    add('the size of an array with dependent size', arr('DependentSizedArrayTypeLoc'), CXX)
    add('the size of a variable-sized array in C++', arr('VariableArrayTypeLoc'), CXX)
    add('the operand of decltype', arr('DecltypeTypeLoc'), CXX, what='an unevaluated operand (decltype)')
    add('the operand of typeof', arr('TypeOfExprTypeLoc'), what='an unevaluated operand (typeof)')

    def field_arr(s, c):
        e = s.focus(c)
        t = s.ctx('ConstantArrayTypeLoc', [e], role='typeloc')
        fd = s.ctx('FieldDecl', [t], role='decl')
        r = s.ctx('CXXRecordDecl', [fd], role='decl')
        s.in_fn(s.ctx('DeclStmt', [r]))
        return e
    add('the size of an array member', field_arr)

    def ret_type(s, c):
        e = s.focus(c)
        t = s.ctx('DecltypeTypeLoc', [e], role='typeloc')
        s.fn(t, s.body())
        return e
    add('a decltype result type', ret_type, CXX)

    def targ_type(s, c):
        e = s.focus(c)
        a = s.ctx('TemplateArgumentLoc', [e], role='targ')
        t = s.ctx('TemplateSpecializationTypeLoc', [a], role='typeloc')
        s.in_fn(s.var([t]))
        return e
    add('a template argument in a type', targ_type, CXX)

    def targ_expr(s, c):
        e = s.focus(c)
        a = s.ctx('TemplateArgumentLoc', [e], role='targ')
        s.in_fn(s.ret(s.ctx('DeclRefExpr', [a])))
        return e
    add('a template argument in an expression', targ_expr, CXX)

    def attr_decl(s, c):
        e = s.focus(c)
        a = s.ctx('Attr', [e], role='attr')
        s.in_fn(s.var([a]))
        return e
    add('an argument of an attribute of a variable', attr_decl)

    def attr_fn(s, c):
        e = s.focus(c)
        a = s.ctx('Attr', [e], role='attr')
        s.fn(a, s.body())
        return e
    add('an argument of an attribute of a function', attr_fn)

    def attr_stmt(s, c):
        e = s.focus(c)
        a = s.ctx('Attr', [e], role='attr')
        s.in_fn(s.ctx('AttributedStmt', [a, s.ctx('NullStmt')]))
        return e
    add('an argument of an attribute of a statement', attr_stmt)

    def lam(kind):
        def f(s, c):
            l = T('lam')
            e = s.focus(c)
            b = s.node(T('.getBody', l), 'CompoundStmt', [])
            if kind == 'capture':
                k = s.ctx('LambdaCapture', [e], role='capture')
                kids = [k, b]
            elif kind == 'requires':
                s.values[T('.getTrailingRequiresClause', T('.getCallOperator', l))] = e.term
                s.values[T('.getTrailingRequiresClause', l)] = e.term
                kids = [e, b]
            elif kind == 'parm':
                p = s.ctx('ParmVarDecl', [e], role='decl', term=T('P'))
                kids = [p, b]
            lm = s.ctx('LambdaExpr', kids, term=l, tc=('record',))
            s.in_fn(s.ret(lm))
            return e
        return f
    add('the initialiser of a lambda capture', lam('capture'), CXX)
    add('the requires clause of a lambda', lam('requires'), CXX)
    add('a default argument of a lambda', lam('parm'), CXX)

    def parm(s, c):
        e = s.focus(c)
        p = s.ctx('ParmVarDecl', [e], role='decl', term=T('P'))
        s.fn(p, s.body())
        return e
    add('a default argument', parm, CXX)

    def st_assert(s, c):
        e = s.focus(c, T('.getAssertExpr', T('SA')))
        d = s.ctx('StaticAssertDecl', [e], role='decl', term=T('SA'))
        s.in_fn(s.ctx('DeclStmt', [d]))
        return e
    add('the condition of a static assertion', st_assert)

    def constant_expr(s, c):
        e = s.focus(c)
        k = s.focus('ConstantExpr', T('CE'), kids=[e])
        s.in_fn(s.ret(k))
        return [e, k]
    add('an expression marked as a constant expression', constant_expr)

    def noexc(s, c):
        e = s.focus(c)
        s.in_fn(s.ret(s.ctx('CXXNoexceptExpr', [e])))
        return e
    add('the operand of noexcept', noexc, CXX)

    for u in ('SizeOf', 'AlignOf', 'PreferredAlignOf'):
        v = enum(P, 'clang::UnaryExprOrTypeTrait', 'UETT_' + u)
        if v is None:
            continue

        def uett(s, c, v=v):
            t = T('uett')
            e = s.focus(c, T('.getArgumentExpr', t))
            s.ctx('UnaryExprOrTypeTraitExpr', [e], term=t)
            s.values[T('.getKind', t)] = v
            s.in_fn(s.ret(s.nodes[t]))
            return e
        add('the operand of ' + {'SizeOf': 'sizeof', 'AlignOf': 'alignof', 'PreferredAlignOf': '__alignof__'}[u], uett)

    def typeid(s, c):
        t = T('typeid')
        e = s.focus(c, T('.getExprOperand', t))
        s.ctx('CXXTypeidExpr', [e], term=t)
        s.facts[T('.isPotentiallyEvaluated', t)] = False
        s.facts[T('.isTypeOperand', t)] = False
        s.in_fn(s.ret(s.nodes[t]))
        return e
    add('the operand of typeid', typeid, CXX)

    def generic(s, c):
        t = T('generic')
        e = s.focus(c, T('.getControllingExpr', t))
        s.ctx('GenericSelectionExpr', [e], term=t)
        s.in_fn(s.ret(s.nodes[t]))
        return e
    add('the controlling expression of _Generic', generic, CXX)

    def if_constexpr(s, c):
        t = T('if')
        e = s.focus(c, T('.getCond', t))
        s.ctx('IfStmt', [e, s.ctx('NullStmt')], term=t)
        s.facts[T('.isConstexpr', t)] = True
        s.in_fn(s.nodes[t])
        return e
    add('the condition of a constexpr if', if_constexpr, CXX)

    def new_size(s, c):
        t = T('new')
        e = s.focus(c, T('.getArraySize', t))
        s.ctx('CXXNewExpr', [e], term=t, tc=('ptr',))
        s.in_fn(s.ret(s.nodes[t]))
        return e
    add('the array size of a new expression', new_size, CXX)

    def trail(s, c):
        e = s.focus(c, T('req'))
        s.fn(e, s.body())
        s.values[T('.getTrailingRequiresClause', T('F'))] = e.term
        return e
    add('a trailing requires clause', trail, CXX)

    def reqexpr(s, c):
        e = s.focus(c)
        s.in_fn(s.ret(s.ctx('RequiresExpr', [e])))
        return e
    add('a requirement', reqexpr, CXX)

    for a in ('GCCAsmStmt', 'MSAsmStmt'):
        def asm(s, c, a=a):
            e = s.focus(c)
            s.in_fn(s.ctx(a, [e]))
            return e
        add('an operand of inline assembly (%s)' % a, asm)

    def shuffle(s, c):
        e = s.focus(c)
        s.in_fn(s.ret(s.ctx('ShuffleVectorExpr', [s.ctx('DeclRefExpr'), e])))
        return e
    add('an index of a vector shuffle', shuffle)

    def builtin(name, mask, i, n):
        def f(s, c):
            t = T('call')
            args = []
            for j in range(n):
                a = T('.getArg', t, j)
                args.append(s.focus(c, a) if j == i else s.ctx('DeclRefExpr', term=a))
            s.ctx('CallExpr', args, term=t)
            s.values[T('.getBuiltinCallee', t)] = enum(P, 'clang::Builtin::ID', name)
            s.mask[enum(P, 'clang::Builtin::ID', name)] = mask
            s.in_fn(s.ret(s.nodes[t]))
            return args[i]
        return f
    for name, mask, i, n in (('BI__builtin_frame_address', 1, 0, 1), ('BI__builtin_object_size', 0, 1, 2),
                             ('BI__builtin_prefetch', 0, 1, 3), ('BI__builtin_prefetch', 0, 2, 3),
                             ('BI__builtin_dynamic_object_size', 0, 1, 2), ('BI__builtin_rotateleft8', 2, 1, 2)):
        if enum(P, 'clang::Builtin::ID', name) is not None:
            add('argument %d of %s' % (i, name[2:]), builtin(name, mask, i, n), es=CTX_E[:3],
                what='a builtin argument that must be constant')

    def udl(s, c):
        e = s.focus(c)
        k = s.focus('UserDefinedLiteral', T('udl'), kids=[e])
        s.in_fn(s.ret(k))
        return [e, k]
    add('a user-defined literal', udl, CXX, es=CTX_E[:1])

    # code outside functions
    def glob(s, c):
        e = s.focus(c)
        v = s.ctx('VarDecl', [e], role='decl', term=T('V'))
        s.top = [v]
        return e
    add('the initialiser of a global variable', glob, what='code outside a function')

    def member_init(s, c):
        e = s.focus(c)
        v = s.ctx('FieldDecl', [e], role='decl')
        r = s.ctx('CXXRecordDecl', [v], role='decl')
        s.in_fn(s.ctx('DeclStmt', [r]))
        return e
    add('a default member initialiser or bit width in a local class', member_init, CXX, what='code outside a function')

    def static_member(s, c):
        e = s.focus(c)
        v = s.ctx('VarDecl', [e], role='decl', term=T('V'))
        r = s.ctx('CXXRecordDecl', [v], role='decl')
        s.in_fn(s.ctx('DeclStmt', [r]))
        return e
    add('the initialiser of a static data member of a local class', static_member, CXX, what='code outside a function')

    def enumerator(s, c):
        e = s.focus(c)
        v = s.ctx('EnumConstantDecl', [e], role='decl')
        r = s.ctx('EnumDecl', [v], role='decl')
        s.in_fn(s.ctx('DeclStmt', [r]))
        return e
    add('the value of an enumerator', enumerator, what='code outside a function')

    # documented defects
    def constexpr_lambda(s, c):
        l = T('lam')
        op = T('.getCallOperator', l)
        e = s.focus(c)
        b = s.ctx('CompoundStmt', [s.ret(e)], term=T('.getBody', l))
        s.facts[T('.isConstexprSpecified', op)] = True
        s.facts[T('.isConstexpr', op)] = True
        s.facts[T('.isConsteval', op)] = False
        lm = s.ctx('LambdaExpr', [b], term=l, tc=('record',))
        s.in_fn(s.ret(lm))
        return e
    add('the body of a constexpr lambda', constexpr_lambda, CXX, es=CTX_E[:1], key='constexpr-lambda-body')
    return out


# ------------------------------------------------------------------------------------------- C12
def unroutable(P):
    """scenarios in which expression E must not be passed through a mutator function."""
    out = []
    CXX, C = (True,), (False,)
    VAL = [c for c in EXPRS if c not in ('ParenExpr', 'ExprWithCleanups')]

    def add(name, build, langs=(True, False), es=VAL, kinds=('expr', 'un', 'bin')):
        for cls in es:
            s = B('%s/%s' % (name, cls))
            s.what = name
            s.key = None
            s.langs = langs
            s.kinds = kinds
            e = build(s, cls)
            if e is None:
                continue
            s.forbidden = [e.term]
            s.release()
            out.append(s)

    def under(s, e, parent, kids=None, tc=('sint',), **kw):
        p = s.ctx(parent, [e], tc=tc, **kw)
        s.in_fn(s.ret(p))
        return p
    LV = ['DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr', 'CallExpr', 'CXXOperatorCallExpr', 'CXXMemberCallExpr',
          'ConditionalOperator', 'ImplicitCastExpr', 'CStyleCastExpr', 'StmtExpr', 'CXXStaticCastExpr', 'ParenExpr']

    def lv_const(s, c):
        e = s.focus(c, vk=('lv',))
        s.facts[T('const', T('ty', E_))] = True
        under(s, e, 'ImplicitCastExpr')
        return e
    add('a const l-value', lv_const, es=LV, kinds=('expr',))

    def lv_bool(s, c):
        e = s.focus(c, vk=('lv',), tc=('bool',))
        under(s, e, 'ImplicitCastExpr', tc=('bool',))
        return e
    add('a boolean l-value', lv_bool, es=LV, kinds=('expr',))

    for what, f in (('bit-field', '.refersToBitField'), ('vector element', '.refersToVectorElement')):
        def lv_bf(s, c, f=f):
            e = s.focus(c, vk=('lv',))
            s.facts[T(f, E_)] = True
            under(s, e, 'ImplicitCastExpr')
            return e
        add('a %s l-value' % what, lv_bf, es=LV, kinds=('expr',))

    def lv_reg(s, c):
        e = s.focus('DeclRefExpr', vk=('lv',))
        register(P, s, E_)
        under(s, e, 'ImplicitCastExpr')
        return e
    add('a register variable in C', lv_reg, C, es=['DeclRefExpr'], kinds=('expr',))

    def lv_regm(s, c):
        e = s.focus('MemberExpr', vk=('lv',))
        b = T('.getBase', E_)
        s.cls[b] = ('clang::DeclRefExpr', frozenset())
        s.facts[T('.isArrow', E_)] = False
        register(P, s, b)
        under(s, e, 'ImplicitCastExpr')
        return e
    add('a member of a register variable in C', lv_regm, C, es=['MemberExpr'], kinds=('expr',))

    for p in ('ReturnStmt', 'BinaryOperator', 'UnaryOperator', 'CallExpr', 'MemberExpr', 'ParenExpr', 'CXXConstructExpr',
              'InitListExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CompoundAssignOperator'):
        def lv_par(s, c, p=p):
            e = s.focus(c, vk=('lv',))
            k = under(s, e, p)
            if p != 'ReturnStmt':
                s.benign(k.term, p, tc=('ptr',))
            if p in ('CStyleCastExpr', 'CXXStaticCastExpr'):
                s.doms[T('vk', k.term)] = frozenset(['lv'])
            s.facts[T('.usesADL', k.term)] = False
            s.values[T('.getBuiltinCallee', k.term)] = 0
            return e
        add('an l-value that is not read (%s)' % p, lv_par, es=LV[:6], kinds=('expr',))

    def lv_lvcast(s, c):
        e = s.focus(c, vk=('lv',))
        k = under(s, e, 'ImplicitCastExpr')
        s.doms[T('vk', k.term)] = frozenset(['lv'])
        return e
    add('an l-value under a cast to an l-value', lv_lvcast, es=LV[:6], kinds=('expr',))

    def xv(s, c):
        e = s.focus(c, vk=('xv',))
        under(s, e, 'ImplicitCastExpr')
        return e
    add('an x-value', xv, CXX, es=LV, kinds=('expr',))

    def xv_ret(s, c):
        e = s.focus(c, vk=('xv',))
        s.in_fn(s.ret(e))
        return e
    add('an x-value (returned)', xv_ret, CXX, es=LV, kinds=('expr',))

    def initlist(s, c):
        e = s.focus('InitListExpr')
        s.in_fn(s.var([e]))
        return e
    add('a braced initialiser list', initlist, es=['InitListExpr'])

    for p in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr'):
        def nullptr(s, c, p=p):
            e = s.focus(c)
            s.nullconst.add(E_)
            under(s, e, p, tc=('ptr',))
            return e
        add('a null pointer constant (%s)' % p, nullptr, es=['IntegerLiteral', 'ParenExpr', 'DeclRefExpr', 'ImplicitCastExpr',
                                                             'UnaryOperator', 'BinaryOperator', 'CStyleCastExpr'],
            kinds=('expr',))

    def enumctor(s, c):
        e = s.focus('ImplicitCastExpr')
        x = T('.getSubExpr', E_)
        s.cls[x] = ('clang::DeclRefExpr', frozenset())
        s.doms[T('tc', T('ty', x))] = frozenset(['enum'])
        s.cls[T('.getDecl', x)] = ('clang::EnumConstantDecl', frozenset())
        under(s, e, 'CXXConstructExpr', tc=('record',))
        return e
    add('an enumerator from which an object is constructed', enumctor, CXX, es=['ImplicitCastExpr'])

    def bfref(s, c):
        e = s.focus(c)
        s.facts[T('.refersToBitField', T('.getSubExpr', E_))] = True
        under(s, e, 'MaterializeTemporaryExpr')
        return e
    add('a bit-field bound to a reference', bfref, CXX, es=['ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr'])

    def adl(sub_tc, sub_cls):
        def f(s, c):
            e = s.focus('ImplicitCastExpr')
            x = T('.getSubExpr', E_)
            s.cls[x] = ('clang::' + sub_cls, frozenset())
            s.doms[T('tc', T('ty', x))] = frozenset(sub_tc)
            k = under(s, e, c, tc=('other',))
            s.facts[T('.usesADL', k.term)] = True
            s.values[T('.getBuiltinCallee', k.term)] = 0
            return e
        return f
    add('an argument that steers argument-dependent lookup (enum)', adl(['enum'], 'DeclRefExpr'), CXX, es=['CallExpr', 'CXXOperatorCallExpr'])
    add('an argument that steers argument-dependent lookup (class)', adl(['record'], 'DeclRefExpr'), CXX, es=['CallExpr', 'CXXOperatorCallExpr'])
    add('an argument that steers argument-dependent lookup (conversion)', adl(['sint'], 'CXXMemberCallExpr'), CXX, es=['CallExpr', 'CXXOperatorCallExpr'])

    def adl_call(s, c):
        e = s.focus('CXXMemberCallExpr')
        k = under(s, e, c, tc=('other',))
        s.facts[T('.usesADL', k.term)] = True
        s.values[T('.getBuiltinCallee', k.term)] = 0
        return e
    add('a member call that steers argument-dependent lookup', adl_call, CXX, es=['CallExpr', 'CXXOperatorCallExpr'])

    def adl_call2(s, c):
        e = s.focus('CXXMemberCallExpr')
        i = s.ctx('ImplicitCastExpr', [e], tc=('sint',))
        k = s.ctx(c, [i])
        s.in_fn(s.ret(k))
        s.facts[T('.usesADL', k.term)] = True
        s.values[T('.getBuiltinCallee', k.term)] = 0
        return e
    add('a converted member call that steers argument-dependent lookup', adl_call2, CXX, es=['CallExpr', 'CXXOperatorCallExpr'])

    def mte(s, c):
        e = s.focus('MaterializeTemporaryExpr', vk=('lv',))
        under(s, e, 'ImplicitCastExpr')
        return e
    add('a materialised temporary', mte, CXX, es=['MaterializeTemporaryExpr'])

    def mte_prv(s, c):
        e = s.focus('MaterializeTemporaryExpr')
        s.in_fn(s.ret(e))
        return e
    add('a materialised temporary (value)', mte_prv, CXX, es=['MaterializeTemporaryExpr'])

    def temp(s, shape, term):
        """an operand that refers to a temporary."""
        if shape == 'direct':
            return s.ctx('MaterializeTemporaryExpr', term=term, tc=('record',))
        m = s.ctx('MaterializeTemporaryExpr', term=T('.getBase', term), tc=('record',))
        s.doms[T('vk', m.term)] = frozenset(['xv'])
        k = s.ctx('MemberExpr', [m], term=term, tc=('record',))
        s.doms[T('vk', term)] = frozenset(['lv'])
        return k

    def mte_member(s, c):
        e = s.focus('MemberExpr', vk=('lv',), kids=[temp(s, 'direct', T('.getBase', E_))])
        under(s, e, 'ImplicitCastExpr')
        return e
    add('a member of a materialised temporary', mte_member, CXX, es=['MemberExpr'])

    for shape in ('direct', 'member'):
        for i in (0, 1):
            def mte_call(s, c, i=i, shape=shape):
                a = [s.ctx('DeclRefExpr', term=T('.getArg', E_, j)) if j != i else temp(s, shape, T('.getArg', E_, i))
                     for j in range(2)]
                e = s.focus(c, vk=('lv',), kids=a)
                del s.facts[T('has', T('.arguments', E_), 0)]
                under(s, e, 'ImplicitCastExpr')
                return e
            add('a reference into a materialised temporary (argument %d, %s)' % (i, shape), mte_call, CXX,
                es=['CallExpr', 'CXXOperatorCallExpr', 'CXXMemberCallExpr'])

        def mte_method(s, c, shape=shape):
            o = temp(s, shape, T('.getBase', T('.getCallee', E_)))
            m = s.ctx('MemberExpr', [o], term=T('.getCallee', E_))
            e = s.focus('CXXMemberCallExpr', vk=('lv',), kids=[m])
            s.values[T('.getImplicitObjectArgument', E_)] = o.term
            under(s, e, 'ImplicitCastExpr')
            return e
        add('a reference obtained from a method of a materialised temporary (%s)' % shape, mte_method, CXX,
            es=['CXXMemberCallExpr'])

        for op in ('PostInc', 'PostDec'):
            def mte_post(s, c, shape=shape, op=op):
                x = temp(s, shape, T('.getSubExpr', E_))
                s.doms[T('vk', x.term)] = frozenset(['lv'])
                e = s.focus('UnaryOperator', kids=[x])
                s.cls.pop(x.term, None)
                s.doms[T('tc', T('ty', x.term))] = ARITH
                s.doms[T('op', E_)] = frozenset([M.UO[op]])
                s.in_fn(s.ret(e))
                return e
            add('%s of a reference into a materialised temporary (%s)' % (op, shape), mte_post, CXX, es=['-'], kinds=('un',))

    for tc in ('half', 'enum', 'senum', 'bitint', 'complex', 'ptr', 'record', 'vector', 'mptr', 'nullptr', 'void', 'other',
               'obuiltin', 'carr'):
        def badtype(s, c, tc=tc):
            if c in ('IntegerLiteral', 'CXXBoolLiteralExpr', 'CharacterLiteral'):
                return None
            e = s.focus(c, tc=(tc,))
            s.facts[T('const', T('ty', E_))] = False
            if c == 'BinaryOperator' and tc in ('half', 'bitint', 'complex', 'vector'):
                for x in ('.getLHS', '.getRHS'):
                    s.doms[T('tc', T('ty', T(x, E_)))] = frozenset([tc])
            elif c in ('BinaryOperator', 'UnaryOperator', 'CompoundAssignOperator'):
                return None
            s.in_fn(s.ret(e))
            return e
        add('a value of unsupported type (%s)' % tc, badtype)

    def op_types(kind, side, tc):
        def f(s, c):
            cls = {'bin': 'BinaryOperator', 'un': 'UnaryOperator', 'asg': 'CompoundAssignOperator'}[kind]
            e = s.focus(cls, tc=('bool', 'sint') if kind != 'asg' else ARITH)
            bop = M.BO['LAnd'] if side == '.getRHS' else M.BO['LT']
            s.doms[T('op', E_)] = frozenset([{'bin': bop, 'un': M.UO['LNot'], 'asg': M.BO['AddAssign']}[kind]])
            s.doms[T('tc', T('ty', T(side, E_)))] = frozenset([tc])
            s.in_fn(s.ret(e))
            return e
        return f
    for tc in ('half', 'enum', 'ptr', 'bitint', 'record', 'complex', 'vector', 'nullptr', 'other'):
        for kind, side in (('bin', '.getLHS'), ('bin', '.getRHS'), ('un', '.getSubExpr'), ('asg', '.getRHS')):
            langs = (True, False)
            if tc == 'half' and kind == 'un':
                langs = C
            add('an operator applied to an operand of unsupported type (%s %s %s)' % (kind, side, tc),
                op_types(kind, side, tc), C if kind == 'un' or (kind, side) == ('bin', '.getRHS') else langs, es=['-'],
                kinds=('un',) if kind == 'un' else ('bin',))

    def cond_decl(s, c):
        v = s.ctx('VarDecl', [], role='decl', term=T('V'))
        d = s.ctx('DeclStmt', [v])
        e = s.focus(c, T('.getCond', T('if')))
        s.ctx('IfStmt', [d, e, s.ctx('NullStmt')], term=T('if'))
        s.facts[T('.isConstexpr', T('if'))] = False
        s.sameloc = (e.term, T('V'))
        s.in_fn(s.nodes[T('if')])
        s.release()
        return e
    add('a condition that is a declaration', cond_decl, CXX, es=['ImplicitCastExpr', 'DeclRefExpr', 'CXXMemberCallExpr'])

    def cond_decl_w(s, c):
        v = s.ctx('VarDecl', [], role='decl', term=T('V'))
        d = s.ctx('DeclStmt', [v])
        e = s.focus(c, T('.getCond', T('while')))
        s.ctx('WhileStmt', [d, e, s.ctx('NullStmt')], term=T('while'))
        s.sameloc = (e.term, T('V'))
        s.in_fn(s.nodes[T('while')])
        s.release()
        return e
    add('a loop condition that is a declaration', cond_decl_w, CXX, es=['ImplicitCastExpr', 'DeclRefExpr', 'CXXMemberCallExpr'])

    for what, fact in (('bit-field', '.refersToBitField'), ('vector element', '.refersToVectorElement')):
        for op in ('PreInc', 'PreDec', 'PostInc', 'PostDec'):
            def inc(s, c, op=op, fact=fact):
                e = s.focus('UnaryOperator', tc=('sint', 'uint', 'float'), vk=None)
                s.doms[T('op', E_)] = frozenset([M.UO[op]])
                s.facts[T(fact, T('.getSubExpr', E_))] = True
                s.in_fn(s.ret(e))
                return e
            add('increment or decrement of a %s (%s)' % (what, op), inc, es=['-'], kinds=('un',))
        for op in M.G_ASSIGN:
            def asg(s, c, op=op, fact=fact):
                e = s.focus('BinaryOperator' if op == 'Assign' else 'CompoundAssignOperator', vk=None)
                s.doms[T('op', E_)] = frozenset([M.BO[op]])
                s.facts[T(fact, T('.getLHS', E_))] = True
                s.in_fn(s.ret(e))
                return e
            add('assignment to a %s (%s)' % (what, op), asg, es=['-'], kinds=('bin',))

    def inc_reg(s, c):
        e = s.focus('UnaryOperator', tc=('sint', 'uint', 'float'), vk=None)
        s.doms[T('op', E_)] = frozenset([M.UO['PreInc']])
        s.cls[T('.getSubExpr', E_)] = ('clang::DeclRefExpr', frozenset())
        register(P, s, T('.getSubExpr', E_))
        s.in_fn(s.ret(e))
        return e
    add('increment of a register variable in C', inc_reg, C, es=['-'], kinds=('un',))

    def asg_reg(s, c):
        e = s.focus('CompoundAssignOperator', vk=None)
        s.cls[T('.getLHS', E_)] = ('clang::DeclRefExpr', frozenset())
        register(P, s, T('.getLHS', E_))
        s.in_fn(s.ret(e))
        return e
    add('assignment to a register variable in C', asg_reg, C, es=['-'], kinds=('bin',))
    return out


def register(P, s, t):
    d = T('.getDecl', t)
    s.cls[t] = ('clang::DeclRefExpr', frozenset())
    s.cls[d] = ('clang::VarDecl', frozenset())
    s.values[T('.getStorageClass', d)] = enum(P, 'clang::StorageClass', 'SC_Register')
    s.values[T('.IgnoreParens', t)] = t
    if t.f == '.getBase':
        s.values[T('.IgnoreParens', t.a[0])] = t.a[0]


# ------------------------------------------------------------------------------------------- C18
PRV = ['IntegerLiteral', 'FloatingLiteral', 'CharacterLiteral', 'BinaryOperator', 'CallExpr', 'UnaryOperator',
       'ConditionalOperator', 'StmtExpr', 'UnaryExprOrTypeTraitExpr', 'ImplicitCastExpr', 'CStyleCastExpr']
PRV_CXX = ['CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr',
           'CXXBoolLiteralExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'CXXDynamicCastExpr']
LV_OK = ['DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr', 'CallExpr', 'UnaryOperator', 'ConditionalOperator']
BIN_MUT = ['Mul', 'Div', 'Rem', 'Add', 'Sub', 'Shl', 'Shr', 'LT', 'GT', 'LE', 'GE', 'EQ', 'NE', 'And', 'Xor', 'Or', 'LAnd',
           'LOr']
ASG_MUT = ['Assign', 'MulAssign', 'DivAssign', 'RemAssign', 'AddAssign', 'SubAssign', 'ShlAssign', 'ShrAssign',
           'AndAssign', 'XorAssign', 'OrAssign']
UN_MUT = ['PreInc', 'PreDec', 'PostInc', 'PostDec', 'Minus', 'Not', 'LNot']
INT_ONLY = ['Rem', 'Shl', 'Shr', 'And', 'Xor', 'Or']


def contexts(full=True):
    """name -> (languages, function that embeds an expression in code that is executed)."""
    CXX, C, BOTH = (True,), (False,), (True, False)
    out = {}

    def ctx(name, langs=BOTH):
        def d(f):
            out[name] = (langs, f)
            return f
        return d

    @ctx('a return statement')
    def c_ret(s, e):
        s.in_fn(s.ret(e))

    @ctx('a nested block')
    def c_block(s, e):
        s.in_fn(s.body(s.body(s.ret(e))))

    @ctx('the condition of an if statement')
    def c_if(s, e):
        t = T('if')
        s.ctx('IfStmt', [e, s.ctx('NullStmt')], term=t)
        s.values[T('.getCond', t)] = e.term
        s.facts[T('.isConstexpr', t)] = False
        s.in_fn(s.nodes[t])

    @ctx('a branch of an if statement')
    def c_then(s, e):
        t = T('if')
        c = s.ctx('DeclRefExpr', term=T('.getCond', t))
        s.ctx('IfStmt', [c, s.ret(e)], term=t)
        s.facts[T('.isConstexpr', t)] = False
        s.in_fn(s.nodes[t])

    @ctx('an expression that is a branch of an if statement')
    def c_then_e(s, e):
        t = T('if')
        c = s.ctx('DeclRefExpr', term=T('.getCond', t))
        s.ctx('IfStmt', [c, e], term=t)
        s.facts[T('.isConstexpr', t)] = False
        s.in_fn(s.nodes[t])

    @ctx('a branch of a constexpr if statement', CXX)
    def c_thenx(s, e):
        t = T('if')
        c = s.ctx('DeclRefExpr', term=T('.getCond', t))
        s.ctx('IfStmt', [c, s.body(s.ret(e))], term=t)
        s.facts[T('.isConstexpr', t)] = True
        s.in_fn(s.nodes[t])

    @ctx('the condition of a while loop')
    def c_while(s, e):
        s.in_fn(s.ctx('WhileStmt', [e, s.ctx('NullStmt')]))

    @ctx('the condition of a do loop')
    def c_do(s, e):
        s.in_fn(s.ctx('DoStmt', [s.ctx('NullStmt'), e]))

    @ctx('a for loop')
    def c_for(s, e):
        s.in_fn(s.ctx('ForStmt', [s.ctx('NullStmt'), e, s.ctx('NullStmt')]))

    @ctx('the body of a loop')
    def c_forb(s, e):
        s.in_fn(s.ctx('ForStmt', [s.ctx('NullStmt'), s.ctx('DeclRefExpr'), s.body(s.ret(e))]))

    @ctx('the condition of a switch')
    def c_switch(s, e):
        s.in_fn(s.ctx('SwitchStmt', [e, s.body()]))

    @ctx('a statement after a case label')
    def c_case(s, e):
        k = T('case')
        l = s.ctx('IntegerLiteral', term=T('.getLHS', k))
        r = s.ctx('ReturnStmt', [e], term=T('.getSubStmt', k))
        s.ctx('CaseStmt', [l, r], term=k)
        s.in_fn(s.ctx('SwitchStmt', [s.ctx('DeclRefExpr'), s.body(s.nodes[k])]))

    @ctx('a statement after a case label without block')
    def c_case2(s, e):
        k = T('case')
        l = s.ctx('IntegerLiteral', term=T('.getLHS', k))
        r = s.ctx('ReturnStmt', [e], term=T('.getSubStmt', k))
        s.ctx('CaseStmt', [l, r], term=k)
        s.in_fn(s.ctx('SwitchStmt', [s.ctx('DeclRefExpr'), s.nodes[k]]))

    @ctx('a statement after several case labels')
    def c_case3(s, e):
        k, k2 = T('case'), T('.getSubStmt', T('case'))
        l = s.ctx('IntegerLiteral', term=T('.getLHS', k))
        r = s.ctx('ReturnStmt', [e], term=T('.getSubStmt', k2))
        d = s.ctx('DefaultStmt', [r], term=k2)
        s.ctx('CaseStmt', [l, d], term=k)
        s.in_fn(s.ctx('SwitchStmt', [s.ctx('DeclRefExpr'), s.body(s.nodes[k])]))

    @ctx('a statement after a default label')
    def c_def(s, e):
        k = T('default')
        r = s.ctx('ReturnStmt', [e], term=T('.getSubStmt', k))
        s.ctx('DefaultStmt', [r], term=k)
        s.in_fn(s.ctx('SwitchStmt', [s.ctx('DeclRefExpr'), s.body(s.nodes[k])]))

    @ctx('a labelled statement')
    def c_label(s, e):
        k = T('label')
        r = s.ctx('ReturnStmt', [e], term=T('.getSubStmt', k))
        s.in_fn(s.ctx('LabelStmt', [r], term=k))

    @ctx('the initialiser of a local variable')
    def c_var(s, e):
        s.in_fn(s.var([e]))

    @ctx('the initialiser of a static local variable', CXX)
    def c_static(s, e):
        s.in_fn(s.var([e]))
        s.facts[T('.isStaticLocal', T('V'))] = True

    @ctx('an argument of a call')
    def c_arg(s, e):
        k = s.ctx('CallExpr', [e], tc=('ptr',))
        s.benign(k.term, 'CallExpr', tc=('ptr',))
        s.facts.pop(T('has', T('.arguments', k.term), 0))
        s.in_fn(s.ret(k))

    @ctx('an argument of a builtin')
    def c_barg(s, e):
        k = s.ctx('CallExpr', [e], tc=('ptr',))
        s.benign(k.term, 'CallExpr', tc=('ptr',))
        s.facts.pop(T('has', T('.arguments', k.term), 0))
        s.values[T('.getBuiltinCallee', k.term)] = 1
        s.mask[1] = 0
        s.in_fn(s.ret(k))

    @ctx('an operand of an operator')
    def c_opnd(s, e):
        k = s.ctx('BinaryOperator', [e, s.ctx('DeclRefExpr')], tc=('ptr',))
        s.doms[T('op', k.term)] = frozenset([M.BO['Comma']])
        s.in_fn(s.ret(k))

    @ctx('an operand of the conditional operator')
    def c_cond(s, e):
        s.in_fn(s.ret(s.ctx('ConditionalOperator', [e, s.ctx('DeclRefExpr'), s.ctx('DeclRefExpr')], tc=('ptr',))))

    @ctx('parentheses')
    def c_paren(s, e):
        s.in_fn(s.ret(s.ctx('ParenExpr', [e], tc=('ptr',))))

    @ctx('an array index')
    def c_idx(s, e):
        k = s.ctx('ArraySubscriptExpr', [s.ctx('DeclRefExpr'), e], tc=('record',))
        s.doms[T('vk', k.term)] = frozenset(['lv'])
        s.in_fn(s.ret(k))

    @ctx('a constructor call', CXX)
    def c_ctor(s, e):
        s.in_fn(s.ret(s.ctx('CXXConstructExpr', [e], tc=('record',))))

    @ctx('an element of an initialiser list')
    def c_init(s, e):
        s.in_fn(s.var([s.ctx('InitListExpr', [e])]))

    @ctx('the body of a lambda', CXX)
    def c_lam(s, e):
        l = T('lam')
        op = T('.getCallOperator', l)
        s.decl(op, 'CXXMethodDecl')
        s.values[T('.getTrailingRequiresClause', l)] = NULL
        b = s.ctx('CompoundStmt', [s.ret(e)], term=T('.getBody', l))
        s.in_fn(s.ret(s.ctx('LambdaExpr', [b], term=l, tc=('record',))))

    @ctx('a member function', CXX)
    def c_meth(s, e):
        m = s.ctx('CXXMethodDecl', [s.body(s.ret(e))], role='decl', term=T('Meth'))
        s.top = [s.ctx('CXXRecordDecl', [m], role='decl')]

    @ctx('a constructor', CXX)
    def c_ctord(s, e):
        m = s.ctx('CXXConstructorDecl', [s.body(s.ret(e))], role='decl', term=T('Meth'))
        s.top = [s.ctx('CXXRecordDecl', [m], role='decl')]

    @ctx('a member function of a local class', CXX)
    def c_lmeth(s, e):
        m = s.ctx('CXXMethodDecl', [s.body(s.ret(e))], role='decl', term=T('Meth'))
        r = s.ctx('CXXRecordDecl', [m], role='decl')
        s.in_fn(s.ctx('DeclStmt', [r]))

    @ctx('a function in a namespace', CXX)
    def c_ns(s, e):
        f = s.ctx('FunctionDecl', [s.body(s.ret(e))], role='decl', term=T('F'))
        s.top = [s.ctx('NamespaceDecl', [f], role='decl')]

    @ctx('a function in a linkage specification', CXX)
    def c_ls(s, e):
        f = s.ctx('FunctionDecl', [s.body(s.ret(e))], role='decl', term=T('F'))
        s.top = [s.ctx('LinkageSpecDecl', [f], role='decl')]

    @ctx('a function template', CXX)
    def c_tmpl(s, e):
        f = s.ctx('FunctionDecl', [s.body(s.ret(e))], role='decl', term=T('F'))
        s.top = [s.ctx('FunctionTemplateDecl', [f], role='decl')]

    @ctx('a try block', CXX)
    def c_try(s, e):
        s.in_fn(s.ctx('CXXTryStmt', [s.body(s.ret(e))]))

    @ctx('a handler', CXX)
    def c_catch(s, e):
        s.in_fn(s.ctx('CXXTryStmt', [s.body(), s.ctx('CXXCatchStmt', [s.body(s.ret(e))])]))

    @ctx('a throw expression', CXX)
    def c_throw(s, e):
        s.in_fn(s.ret(s.ctx('CXXThrowExpr', [e], tc=('void',))))

    @ctx('the size of a variable-sized array in C', C)
    def c_vla(s, e):
        t = s.ctx('VariableArrayTypeLoc', [e], role='typeloc')
        s.in_fn(s.var([t]))

    @ctx('a statement expression')
    def c_se(s, e):
        s.in_fn(s.ret(s.ctx('StmtExpr', [s.body(s.ret(e))], tc=('ptr',))))
    return out


def complete(P):
    """everything that is eligible must be offered for mutation."""
    out = []
    CXX, C, BOTH = (True,), (False,), (True, False)

    def add(name, langs, opts, s, must):
        s.what = name
        s.langs = langs
        s.opts = opts
        s.must = must
        out.append(s)

    def leaf(s, cls, **k):
        """a focus without sub-expressions that were mutated."""
        k.setdefault('kids', [])
        e = s.focus(cls, **k)
        s.facts[T('.isValueDependent', E_)] = True
        for a in ('.getSubExpr', '.getLHS', '.getRHS'):
            s.facts[T('.isValueDependent', T(a, E_))] = True
        if cls == 'ImplicitCastExpr':
            s.cls[T('.getSubExpr', E_)] = ('clang::IntegerLiteral', frozenset())
        return e

    cs = contexts()
    # every context, for a plain value
    for name, (langs, f) in cs.items():
        for cls in ('IntegerLiteral', 'CallExpr', 'BinaryOperator', 'UnaryOperator'):
            s = B('%s/%s' % (name, cls))
            e = leaf(s, cls)
            f(s, e)
            must = [(E_, 'expr')]
            if cls == 'BinaryOperator':
                must.append((E_, 'bin'))
            if cls == 'UnaryOperator':
                must.append((E_, 'un'))
            add('%s in %s' % (cls, name), langs, (True, False), s, must)
        # an l-value that is read
        s = B('%s/l-value' % name)
        x = s.focus('DeclRefExpr', kids=[], vk=('lv',), tc=('sint', 'uint', 'float'))
        x.term
        i = s.focus('ImplicitCastExpr', T('I'), kids=[x], tc=('sint', 'uint', 'float'))
        s.values[T('.getSubExpr', T('I'))] = E_
        s.cls[T('.getDecl', E_)] = ('clang::VarDecl', frozenset())
        s.values[T('.getStorageClass', T('.getDecl', E_))] = 0
        f(s, i)
        add('an l-value that is read in %s' % name, langs, (True, False), s, [(E_, 'expr'), (T('I'), 'expr')])
    # every class of expression
    for cls in PRV + PRV_CXX:
        for tc in ('bool', 'sint', 'uint', 'float'):
            if cls in ('UnaryOperator', 'BinaryOperator'):
                continue
            s = B('class %s %s' % (cls, tc))
            e = leaf(s, cls, tc=(tc,))
            cs['a return statement'][1](s, e)
            add('%s of type class %s' % (cls, tc), CXX if cls in PRV_CXX else BOTH, (True, False), s, [(E_, 'expr')])
    for cls in ('ParenExpr', 'ExprWithCleanups'):
        s = B('class ' + cls)
        e = leaf(s, cls)
        cs['a return statement'][1](s, e)
        add(cls, BOTH if cls == 'ParenExpr' else CXX, (False,), s, [(E_, 'expr')])
    # child of a cast
    for p in ('ImplicitCastExpr', 'CStyleCastExpr'):
        for cls in ('IntegerLiteral', 'CallExpr'):
            s = B('child of %s %s' % (p, cls))
            e = leaf(s, cls)
            k = s.focus(p, T('I'), kids=[e])
            s.values[T('.getSubExpr', T('I'))] = E_
            cs['a return statement'][1](s, k)
            add('a value that is converted', BOTH, (False,), s, [(E_, 'expr'), (T('I'), 'expr')])
            s = B('child of %s %s, optimised' % (p, cls))
            e = leaf(s, cls)
            k = s.focus(p, T('I'), kids=[e])
            s.values[T('.getSubExpr', T('I'))] = E_
            cs['a return statement'][1](s, k)
            add('a value that is converted', BOTH, (True,), s, [(T('I'), 'expr')])
    # expression statements
    for cls in ('CallExpr', 'BinaryOperator', 'UnaryOperator', 'IntegerLiteral'):
        s = B('expression statement ' + cls)
        e = leaf(s, cls)
        s.facts.pop(T('.HasSideEffects', E_), None)
        s.in_fn(e)
        add('an expression statement', BOTH, (False,), s, [(E_, 'expr'), (E_, 'stmt')])
        s = B('expression statement with effect ' + cls)
        e = leaf(s, cls)
        s.facts[T('.HasSideEffects', E_)] = True
        s.in_fn(e)
        must = [(E_, 'stmt')]
        if cls in ('BinaryOperator', 'UnaryOperator'):
            must.append((E_, 'bin' if cls[0] == 'B' else 'un'))
        add('an expression statement with side effects', BOTH, (True,), s, must)
    # operators
    for op in BIN_MUT + ASG_MUT:
        asg = op in ASG_MUT
        base = op[:-6] if asg and op != 'Assign' else op
        for tc in (('sint', 'uint') if base in INT_ONLY else ('sint', 'uint', 'float')):
            for opt in (True, False):
                if op in ('LAnd', 'LOr') and tc != 'sint':
                    continue
                s = B('%s %s %s' % (op, tc, opt))
                cls = 'CompoundAssignOperator' if asg and op != 'Assign' else 'BinaryOperator'
                cmp_ = op in ('LT', 'GT', 'LE', 'GE', 'EQ', 'NE', 'LAnd', 'LOr')
                e = leaf(s, cls, tc=('bool', 'sint') if cmp_ else (tc,), vk=None if asg else ('prv',))
                s.doms[T('op', E_)] = frozenset([M.BO[op]])
                ot = ('bool', 'sint') if op in ('LAnd', 'LOr') else (tc,)
                s.doms[T('tc', T('ty', T('.getLHS', E_)))] = frozenset(ot)
                s.doms[T('tc', T('ty', T('.getRHS', E_)))] = frozenset(ot)
                if asg:
                    s.doms[T('vk', T('.getLHS', E_))] = frozenset(['lv'])
                s.in_fn(s.ret(e))
                add('operator %s on operands of type class %s' % (op, tc), BOTH, (opt,), s, [(E_, 'bin')])
    for op in UN_MUT:
        for tc in (('bool', 'sint') if op == 'LNot' else ('sint', 'uint') if op == 'Not' else ('sint', 'uint', 'float')):
            s = B('%s %s' % (op, tc))
            e = leaf(s, 'UnaryOperator', tc=(tc,), vk=None if 'P' in op else ('prv',))
            s.doms[T('op', E_)] = frozenset([M.UO[op]])
            s.doms[T('tc', T('ty', T('.getSubExpr', E_)))] = frozenset([tc])
            s.in_fn(s.ret(e))
            add('operator %s on an operand of type class %s' % (op, tc), BOTH, (True, False), s, [(E_, 'un')])
    # constants as operands: only the documented cases are dropped
    for op in ('Minus', 'Not', 'LNot'):
        for v in ('0', '1', '-1', 'c', 'n'):
            for opt in (True, False):
                if opt and (op == 'Minus' and v == '1' or op == 'Not' and v in '01'):
                    continue
                s = B('%s of constant %s' % (op, v))
                e = leaf(s, 'UnaryOperator', tc=('sint',))
                x = T('.getSubExpr', E_)
                s.facts[T('.isValueDependent', x)] = False
                s.doms[T('op', E_)] = frozenset([M.UO[op]])
                s.doms[T('tc', T('ty', x))] = frozenset(['sint'])
                s.doms[T('vc', x)] = frozenset([v])
                s.in_fn(s.ret(e))
                add('operator %s on %s' % (op, 'a value' if v == 'n' else 'constant ' + v), BOTH, (opt,), s, [(E_, 'un')])
    for l in ('0', '1', '-1', 'c', 'n'):
        for r in ('0', '1', '-1', 'c', 'n'):
            for opt in (True, False):
                if opt and l == '0' and r == '1':
                    continue
                s = B('constants %s %s' % (l, r))
                e = leaf(s, 'BinaryOperator', tc=('sint',))
                for a, v in (('.getLHS', l), ('.getRHS', r)):
                    x = T(a, E_)
                    s.facts[T('.isValueDependent', x)] = False
                    s.doms[T('tc', T('ty', x))] = frozenset(['sint'])
                    s.doms[T('vc', x)] = frozenset([v])
                s.in_fn(s.ret(e))
                add('operator + on constants (%s, %s)' % (l, r), BOTH, (opt,), s, [(E_, 'bin')])
    # statements
    STM = ['ReturnStmt', 'IfStmt', 'WhileStmt', 'ForStmt', 'DoStmt', 'SwitchStmt', 'BreakStmt', 'ContinueStmt', 'GotoStmt',
           'CallExpr', 'BinaryOperator', 'CXXTryStmt', 'CXXForRangeStmt', 'CompoundStmt', 'UnaryOperator',
           'CXXMemberCallExpr', 'CXXDeleteExpr', 'GCCAsmStmt', 'AttributedStmt', 'DeclRefExpr', 'CStyleCastExpr', 'ParenExpr']
    for cls in STM:
        expr = cls in ('CallExpr', 'BinaryOperator', 'UnaryOperator', 'CXXMemberCallExpr', 'DeclRefExpr', 'CStyleCastExpr', 'ParenExpr')
        for where, pure in [(w, False) for w in ('block', 'case', 'default', 'second', 'stmtexpr')] + \
                ([('block', True), ('case', True), ('second', True)] if expr else []):
            s = B('removal %s %s%s' % (cls, where, ' without effect' if pure else ''))
            t = T('S') if where not in ('case', 'default') else T('.getSubStmt', T('lab'))
            n = s.ctx(cls, [], term=t)
            s.facts[T('.HasSideEffects', t)] = True
            if expr:
                s.benign(t, cls, tc=('void',) if cls in ('CallExpr', 'CStyleCastExpr') else ('ptr',))
            if pure:
                s.facts[T('.HasSideEffects', t)] = False
            if where == 'block':
                s.in_fn(n)
            elif where == 'second':
                s.in_fn(s.ctx('NullStmt'), n, s.ctx('BreakStmt'))
            elif where == 'stmtexpr':
                r = s.ctx('DeclRefExpr')
                s.facts[T('.HasSideEffects', r.term)] = True
                s.in_fn(s.ret(s.ctx('StmtExpr', [s.body(n, r)], tc=('ptr',))))
            else:
                k = [s.ctx('IntegerLiteral', term=T('.getLHS', T('lab')))] if where == 'case' else []
                l = s.ctx('CaseStmt' if where == 'case' else 'DefaultStmt', k + [n], term=T('lab'))
                s.in_fn(s.ctx('SwitchStmt', [s.ctx('DeclRefExpr'), s.body(l)]))
            cx = cls.startswith('CXX')
            add('removal of a %s' % cls, CXX if cx else BOTH, (False,) if cls == 'CompoundStmt' or pure else (True, False), s,
                [(t, 'stmt')])
    return out


# ------------------------------------------------------------------------------------------- C13
def unremovable(P):
    """statements that must not be wrapped in a condition."""
    out = []
    CXX, C, BOTH = (True,), (False,), (True, False)

    def add(name, s, t, langs=BOTH):
        s.what = name
        s.key = None
        s.kinds = ('stmt',)
        s.langs = langs
        s.forbidden = [t]
        s.descend = False
        s.release()
        out.append(s)

    def place(s, n, where):
        """n is the statement in question; returns nothing."""
        if where == 'block':
            s.in_fn(n)
        elif where == 'first':
            s.in_fn(n, s.ctx('BreakStmt'))
        elif where == 'last':
            s.in_fn(s.ctx('BreakStmt'), n)
        elif where == 'inner block':
            s.in_fn(s.ctx('BreakStmt'), s.body(n))
        elif where in ('case', 'default', 'case case'):
            lab = T('lab')
            if where == 'case case':
                inner = T('.getSubStmt', lab)
                m = s.ctx('CaseStmt', [s.ctx('IntegerLiteral', term=T('.getLHS', inner)), n], term=inner)
                l = s.ctx('CaseStmt', [s.ctx('IntegerLiteral', term=T('.getLHS', lab)), m], term=lab)
            elif where == 'case':
                l = s.ctx('CaseStmt', [s.ctx('IntegerLiteral', term=T('.getLHS', lab)), n], term=lab)
            else:
                l = s.ctx('DefaultStmt', [n], term=lab)
            s.in_fn(s.ctx('SwitchStmt', [s.ctx('DeclRefExpr'), s.body(l)]))

    def term_for(where):
        return {'case': T('.getSubStmt', T('lab')), 'default': T('.getSubStmt', T('lab')),
                'case case': T('.getSubStmt', T('.getSubStmt', T('lab')))}.get(where, T('S'))
    WH = ('block', 'first', 'last', 'inner block', 'case', 'default', 'case case')
    for cls, what in (('NullStmt', 'an empty statement'), ('DeclStmt', 'a declaration'), ('LabelStmt', 'a labelled statement')):
        for where in WH:
            s = B('%s (%s)' % (what, where))
            t = term_for(where)
            kids = [s.ctx('BreakStmt', term=T('.getSubStmt', t))] if cls == 'LabelStmt' else []
            n = s.ctx(cls, kids, term=t)
            place(s, n, where)
            add(what, s, t)
    # labels of a switch themselves
    for cls in ('CaseStmt', 'DefaultStmt'):
        for n in (1, 2, 3):
            for sub in ('BreakStmt', 'ReturnStmt', 'CallExpr', 'NullStmt', 'CompoundStmt', 'IfStmt'):
                s = B('%s with %s, %d' % (cls, sub, n))
                t = T('lab')
                ts = [t]
                for i in range(n - 1):
                    ts.append(T('.getSubStmt', ts[-1]))
                x = s.ctx(sub, [], term=T('.getSubStmt', ts[-1]))
                if sub == 'CallExpr':
                    s.benign(x.term, 'CallExpr', tc=('void',))
                for u in reversed(ts):
                    k = [s.ctx('IntegerLiteral', term=T('.getLHS', u))] if cls == 'CaseStmt' else []
                    x = s.ctx(cls if u is t or cls == 'CaseStmt' else 'CaseStmt', k + [x], term=u)
                s.in_fn(s.ctx('SwitchStmt', [s.ctx('DeclRefExpr'), s.body(x)]))
                add('a case or default label', s, t)
                s.forbidden = list(ts)
    # statements that are not part of a block
    for cls in ('ReturnStmt', 'BreakStmt', 'CallExpr', 'IfStmt', 'CompoundStmt'):
        for outer in ('IfStmt', 'WhileStmt', 'ForStmt', 'DoStmt', 'LabelStmt', 'SwitchStmt', 'CXXForRangeStmt', 'FunctionDecl'):
            if (outer == 'FunctionDecl') != (cls == 'CompoundStmt') and outer == 'FunctionDecl':
                continue
            s = B('%s directly under %s' % (cls, outer))
            o = T('outer')
            t = T('.getSubStmt', o) if outer == 'LabelStmt' else T('.getBody', o) if outer != 'IfStmt' else T('.getThen', o)
            n = s.ctx(cls, [], term=t)
            if cls == 'CallExpr':
                s.benign(t, 'CallExpr', tc=('void',))
            if outer == 'FunctionDecl':
                s.fn(n)
            else:
                kids = [n]
                if outer in ('IfStmt', 'WhileStmt', 'ForStmt', 'SwitchStmt'):
                    kids = [s.ctx('DeclRefExpr', term=T('.getCond', o)), n]
                s.ctx(outer, kids, term=o)
                s.facts[T('.isConstexpr', o)] = False
                s.in_fn(s.nodes[o])
            add('a statement that is not part of a block', s, t, CXX if outer.startswith('CXX') else BOTH)
    # the value of a statement expression
    for cls in ('DeclRefExpr', 'CallExpr', 'BinaryOperator', 'ImplicitCastExpr', 'IfStmt'):
        for shape in ('only', 'after', 'nulls'):
            s = B('statement expression %s %s' % (cls, shape))
            n = s.ctx(cls, [], term=T('S'))
            s.facts[T('.HasSideEffects', T('S'))] = True
            if cls != 'IfStmt':
                s.benign(T('S'), cls)
            kids = {'only': [n], 'after': [s.ctx('DeclStmt'), n], 'nulls': [n, s.ctx('NullStmt')]}[shape]
            s.in_fn(s.ret(s.ctx('StmtExpr', [s.body(*kids)], tc=('ptr',))))
            add('the value of a statement expression', s, T('S'))
    # text that does not come from the main file
    for cls in ('ReturnStmt', 'CallExpr', 'IfStmt', 'CompoundStmt', 'BreakStmt'):
        for where in ('block', 'case'):
            s = B('%s outside main file (%s)' % (cls, where))
            t = term_for(where)
            n = s.ctx(cls, [], term=t)
            if cls == 'CallExpr':
                s.benign(t, 'CallExpr', tc=('void',))
            s.badrange = {t: 1}
            place(s, n, where)
            add('a statement that cannot be traced to the main file', s, t)
    return out


# ------------------------------------------------------------------------------------------- C10
def elsewhere(P):
    """constructs (or the parts of them that are rewritten) that cannot be traced to the main file."""
    out = []
    CXX, C, BOTH = (True,), (False,), (True, False)

    def add(name, s, forbidden, kinds, langs=BOTH):
        s.what = name
        s.key = None
        s.kinds = kinds
        s.langs = langs
        s.forbidden = forbidden
        s.descend = False
        out.append(s)
    ALL = ('expr', 'un', 'bin')
    for name, (langs, f) in contexts().items():
        for cls in ('IntegerLiteral', 'CallExpr', 'BinaryOperator', 'UnaryOperator', 'DeclRefExpr', 'ImplicitCastExpr'):
            s = B('%s/%s' % (name, cls))
            e = s.focus(cls, kids=[])
            s.badrange = {E_: 1}
            f(s, e)
            add('an expression that cannot be traced to the main file', s, [E_], ALL, langs)
            if name == 'a return statement':
                s = B('inconsistent/%s' % cls)
                e = s.focus(cls, kids=[])
                s.inconsistent = {E_}
                f(s, e)
                add('an expression whose range is reversed', s, [E_], ALL, langs)
    for op in BIN_MUT + ASG_MUT:
        for part in ('.getLHS', '.getRHS', '.getOperatorLoc'):
            s = B('%s %s' % (op, part))
            asg = op in ASG_MUT and op != 'Assign'
            e = s.focus('CompoundAssignOperator' if asg else 'BinaryOperator', kids=[], vk=None)
            s.doms[T('op', E_)] = frozenset([M.BO[op]])
            s.badrange = {T(part, E_): 1}
            s.in_fn(s.ret(e))
            add('an operator whose %s cannot be traced to the main file' %
                {'.getLHS': 'left operand', '.getRHS': 'right operand', '.getOperatorLoc': 'symbol'}[part], s, [E_], ('bin',))
    for op in UN_MUT:
        s = B(op + ' operand')
        e = s.focus('UnaryOperator', kids=[], vk=None)
        s.doms[T('op', E_)] = frozenset([M.UO[op]])
        s.badrange = {T('.getSubExpr', E_): 1}
        s.in_fn(s.ret(e))
        add('an operator whose operand cannot be traced to the main file', s, [E_], ('un',))
    for x in unremovable(P):
        if x.what == 'a statement that cannot be traced to the main file':
            out.append(x)
    return out


# ------------------------------------------------------------------------------------------- C25
def operators(P):
    """every operator, supported or not, on operands of arithmetic type; s.op tells which."""
    out = []
    for kind, table, cls in (('bin', M.BO, 'BinaryOperator'), ('un', M.UO, 'UnaryOperator')):
        for op in sorted(table):
            s = B('operator %s %s' % (kind, op))
            c = 'CompoundAssignOperator' if op in ASG_MUT and op != 'Assign' and kind == 'bin' else cls
            s.focus(c, kids=[], vk=None, tc={'Cmp': {'record'}, 'AddrOf': {'ptr'}}.get(op, ARITH))
            s.doms[T('op', E_)] = frozenset([table[op]])
            for a, ty in {'PtrMemD': (('.getLHS', 'record'), ('.getRHS', 'mptr')),
                          'PtrMemI': (('.getLHS', 'ptr'), ('.getRHS', 'mptr')),
                          'Deref': (('.getSubExpr', 'ptr'),), 'Coawait': (('.getSubExpr', 'record'),)}.get(op, ()):
                s.doms[T('tc', T('ty', T(a, E_)))] = frozenset([ty])
            s.in_fn(s.ret(s.nodes[E_]))
            s.op = (kind, op)
            s.what = 'operator ' + op
            s.langs = (True, False)
            out.append(s)
    return out
