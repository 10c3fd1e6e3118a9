"""Facts about the clang / LLVM / protobuf APIs that the analysis relies on.

Every external call is pure unless listed here as an effect; its result is an
uninterpreted Term named after the call, so the same question about the same
node has the same answer within a partition.  A few families of questions are
given finite domains (operator kinds, value categories, builtin type classes,
constant-value classes), and documented facts of the language are encoded in
init_dom / theory below.
"""
import engine as E
from engine import (T, Term, TStr, Lin, Cell, Ptr, Obj, Vec, Opt, Iter, Stream, Closure, Bound,
                    NULL, EMPTY, UNINIT, rv, lv, tstr, cat, copyval, truth, neg, known,
                    equal, hashable, base_type, strip_targs, P_in, getdom, add,
                    Abort, Unsupported, Infeasible, PathLimit)
import stdmodel

SINGLETON = {
    'clang::ASTContext': 'AC', 'clang::SourceManager': 'SM', 'clang::LangOptions': 'LO',
    'clang::Preprocessor': 'PP', 'clang::CompilerInstance': 'CI', 'clang::DiagnosticsEngine': 'DE',
    'clang::PrintingPolicy': 'POL', 'clang::Rewriter': 'RW', 'clang::FileManager': 'FM',
    'clang::TranslationUnitDecl': 'TU',
}

# value classes of clang/llvm: taking the address of such a value gives a
# pointer to the variable, not a node identity
VALUE_CLASSES = {
    'clang::SourceLocation', 'clang::SourceRange', 'clang::CharSourceRange', 'clang::QualType',
    'llvm::StringRef', 'llvm::APInt', 'llvm::APSInt', 'llvm::APFloat', 'clang::Token',
    'clang::Expr::EvalResult', 'clang::FileID', 'clang::DynTypedNode', 'clang::TypeLoc',
    'llvm::Error', 'llvm::Expected', 'clang::APValue', 'clang::TemplateArgument',
}

TC_ALL = frozenset(['bool', 'sint', 'uint', 'float', 'half', 'void', 'nullptr', 'obuiltin', 'enum',
                    'senum', 'bitint', 'complex', 'ptr', 'carr', 'varr', 'darr', 'record', 'ref',
                    'func', 'mptr', 'vector', 'other'])
BUILTIN = frozenset(['bool', 'sint', 'uint', 'float', 'half', 'void', 'nullptr', 'obuiltin'])
ARITH = frozenset(['bool', 'sint', 'uint', 'float'])
INTS = frozenset(['bool', 'sint', 'uint'])

TYPE_PRED = {
    'isBooleanType': {'bool'},
    'isIntegerType': {'bool', 'sint', 'uint', 'bitint', 'enum'},
    'isIntegralOrEnumerationType': {'bool', 'sint', 'uint', 'bitint', 'enum', 'senum'},
    'isIntegralOrUnscopedEnumerationType': {'bool', 'sint', 'uint', 'bitint', 'enum'},
    'isIntegralType': {'bool', 'sint', 'uint', 'bitint'},
    'isFloatingType': {'float', 'half', 'complex'},
    'isRealFloatingType': {'float', 'half'},
    'isRealType': {'bool', 'sint', 'uint', 'bitint', 'enum', 'float', 'half'},
    'isHalfType': {'half'},
    'isArithmeticType': {'bool', 'sint', 'uint', 'bitint', 'enum', 'float', 'half', 'complex'},
    'isScalarType': {'bool', 'sint', 'uint', 'bitint', 'enum', 'senum', 'float', 'half', 'complex',
                     'ptr', 'nullptr', 'mptr'},
    'isPointerType': {'ptr'}, 'isAnyPointerType': {'ptr'},
    'isConstantArrayType': {'carr'}, 'isArrayType': {'carr', 'varr', 'darr'},
    'isVariableArrayType': {'varr'}, 'isDependentSizedArrayType': {'darr'},
    'isVoidType': {'void'}, 'isEnumeralType': {'enum', 'senum'}, 'isScopedEnumeralType': {'senum'},
    'isUnscopedEnumerationType': {'enum'},
    'isRecordType': {'record'}, 'isReferenceType': {'ref'}, 'isFunctionType': {'func'},
    'isNullPtrType': {'nullptr'}, 'isVectorType': {'vector'}, 'isBuiltinType': set(BUILTIN),
    'isFundamentalType': {'bool', 'sint', 'uint', 'float', 'half', 'void', 'nullptr'},
    'isUnsignedIntegerType': {'bool', 'uint'},
    'isMemberPointerType': {'mptr'}, 'isBitIntType': {'bitint'}, 'isComplexType': {'complex'},
    'isAnyComplexType': {'complex'},
}
BUILTIN_PRED = {
    'isInteger': {'bool', 'sint', 'uint'},
    'isSignedInteger': {'sint'},
    'isUnsignedInteger': {'bool', 'uint'},
    'isFloatingPoint': {'float', 'half'},
}
TYPE_CLASS = {
    'clang::BuiltinType': BUILTIN, 'clang::EnumType': {'enum', 'senum'},
    'clang::ConstantArrayType': {'carr'}, 'clang::VariableArrayType': {'varr'},
    'clang::DependentSizedArrayType': {'darr'}, 'clang::ArrayType': {'carr', 'varr', 'darr'},
    'clang::PointerType': {'ptr'}, 'clang::RecordType': {'record'}, 'clang::ReferenceType': {'ref'},
    'clang::FunctionType': {'func'}, 'clang::VectorType': {'vector'}, 'clang::BitIntType': {'bitint'},
    'clang::ComplexType': {'complex'}, 'clang::MemberPointerType': {'mptr'},
}
VK = frozenset(['prv', 'lv', 'xv'])
VC = frozenset(['0', '1', '-1', 'c', 'nc'])
CONSTS = frozenset(['0', '1', '-1', 'c'])

BO = {}      # name -> value
UO = {}
BO_STR = {'PtrMemD': '.*', 'PtrMemI': '->*', 'Mul': '*', 'Div': '/', 'Rem': '%', 'Add': '+', 'Sub': '-',
          'Shl': '<<', 'Shr': '>>', 'Cmp': '<=>', 'LT': '<', 'GT': '>', 'LE': '<=', 'GE': '>=', 'EQ': '==',
          'NE': '!=', 'And': '&', 'Xor': '^', 'Or': '|', 'LAnd': '&&', 'LOr': '||', 'Assign': '=',
          'MulAssign': '*=', 'DivAssign': '/=', 'RemAssign': '%=', 'AddAssign': '+=', 'SubAssign': '-=',
          'ShlAssign': '<<=', 'ShrAssign': '>>=', 'AndAssign': '&=', 'XorAssign': '^=', 'OrAssign': '|=',
          'Comma': ','}
UO_STR = {'PostInc': '++', 'PostDec': '--', 'PreInc': '++', 'PreDec': '--', 'AddrOf': '&', 'Deref': '*',
          'Plus': '+', 'Minus': '-', 'Not': '~', 'LNot': '!', 'Real': '__real', 'Imag': '__imag',
          'Extension': '__extension__', 'Coawait': 'co_await'}
G_ASSIGN = ['Assign', 'MulAssign', 'DivAssign', 'RemAssign', 'AddAssign', 'SubAssign', 'ShlAssign',
            'ShrAssign', 'AndAssign', 'XorAssign', 'OrAssign']
G_ARITH = ['Mul', 'Div', 'Rem', 'Add', 'Sub']
G_SHIFT = ['Shl', 'Shr']
G_REL = ['LT', 'GT', 'LE', 'GE', 'EQ', 'NE']
G_BIT = ['And', 'Xor', 'Or']
G_LOG = ['LAnd', 'LOr']
G_SAME = G_ARITH + G_REL + G_BIT
BIN_OK = G_ARITH + G_SHIFT + G_REL + G_BIT + G_LOG + G_ASSIGN
UN_OK = ['PostInc', 'PostDec', 'PreInc', 'PreDec', 'Minus', 'Not', 'LNot']


def init_ops(prog):
    """operator kinds from clang's own enumerations as seen by the exporter."""
    BO.clear()
    UO.clear()
    for n, v in prog['enums'].get('clang::BinaryOperatorKind') or []:
        BO[n.split('::')[-1].replace('BO_', '')] = int(v)
    for n, v in prog['enums'].get('clang::UnaryOperatorKind') or []:
        UO[n.split('::')[-1].replace('UO_', '')] = int(v)
    if len(BO) < 30 or len(UO) < 10:
        raise Unsupported('operator enumerations not found')


def bos(names):
    return frozenset(BO[n] for n in names)


def uos(names):
    return frozenset(UO[n] for n in names)


def bname(v):
    for n, x in BO.items():
        if x == v:
            return n


def uname(v):
    for n, x in UO.items():
        if x == v:
            return n


NONNULL = {'.getLHS', '.getRHS', '.getSubExpr', '.getBase', '.getArg', '.getAsExpr', '.getAssertExpr',
           '.getDecl', '.getTypeSourceInfo', '.getClient', '.getSubStmt', 'ty', '.getInit2', '.getBody2',
           '.getTranslationUnitDecl', '.getFunctionDecl', '.getCond'}


def tybase(t):
    while t.f in ('canon', 'unqual'):
        t = t.a[0]
    return t


class Config:
    def __init__(self, prog, cxx=None, flags=None, assume=None, assert_mode='assume'):
        self.prog = prog            # engine.Program
        self.cxx = cxx
        self.flags = flags or {}
        self.stack = []
        self.assert_mode = assert_mode
        self.setup = assume         # called with this config when a partition starts
        self.nullable = set()
        self.newmut = None          # hook: mutation construction
        self.roots = {}

    def start(self):
        self.stack = []
        if self.setup:
            self.setup(self)

    # ---------------------------------------------------- domains
    def cls_of(self, t):
        return E.C.cls.get(t)

    def is_bin(self, n):
        c = E.C.cls.get(n)
        return c is not None and c[0] is not None and self.prog.is_subclass(c[0], 'clang::BinaryOperator')

    def is_un(self, n):
        c = E.C.cls.get(n)
        return c is not None and c[0] is not None and self.prog.is_subclass(c[0], 'clang::UnaryOperator')

    def opdom(self, n):
        return getdom(T('op', n))

    def tkey(self, ty):
        """representative of the canonical unqualified type of ty."""
        ty = tybase(ty)
        if ty.f != 'ty':
            return ty
        n = ty.a[0]
        if n.f == '.getRHS':
            b = n.a[0]
            if self.opdom(b) <= bos(G_SAME):
                return T('ty', T('.getLHS', b))
        if self.is_bin(n):
            d = self.opdom(n)
            if d <= bos(G_ARITH + G_BIT + G_SHIFT + G_ASSIGN):
                return T('ty', T('.getLHS', n))
        if self.is_un(n):
            d = self.opdom(n)
            if d <= uos(['PostInc', 'PostDec', 'PreInc', 'PreDec', 'Minus', 'Plus', 'Not']):
                return T('ty', T('.getSubExpr', n))
        return ty

    def init_dom(self, t):
        f = t.f
        if f == 'op':
            n = t.a[0]
            c = E.C.cls.get(n)
            if c and c[0] and self.prog.is_subclass(c[0], 'clang::UnaryOperator'):
                return frozenset(UO.values())
            if c and c[0] and self.prog.is_subclass(c[0], 'clang::CompoundAssignOperator'):
                return bos(G_ASSIGN[1:])
            return frozenset(BO.values())
        if f == 'uop':
            return frozenset(UO.values())
        if f == 'tc':
            return self.dom_tc(t.a[0])
        if f == 'vk':
            return self.dom_vk(t.a[0])
        if f == 'vc':
            return self.dom_vc(t.a[0])
        if f == 'enumdom':
            return t.a[1]
        return None

    def dom_tc(self, ty):
        d = TC_ALL
        if ty.f == 'ty':
            n = ty.a[0]
            d = d - {'ref', 'func'} if n.f in ('.getLHS', '.getRHS', '.getSubExpr') else d
            if self.is_bin(n):
                o = self.opdom(n)
                if o <= bos(G_REL + G_LOG):
                    d = d & (frozenset(['bool', 'vector', 'other']) if self.cxx else frozenset(['sint', 'vector', 'other']))
            if self.is_un(n):
                o = self.opdom(n)
                if o <= uos(['LNot']):
                    d = d & (frozenset(['bool', 'vector', 'other']) if self.cxx else frozenset(['sint', 'vector', 'other']))
            if n.f in ('.getLHS', '.getRHS'):
                b = n.a[0]
                o = self.opdom(b)
                if o <= bos(G_ARITH):
                    # usual arithmetic conversions: no operand of type bool
                    d = d - {'bool', 'enum', 'senum', 'half' if False else 'bool'}
                if o <= bos(G_BIT + G_SHIFT + ['Rem']):
                    d = d - {'bool', 'float', 'half', 'ptr', 'complex', 'enum'}
                if o <= bos(['ShlAssign', 'ShrAssign', 'AndAssign', 'XorAssign', 'OrAssign', 'RemAssign']):
                    d = d - {'float', 'half', 'ptr', 'complex'}
                if o <= bos(G_LOG) and self.cxx:
                    d = d & frozenset(['bool', 'vector', 'other'])
                if o <= bos(G_REL):
                    # promoted, except that C++ compares bool with bool after promotion too
                    d = d
            if n.f == '.getSubExpr' and self.is_un(n.a[0]):
                o = self.opdom(n.a[0])
                if o <= uos(['Minus', 'Plus', 'Not']):
                    d = d - {'bool', 'enum'}
                if o <= uos(['Not']):
                    d = d - {'float', 'half', 'ptr'}
                if o <= uos(['LNot']) and self.cxx:
                    d = d & frozenset(['bool', 'vector', 'other'])
                if o <= uos(['PreInc', 'PreDec', 'PostInc', 'PostDec']) and self.cxx:
                    d = d - {'bool', 'enum'}      # removed / deprecated in C++17
        x = self.roots.get(('tc', ty))
        if x is not None:
            d = d & x
        if not d:
            raise Infeasible()
        return d

    def dom_vk(self, n):
        d = VK
        if self.is_bin(n):
            o = self.opdom(n)
            if o <= bos(G_ASSIGN):
                d = frozenset(['lv']) if self.cxx else frozenset(['prv'])
            elif o <= bos(BIN_OK):
                d = frozenset(['prv'])
        elif self.is_un(n):
            o = self.opdom(n)
            if o <= uos(['PreInc', 'PreDec']):
                d = frozenset(['lv']) if self.cxx else frozenset(['prv'])
            elif o <= uos(['PostInc', 'PostDec', 'Minus', 'Plus', 'Not', 'LNot', 'AddrOf']):
                d = frozenset(['prv'])
            elif o <= uos(['Deref']):
                d = frozenset(['lv'])
        elif n.f in ('.getLHS', '.getRHS') and n.a and isinstance(n.a[0], Term) and self.is_bin(n.a[0]):
            o = self.opdom(n.a[0])
            if n.f == '.getLHS' and o <= bos(G_ASSIGN):
                d = frozenset(['lv'])
            elif o <= bos(BIN_OK):
                d = frozenset(['prv'])
        elif n.f == '.getSubExpr' and self.is_un(n.a[0]):
            o = self.opdom(n.a[0])
            if o <= uos(['PreInc', 'PreDec', 'PostInc', 'PostDec']):
                d = frozenset(['lv'])
            elif o <= uos(['Minus', 'Plus', 'Not', 'LNot']):
                d = frozenset(['prv'])
        if not self.cxx:
            d = d - {'xv'}
        x = self.roots.get(('vk', n))
        if x is not None:
            d = d & x
        if not d:
            raise Infeasible()
        return d

    def dom_vc(self, n):
        d = VC
        tc = getdom(T('tc', self.tkey(T('ty', n))))
        if tc <= frozenset(['bool']):
            d = d - {'-1', 'c'}
        elif tc <= frozenset(['uint', 'bool']):
            d = d - {'-1'}
        k = E.C.doms.get(T('vk', n))
        if k is None:
            k = getdom(T('vk', n))
        if k <= frozenset(['lv', 'xv']) and not self.prog_const_lv(n):
            d = frozenset(['nc'])
        if self.is_bin(n) and self.opdom(n) <= bos(G_ASSIGN):
            d = frozenset(['nc'])
        if self.is_un(n) and self.opdom(n) <= uos(['PreInc', 'PreDec', 'PostInc', 'PostDec']):
            d = frozenset(['nc'])
        return d

    def prog_const_lv(self, n):
        return False

    def on_dom(self, t):
        if t.f == 'op':
            self.revalidate(t.a[0])
        elif t.f == 'vk':
            self.meet(T('vc', t.a[0]), self.dom_vc)
        elif t.f == 'tc' and isinstance(t.a[0], Term) and t.a[0].f == 'ty':
            self.meet(T('vc', t.a[0].a[0]), self.dom_vc)

    def meet(self, t, f):
        d = E.C.doms.get(t)
        if d is not None:
            nd = d & f(t.a[0])
            if not nd:
                raise Infeasible()
            E.C.doms[t] = nd

    def revalidate(self, n):
        """the class or operator of n became more precise."""
        self.meet(T('vk', n), self.dom_vk)
        self.meet(T('tc', T('ty', n)), self.dom_tc)
        self.meet(T('vc', n), self.dom_vc)

    def on_fact(self, t, r):
        pass

    # ---------------------------------------------------- classes
    def setcls(self, t, cls):
        if isinstance(t, Term) and t not in E.C.cls and cls:
            E.C.cls[t] = (cls, frozenset())

    def isa(self, n, cls):
        C = E.C
        c = C.cls.get(n)
        if c is None:
            c = (None, frozenset())
        pos, ng = c
        sub = self.prog.is_subclass
        if pos is not None:
            if sub(pos, cls):
                return True
            if not sub(cls, pos):
                return False
        for x in ng:
            if sub(cls, x):
                return False
        r = C.choose(2) == 0
        C.log.append((T('isa', n, cls), r))
        if r:
            C.cls[n] = (cls, ng)
            if E.C.doms.get(T('op', n)) is not None:
                self.meet(T('op', n), lambda _: self.init_dom(T('op', n)))
            self.revalidate(n)
        else:
            C.cls[n] = (pos, ng | {cls})
        return r

    def isa_type(self, ty, cls, desugar):
        s = TYPE_CLASS.get(cls)
        if s is not None:
            if not desugar and tybase(ty) is ty and ty.f != 'canon':
                if truth(T('sugared', tybase(ty))):
                    return False
            return truth(P_in(T('tc', self.tkey(ty)), s))
        if ty.f == 'canon':
            return False
        if not truth(T('sugar', ty, cls)):
            return False
        # the class of the type as written, which may hide it behind another one (e.g. an elaborated name)
        return desugar or not truth(T('sugared', tybase(ty)))

    def is_type_term(self, v):
        return isinstance(v, Term) and (v.f in ('ty', 'canon', 'unqual') or
                                        (E.C.cls.get(v) or (None,))[0] in TYPE_CLASSES)

    def cast(self, v, cls, ref=False):
        """dyn_cast-like: v or NULL."""
        v = rv(v)
        if v is NULL:
            return NULL
        if isinstance(v, Ptr) or isinstance(v, Obj):
            o = v.c.v if isinstance(v, Ptr) else v
            if isinstance(o, Obj):
                return v if self.prog.is_subclass(o.cls, cls) else NULL
            if isinstance(o, Term):
                return self.cast(o, cls)
        if isinstance(v, Term):
            if self.is_type_term(v):
                return v if self.isa_type(v, cls, False) else NULL
            return v if self.isa(v, cls) else NULL
        raise Unsupported('cast of %r' % (v,))

    # ---------------------------------------------------- predicates
    def theory(self, t):
        f = t.f
        if f == 'lang':
            if t.a[0] == 'CPlusPlus':
                return self.cxx
            if t.a[0].startswith('CPlusPlus') and self.cxx is False:
                return False
            if t.a[0] == 'Bool' and self.cxx:
                return True
            return None
        if f == 'flag':
            return self.flags.get(t.a[0])
        if f == 'invalid':
            return self.invalid(t.a[0])
        if f == '.HasSideEffects':
            n = t.a[0]
            if self.is_bin(n) and self.opdom(n) <= bos(G_ASSIGN):
                return True
            if self.is_un(n) and self.opdom(n) <= uos(['PreInc', 'PreDec', 'PostInc', 'PostDec']):
                return True
            return None
        if f == 'null':
            return self.null(t.a[0])
        if f == 'eq':
            x, y = t.a
            if isinstance(x, Term) and isinstance(y, Term):
                # a node differs from its own operands
                for p, q in ((x, y), (y, x)):
                    if p.f in ('.getLHS', '.getRHS', '.getSubExpr') and p.a[0] is q:
                        return False
                if {x.f, y.f} == {'.getLHS', '.getRHS'} and x.a[0] is y.a[0]:
                    return False
                for p in ('.getLHS', '.getRHS'):
                    q = '.getRHS' if p == '.getLHS' else '.getLHS'
                    # at most one of the operands equals the node
                    for u, w in ((x, y), (y, x)):
                        if u.f == p:
                            o = T('eq', *sorted((T(q, u.a[0]), w), key=repr))
                            if E.C.facts.get(o) is True:
                                return False
            return None
        if f == 'const':
            # operands that are modified are not const
            n = t.a[0].a[0] if t.a[0].f == 'ty' else None
            if isinstance(n, Term):
                if n.f == '.getLHS' and self.opdom(n.a[0]) <= bos(G_ASSIGN):
                    return False
                if n.f == '.getSubExpr' and self.is_un(n.a[0]) and \
                        self.opdom(n.a[0]) <= uos(['PreInc', 'PreDec', 'PostInc', 'PostDec']):
                    return False
                if self.is_bin(n) and self.opdom(n) <= bos(G_ASSIGN) or \
                        self.is_un(n) and self.opdom(n) <= uos(['PreInc', 'PreDec']):
                    return False
                if getdom(T('vk', n)) <= frozenset(['prv']) and \
                        getdom(T('tc', self.tkey(t.a[0]))) <= BUILTIN:
                    return False
            return None
        if f == 'volatile':
            n = t.a[0].a[0] if t.a[0].f == 'ty' else None
            if isinstance(n, Term):
                if getdom(T('vk', n)) <= frozenset(['prv']) and \
                        getdom(T('tc', self.tkey(t.a[0]))) <= BUILTIN:
                    return False
                if self.is_bin(n) and self.opdom(n) <= bos(G_ASSIGN) and self.cxx:
                    return T('volatile', T('ty', T('.getLHS', n)))
                if self.is_un(n) and self.opdom(n) <= uos(['PreInc', 'PreDec']) and self.cxx:
                    return T('volatile', T('ty', T('.getSubExpr', n)))
            return None
        if f == 'nz':
            return None
        if f == '.empty' and t.a:
            return None
        x = self.roots.get(t)
        if x is not None:
            return x
        return None

    def invalid(self, x):
        if x.f == 'SL0' or x.f == 'SR0':
            return True
        if x.f == 'SR':
            if truth(T('invalid', x.a[0])):
                return True
            return T('invalid', x.a[1])
        if x.f in ('.getBegin', '.getEnd'):
            if E.C.facts.get(T('invalid', x.a[0])) is False:
                return False
        if x.f == '.off' or x.f == '.getLocWithOffset':
            return T('invalid', x.a[0])
        r = self.roots.get(T('invalid', x))
        return r

    def null(self, v):
        if v.f in NONNULL or v.f in ('parent',):
            return False
        if v in self.nullable:
            return None
        if v in E.C.cls and E.C.facts.get(T('null', v)) is None:
            # typed nodes reached through accessors: may be null unless known
            if v.f.startswith('.get') and v.f not in NONNULL:
                return None
            return False
        if v.f.startswith('.') and v.a:
            return None
        return False

    def equal(self, a, b):
        return None

    def equal_int(self, a, b):
        """a == b for a Term without domain and an int."""
        if a.f == 'ivalnum':
            if b in (0, 1) or (b == -1):
                return P_in(T('vc', a.a[0]), (str(b),))
            return None
        if a.f == 'bkind':
            k = self.bkinds().get(b)
            if k in ('Bool',):
                return P_in(T('tc', a.a[0]), ('bool',))
            if k == 'Half':
                return P_in(T('tc', a.a[0]), ('half',))
            if k == 'Void':
                return P_in(T('tc', a.a[0]), ('void',))
            if k == 'NullPtr':
                return P_in(T('tc', a.a[0]), ('nullptr',))
            return T('eqk', a, b)
        if a.f in self.CLASS_ENUMS:
            r = self.class_query(a, b)
            if r is not None:
                return r
        if a.f in ('count', '.getBuiltinCallee', '.getKind', '.getStmtClass', '.getCastKind', '.getValueKind'):
            return T('eqk', a, b)
        if a.f.startswith('.get') or a.f.startswith('.is') and b not in (0, 1):
            return T('eqk', a, b)
        return None

    CLASS_ENUMS = {'.getStmtClass': ('clang::Stmt::StmtClass', '%s', 'Class'),
                   '.getKind': ('clang::Decl::Kind', '%sDecl', ''),
                   '.getTypeClass': ('clang::Type::TypeClass', '%sType', '')}

    def class_query(self, a, b):
        """n->getStmtClass() == <Class>: the node is of exactly that class (dyn_cast succeeds and no cast to a
        proper subclass would), so it is decided the way a dyn_cast is."""
        if a.f not in self.CLASS_ENUMS or not isinstance(a.a[0], Term):
            return None
        en, fmt, tail = self.CLASS_ENUMS[a.f]
        names = {int(v): n for n, v in self.prog.p['enums'].get(en) or []
                 if not n.startswith(('first', 'last'))}
        n = names.get(int(b))
        if n is None:
            return None
        if tail:
            n = n[:-len(tail)] if n.endswith(tail) else n
        cls = 'clang::' + fmt % n
        t = a.a[0]
        if a.f == '.getTypeClass' or self.is_type_term(t):
            return self.isa_type(t, cls, False) if self.is_type_term(t) and cls in TYPE_CLASS else None
        pos = (E.C.cls.get(t) or (None,))[0]
        if a.f == '.getKind' and (pos is None or not self.prog.is_subclass(pos, 'clang::Decl')):
            return None
        if not self.isa(t, cls):
            return False
        for x in names.values():
            if tail:
                x = x[:-len(tail)] if x.endswith(tail) else x
            x = 'clang::' + fmt % x
            if x != cls and self.prog.is_subclass(x, cls) and self.isa(t, x):
                return False
        return True

    def bkinds(self):
        if not hasattr(self, '_bk'):
            self._bk = {int(v): n.split('::')[-1] for n, v in
                        self.prog.p['enums'].get('clang::BuiltinType::Kind') or []}
        return self._bk

    def sign(self, d):
        # lengths and sizes are non-negative
        c, m = E.as_lin(d)
        lo = all(k > 0 for k in m.values()) and all(
            isinstance(a, Term) and a.f in ('len', '.size', '.length') for a in m)
        if lo and c >= 0:
            return 1 if c > 0 else None
        return None

    # ---------------------------------------------------- values
    def global_value(self, prog, i, g, e):
        t = (g or {}).get('t') or e.get('t') or ''
        if 'llvm::cl::opt' in t or 'llvm::cl::list' in t or 'llvm::cl::alias' in t:
            n = first_string((g or {}).get('init'))
            return Cell(T('flag', n or (g or {}).get('qn') or i))
        if 'nullopt' in (e.get('n') or '') or 'nullopt' in (e.get('qn') or ''):
            return Cell(stdmodel.NULLOPT)
        if 'in_place' in (e.get('n') or ''):
            return Cell(T('in_place'))
        qn = e.get('qn') or ''
        if qn in ('std::cout', 'std::cerr', 'std::clog'):
            c = Cell(Stream('stdout' if qn == 'std::cout' else 'stderr'))
            return c
        if qn.endswith('::npos'):
            return Cell((1 << 64) - 1)
        return None

    def field(self, t, n):
        if t.f == 'LO':
            return T('lang', n)
        if t.f == 'er' and n == 'Val':
            return T('erval', *t.a)
        if t.f == 'er' and n == 'HasSideEffects':
            return T('.HasSideEffects', *t.a)
        return T('.' + n, t)

    def identity(self, v, typ):
        b = base_type(typ)
        s = strip_targs(b)
        if s in VALUE_CLASSES or s.startswith('std::') or s.startswith('clang::TypeLoc'):
            return False
        if b in ('int', 'bool', 'unsigned int', 'unsigned long', 'long', 'char', 'double', 'float',
                 'unsigned char', 'size_t'):
            return False
        if s.endswith('TypeLoc') or s.endswith('TemplateArgumentLoc'):
            return False
        return True

    def elem(self, t, i):
        if isinstance(i, int) and t.f == '.getParents':
            return self.parents(t)[i] if i < len(self.parents(t)) else T('badparent', t, i)
        return T('[]', t, hashable(i))

    def parents(self, t):
        """t = .getParents(x)"""
        x = t.a[0]
        p0 = T('parent', x, 0)
        if p0 not in E.C.cls:
            E.C.cls[p0] = (None, frozenset())
        if truth(T('twoparents', x)):
            p1 = T('parent', x, 1)
            if p1 not in E.C.cls:
                # more than one parent: an initialiser list in its syntactic and
                # semantic form, possibly with an implicit cast in the latter
                if truth(T('castfirst', x)):
                    a, b = 'clang::ImplicitCastExpr', 'clang::InitListExpr'
                elif truth(T('castsecond', x)):
                    a, b = 'clang::InitListExpr', 'clang::ImplicitCastExpr'
                else:
                    a = b = 'clang::InitListExpr'
                for q, k in ((p0, a), (p1, b)):
                    c = E.C.cls.get(q) or (None, frozenset())
                    if c[0] is not None and not self.prog.is_subclass(c[0], k) and not self.prog.is_subclass(k, c[0]):
                        raise Infeasible()
                    for y in c[1]:
                        if self.prog.is_subclass(k, y):
                            raise Infeasible()
                    E.C.cls[q] = (k, c[1])
            return [p0, p1]
        return [p0]

    def iter_sym(self, t):
        if t.f == '.getParents':
            for p in self.parents(t):
                yield Cell(p)
            return
        n = 0
        bound = self.roots.get('iter_bound', 2)
        while True:
            if n >= bound:
                return
            if not truth(T('has', t, n)):
                return
            yield Cell(self.item(t, n))
            n += 1

    def item(self, t, n):
        x = T('[]', t, n)
        c = {'.arguments': 'clang::Expr', '.body': 'clang::Stmt', '.children': 'clang::Stmt',
             '.inits': 'clang::Expr', '.decls': 'clang::Decl'}.get(t.f)
        if c and x not in E.C.cls:
            E.C.cls[x] = (c, frozenset())
        return x

    def default_value(self, prog, t):
        b = base_type(t)
        if t.endswith('*'):
            return NULL
        s = strip_targs(b)
        if s in ('std::basic_string', 'std::string', 'llvm::StringRef', 'std::basic_string_view'):
            return EMPTY
        if s in stdmodel.SEQ or s in stdmodel.MAP:
            return stdmodel.seq_ctor(prog, {'cls': b}, None, [])
        if s == 'std::optional':
            return Opt()
        if s in stdmodel.SMART:
            return NULL
        if s == 'std::function':
            return NULL
        if s.startswith('std::basic_') and 'stream' in s:
            return stdmodel.stream_ctor(prog, {'cls': b}, None, [])
        if s == 'std::pair' or s == 'std::tuple':
            return UNINIT
        if prog.repo_record(b) and not self.is_pb(b):
            for k, f in prog.fns.items():
                if f.get('isctor') and f.get('cls') == b and len(f['p']) == 0:
                    return prog.construct(b, k, [])
            return prog.construct(b, None, [])
        if b in ('int', 'unsigned int', 'long', 'unsigned long', 'bool', 'char', 'double', 'float',
                 'short', 'unsigned short', 'long long', 'unsigned long long', 'unsigned char', 'size_t'):
            return UNINIT
        if b in self.prog.p['enums']:
            return UNINIT
        return self.ext_ctor(prog, {'cls': b}, b, 'default', [])

    def is_pb(self, cls):
        return (cls or '').startswith('dredd::protobufs::')

    def ext_ctor(self, prog, info, cls, kind, vals):
        cls = cls or ''
        s = strip_targs(cls)
        if kind in ('copy', 'move') and vals:
            v = rv(vals[0])
            return copyval(v)
        if self.is_pb(cls):
            if vals and isinstance(rv(vals[0]), Obj):
                return copyval(rv(vals[0]))
            return Obj(cls)
        if s in SINGLETON:
            return T(SINGLETON[s])
        if s == 'clang::SourceLocation':
            return T('SL0') if not vals else rv(vals[0])
        if s == 'clang::SourceRange':
            if not vals:
                return T('SR0')
            a = rv(vals[0])
            b = rv(vals[1]) if len(vals) > 1 else a
            return mk_sr(a, b)
        if s == 'clang::CharSourceRange':
            if not vals:
                return T('CSR', T('SR0'), False)
            return T('CSR', rv(vals[0]), hashable(rv(vals[1])))
        if s in ('llvm::ArrayRef', 'llvm::MutableArrayRef') and len(vals) == 1:
            return rv(vals[0])
        if s == 'llvm::APFloat' and vals and isinstance(rv(vals[0]), (int, float)):
            return T('apf', float(rv(vals[0])))
        if s in ('llvm::APSInt', 'llvm::APInt') and vals and isinstance(rv(vals[0]), Term):
            return rv(vals[0])
        if s == 'clang::QualType' and vals and isinstance(rv(vals[0]), Term):
            return rv(vals[0])
        if s == 'clang::Expr::EvalResult':
            return T('er0')
        if s == 'clang::Token':
            return T('tok0')
        if kind == 'default' and s not in VALUE_CLASSES:
            E.C.fresh += 1
            return T('new:' + s, E.C.fresh)
        E.C.effect('ctor', s, tuple(hashable(v) for v in vals))
        return T('C:' + s, *[hashable(v) for v in vals])

    def ext_new(self, prog, cls, a):
        if self.is_pb(cls):
            return Ptr(Cell(Obj(cls)))
        return Ptr(Cell(self.ext_ctor(prog, {'cls': cls}, cls, 'other' if a else 'default', a)))

    # ---------------------------------------------------- result typing
    def result(self, info, t):
        """register the static class of a fresh result term."""
        ret = info.get('ret') or ''
        b = base_type(ret)
        s = strip_targs(b)
        if s in SINGLETON:
            return T(SINGLETON[s])
        if isinstance(t, Term) and t not in E.C.cls:
            if ret.rstrip().endswith(('*', '&')) or s in ('clang::TypeLoc',):
                if s.startswith('clang::') and s in self.prog.p['records']:
                    E.C.cls[t] = (b, frozenset())
        if ret.startswith('llvm::StringRef') or s in ('std::basic_string', 'llvm::StringRef') or \
                ret in ('const char *',):
            return TStr((t,))
        return t

    # ---------------------------------------------------- methods
    def ext_method(self, prog, info, qn, obj, vals):
        v = rv(obj)
        n = info['n']
        if isinstance(v, Ptr) and isinstance(v.c.v, (Obj, Term)):
            v = v.c.v
        cls = qn[:-len(n) - 2] if qn.endswith('::' + n) else qn.rsplit('::', 1)[0]
        if isinstance(v, Obj) and self.is_pb(v.cls):
            return self.pb_method(prog, info, n, obj, v, vals)
        if cls == 'clang::RecursiveASTVisitor':
            return self.rav(prog, info, n, obj, v, vals)
        if isinstance(v, (TStr,)):
            return stdmodel.str_method(prog, info, obj, vals)
        if isinstance(v, Obj):
            if n in ('operator bool',):
                return True
            return self.base_method(prog, info, qn, n, obj, v, vals)
        if isinstance(v, Vec):
            return stdmodel.seq_method(prog, info, obj, vals)
        if isinstance(v, Stream):
            return stdmodel.stream_method(prog, info, obj, vals)
        if isinstance(v, Opt):
            return stdmodel.opt_method(prog, info, obj, vals)
        if v is UNINIT:
            E.C.note('method %s on uninitialised object, line %s' % (qn, E.C.line))
            v = T('uninit')
        if v is NULL:
            raise Abort('null dereference', E.C.line)
        if not isinstance(v, Term):
            if isinstance(v, (int, float, Lin)):
                return T('.' + n, hashable(v), *[hashable(x) for x in vals])
            raise Unsupported('method %s on %r' % (qn, type(v).__name__))
        if cls == 'clang::Rewriter':
            return self.rewriter(prog, info, n, vals)
        h = getattr(self, 'm_' + n.replace(' ', '_'), None)
        if h is not None:
            r = h(prog, info, v, vals, obj)
            if r is not NotImplemented:
                return r
        if cls in TYPE_CLASSES or cls in ('clang::QualType', 'clang::Type') or self.is_type_term(v):
            r = self.type_method(info, n, v, vals)
            if r is not NotImplemented:
                return r
        return self.pure(prog, info, qn, n, v, vals)

    def pure(self, prog, info, qn, n, v, vals):
        ret = info.get('ret') or ''
        ta = info.get('ta') or []
        name = '.' + n + (('<' + ','.join(ta) + '>') if ta and n.startswith(('getAs', 'castAs', 'hasAttr', 'getAttr', 'get')) else '')
        key = T(name, v, *[hashable(x) for x in self.inputs(info, vals)])
        self.outs(info, qn, key, vals)
        if not info.get('const') and not info.get('static') and (ret == 'void' or n.startswith(('set', 'add', 'insert', 'remove', 'clear', 'dump', 'print'))):
            E.C.effect('call', qn, v, tuple(hashable(rv(x)) for x in vals))
            return None if ret == 'void' else key
        if ret == 'void':
            E.C.effect('call', qn, v, tuple(hashable(rv(x)) for x in vals))
            return None
        return self.result(info, key)

    def inputs(self, info, vals):
        ps = info.get('ps') or []
        out = []
        for i, x in enumerate(vals):
            p = ps[i] if i < len(ps) else ''
            if self.is_out(p, x):
                continue
            y = hashable(x)
            if isinstance(y, Term) and y.f in ('AC', 'SM', 'LO', 'PP', 'POL'):
                continue
            out.append(x)
        return out

    def is_out(self, p, x):
        if p.endswith('&') and not p.startswith('const ') and not p.endswith('&&'):
            v = rv(x)
            return type(x) is Cell and not (isinstance(v, Term) and v.f in SINGLE_NAMES)
        if p.endswith('*') and not p.startswith('const '):
            v = rv(x)
            return isinstance(v, Ptr) and not isinstance(v.c.v, Obj)
        return False

    def outs(self, info, qn, key, vals):
        ps = info.get('ps') or []
        for i, x in enumerate(vals):
            p = ps[i] if i < len(ps) else ''
            if not self.is_out(p, x):
                continue
            c = x if p.endswith('&') else rv(x).c
            if isinstance(c.v, (Obj, Vec, Stream)):
                E.C.effect('outarg', qn, i)
                continue
            nv = T('out', key, i)
            c.v = TStr((nv,)) if isinstance(c.v, TStr) else nv

    # --- types
    def m_getType(self, prog, info, v, a, o):
        if a:
            return NotImplemented
        if (info.get('ret') or '').startswith(('clang::QualType', 'const clang::QualType')):
            return T('ty', v)
        return NotImplemented

    def type_method(self, info, n, v, a):
        b = tybase(v)
        k = lambda: self.tkey(b)
        if n in TYPE_PRED:
            return P_in(T('tc', k()), TYPE_PRED[n])
        if n in BUILTIN_PRED:
            return P_in(T('tc', k()), BUILTIN_PRED[n])
        if n == 'isSignedIntegerType' or n == 'isSignedIntegerOrEnumerationType':
            d = getdom(T('tc', k()))
            if d & {'enum', 'bitint', 'senum'} and truth(P_in(T('tc', k()), {'enum', 'bitint', 'senum'})):
                return T('.isSignedIntegerType', k())
            return P_in(T('tc', k()), {'sint'})
        if n in ('getCanonicalType', 'getCanonicalTypeInternal', 'getCanonicalTypeUnqualified', 'getDesugaredType',
                 'getSingleStepDesugaredType'):
            return T('canon', b)
        if n in ('getTypePtr', 'getTypePtrOrNull', 'operator->', 'operator*', 'getTypePtrUnsafe'):
            return v
        if n in ('getUnqualifiedType', 'getLocalUnqualifiedType', 'withoutLocalFastQualifiers', 'IgnoreParens'):
            return T('unqual', b) if v.f != 'canon' else v
        if n in ('getAs', 'castAs'):
            cls = base_type((info.get('ta') or [''])[0])
            if n == 'castAs':
                return self.typed(v, cls)
            if cls in TYPE_CLASS:
                return v if self.isa_type(T('canon', b), cls, True) else NULL
            if truth(T('sugar', b, cls)):
                return self.typed(T('as<%s>' % cls, b), cls)
            return NULL
        if n == 'getAsArrayTypeUnsafe':
            return v if truth(P_in(T('tc', k()), {'carr', 'varr', 'darr'})) else NULL
        if n in ('isConstQualified', 'isLocalConstQualified'):
            return False if v.f == 'unqual' else T('const', b)
        if n in ('isVolatileQualified', 'isLocalVolatileQualified'):
            return False if v.f == 'unqual' else T('volatile', b)
        if n == 'isNull':
            return self.roots.get(('nulltype', b), T('tynull', b))
        if n == 'getName' and (info.get('qn') or '').startswith('clang::BuiltinType'):
            return TStr((T('tname', k()),))
        if n == 'getNameAsCString':
            return TStr((T('tname', k()),))
        if n == 'getAsString':
            return TStr((T('tstring', v),))
        if n == 'getKind' and 'BuiltinType' in (info.get('qn') or ''):
            return T('bkind', k())
        return NotImplemented

    def typed(self, t, cls):
        if t not in E.C.cls and cls:
            E.C.cls[t] = (cls, frozenset())
        return t

    def m_operator_bool(self, prog, info, v, a, o):
        if v.f == 'flag':
            return v
        return T('bool', v)

    # --- expressions
    def m_getOpcode(self, prog, info, v, a, o):
        return T('op', v)

    def op_pred(self, info, v, a, names, un=False):
        s = uos(names) if un else bos(names)
        if a:
            x = rv(a[0])
            if isinstance(x, int):
                return x in s
            return P_in(x, s)
        return P_in(T('op', v), s)

    def m_isAssignmentOp(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, G_ASSIGN)

    def m_isCompoundAssignmentOp(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, G_ASSIGN[1:])

    def m_isLogicalOp(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, G_LOG)

    def m_isCommaOp(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, ['Comma'])

    def m_isComparisonOp(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, G_REL + ['Cmp'])

    def m_isRelationalOp(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, ['LT', 'GT', 'LE', 'GE'])

    def m_isEqualityOp(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, ['EQ', 'NE'])

    def m_isShiftOp(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, G_SHIFT)

    def m_isBitwiseOp(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, G_BIT)

    def m_isAdditiveOp(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, ['Add', 'Sub'])

    def m_isMultiplicativeOp(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, ['Mul', 'Div', 'Rem'])

    def m_isShiftAssignOp(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, ['ShlAssign', 'ShrAssign'])

    def m_isPtrMemOp(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, ['PtrMemD', 'PtrMemI'])

    def m_isIncrementDecrementOp(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, ['PreInc', 'PreDec', 'PostInc', 'PostDec'], True)

    def m_isIncrementOp(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, ['PreInc', 'PostInc'], True)

    def m_isDecrementOp(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, ['PreDec', 'PostDec'], True)

    def m_isPostfix(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, ['PostInc', 'PostDec'], True)

    def m_isPrefix(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, ['PreInc', 'PreDec'], True)

    def m_isArithmeticOp(self, prog, info, v, a, o):
        return self.op_pred(info, v, a, ['Plus', 'Minus', 'Not', 'LNot'], True)

    def m_getOpcodeStr(self, prog, info, v, a, o):
        if a:
            return NotImplemented
        x = self.concrete(T('op', v))
        tab, names = (UO_STR, UO) if 'UnaryOperator' in (info.get('qn') or '') else (BO_STR, BO)
        for nme, val in names.items():
            if val == x:
                return tstr(tab[nme])
        return NotImplemented

    def m_isLValue(self, prog, info, v, a, o):
        return P_in(T('vk', v), {'lv'})

    def m_isGLValue(self, prog, info, v, a, o):
        return P_in(T('vk', v), {'lv', 'xv'})

    def m_isPRValue(self, prog, info, v, a, o):
        return P_in(T('vk', v), {'prv'})

    m_isRValue = m_isPRValue

    def m_isXValue(self, prog, info, v, a, o):
        return P_in(T('vk', v), {'xv'})

    def m_getValueKind(self, prog, info, v, a, o):
        return T('.getValueKind', v)

    def is_value_dependent(self, v):
        return T('.isValueDependent', v)

    def m_isValueDependent(self, prog, info, v, a, o):
        return self.is_value_dependent(v)

    def m_EvaluateAsInt(self, prog, info, v, a, o):
        c = self.outcell(a[0])
        if c is not None:
            c.v = T('er', v)
        d = getdom(T('tc', self.tkey(T('ty', v))))
        if not truth(P_in(T('tc', self.tkey(T('ty', v))), {'bool', 'sint', 'uint', 'enum', 'senum', 'bitint'})):
            return False
        return P_in(T('vc', v), CONSTS)

    def m_EvaluateAsRValue(self, prog, info, v, a, o):
        c = self.outcell(a[0])
        if c is not None:
            c.v = T('er', v)
        return P_in(T('vc', v), CONSTS)

    def m_EvaluateAsFloat(self, prog, info, v, a, o):
        c = self.outcell(a[0])
        if c is not None:
            c.v = T('fval', v)
        if not truth(P_in(T('tc', self.tkey(T('ty', v))), {'float', 'half'})):
            return False
        return P_in(T('vc', v), CONSTS)

    def m_EvaluateAsBooleanCondition(self, prog, info, v, a, o):
        c = self.outcell(a[0])
        if c is not None:
            c.v = T('not', P_in(T('vc', v), {'0'}))
        return P_in(T('vc', v), CONSTS)

    def m_getIntegerConstantExpr(self, prog, info, v, a, o):
        return T('ice', v)

    def outcell(self, x):
        if type(x) is Cell:
            if isinstance(x.v, Ptr):
                return x.v.c
            return x
        v = rv(x)
        if isinstance(v, Ptr):
            return v.c
        return None

    def m_getInt(self, prog, info, v, a, o):
        if v.f == 'erval':
            return T('ival', *v.a)
        return NotImplemented

    def m_getFloat(self, prog, info, v, a, o):
        if v.f == 'erval':
            return T('fval', *v.a)
        return NotImplemented

    def num_is(self, v, k):
        if v.f in ('ival', 'fval'):
            return P_in(T('vc', v.a[0]), {str(k)})
        return NotImplemented

    def m_isZero(self, prog, info, v, a, o):
        return self.num_is(v, 0)

    def m_isOne(self, prog, info, v, a, o):
        return self.num_is(v, 1)

    def m_isExactlyValue(self, prog, info, v, a, o):
        k = rv(a[0])
        if v.f == 'fval' and isinstance(k, (int, float)) and float(k) in (0.0, 1.0, -1.0):
            return P_in(T('vc', v.a[0]), {str(int(k))})
        return NotImplemented

    def ivalnum(self, info, v):
        if v.f == 'ival':
            return T('ivalnum', v.a[0], info['n'])
        return NotImplemented

    def m_getExtValue(self, prog, info, v, a, o):
        return self.ivalnum(info, v)

    m_getSExtValue = m_getExtValue

    def m_getParents(self, prog, info, v, a, o):
        x = rv(a[0])
        return T('.getParents', x)

    def m_size(self, prog, info, v, a, o):
        if v.f == '.getParents':
            return len(self.parents(v))
        return NotImplemented

    def m_empty(self, prog, info, v, a, o):
        if v.f == '.getParents':
            return False
        return NotImplemented

    def m_get(self, prog, info, v, a, o):
        if 'DynTypedNode' in (info.get('qn') or ''):
            cls = base_type((info.get('ta') or [''])[0])
            return v if self.isa(v, cls) else NULL
        if 'Expected' in (info.get('qn') or ''):
            return Cell(T('.val', v))
        return NotImplemented

    # --- ranges
    def m_isInvalid(self, prog, info, v, a, o):
        return T('invalid', v)

    def m_isValid(self, prog, info, v, a, o):
        return T('not', T('invalid', v))

    def m_getBegin(self, prog, info, v, a, o):
        return self.extreme(v, 0)

    def m_getEnd(self, prog, info, v, a, o):
        return self.extreme(v, 1)

    def extreme(self, v, i):
        if v.f == 'SR':
            return v.a[i]
        if v.f == 'SR0':
            return T('SL0')
        if v.f == 'CSR':
            return self.extreme(v.a[0], i)
        return T('.getEnd' if i else '.getBegin', v)

    def m_setBegin(self, prog, info, v, a, o):
        if 'Range' in (info.get('qn') or ''):
            if v.f == 'CSR':
                o.v = T('CSR', mk_sr(rv(a[0]), self.extreme(v, 1)), v.a[1])
            else:
                o.v = mk_sr(rv(a[0]), self.extreme(v, 1))
            return None
        return NotImplemented

    def m_setEnd(self, prog, info, v, a, o):
        if 'Range' in (info.get('qn') or ''):
            if v.f == 'CSR':
                o.v = T('CSR', mk_sr(self.extreme(v, 0), rv(a[0])), v.a[1])
            else:
                o.v = mk_sr(self.extreme(v, 0), rv(a[0]))
            return None
        return NotImplemented

    def m_getAsRange(self, prog, info, v, a, o):
        return v.a[0] if v.f == 'CSR' else T('.getAsRange', v)

    def m_isTokenRange(self, prog, info, v, a, o):
        if v.f == 'CSR' and isinstance(v.a[1], bool):
            return v.a[1]
        return NotImplemented

    def m_isCharRange(self, prog, info, v, a, o):
        if v.f == 'CSR' and isinstance(v.a[1], bool):
            return not v.a[1]
        return NotImplemented

    def m_getSourceRange(self, prog, info, v, a, o):
        return T('.getSourceRange', v)

    def m_getBeginLoc(self, prog, info, v, a, o):
        return T('.getBegin', T('.getSourceRange', v))

    def m_getEndLoc(self, prog, info, v, a, o):
        return T('.getEnd', T('.getSourceRange', v))

    def m_getLocWithOffset(self, prog, info, v, a, o):
        k = rv(a[0])
        if k == 0:
            return v
        if v.f == '.off':
            k = add(k, v.a[1])
            v = v.a[0]
            if k == 0:
                return v
        return T('.off', v, hashable(k))

    # --- effects
    def rewriter(self, prog, info, n, vals):
        C = E.C
        a = [rv(x) for x in vals]
        if n in ('setSourceMgr', 'getSourceMgr', 'getLangOpts', 'getRewrittenText', 'getRangeSize',
                 'getRewriteBufferFor', 'buffer_begin', 'buffer_end', 'getEditBuffer'):
            if n == 'getSourceMgr':
                return T('SM')
            if n == 'getLangOpts':
                return T('LO')
            if n == 'setSourceMgr':
                C.effect('rw', n)
                return None
            return T('.' + n, T('RW'), *[hashable(x) for x in a])
        if n in ('overwriteChangedFiles',):
            C.effect('rw', n)
            return T('overwrite_failed')
        if n == 'isRewritable':
            return T('rewritable', hashable(a[0]))
        b = []
        for x, p in zip(a, info.get('ps') or []):
            if 'StringRef' in p:
                x = stdmodel.to_str(x)
            if isinstance(x, Term) and x.f == 'CSR':
                x = x.a[0]
            b.append(hashable(x))
        C.effect('rw', n, *b)
        return False

    def rav(self, prog, info, n, obj, v, vals):
        E.C.effect('descend', n, tuple(hashable(rv(x)) for x in vals))
        return True

    def base_method(self, prog, info, qn, n, obj, v, vals):
        """method of an external base class on an object of the repository."""
        args = tuple(hashable(rv(x)) for x in vals)
        if info.get('const') or n.startswith('get') or n.startswith('is'):
            return self.result(info, T('.' + n, T('self'), *args))
        E.C.effect('basecall', qn, v.cls, args)
        if info.get('ret') == 'void':
            return None
        return self.result(info, T('.' + n, T('self'), *args))

    # --- protobuf
    def pb_method(self, prog, info, n, obj, o, vals):
        def nm(s):
            return s[:-1] if s.endswith('_') else s
        ret = info.get('ret') or ''
        rb = base_type(ret)
        f = o.f
        if n in ('CopyFrom', 'MergeFrom', 'operator='):
            src = rv(vals[0])
            if isinstance(src, Obj):
                if n == 'MergeFrom':
                    raise Unsupported('MergeFrom')
                c = copyval(src)
                o.f = c.f
                return obj
            raise Unsupported('protobuf copy from %r' % (src,))
        if n in ('Swap', 'swap'):
            w = rv(vals[0])
            w = w.c.v if isinstance(w, Ptr) else w
            o.f, w.f = w.f, o.f
            return None
        if n == 'Clear':
            o.f = {}
            return None
        if n.startswith('set_') and vals:
            k = nm(n[4:])
            v = rv(vals[-1])
            if len(vals) == 2 and isinstance(rv(vals[0]), int) and k in f and isinstance(f[k].v, Vec):
                f[k].v.items[rv(vals[0])].v = v
                return None
            if isinstance(v, Stream):
                v = v.buf
            f[k] = Cell(copyval(v))
            return None
        if n.startswith('set_allocated_'):
            f[nm(n[14:])] = rv(vals[0]).c
            return None
        if n.startswith('mutable_'):
            k = nm(n[8:])
            if vals:
                return Ptr(f[k].v.items[rv(vals[0])])
            if k not in f:
                if 'RepeatedPtrField' in rb or 'RepeatedField' in rb:
                    f[k] = Cell(Vec())
                elif 'basic_string' in rb:
                    f[k] = Cell(EMPTY)
                else:
                    f[k] = Cell(Obj(rb))
            return Ptr(f[k])
        if n.startswith('add_'):
            k = nm(n[4:])
            if k not in f:
                f[k] = Cell(Vec())
            if vals:
                c = Cell(copyval(rv(vals[0])))
            else:
                c = Cell(Obj(rb))
            f[k].v.items.append(c)
            return Ptr(c) if not vals else None
        if n.startswith('has_'):
            return nm(n[4:]) in f
        if n.startswith('clear_'):
            f.pop(nm(n[6:]), None)
            return None
        if n.endswith('_size') and not vals:
            k = n[:-5]
            if k not in f:
                return 0
            v = f[k].v
            return add(len(v.items), T('.size', v.sym)) if v.sym is not None else len(v.items)
        if n in ('SerializeToString', 'DebugString', 'ByteSizeLong', 'ShortDebugString', 'SerializeAsString',
                 'IsInitialized', 'GetTypeName'):
            return self.result(info, T('pb.' + n, T('pbobj', o.uid)))
        k = nm(n)
        if vals:
            if k in f:
                return f[k].v.items[rv(vals[0])]
            raise Unsupported('protobuf index of missing field')
        if k in f:
            return f[k]
        if 'basic_string' in rb:
            return EMPTY
        if rb.startswith('dredd::protobufs::') and rb in self.prog.p['records']:
            return Cell(Obj(rb))
        if 'Repeated' in rb:
            f[k] = Cell(Vec())
            return f[k]
        return 0

    # ---------------------------------------------------- free / static calls
    def ext_call(self, prog, info, qn, vals):
        n = info.get('n') or qn
        last = qn.split('::')[-1]
        if qn in ('llvm::dyn_cast', 'llvm::dyn_cast_or_null', 'llvm::dyn_cast_if_present'):
            return self.cast(vals[0], base_type(info['ta'][0]))
        if qn in ('llvm::cast', 'llvm::cast_or_null', 'llvm::cast_if_present'):
            v = rv(vals[0])
            if isinstance(v, Term) and not self.is_type_term(v):
                if not self.isa(v, base_type(info['ta'][0])):
                    raise Abort('cast', E.C.line)
            return vals[0] if type(vals[0]) is Cell else v
        if qn in ('llvm::isa', 'llvm::isa_and_nonnull', 'llvm::isa_and_present'):
            v = rv(vals[0])
            if v is NULL:
                return False
            targets = info.get('ta') or []
            for t in targets:
                if t == info_arg_type(info):
                    continue
                if '*' in t or t.startswith('const '):
                    continue
                if self.cast(vals[0], base_type(t)) is not NULL:
                    return True
            return False
        if last == 'getOpcodeStr':
            x = rv(vals[0])
            un = 'UnaryOperator' in qn
            tab, names = (UO_STR, UO) if un else (BO_STR, BO)
            x = self.concrete(x)
            for nme, val in names.items():
                if val == x:
                    return tstr(tab[nme])
            raise Abort('getOpcodeStr of unknown operator', E.C.line)
        if qn.startswith(('clang::BinaryOperator::is', 'clang::UnaryOperator::is')):
            h = getattr(self, 'm_' + last, None)
            if h:
                return h(prog, info, None, vals, None)
        if qn == 'clang::BinaryOperator::getOpForCompoundAssignment':
            x = self.concrete(rv(vals[0]))
            return BO[bname(x).replace('Assign', '')]
        if qn == 'clang::CharSourceRange::getTokenRange' or qn == 'clang::CharSourceRange::getCharRange':
            r = rv(vals[0]) if len(vals) == 1 else mk_sr(rv(vals[0]), rv(vals[1]))
            return T('CSR', r, 'Token' in qn)
        if qn == 'llvm::APSInt::get' or qn == 'llvm::APSInt::getUnsigned':
            return T('apsint', hashable(rv(vals[0])))
        if qn in ('llvm::APSInt::isSameValue', 'llvm::APInt::isSameValue'):
            x, y = rv(vals[0]), rv(vals[1])
            for p, q in ((x, y), (y, x)):
                if isinstance(p, Term) and p.f == 'ival' and isinstance(q, Term) and q.f == 'apsint':
                    k = q.a[0]
                    if isinstance(k, int) and k in (0, 1, -1):
                        return P_in(T('vc', p.a[0]), {str(k)})
                    return T('sameval', p, q)
            return T('sameval', hashable(x), hashable(y))
        if qn == 'clang::Lexer::getRawToken':
            loc = rv(vals[0])
            key = T('rawtok', hashable(loc), *[hashable(rv(x)) for x in vals[4:]])
            vals[1].v = T('tok', key)
            return T('rawtokfail', key)
        if qn == 'clang::tooling::maybeExtendRange':
            csr, tok = rv(vals[0]), rv(vals[1])
            r = csr.a[0] if csr.f == 'CSR' else csr
            tok = E_name(self.prog, 'clang::tok::TokenKind', tok)
            return T('CSR', T('ext', r, tok), csr.a[1] if csr.f == 'CSR' else True)
        if qn == 'clang::tooling::getExtendedRange':
            csr = rv(vals[0])
            return T('getExtendedRange', hashable(csr), *[hashable(rv(x)) for x in vals[1:]])
        if qn.startswith('google::protobuf::util::MessageToJsonString') or qn.startswith('google::protobuf::json::MessageToJsonString'):
            m = rv(vals[0])
            out = rv(vals[1])
            s = T('json', copy_snapshot(m))
            if isinstance(out, Ptr):
                out.c.v = cat(tstr(out.c.v), TStr((s,))) if isinstance(out.c.v, TStr) else TStr((s,))
            E.C.effect('tojson', copyval(m) if isinstance(m, Obj) else hashable(m))
            return T('jsonstatus')
        if qn == 'clang::tooling::CommonOptionsParser::create':
            return T('optparser')
        for p in (self.ext_hooks if hasattr(self, 'ext_hooks') else ()):
            r = p(prog, info, qn, vals)
            if r is not NotImplemented:
                return r
        ret = info.get('ret') or ''
        key = T(qn, *[hashable(x) for x in self.inputs(info, vals)])
        self.outs(info, qn, key, vals)
        if not qn.startswith(('clang::', 'std::', 'llvm::')) or ret == 'void':
            E.C.effect('extcall', qn, tuple(hashable(rv(x)) for x in vals))
        return self.result(info, key) if ret != 'void' else None

    def concrete(self, x):
        if isinstance(x, int):
            return x
        if isinstance(x, Term):
            d = getdom(x)
            if d is not None:
                l = sorted(d)
                if len(l) == 1:
                    return l[0]
                i = E.C.choose(len(l))
                E.C.doms[x] = frozenset([l[i]])
                return l[i]
        raise Unsupported('unknown operator kind %r' % (x,))

    def ext_opcall(self, prog, info, qn, op, a):
        v = rv(a[0])
        if isinstance(v, Obj) and self.is_pb(v.cls) and op == '=':
            y = rv(a[1])
            c = copyval(y)
            v.f = c.f
            return a[0]
        if op == '<<' and isinstance(v, Stream):
            raise Unsupported('stream of object')
        if op == '()' and isinstance(v, Term):
            return T('call', v, *[hashable(x) for x in a[1:]])
        if op in ('++', '--') and isinstance(v, Term):
            a[0].v = T('next' if op == '++' else 'prevv', v)
            return a[0]
        if op == '[]':
            return Cell(self.elem(v, rv(a[1])))
        if op in ('+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '~'):
            return T('op' + op, *[hashable(x) for x in a])
        if op == '->' or op == '*':
            return v
        raise Unsupported('operator%s on %r (%s)' % (op, v, qn))

    def foreign_store(self, prog, cell, v, y):
        return False

    def deref_term(self, prog, info, v):
        return None

    # ---------------------------------------------------- assertions
    def asserted(self, prog, fr, c, line):
        C = E.C
        if self.assert_mode == 'skip':
            return
        C.line = line
        d0 = len(C.trace)
        ok = truth(c(fr))
        if ok:
            return
        if self.assert_mode == 'assume' and len(C.trace) != d0:
            raise Infeasible()
        raise Abort('assertion', line)

    def repo_method_on_term(self, prog, key, info, obj, vals):
        v = rv(obj)
        if v.f == 'options':
            return T('flag', info['n'])
        if v.f in ('uninit',):
            E.C.note('method %s on uninitialised object' % info['qn'])
        return prog.invoke(key, obj, vals)

    # ---------------------------------------------------- strings
    def str_empty(self, s):
        for p in s.p:
            if isinstance(p, Term) and p.f in ('tname', 'json', 'addr', 'classname', '.getStmtClassName', '.GetSnippet'):
                return False
            if isinstance(p, (Lin,)) or (isinstance(p, Term) and p.f in ('id', 'first')):
                return False
        return T('.empty', s)

    def str_affix(self, atom, lit, end):
        if isinstance(atom, Term) and atom.f == 'tname':
            if lit and not (lit[0].isalnum() or lit[0] in '_ ') :
                return False
        return None

    # ---------------------------------------------------- containers
    def copied_hashed(self, vec, cls):
        pass

    def on_push(self, vec, cell):
        pass

    def on_insert(self, vec, x, new):
        if vec.kind in ('set', 'uset') and isinstance(x, TStr):
            E.C.effect('insert', x, vec.kind)

    def sorted_range(self, vec):
        pass


SINGLE_NAMES = set(SINGLETON.values()) | {'options'}
TYPE_CLASSES = set(TYPE_CLASS) | {'clang::Type', 'clang::QualType'}


def mk_sr(a, b):
    if isinstance(a, Term) and isinstance(b, Term):
        if a.f == '.getBegin' and b.f == '.getEnd' and a.a[0] is b.a[0]:
            return a.a[0]
        if a.f == 'SL0' and b.f == 'SL0':
            return T('SR0')
    return T('SR', hashable(a), hashable(b))


def info_arg_type(info):
    return None


def E_name(prog, enum, v):
    if isinstance(v, int):
        for n, x in prog.p['enums'].get(enum) or []:
            if int(x) == v:
                return n.split('::')[-1]
    return v


def first_string(e):
    """first string literal in an exported expression."""
    if isinstance(e, dict):
        if e.get('k') == 'Str':
            return e['v']
        for k, v in e.items():
            if isinstance(v, (dict, list)):
                r = first_string(v)
                if r is not None:
                    return r
    elif isinstance(e, list):
        for x in e:
            r = first_string(x)
            if r is not None:
                return r
    return None


def copy_snapshot(m):
    if isinstance(m, Obj):
        return T('pb:' + m.cls, m.uid)
    return hashable(m)
