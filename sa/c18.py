"""What the mutation operators offer in full, and when leaving out a mutant is justified."""
import clangmodel as M
import engine as E
import gencheck as G
from engine import T, getdom

N = G.NODE
ARI = ['Add', 'Div', 'Mul', 'Rem', 'Sub']
REL = ['EQ', 'NE', 'GE', 'GT', 'LE', 'LT']
ASG = ['AddAssign', 'AndAssign', 'Assign', 'DivAssign', 'MulAssign', 'OrAssign', 'RemAssign', 'ShlAssign',
       'ShrAssign', 'SubAssign', 'XorAssign']
FLOAT_ASG = ['AddAssign', 'Assign', 'DivAssign', 'MulAssign', 'SubAssign']
# Just & Schweiggert 2015 / Kaminski et al.: the operator replacements that subsume all others
REL_KEEP = {'EQ': {'GE', 'LE'}, 'NE': {'GT', 'LT'}, 'GT': {'NE', 'GE'}, 'LT': {'NE', 'LE'}, 'GE': {'EQ', 'GT'},
            'LE': {'EQ', 'LT'}}
LOG_KEEP = {'LAnd': {'EQ', 'LHS', 'RHS'}, 'LOr': {'NE', 'LHS', 'RHS'}}
# constants that are subsumed for a comparison as a whole
CONST_REDUNDANT = {'LAnd': 'True', 'GT': 'True', 'LT': 'True', 'EQ': 'True', 'LOr': 'False', 'GE': 'False',
                   'LE': 'False', 'NE': 'False'}


def tc(node, cf):
    return getdom(T('tc', cf.tkey(T('ty', node))))


def is_float(d):
    return d <= frozenset(['float'])


def is_int(d):
    return not (d & frozenset(['float']))


def full(g, cf):
    """every mutant of the mutation operator that fits the operand types, or None if not determined."""
    if g.kind == 'bin':
        l, r = tc(T('.getLHS', N), cf), tc(T('.getRHS', N), cf)
        if not ((is_float(l) or is_int(l)) and (is_float(r) or is_int(r))):
            return None
        ints = is_int(l) and is_int(r)
        op = g.opname
        if op in ASG:
            fam = ASG if ints else FLOAT_ASG
            return set(fam) - {op}
        side = {'LHS', 'RHS'}
        if op in ARI:
            return (set(ARI if ints else [x for x in ARI if x != 'Rem']) | side) - {op}
        if op in ('And', 'Or', 'Xor'):
            return ({'And', 'Or', 'Xor'} | side) - {op}
        if op in ('Shl', 'Shr'):
            return ({'Shl', 'Shr'} | side) - {op}
        if op in ('LAnd', 'LOr'):
            return ({'LAnd', 'LOr'} | side | ({'EQ', 'NE'} if g.cxx else set())) - {op}
        if op in REL:
            s = (set(REL) | side) - {op}
            if l <= frozenset(['bool']) and r <= frozenset(['bool']) and op in ('EQ', 'NE'):
                return s | {'LAnd', 'LOr'}
            if not ('bool' in l and 'bool' in r) or op not in ('EQ', 'NE'):
                return s
            return None
        return None
    if g.kind == 'un':
        e = tc(T('.getSubExpr', N), cf)
        if not (is_float(e) or is_int(e)):
            return None
        op = g.opname
        lv = getdom(T('vk', N)) <= frozenset(['lv'])
        if op in ('PreInc', 'PreDec') and g.cxx:
            return {'PreInc', 'PreDec', 'Operand'} - {op}
        s = {'Minus', 'LNot', 'Operand'}
        if is_int(e):
            s.add('Not')
        if op in ('PreInc', 'PreDec'):
            s |= {'PreInc', 'PreDec'}
        if op in ('PostInc', 'PostDec'):
            s |= {'PostInc', 'PostDec'}
        return s - {op}
    return None


def full_expr(g, cf):
    e = tc(N, cf)
    if cf.vk == 'lv':
        return None
    if e <= frozenset(['bool']):
        return {'InsertLNot', 'True', 'False'}
    if is_float(e):
        return {'InsertMinus', 'ZeroFloat', 'OneFloat', 'MinusOneFloat'}
    if e <= frozenset(['sint']):
        return {'InsertLNot', 'InsertNot', 'InsertMinus', 'ZeroInt', 'OneInt', 'MinusOneInt'}
    if e <= frozenset(['uint']):
        return {'InsertLNot', 'InsertNot', 'ZeroInt', 'OneInt'}
    return None


def short(x):
    return x.replace('ReplaceWith', '')


def vc(node):
    d = getdom(T('vc', node))
    if len(d) == 1:
        v = next(iter(d))
        if v in ('0', '1', '-1'):
            return int(v)
    return None


def is_const(node):
    return 'nc' not in getdom(T('vc', node))


UNDEF = 'undefined'


def norm(t, val):
    """simplifies a value term by algebraic identities and known operand values."""
    k = t[0]
    if k in ('L', 'R', 'E'):
        v = val.get(k)
        return t if v is None else ('c', v)
    if k == 'c':
        return t
    if k == 'u':
        a = norm(t[2], val)
        if a == UNDEF:
            return a
        op = t[1]
        if a[0] == 'c':
            if op == '-':
                return ('c', -a[1])
            if op == '~':
                return ('c', ~int(a[1]))
            if op == '!':
                return ('c', int(not a[1]))
        if op in '-~' and a[0] == 'u' and a[1] == op:
            return a[2]
        return ('u', op, a)
    if k == 'p':
        return ('p', t[1], norm(t[2], val))
    if k == 'b':
        op = t[1]
        a, b = norm(t[2], val), norm(t[3], val)
        if UNDEF in (a, b):
            return UNDEF
        ca = a[1] if a[0] == 'c' else None
        cb = b[1] if b[0] == 'c' else None
        if op in ('/', '%') and cb == 0:
            return UNDEF
        if ca is not None and cb is not None:
            x, y = ca, cb
            if op in ('<<', '>>') and y < 0:
                return UNDEF
            try:
                v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: int(x / y),
                     '%': lambda: x - y * int(x / y), '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                     '<<': lambda: x << y, '>>': lambda: x >> y, '<': lambda: int(x < y), '>': lambda: int(x > y),
                     '<=': lambda: int(x <= y), '>=': lambda: int(x >= y), '==': lambda: int(x == y),
                     '!=': lambda: int(x != y), '&&': lambda: int(bool(x and y)), '||': lambda: int(bool(x or y))}[op]()
                return ('c', v)
            except KeyError:
                return ('b', op, a, b)
        zero = ('c', 0)
        if op in ('+', '|', '^'):
            if ca == 0:
                return b
            if cb == 0:
                return a
        if op in ('-', '<<', '>>') and cb == 0:
            return a
        if op == '-' and ca == 0:
            return ('u', '-', b)
        if op == '*':
            if ca == 0 or cb == 0:
                return zero
            if ca == 1:
                return b
            if cb == 1:
                return a
        if op in ('/', '%', '<<', '>>') and ca == 0:
            return zero
        if op == '/' and cb == 1:
            return a
        if op == '%' and cb in (1, -1):
            return zero
        if op == '&':
            if ca == 0 or cb == 0:
                return zero
            if ca == -1:
                return b
            if cb == -1:
                return a
        if op == '|' and -1 in (ca, cb):
            return ('c', -1)
        if op == '>>' and ca == -1:
            return a
        return ('b', op, a, b)
    return t


def logical_argument(p):
    """the expression is an argument of a logical operator."""
    c = p.cls.get(T('parent', N, 0))
    if c is None or c[0] != 'clang::BinaryOperator':
        return False
    return getdom(T('op', T('parent', N, 0))) <= M.bos(['LAnd', 'LOr'])


def justified(g, cf, p, name, kept):
    """may the mutant `name` be left out when `kept` are offered?"""
    op = g.opname
    s = short(name)
    if g.kind == 'bin':
        val = {'L': vc(T('.getLHS', N)), 'R': vc(T('.getRHS', N))}
        if op in REL_KEEP and s not in REL_KEEP[op]:
            return REL_KEEP[op] <= {short(k) for k in kept}
        if op in LOG_KEEP and g.cxx and s not in LOG_KEEP[op]:
            return True
    elif g.kind == 'un':
        val = {'E': vc(T('.getSubExpr', N))}
        if s == 'Operand' and op in ('Minus', 'Not', 'LNot'):
            return True         # the same operator inserted once more
    else:
        val = {'E': vc(N)}
        c = p.cls.get(N)
        if c and c[0] == 'clang::BinaryOperator':
            ops = getdom(T('op', N))
            names = {M.bname(o) for o in ops}
            if names <= (set(REL) | ({'LAnd', 'LOr'} if g.cxx else set())):
                if s.startswith('Insert'):
                    return True
                if s in ('True', 'False') and all(CONST_REDUNDANT[o] == s for o in names):
                    return True
        if g.cxx and s.startswith('Insert') and logical_argument(p):
            return True
        if s == 'InsertLNot' and is_const(N):
            return True         # 0 or 1, which are offered as constants
    term = G.expected_mutant(g, name)
    n = norm(term, val)
    o = norm(g.original(), val)
    if n == UNDEF or n == o:
        return True
    if n in [norm(G.expected_mutant(g, k), val) for k in kept]:
        return True
    if g.kind in ('bin', 'un') and n[0] == 'c' and n[1] in (0, 1, -1):
        return True             # offered as a constant for the expression as a whole
    if g.kind == 'expr' and n[0] == 'c' and n[1] == 0 and tc(N, cf) <= frozenset(['bool']):
        return n == o
    return False


def check(g, gopt, cf, p):
    out = []
    names = G.action_names(g)
    A = [names.get(i.get('action', 0), '?') for i in g.inst]
    B = [names.get(i.get('action', 0), '?') for i in gopt.inst]
    want = full(g, cf) if g.kind != 'expr' else full_expr(g, cf)
    sa = {short(x) for x in A}
    ground = 0
    if want is not None:
        ground = len(want)
        for m in sorted(want - sa):
            out.append((g.line(), 'without optimisations the mutant %s of %s is not offered' % (m, g.opname or 'the expression')))
    elif g.kind == 'expr' and cf.vk == 'lv':
        if sa not in (set(), {'InsertPreInc', 'InsertPreDec'}):
            out.append((g.line(), 'without optimisations an l-value is offered the mutants %s only' % sorted(sa)))
        if not sa:
            r = lv_reason(p)
            if not r:
                out.append((g.line(), 'a modifiable l-value that is read is offered no mutant'))
    for m in B:
        if m not in A:
            out.append((gopt.line(), 'mutant %s is only offered with optimisations' % m))
    for m in A:
        if m not in B and G.expected_mutant(g, m) is not None and not justified(g, cf, p, m, B):
            out.append((gopt.line(), 'optimisation leaves out mutant %s of %s, which is not redundant' %
                        (m, (g.opname or 'an expression') + where(g, cf))))
    return out, ground + len(A)


def lv_reason(p):
    for t, v in p.log:
        if not isinstance(t, E.Term):
            continue
        if t.f in ('.refersToBitField', '.refersToVectorElement') and v is True:
            return True
        if t.f == 'eqk' and 'getStorageClass' in repr(t) and v is True:
            return True
        if t.f.startswith('F:') and 'PassByReference' in t.f:
            return True
    c = {k: x[0] for k, x in p.cls.items()}
    par = [c.get(T('parent', N, 0)), c.get(T('parent', N, 1))]
    if 'clang::ImplicitCastExpr' not in par:
        return True
    for i in (0, 1):
        q = T('parent', N, i)
        if c.get(q) == 'clang::ImplicitCastExpr' and 'lv' in getdom(T('vk', q)):
            return True
    return False


def where(g, cf):
    if g.kind == 'bin':
        return ' (lhs %s, rhs %s)' % tuple('/'.join(sorted(getdom(T('vc', T(x, N))))) for x in ('.getLHS', '.getRHS'))
    return ' (%s)' % '/'.join(sorted(getdom(T('vc', T('.getSubExpr', N) if g.kind == 'un' else N))))
