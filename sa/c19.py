"""Typing of what the mutator functions evaluate."""
import emit
import gencheck as G
from engine import T, Term, getdom, add
import engine as E

INT_OPS = {'%', '<<', '>>', '&', '|', '^', '%=', '<<=', '>>=', '&=', '|=', '^='}
FLOAT = frozenset(['float'])


def operand_node(g, term):
    if term == ('L',):
        return T('.getLHS', G.NODE)
    if term == ('R',):
        return T('.getRHS', G.NODE)
    if term == ('E',):
        return T('.getSubExpr', G.NODE) if g.kind == 'un' else G.NODE
    return None


def tclass(g, v):
    """possible type classes of a value."""
    k = v[0]
    if k in ('L', 'R', 'E'):
        return getdom(T('tc', g.config.tkey(T('ty', operand_node(g, v)))))
    if k in ('tmp',):
        return tclass(g, v[1])
    if k == 'conv':
        b = v[1].base
        if isinstance(b, Term):
            key = g.tkey(b)
            return getdom(T('tc', key)) if isinstance(key, Term) else frozenset()
        return {('bool',): frozenset(['bool']), ('int',): frozenset(['sint'])}.get(b, frozenset())
    if k == 'c':
        return FLOAT if isinstance(v[1], float) else frozenset(['sint'])
    if k == 'b':
        if v[1] in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'):
            return frozenset(['bool'])
        if v[1] in emit.Parser.ASSIGN:
            return tclass(g, v[2])
        a, b = tclass(g, v[2]), tclass(g, v[3])
        return FLOAT if FLOAT in (a, b) else (a | b)
    if k == 'u' and v[1] == '!':
        return frozenset(['bool'])
    if k in ('u', 'p'):
        return tclass(g, v[2])
    return frozenset()


def is_object(g, v):
    """is the value an l-value of the program or an l-value expression?"""
    k = v[0]
    if k in ('L', 'R', 'E'):
        return getdom(T('vk', operand_node(g, v))) <= frozenset(['lv'])
    if k == 'b' and v[1] in emit.Parser.ASSIGN or k == 'u' and v[1] in ('++', '--'):
        return g.cxx and is_object(g, v[2])
    if k == 'b' and v[1] == ',':
        return g.cxx and is_object(g, v[3])
    return False


def walk(g, v, out, what):
    k = v[0]
    if k in ('tmp',):
        walk(g, v[1], out, what)
    elif k == 'conv':
        walk(g, v[2], out, what)
    elif k == 'b':
        op = v[1]
        if op in INT_OPS:
            for x in v[2:4]:
                if tclass(g, x) & FLOAT:
                    out.append((g.line(), '%s: integer operator %s is applied to an operand that can have '
                                'floating-point type' % (what, op)))
                    break
        if op in emit.Parser.ASSIGN and not is_object(g, v[2]):
            out.append((g.line(), '%s: the left-hand side of %s is not an l-value' % (what, op)))
        walk(g, v[2], out, what)
        walk(g, v[3], out, what)
    elif k in ('u', 'p'):
        op = v[1]
        if op == '~' and tclass(g, v[2]) & FLOAT:
            out.append((g.line(), '%s: ~ is applied to an operand that can have floating-point type' % what))
        if op in ('++', '--'):
            if not is_object(g, v[2]):
                out.append((g.line(), '%s: %s is applied to something that is not an l-value' % (what, op)))
            elif g.cxx and 'bool' in tclass(g, v[2]) and not (g.opname in ('PreInc', 'PostInc') and op == '++'):
                out.append((g.line(), '%s: %s can be applied to a bool' % (what, op)))
            elif const_of(g, v[2]) is not False:
                out.append((g.line(), '%s: %s can be applied to a const l-value' % (what, op)))
        walk(g, v[2], out, what)


def root(v):
    while v[0] in ('tmp', 'conv', 'b', 'u', 'p'):
        v = v[2] if v[0] in ('conv', 'b', 'u', 'p') else v[1]
    return v


def qual(g, q, v):
    n = operand_node(g, root(v))
    if n is None:
        return False
    t = T(q, T('ty', n))
    while True:
        d = E.known(t)
        if d is None:
            d = E.C.config.theory(t)
            if isinstance(d, Term):
                t = d
                continue
        return d


def const_of(g, v):
    return qual(g, 'const', v)


def check(g):
    out = []
    if g.err:
        return out, 0
    n = 0
    for on in [None, 'other'] + [add(G.LOCAL, k) for k in range(len(g.inst))]:
        what = 'no mutant' if on is None else 'no mutant of the group' if on == 'other' else \
            'mutant %s' % G.action_names(g).get(g.inst[idx(on)].get('action', 0), '?')
        try:
            m = g.machine(on)
        except emit.Malformed:
            continue
        n += 1
        walk(g, m.value, out, what)
        for d, name, ty, v in m.binds:
            n += 1
            if v[0] == 'lam':
                if not ty.suf.startswith('&'):
                    continue
                x = lam_object(m, v)
                if x is None:
                    continue
            elif v[0] == 'addr':
                x = v[1]
            else:
                x = v
            if not is_object(g, x):
                out.append((g.line(), 'parameter %s (%r) of %s is bound to something that is not an l-value' %
                            (name, ty, G.emit.show_name(d.name))))
                continue
            quals(g, x, ty, out, 'parameter %s of %s' % (name, emit.show_name(d.name)))
        for d, r in m.returns:
            if d.ret.suf == '&':
                n += 1
                if not is_object(g, r):
                    out.append((g.line(), '%s: %s returns a reference to something that is not an l-value' %
                                (what, emit.show_name(d.name))))
                else:
                    quals(g, r, d.ret, out, 'result of %s' % emit.show_name(d.name))
    return out, n


def idx(on):
    for k in range(64):
        if add(G.LOCAL, k) == on:
            return k
    return 0


def lam_object(m, v):
    body = v[2]
    ev, rec = list(m.events), list(m.records)
    try:
        x = m.ev(body, v[3])
    except emit.Unreadable:
        x = None
    m.events, m.records = ev, rec
    return x


def quals(g, x, ty, out, what):
    vol = qual(g, 'volatile', x)
    if vol is not False and 'volatile' not in ty.quals:
        out.append((g.line(), '%s is a reference or pointer to non-volatile, but the operand can be volatile' % what))
    c = qual(g, 'const', x)
    if c is not False and 'const' not in ty.quals:
        out.append((g.line(), '%s is a reference or pointer to non-const, but the operand can be const' % what))
