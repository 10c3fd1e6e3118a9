"""Text that the generators emit, read as C/C++ code over string templates.

The generators of dredd produce code by string concatenation.  For every
partition the interpreter yields string *templates* (literal text and symbolic
atoms such as the spelling of the type of an operand).  This module tokenises
and parses such templates and gives the emitted code an abstract meaning: the
value it yields, as a term over the original operands, under "no mutant
enabled", "some other mutant enabled" and "mutant k enabled".
"""
import re
from engine import T, Term, TStr, Lin, as_lin, lin, add


class Malformed(Exception):
    pass


class Unreadable(Exception):
    """text outside the fragment of C/C++ that this module reads."""


PUNCT = ['<<=', '>>=', '...', '->', '++', '--', '<<', '>>', '<=', '>=', '==', '!=', '&&', '||', '+=', '-=', '*=',
         '/=', '%=', '&=', '|=', '^=', '::', '(', ')', '{', '}', '[', ']', ';', ',', '<', '>', '+', '-', '*', '/',
         '%', '&', '|', '^', '~', '!', '=', '?', ':', '.', '#']
IDC = re.compile(r'[A-Za-z0-9_]')
NUMRE = re.compile(r'(0[xX][0-9a-fA-F]+|\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+|\d+(?:[eE][-+]?\d+)?)[uUlLfF]*$')


class Tok:
    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        self.k = k
        self.v = v

    def __repr__(self):
        return '%s:%r' % (self.k, self.v)


def operand(name):
    return T('$operand', name)


def tokens(ts):
    """tokens of a template; kinds: id (tuple of parts), num, int (affine atom), type (atom), op, operand, str."""
    out = []
    cur = []          # identifier parts under construction
    state = None      # None | 'line' | 'block' | quote char
    buf = ''

    def flush():
        if cur:
            parts = tuple(cur)
            cur.clear()
            if len(parts) == 1 and isinstance(parts[0], str):
                s = parts[0]
                if s[0].isdigit():
                    if not NUMRE.match(s):
                        raise Malformed('ill-formed number %s' % s)
                    out.append(Tok('num', s))
                else:
                    out.append(Tok('id', s))
            elif len(parts) == 1 and isinstance(parts[0], Term) and parts[0].f in ('tname', 'tstring'):
                out.append(Tok('type', parts[0]))
            elif any(isinstance(x, Term) and x.f.startswith(('.', 'F:', 'C:', 'call')) for x in parts):
                raise Unreadable('text that is not known: %r' % (parts,))
            elif len(parts) == 1 and not isinstance(parts[0], str) and is_int_atom(parts[0]):
                out.append(Tok('int', parts[0]))
            elif any(isinstance(x, Term) and x.f == '$operand' for x in parts):
                raise Malformed('text is joined to the operand: %s' % ''.join(
                    x if isinstance(x, str) else '<%r>' % (x,) for x in parts))
            else:
                out.append(Tok('id', parts))

    for part in ts.p:
        if not isinstance(part, str):
            if state in ('line', 'block') or state in ('"', "'"):
                if state in ('"', "'"):
                    buf += '\u27e8%r\u27e9' % (part,)
                continue
            if isinstance(part, Term) and part.f == '$operand':
                if cur:
                    cur.append(part)
                    flush()
                out.append(Tok('operand', part.a[0]))
                continue
            cur.append(part)
            continue
        i = 0
        n = len(part)
        while i < n:
            ch = part[i]
            if state == 'line':
                if ch == '\n':
                    state = None
                i += 1
                continue
            if state == 'block':
                if part.startswith('*/', i):
                    state = None
                    i += 2
                else:
                    i += 1
                continue
            if state in ('"', "'"):
                if ch == '\\':
                    buf += part[i:i + 2]
                    i += 2
                    continue
                if ch == state:
                    out.append(Tok('str', buf))
                    state = None
                    i += 1
                    continue
                buf += ch
                i += 1
                continue
            if IDC.match(ch):
                if not cur and out and out[-1].k == 'operand' and i == 0:
                    raise Malformed('text is joined to the operand: ...%s' % part[:20])
                j = i
                while j < n and (IDC.match(part[j]) or (part[j] == '.' and cur == [] and part[i].isdigit())):
                    j += 1
                if cur and isinstance(cur[-1], str):
                    cur[-1] += part[i:j]
                else:
                    cur.append(part[i:j])
                i = j
                continue
            flush()
            if ch.isspace():
                i += 1
                continue
            if part.startswith('//', i):
                state = 'line'
                i += 2
                continue
            if part.startswith('/*', i):
                state = 'block'
                i += 2
                continue
            if ch in '"\'':
                state = ch
                buf = ''
                i += 1
                continue
            for p in PUNCT:
                if part.startswith(p, i):
                    out.append(Tok('op', p))
                    i += len(p)
                    break
            else:
                raise Unreadable('character %r' % ch)
    flush()
    if state == 'block' or state in ('"', "'"):
        raise Malformed('unterminated comment or literal')
    if state == 'line':
        out.append(Tok('opencomment', ''))
    return out


def is_int_atom(p):
    return isinstance(p, Lin) or (isinstance(p, Term) and p.f not in ('replace', 'tname', 'tstring'))


QUALS = {'const', 'volatile', 'restrict', '__restrict'}
TYPEWORDS = {'int', 'unsigned', 'signed', 'long', 'short', 'char', 'bool', '_Bool', 'float', 'double', 'void', 'auto',
             'uint64_t', 'size_t', 'wchar_t', '__int128'}


class Type:
    """base: atom / tuple of words / ('fn', Type); quals on the base; suffix: string of * and &."""
    __slots__ = ('base', 'quals', 'suf')

    def __init__(self, base, quals=frozenset(), suf=''):
        self.base = base
        self.quals = quals
        self.suf = suf

    def key(self):
        b = self.base.key() if isinstance(self.base, Type) else self.base
        return (b, tuple(sorted(self.quals)), self.suf)

    def __eq__(self, o):
        return isinstance(o, Type) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if isinstance(self.base, tuple) and self.base and self.base[0] == 'fn':
            b = 'std::function<%r()>' % (self.base[1],)
        else:
            b = ' '.join(map(str, self.base)) if isinstance(self.base, tuple) else str(self.base)
        return ' '.join(sorted(self.quals) + [b]) + self.suf

    @property
    def fn(self):
        return self.base[1] if isinstance(self.base, tuple) and self.base and self.base[0] == 'fn' else None


class Parser:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else Tok('eof', None)

    def isop(self, v, k=0):
        t = self.peek(k)
        return t.k == 'op' and t.v == v

    def isid(self, v, k=0):
        t = self.peek(k)
        return t.k == 'id' and t.v == v

    def take(self, v):
        if not self.isop(v):
            raise Malformed('expected %r, found %r' % (v, self.peek().v))
        self.i += 1

    def accept(self, v):
        if self.isop(v):
            self.i += 1
            return True
        return False

    # ---- types
    def type_start(self):
        t = self.peek()
        if t.k == 'type':
            return True
        if t.k == 'id' and isinstance(t.v, str) and (t.v in QUALS or t.v in TYPEWORDS):
            return True
        return t.k == 'id' and t.v == 'std' and self.isop('::', 1) and self.isid('function', 2)

    def type(self):
        quals = set()
        words = []
        base = None
        while True:
            t = self.peek()
            if t.k == 'id' and isinstance(t.v, str) and t.v in QUALS:
                quals.add(t.v)
                self.i += 1
            elif t.k == 'type' and base is None and not words:
                base = t.v
                self.i += 1
            elif t.k == 'id' and isinstance(t.v, str) and t.v in TYPEWORDS and base is None:
                words.append(t.v)
                self.i += 1
            elif t.k == 'id' and t.v == 'std' and self.isop('::', 1) and self.isid('function', 2) and base is None:
                self.i += 3
                self.take('<')
                inner = self.type()
                self.take('(')
                self.take(')')
                self.take('>')
                base = ('fn', inner)
            else:
                break
        if base is None:
            if not words:
                raise Malformed('expected a type, found %r' % (self.peek().v,))
            base = tuple(words)
        suf = ''
        while True:
            if self.isop('*') or self.isop('&') or self.isop('&&'):
                suf += self.peek().v
                self.i += 1
                while self.peek().k == 'id' and self.peek().v in QUALS:
                    suf += ' ' + self.peek().v
                    self.i += 1
            else:
                break
        return Type(base, frozenset(quals), suf)

    # ---- expressions
    LEVELS = [['||'], ['&&'], ['|'], ['^'], ['&'], ['==', '!='], ['<', '>', '<=', '>='], ['<<', '>>'],
              ['+', '-'], ['*', '/', '%']]
    ASSIGN = ['=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '|=', '^=']

    def expr(self):
        e = self.assign()
        while self.isop(','):
            self.i += 1
            e = ('b', ',', e, self.assign())
        return e

    def assign(self):
        e = self.cond()
        t = self.peek()
        if t.k == 'op' and t.v in self.ASSIGN:
            self.i += 1
            return ('b', t.v, e, self.assign())
        return e

    def cond(self):
        c = self.binary(0)
        if self.accept('?'):
            a = self.expr()
            self.take(':')
            b = self.cond()
            return ('cond', c, a, b)
        return c

    def binary(self, lv):
        if lv == len(self.LEVELS):
            return self.unary()
        e = self.binary(lv + 1)
        while self.peek().k == 'op' and self.peek().v in self.LEVELS[lv]:
            op = self.peek().v
            self.i += 1
            e = ('b', op, e, self.binary(lv + 1))
        return e

    def unary(self):
        t = self.peek()
        if t.k == 'op' and t.v in ('-', '+', '!', '~', '*', '&', '++', '--'):
            self.i += 1
            return ('u', t.v, self.unary())
        return self.postfix()

    def postfix(self):
        e = self.primary()
        while True:
            if self.accept('('):
                args = []
                if not self.isop(')'):
                    args.append(self.assign())
                    while self.accept(','):
                        args.append(self.assign())
                self.take(')')
                e = ('call', e, args)
            elif self.isop('++') or self.isop('--'):
                e = ('p', self.peek().v, e)
                self.i += 1
            else:
                return e

    def primary(self):
        t = self.peek()
        if t.k == 'operand':
            self.i += 1
            return ('operand', t.v)
        if t.k == 'num':
            self.i += 1
            return ('num', t.v)
        if t.k == 'int':
            self.i += 1
            return ('int', t.v)
        if self.accept('('):
            if self.type_start():
                save = self.i
                try:
                    ty = self.type()
                    if self.isop(')'):
                        self.i += 1
                        return ('ccast', ty, self.unary())
                except Malformed:
                    pass
                self.i = save
            e = self.expr()
            self.take(')')
            return e
        if self.isop('['):
            self.i += 1
            cap = []
            while not self.isop(']'):
                if self.peek().k == 'eof':
                    raise Malformed('unbalanced [')
                cap.append(self.peek().v)
                self.i += 1
            self.take(']')
            if not cap:
                raise Malformed('a function object that captures nothing evaluates an operand')
            if self.accept('('):
                self.take(')')
            if self.isid('mutable'):
                self.i += 1
            ty = None
            if self.accept('->'):
                ty = self.type()
            self.take('{')
            if not self.isid('return'):
                raise Unreadable('lambda body')
            self.i += 1
            e = self.expr()
            self.take(';')
            self.take('}')
            return ('lam', ty, e, cap[0] != '&')
        if t.k == 'id':
            if t.v == 'static_cast':
                self.i += 1
                self.take('<')
                ty = self.type()
                self.take('>')
                self.take('(')
                e = self.expr()
                self.take(')')
                return ('scast', ty, e)
            if t.v == 'std' and self.isop('::', 1):
                self.i += 3
                return ('id', ('std', self.t[self.i - 1].v))
            self.i += 1
            return ('id', t.v)
        if t.k == 'type':
            self.i += 1
            if self.accept('('):
                e = self.expr()
                self.take(')')
                return ('ccast', Type(t.v), e)
            raise Malformed('type %r in expression' % (t.v,))
        raise Malformed('unexpected %r in expression' % (t.v,))

    # ---- statements
    def stmt(self):
        if self.accept('{'):
            out = []
            while not self.isop('}'):
                if self.peek().k == 'eof':
                    raise Malformed('unbalanced {')
                out.append(self.stmt())
            self.take('}')
            return ('block', out)
        if self.accept(';'):
            return ('block', [])
        if self.isid('if'):
            self.i += 1
            self.take('(')
            c = self.expr()
            self.take(')')
            a = self.stmt()
            b = None
            if self.isid('else'):
                self.i += 1
                b = self.stmt()
            return ('if', c, a, b)
        if self.isid('return'):
            self.i += 1
            e = None
            if not self.isop(';'):
                e = self.expr()
            self.take(';')
            return ('return', e)
        e = self.expr()
        self.take(';')
        return ('expr', e)

    def definition(self):
        specs = []
        while self.peek().k == 'id' and self.peek().v in ('static', 'inline', 'constexpr', 'extern'):
            specs.append(self.peek().v)
            self.i += 1
        ret = self.type()
        t = self.peek()
        if t.k != 'id':
            raise Malformed('expected a function name, found %r' % (t.v,))
        self.i += 1
        self.take('(')
        params = []
        while not self.isop(')'):
            if params:
                self.take(',')
            ty = self.type()
            n = self.peek()
            if n.k != 'id':
                raise Malformed('expected a parameter name, found %r' % (n.v,))
            self.i += 1
            params.append((ty, n.v))
        self.take(')')
        body = self.stmt()
        return Def(specs, ret, t.v, params, body)


class Def:
    def __init__(self, specs, ret, name, params, body):
        self.specs = specs
        self.ret = ret
        self.name = name
        self.params = params
        self.body = body


_defcache = {}


def parse_definitions(ts):
    r = _defcache.get(ts)
    if r is None:
        try:
            p = Parser(tokens(ts))
            r = []
            while p.peek().k != 'eof':
                r.append(p.definition())
        except (Malformed, Unreadable) as e:
            r = e
        if len(_defcache) < 20000:
            _defcache[ts] = r
    if isinstance(r, Exception):
        raise r
    return r


def parse_expression(ts):
    p = Parser(tokens(ts))
    e = p.expr()
    if p.peek().k != 'eof':
        raise Malformed('trailing text %r' % (p.peek().v,))
    return e


# ---------------------------------------------------------------- meaning
class Mode:
    """which mutant is enabled: None (no mutant), 'other', or an affine id."""

    def __init__(self, on):
        self.on = on


class Machine:
    """Abstract evaluation of an emitted expression.

    Values: terms ('L',) ('R',) ('E',), ('c', number), ('b', op, x, y), ('u', op, x), ('p', op, x);
    ('tmp', x) marks a value that is a copy, not the object x itself."""

    def __init__(self, defs, on, names, sameparam=None):
        self.defs = defs          # name -> Def
        self.on = on
        self.names = names        # roles: some / enabled / record
        self.events = []
        self.records = []
        self.binds = []
        self.copies = []
        self.returns = []
        self.guards = ()
        self.problems = []
        self.called = set()
        self.depth = 0
        self.ty_same = sameparam or (lambda a, b: a == b)

    def truth(self, v):
        if v[0] == 'bool':
            return v[1]
        if v[0] == 'c':
            return v[1] != 0
        raise Unreadable('branch on %r' % (v,))

    def ev(self, e, env):
        k = e[0]
        if k == 'operand':
            self.events.append((e[1], self.guards))
            return (e[1],)
        if k == 'num':
            return ('c', num(e[1]))
        if k == 'int':
            return ('n', e[1])
        if k == 'id':
            v = e[1]
            if v in env:
                return env[v]
            if v == self.names['some']:
                return ('bool', self.on is not None)
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v in self.defs:
                return ('fun', v)
            if isinstance(v, str) and v.startswith('__dredd'):
                raise Malformed('%s is used but not declared here' % v)
            raise Unreadable('name %r' % (v,))
        if k == 'lam':
            if e[3]:
                self.copies.append(e[2])
            return ('lam', e[1], e[2], env)
        if k == 'scast' or k == 'ccast':
            v = self.ev(e[2], env)
            return self.convert(v, e[1])
        if k == 'call':
            return self.call(e, env)
        if k == 'u':
            op = e[1]
            if op == '!':
                v = self.ev(e[2], env)
                if v[0] == 'bool':
                    return ('bool', not v[1])
                return ('u', '!', v)
            if op == '&':
                v = self.ev(e[2], env)
                return ('addr', v)
            if op == '*':
                v = self.ev(e[2], env)
                if v[0] == 'addr':
                    return v[1]
                raise Unreadable('dereference of %r' % (v,))
            v = self.ev(e[2], env)
            if op == '-' and v[0] == 'c':
                return ('c', -v[1])
            if op == '+':
                return ('tmp', v)
            return ('u', op, v)
        if k == 'p':
            return ('p', e[1], self.ev(e[2], env))
        if k == 'cond':
            c = self.ev(e[1], env)
            return self.ev(e[2] if self.truth(c) else e[3], env)
        if k == 'b':
            op = e[1]
            if op in ('&&', '||'):
                a = self.ev(e[2], env)
                if a[0] == 'bool':
                    if a[1] == (op == '||'):
                        return a
                    b = self.ev(e[3], env)
                    return b
                g = self.guards
                self.guards = g + ((op, plain(a)),)
                b = self.ev(e[3], env)
                self.guards = g
                return ('b', op, a, b)
            a = self.ev(e[2], env)
            b = self.ev(e[3], env)
            if a[0] == 'n' or b[0] == 'n':
                x = a[1] if a[0] in ('n', 'c') else None
                y = b[1] if b[0] in ('n', 'c') else None
                if x is not None and y is not None and op in ('+', '-'):
                    return ('n', add(x, y, 1 if op == '+' else -1))
                if x is not None and y is not None and op in ('==', '!='):
                    return ('bool', (x == y) == (op == '=='))
                raise Unreadable('arithmetic on ids')
            if a[0] == 'bool' or b[0] == 'bool':
                raise Unreadable('arithmetic on conditions')
            return ('b', op, a, b)
        raise Unreadable(k)

    def convert(self, v, ty):
        if v[0] in ('lam', 'fun', 'addr', 'n', 'bool'):
            return v
        if ty.suf.startswith('&'):
            return v
        return ('tmp', ('conv', ty, v))

    def call(self, e, env):
        if self.depth > 6:
            raise Unreadable('recursion')
        f = e[1]
        if f[0] == 'id' and f[1] == self.names['enabled']:
            if len(e[2]) != 1:
                raise Malformed('wrong number of arguments of ' + str(f[1]))
            v = self.ev(e[2][0], env)
            if v[0] not in ('n', 'c'):
                raise Unreadable('id of %r' % (v,))
            return ('bool', self.on not in (None, 'other') and v[1] == self.on)
        if f[0] == 'id' and f[1] == self.names['record']:
            a = [self.ev(x, env) for x in e[2]]
            if len(a) != 2:
                raise Malformed('wrong number of arguments of ' + str(f[1]))
            self.records.append((a[0][1] if a[0][0] in ('n', 'c') else None,
                                 a[1][1] if a[1][0] in ('n', 'c') else None, self.guards))
            return ('void',)
        fv = self.ev(f, env)
        if fv[0] == 'lam':
            if e[2]:
                raise Malformed('arguments in the call of an operand')
            self.depth += 1
            v = self.ev(fv[2], fv[3])
            self.depth -= 1
            return v if fv[1] is None or fv[1].suf.startswith('&') else ('tmp', ('conv', fv[1], v))
        if fv[0] == 'fun':
            d = self.defs[fv[1]]
            self.called.add(fv[1])
            if len(d.params) != len(e[2]):
                raise Malformed('%s is called with %d arguments but takes %d' %
                                (show_name(d.name), len(e[2]), len(d.params)))
            env2 = {}
            for (ty, n), a in zip(d.params, e[2]):
                v = self.ev(a, env)
                if n in env2:
                    raise Malformed('two parameters named %s' % (n,))
                env2[n] = self.bind(d, ty, n, v)
            self.depth += 1
            r = self.run(d.body, env2)
            self.depth -= 1
            if r is None:
                raise Malformed('%s does not return a value' % show_name(d.name))
            if r[0] in ('lam', 'fun', 'addr'):
                raise Malformed('%s returns its argument object, not a value' % show_name(d.name))
            self.returns.append((d, r))
            r = r if d.ret.suf == '&' else ('tmp', ('conv', d.ret, r))
            return r
        raise Malformed('call of something that is not a function: %r' % (f,))

    def bind(self, d, ty, n, v):
        if ty.fn is not None and v[0] == 'lam' and v[2][0] != 'void':
            self.binds.append((d, n, ty.fn, v))
        elif ty.suf:
            self.binds.append((d, n, ty, v))
        if ty.fn is not None:
            if v[0] != 'lam':
                # a value converts to std::function only if it is callable
                raise Malformed('%s: parameter %s is a function object but the argument is not callable' %
                                (show_name(d.name), n))
            if v[1] is not None and not self.ty_same(v[1], ty.fn):
                self.problems.append('%s: operand of type %r is passed as %r' % (show_name(d.name), v[1], ty.fn))
            if (v[1] is not None) and ty.fn.suf.startswith('&') != v[1].suf.startswith('&'):
                raise Malformed('%s: parameter %s yields %r but the argument yields %r' %
                                (show_name(d.name), n, ty.fn, v[1]))
            return v
        if v[0] == 'lam':
            raise Malformed('%s: the argument for parameter %s is a function object but the parameter is %r' %
                            (show_name(d.name), n, ty))
        if v[0] == 'addr':
            if not ty.suf.startswith('*'):
                raise Malformed('%s: the argument for parameter %s is an address but the parameter is %r' %
                                (show_name(d.name), n, ty))
            return v
        if ty.suf.startswith('*'):
            raise Malformed('%s: parameter %s is a pointer but the argument is not an address' %
                            (show_name(d.name), n))
        if v[0] in ('n', 'bool'):
            return v
        if ty.suf.startswith('&'):
            return v
        return ('tmp', ('conv', ty, v))

    def run(self, s, env):
        k = s[0]
        if k == 'block':
            for x in s[1]:
                r = self.run(x, env)
                if r is not None:
                    return r
            return None
        if k == 'if':
            c = self.ev(s[1], env)
            if self.truth(c):
                return self.run(s[2], env)
            return self.run(s[3], env) if s[3] else None
        if k == 'return':
            if s[1] is None:
                raise Malformed('return without a value')
            return self.ev(s[1], env)
        if k == 'expr':
            v = self.ev(s[1], env)
            if v[0] not in ('void',):
                self.side = getattr(self, 'side', []) + [v]
            return None
        raise Unreadable(k)


def show_name(n):
    if isinstance(n, tuple):
        return ''.join(x if isinstance(x, str) else '<%r>' % (x,) for x in n)
    return str(n)


def num(s):
    s = s.rstrip('uUlLfF') if not s.lower().startswith('0x') else s.rstrip('uUlL')
    try:
        return int(s, 0)
    except ValueError:
        return float(s)


def plain(v, types=None):
    """value structure without conversion marks; object-ness is kept below assignments and ++/--."""
    k = v[0]
    if k == 'tmp':
        return plain(v[1], types)
    if k == 'conv':
        if types is not None:
            types.append((v[1], plain(v[2])))
        return plain(v[2], types)
    if k == 'b':
        a = v[2]
        if v[1] in Parser.ASSIGN and is_tmp(a):
            return ('b', v[1], ('copy', plain(a, types)), plain(v[3], types))
        return ('b', v[1], plain(a, types), plain(v[3], types))
    if k in ('u', 'p'):
        if v[1] in ('++', '--') and is_tmp(v[2]):
            return (k, v[1], ('copy', plain(v[2], types)))
        return (k, v[1], plain(v[2], types))
    return v


def is_tmp(v):
    return v[0] in ('tmp', 'conv', 'c', 'b', 'u', 'p') and not (
        v[0] == 'b' and v[1] in Parser.ASSIGN or v[0] == 'u' and v[1] in ('++', '--'))


def truth_table(v):
    """for terms over && || ! and constants: {(l, r): (value, r evaluated, l evaluated)}; None otherwise."""
    ops = set()

    def walk(x):
        if x[0] in ('L', 'R', 'E'):
            return True
        if x[0] == 'c':
            return True
        if x[0] == 'b':
            ops.add(x[1])
            return x[1] in ('&&', '||') and walk(x[2]) and walk(x[3])
        if x[0] == 'u':
            return x[1] == '!' and walk(x[2])
        return False
    if not walk(v):
        return None
    res = {}
    for l in (0, 1):
        for r in (0, 1):
            seen = set()

            def run(x):
                if x[0] in ('L', 'E'):
                    seen.add('L')
                    return l
                if x[0] == 'R':
                    seen.add('R')
                    return r
                if x[0] == 'c':
                    return int(x[1] != 0)
                if x[0] == 'u':
                    return 1 - run(x[2])
                a = run(x[2])
                if (x[1] == '&&') != bool(a):
                    return a
                return run(x[3])
            res[(l, r)] = (run(v), 'R' in seen)
    return res


def same_value(a, b, logical=False):
    if a == b:
        return True
    if a[0] == 'c' and b[0] == 'c':
        return a[1] == b[1]
    if logical:
        x, y = truth_table(a), truth_table(b)
        return x is not None and x == y
    return False


# ---------------------------------------------------------------- layout
def node_of(rng):
    """(node, extended-by tokens) if rng is the main-file range of a node."""
    x = rng
    ext = []
    main = False
    while isinstance(x, Term):
        if x.f in ('ext', 'EXT'):
            ext.append(x.a[1])
            x = x.a[0]
        elif x.f == 'CSR':
            x = x.a[0]
        elif x.f == 'MR':
            main = True
            x = x.a[0]
        elif x.f == '.getSourceRange':
            return x.a[0], main, ext
        else:
            break
    return x, main, ext


def op_location(x):
    """the node whose operator symbol the term denotes."""
    for _ in range(6):
        if not isinstance(x, Term):
            return None
        if x.f == 'SR' and x.a[0] is x.a[1]:
            x = x.a[0]
        elif x.f in ('MR', 'CSR', '.getBegin', '.getEnd'):
            x = x.a[0]
        elif x.f == '.getOperatorLoc':
            return x.a[0]
        else:
            return None
    return None


def layout(effects, kind, n, postfix=False, opstr=None):
    """Assembles the text that the rewriter effects leave in place of node n.

    Returns (template, lines, problems).  The order of insertions at one
    location follows clang::Rewriter: InsertTextBefore goes in front of what
    was inserted there before, InsertTextAfterToken behind it."""
    L, R, S = T('.getLHS', n), T('.getRHS', n), T('.getSubExpr', n)
    if kind == 'bin':
        seq = ['b', 'L', 'Le', 'OP', 'Rb', 'R', 'e']
        pos = {(n, 'b'): 'b', (L, 'b'): 'b', (L, 'e'): 'Le', (R, 'b'): 'Rb', (R, 'e'): 'e', (n, 'e'): 'e'}
    elif kind == 'un' and postfix:
        seq = ['b', 'E', 'Ee', 'OP', 'e']
        pos = {(n, 'b'): 'b', (S, 'b'): 'b', (S, 'e'): 'Ee', (n, 'e'): 'e'}
    elif kind == 'un':
        seq = ['b', 'OP', 'Eb', 'E', 'e']
        pos = {(n, 'b'): 'b', (S, 'b'): 'Eb', (S, 'e'): 'e', (n, 'e'): 'e'}
    else:
        seq = ['b', 'E', 'e']
        pos = {(n, 'b'): 'b', (n, 'e'): 'e'}
    text = {k: [] for k in seq}
    rep = None
    probs = []
    lines = []
    exts = []
    for e in effects:
        if e[0] != 'rw':
            continue
        op, loc, line = e[1], e[2], e[-1]
        txt = e[-2]
        lines.append(line)
        if op in ('InsertTextBefore', 'InsertText', 'InsertTextAfter', 'InsertTextAfterToken'):
            if op == 'InsertText' and len(e) > 5:
                raise Unreadable('InsertText with options')
            if not (isinstance(loc, Term) and loc.f in ('.getBegin', '.getEnd')):
                probs.append((line, '%s at %r, which is not an end of the range of the mutated construct' % (op, loc)))
                continue
            nd, main, ext = node_of(loc.a[0])
            end = 'b' if loc.f == '.getBegin' else 'e'
            p = pos.get((nd, end))
            if p is None:
                probs.append((line, '%s at %r, which is not an end of the mutated construct' % (op, loc)))
                continue
            if not main:
                probs.append((line, '%s at %r, which need not be in the main file' % (op, loc)))
            if end == 'e':
                exts = ext
            if end == 'b' and op == 'InsertTextBefore':
                text[p].insert(0, txt)
            elif end == 'b' and op in ('InsertText', 'InsertTextAfter'):
                text[p].append(txt)
            elif end == 'e' and op == 'InsertTextAfterToken':
                text[p].append(txt)
            else:
                probs.append((line, '%s at the %s of the construct puts the text inside it' %
                              (op, 'start' if end == 'b' else 'end')))
        elif op == 'ReplaceText':
            if kind not in ('bin', 'un'):
                probs.append((line, 'text of the construct is replaced: %r' % (loc,)))
                continue
            if op_location(loc) is not n:
                probs.append((line, 'the replaced text %r is not the operator symbol' % (loc,)))
            if rep is not None:
                probs.append((line, 'the operator symbol is replaced twice'))
            if len(e) <= 5:
                probs.append((line, 'the extent of the replaced text includes text that has already been inserted '
                              'at its ends (range overload of ReplaceText)'))
            elif not covers_symbol(e[3], n):
                probs.append((line, 'the replaced text has length %r, which need not be the length of the '
                              'operator symbol' % (e[3],)))
            rep = (loc, txt, line)
        else:
            probs.append((line, 'unexpected rewriter operation %s' % op))
    out = []
    for p in seq:
        if p in ('L', 'R', 'E'):
            out.append(operand(p))
        elif p == 'OP':
            if rep is not None:
                out.extend(rep[1].p)
            elif opstr:
                out.append(' ' + opstr + ' ')
        else:
            for x in text[p]:
                out.extend(x.p)
    parts = []
    for x in out:
        if isinstance(x, str) and parts and isinstance(parts[-1], str):
            parts[-1] += x
        else:
            parts.append(x)
    return TStr(tuple(parts)), lines, probs, exts


def covers_symbol(length, n):
    return 'MeasureTokenLength' in repr(length)
