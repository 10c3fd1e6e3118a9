"""Abstract interpretation of a Python script over symbolic numbers and texts.

Numbers are linear terms over symbols, texts are sequences of literal pieces and symbolic pieces (lines of a file, slices of
them, repetitions).  Conditions that the symbols do not decide are partitioned on.  Nothing of the script is executed by Python:
its syntax tree is interpreted here; constants are folded with the semantics of the Python library.
"""
import argparse
import ast
import os
import re
from pathlib import Path


class Unsupported(Exception):
    pass


class PyError(Exception):
    """an exception the script would end with."""

    def __init__(self, kind, msg, line):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind, self.msg, self.line = kind, msg, line


class Exit(Exception):
    def __init__(self, code):
        Exception.__init__(self)
        self.code = code


class _Ret(Exception):
    def __init__(self, v):
        Exception.__init__(self)
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class Lin:
    __slots__ = ('c', 'k')

    def __init__(self, c, k=0):
        self.c = tuple(sorted((s, n) for s, n in dict(c).items() if n))
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.k == o.k

    def __hash__(self):
        return hash((self.c, self.k))

    def __repr__(self):
        s = '+'.join(n if k == 1 else '%d*%s' % (k, n) for n, k in self.c)
        return s + ('%+d' % self.k if self.k else '')


def sym(n):
    return Lin({n: 1})


def lin(x):
    return x if isinstance(x, Lin) else Lin({}, x)


def norm(x):
    return x.k if isinstance(x, Lin) and not x.c else x


def add(a, b, f=1):
    a, b = lin(a), lin(b)
    c = dict(a.c)
    for s, n in b.c:
        c[s] = c.get(s, 0) + f * n
    return norm(Lin(c, a.k + f * b.k))


class Txt:
    """a text: literals (str) and symbolic pieces (tuples)."""
    __slots__ = ('p', 'by')

    def __init__(self, p, by=False):
        out = []
        for x in p:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != '':
                out.append(x)
        self.p = tuple(out)
        self.by = by        # a bytes object

    def __eq__(self, o):
        return isinstance(o, Txt) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return ''.join(x if isinstance(x, str) else '<%s>' % show(x) for x in self.p)


def show(x):
    if x[0] == 'line':
        return 'line %r of %s' % (x[2], x[1])
    if x[0] == 'slice':
        return 'line %r of %s, [%s:%s] in %s' % (x[2], x[1], '' if x[3] is None else repr(x[3]), '' if x[4] is None else repr(x[4]), x[5])
    return ' '.join(str(y) for y in x)


def txt(v):
    if isinstance(v, Txt):
        return v
    if isinstance(v, str):
        return Txt([v])
    if isinstance(v, bytes):
        return Txt([v.decode('latin-1')], True)
    if isinstance(v, Lin):
        return Txt([('num', v)])
    if isinstance(v, (int, float, bool)) or v is None or isinstance(v, Path):
        return Txt([str(v)])
    raise Unsupported('text of %r' % (v,))


def simp(t):
    if isinstance(t, Txt) and all(isinstance(x, str) for x in t.p):
        s = ''.join(t.p)
        return s.encode('latin-1') if t.by else s
    return t


class Lines:
    """the lines of a file."""

    def __init__(self, f, unit, by):
        self.f, self.unit, self.by = f, unit, by

    def at(self, i):
        return Txt([('line', self.f, i, self.unit)], self.by)


class File:
    def __init__(self, name, unit, by, mode):
        self.name, self.unit, self.by, self.mode = name, unit, by, mode


class Obj:
    def __init__(self, cls, f):
        self.cls, self.f = cls, f


class Cls:
    def __init__(self, name, fields, methods, defaults):
        self.name, self.fields, self.methods, self.defaults = name, fields, methods, defaults


class Fn:
    def __init__(self, node, env):
        self.node, self.env = node, env


class Bound:
    def __init__(self, o, n):
        self.o, self.n = o, n


class Mod:
    def __init__(self, n):
        self.n = n


class Match:
    def __init__(self, pat, t):
        self.pat, self.t = pat, t


class Range:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


MISSING = object()
SAFE_STR = ('startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'split', 'replace', 'lower', 'upper', 'join', 'format', 'find', 'title',
            'removeprefix', 'removesuffix', 'partition', 'rpartition', 'isdigit', 'isalnum', 'count', 'splitlines', 'index', 'rfind', 'isspace',
            'capitalize', 'encode', 'decode', 'isidentifier')


class Interp:
    def __init__(self, tree, scen, choices):
        self.tree, self.scen = tree, scen
        self.choices, self.pos = choices, 0
        self.taken = []
        self.out = []       # (line, Txt)
        self.matches = []   # (pattern, flags, result)
        self.opened = []
        self.lower = scen.get('lower', {})
        self.steps = 0
        self.cur = 0
        self.depth = 0
        self.glob = {'__name__': '__main__'}

    # ---------------------------------------------------------------- decisions
    def decide(self, key, options=(True, False)):
        for k, v in self.taken:
            if k == key:
                return v
        if self.pos < len(self.choices):
            v = self.choices[self.pos]
        else:
            v = options[0]
            self.choices.append(v)
        self.pos += 1
        self.taken.append((key, v))
        return v

    def sign(self, d):
        """-1, 0, 1 for a linear term, partitioning if it is not known."""
        d = norm(d)
        if not isinstance(d, Lin):
            return (d > 0) - (d < 0)
        if all(n > 0 and s in self.lower for s, n in d.c):
            lo = d.k + sum(n * self.lower[s] for s, n in d.c)
            if lo > 0:
                return 1
        if all(n < 0 and s in self.lower for s, n in d.c):
            hi = d.k + sum(n * self.lower[s] for s, n in d.c)
            if hi < 0:
                return -1
        opts = (1, 0, -1)
        if all(n > 0 and s in self.lower for s, n in d.c) and d.k + sum(n * self.lower[s] for s, n in d.c) == 0:
            opts = (1, 0)
        for k, v in self.taken:
            if k == ('sign', d):
                return v
        if self.pos < len(self.choices):
            v = self.choices[self.pos]
        else:
            v = opts[0]
            self.choices.append(v)
        self.pos += 1
        self.taken.append((('sign', d), v))
        return v

    def truth(self, v):
        if isinstance(v, Lin):
            return self.sign(v) != 0
        if isinstance(v, Txt):
            if any(isinstance(x, str) and x for x in v.p):
                return True
            return self.decide(('nonempty', v))
        if isinstance(v, Match):
            for x in v.t.p:
                if isinstance(x, tuple):
                    r = self.decide(('match', v.pat, v.t))
                    self.matches.append((v.pat, v.t, r))
                    return r
            return bool(re.match(v.pat, ''.join(v.t.p)))
        if isinstance(v, (Obj, Fn, Cls, Mod, File)):
            return True
        if isinstance(v, Lines):
            return self.decide(('lines', v.f))
        return bool(v)

    def err(self, kind, msg):
        raise PyError(kind, msg, self.cur)

    # ---------------------------------------------------------------- driver
    def run(self):
        env = self.glob
        for s in self.tree.body:
            self.stmt(s, env)

    def block(self, b, env):
        for s in b:
            self.stmt(s, env)

    def lookup(self, n, env):
        e = env
        while e is not None:
            if n in e:
                return e[n]
            e = e.get('__up__')
        if n in self.glob:
            return self.glob[n]
        if n in BUILTINS:
            return ('builtin', n)
        if n in EXC:
            return ('exc', n)
        self.err('NameError', 'name %s is not defined' % n)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('too many steps')
        self.cur = getattr(s, 'lineno', self.cur)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s, env)

    def s_Import(self, s, env):
        for a in s.names:
            env[a.asname or a.name.split('.')[0]] = Mod(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s, env):
        for a in s.names:
            env[a.asname or a.name] = ('lib', '%s.%s' % (s.module, a.name))

    def s_FunctionDef(self, s, env):
        if s.decorator_list:
            raise Unsupported('decorated function')
        env[s.name] = Fn(s, env if env is not self.glob else None)

    def s_ClassDef(self, s, env):
        fields, methods, defaults = [], {}, {}
        deco = [ast.unparse(d) for d in s.decorator_list]
        for b in s.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                fields.append(b.target.id)
                if b.value is not None:
                    defaults[b.target.id] = b.value
            elif isinstance(b, ast.FunctionDef) and not b.decorator_list:
                methods[b.name] = b
            elif isinstance(b, ast.Assign) and all(isinstance(t, ast.Name) for t in b.targets):
                for t in b.targets:
                    defaults[t.id] = b.value
            elif isinstance(b, (ast.Expr, ast.Pass)):
                pass
            else:
                raise Unsupported('class body')
        named = any('NamedTuple' in ast.unparse(b) for b in s.bases)
        enum = any('Enum' in ast.unparse(b) for b in s.bases)
        if enum or (s.bases and not named):
            raise Unsupported('base classes')
        if not any('dataclass' in d for d in deco) and not named and '__init__' not in methods and fields:
            fields = []
        env[s.name] = Cls(s.name, fields, methods, defaults)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Break(self, s, env):
        raise _Brk()

    def s_Continue(self, s, env):
        raise _Cont()

    def s_Return(self, s, env):
        raise _Ret(self.ev(s.value, env) if s.value is not None else None)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        if isinstance(s.target, ast.Name):
            a = self.lookup(s.target.id, env)
        elif isinstance(s.target, ast.Subscript):
            a = self.subscript(self.ev(s.target.value, env), self.ev(s.target.slice, env))
        elif isinstance(s.target, ast.Attribute):
            a = self.attr(self.ev(s.target.value, env), s.target.attr)
        else:
            raise Unsupported('augmented assignment')
        b = self.ev(s.value, env)
        if isinstance(a, list) and isinstance(s.op, ast.Add):
            a.extend(self.items(b))
            return
        self.assign(s.target, self.binop(s.op, a, b), env)

    def s_Delete(self, s, env):
        raise Unsupported('del')

    def s_Global(self, s, env):
        raise Unsupported('global')

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.pattern(c.pattern, v, env) and (c.guard is None or self.truth(self.ev(c.guard, env))):
                self.block(c.body, env)
                return

    def pattern(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, env):
                return False
            if p.name:
                env[p.name] = v
            return True
        raise Unsupported('pattern')

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.cur = s.lineno
            self.err('AssertionError', ast.unparse(s.test))

    def s_Raise(self, s, env):
        e = self.ev(s.exc, env) if s.exc is not None else ('exc', 'Exception')
        if isinstance(e, Obj) and e.cls == 'exception':
            if e.f['kind'] == 'SystemExit':
                raise Exit(e.f['args'][0] if e.f['args'] else 0)
            self.err(e.f['kind'], str(e.f['args']))
        if isinstance(e, tuple) and e[0] == 'exc':
            self.err(e[1], '')
        raise Unsupported('raise')

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyError as x:
                for h in s.handlers:
                    names = []
                    if h.type is not None:
                        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        names = [ast.unparse(t) for t in ts]
                    if h.type is None or x.kind in names or 'Exception' in names or \
                            ('LookupError' in names and x.kind in ('KeyError', 'IndexError')):
                        if h.name:
                            env[h.name] = x.msg
                        self.block(h.body, env)
                        return
                raise
            self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)

    def s_With(self, s, env):
        for i in s.items:
            v = self.ev(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env)
        self.block(s.body, env)

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        if isinstance(it, File):
            it = self.lines(it)
        if isinstance(it, Lines) and isinstance(s.target, ast.Name) and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and not s.orelse:
            c = s.body[0].value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and \
                    isinstance(c.func.value, ast.Name) and self.lookup(c.func.value.id, env) == [] and len(c.args) == 1:
                env[c.func.value.id] = self.map_lines(it, s.target.id, c.args[0], env)
                return
        brk = False
        for v in self.items(it):
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except _Cont:
                continue
            except _Brk:
                brk = True
                break
        if not brk:
            self.block(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        brk = False
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 64:
                raise Unsupported('unbounded loop')
            try:
                self.block(s.body, env)
            except _Cont:
                continue
            except _Brk:
                brk = True
                break
        if not brk:
            self.block(s.orelse, env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.items(v)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                i = next(i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred))
                n = len(vs) - len(t.elts) + 1
                if n < 0:
                    self.err('ValueError', 'not enough values to unpack')
                vs = vs[:i] + [vs[i:i + n]] + vs[i + n:]
            if len(vs) != len(t.elts):
                self.err('ValueError', 'wrong number of values to unpack')
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, env), self.ev(t.slice, env)
            if isinstance(o, (dict, list)) and isinstance(i, (int, str, tuple)):
                o[i] = v
            else:
                raise Unsupported('assignment to an element')
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if not isinstance(o, Obj):
                raise Unsupported('assignment to an attribute')
            o.f[t.attr] = v
        else:
            raise Unsupported('assignment target')

    def items(self, v):
        if isinstance(v, (list, tuple, set, frozenset)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, (str, bytes)):
            return list(v)
        if isinstance(v, Range):
            n = norm(add(v.b, v.a, -1))
            if isinstance(n, Lin):
                raise Unsupported('range of unknown length')
            if v.s not in (1, -1):
                raise Unsupported('range step')
            n = max(0, n * v.s)
            return [add(v.a, i * v.s) for i in range(n)]
        if isinstance(v, Obj) and v.cls == 'iter':
            r = v.f['items'][v.f['pos']:]
            v.f['pos'] = len(v.f['items'])
            return r
        if isinstance(v, Obj) and v.cls in self.glob and isinstance(self.glob[v.cls], Cls):
            return list(v.f.values())
        if isinstance(v, (Lines, File)):
            raise Unsupported('iteration over all lines of a file')
        raise Unsupported('iteration over %s' % type(v).__name__)

    # ---------------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        if hasattr(e, 'lineno'):
            self.cur = e.lineno
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Set(self, e, env):
        return set(self.elts(e.elts, env))

    def elts(self, xs, env):
        r = []
        for x in xs:
            if isinstance(x, ast.Starred):
                r += self.items(self.ev(x.value, env))
            else:
                r.append(self.ev(x, env))
        return r

    def e_Dict(self, e, env):
        r = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                r.update(self.ev(v, env))
            else:
                r[self.key(self.ev(k, env))] = self.ev(v, env)
        return r

    def key(self, k):
        try:
            hash(k)
        except TypeError:
            self.err('TypeError', 'unhashable')
        return k

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Lambda(self, e, env):
        return Fn(e, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, env)
            if self.truth(v) != isand:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return add(0, v, -1)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        num = lambda x: isinstance(x, (int, Lin)) and not isinstance(x, bool)
        if num(a) and num(b):
            if isinstance(op, ast.Add):
                return add(a, b)
            if isinstance(op, ast.Sub):
                return add(a, b, -1)
            if isinstance(op, ast.Mult):
                if isinstance(a, int) or isinstance(b, int):
                    k, l = (a, lin(b)) if isinstance(a, int) else (b, lin(a))
                    return norm(Lin({s: n * k for s, n in l.c}, l.k * k))
            elif isinstance(a, int) and isinstance(b, int):
                f = {ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b}.get(type(op))
                if f and b:
                    return f()
            raise Unsupported('arithmetic')
        st = lambda x: isinstance(x, (str, Txt, bytes))
        if isinstance(op, ast.Add):
            if st(a) and st(b):
                ta, tb = txt(a), txt(b)
                if ta.by != tb.by:
                    self.err('TypeError', 'str and bytes concatenated')
                return simp(Txt(ta.p + tb.p, ta.by))
            if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if st(a) or st(b):
                self.err('TypeError', 'text and %s concatenated' % type(b if st(a) else a).__name__)
        if isinstance(op, ast.Mult) and (st(a) or st(b)):
            s, n = (a, b) if st(a) else (b, a)
            if isinstance(n, int) and not isinstance(s, Txt):
                return s * n
            if isinstance(n, Lin):
                return Txt([('rep', simp(txt(s)) if isinstance(s, str) else repr(s), n)], isinstance(s, bytes))
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return self.percent(a, b)
        if isinstance(op, ast.Div) and isinstance(a, Path) and isinstance(b, (str, Path)):
            return a / b
        if isinstance(op, ast.BitOr) and isinstance(a, dict) and isinstance(b, dict):
            return {**a, **b}
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return a | b if isinstance(op, ast.BitOr) else a & b if isinstance(op, ast.BitAnd) else a - b
        raise Unsupported('operator %s' % type(op).__name__)

    def percent(self, f, b):
        args = list(b) if isinstance(b, tuple) else [b]
        out = []
        i = 0
        for m in re.finditer(r'%[sdr%]|[^%]+|%', f):
            g = m.group()
            if g in ('%s', '%d'):
                if i >= len(args):
                    self.err('TypeError', 'not enough arguments for format string')
                out += txt(args[i]).p
                i += 1
            elif g == '%%':
                out.append('%')
            elif g[0] == '%':
                raise Unsupported('format')
            else:
                out.append(g)
        return simp(Txt(out))

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    raise Unsupported('format specification')
                x = self.ev(v.value, env)
                if isinstance(x, (bytes,)) or isinstance(x, Txt) and x.by:
                    out.append("b'...'")
                else:
                    out += txt(x).p
        return simp(Txt(out))

    def e_Compare(self, e, env):
        a = self.ev(e.left, env)
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, env)
            if not self.truth(self.compare(op, a, b)):
                return False
            a = b
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            same = a is b or (isinstance(a, (str, int)) and isinstance(b, (str, int)) and type(a) is type(b) and a == b)
            if isinstance(a, Match) and b is None:
                same = not self.truth(a)
            return same == isinstance(op, ast.Is)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return r == isinstance(op, ast.In)
        if isinstance(a, Lin) or isinstance(b, Lin):
            if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
                if isinstance(op, ast.Eq):
                    return False
                if isinstance(op, ast.NotEq):
                    return True
                self.err('TypeError', 'comparison')
            s = self.sign(add(a, b, -1))
            return {ast.Eq: s == 0, ast.NotEq: s != 0, ast.Lt: s < 0, ast.LtE: s <= 0, ast.Gt: s > 0, ast.GtE: s >= 0}[type(op)]
        if isinstance(a, Txt) or isinstance(b, Txt):
            if isinstance(op, (ast.Eq, ast.NotEq)):
                if a == b:
                    r = True
                elif not isinstance(a, (str, Txt)) or not isinstance(b, (str, Txt)):
                    r = False
                else:
                    r = self.decide(('eq', txt(a), txt(b)))
                return r == isinstance(op, ast.Eq)
            raise Unsupported('comparison of texts')
        try:
            return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                    ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
        except TypeError as x:
            self.err('TypeError', str(x))

    def contains(self, a, b):
        if isinstance(b, Range):
            return any(a == x for x in self.items(b))
        if isinstance(b, Txt) or isinstance(a, Txt):
            if isinstance(b, (dict, set, list, tuple)) and not isinstance(b, (str, Txt)):
                return any(self.truth(self.compare(ast.Eq(), a, x)) for x in b)
            if isinstance(b, Txt) and isinstance(a, str) and any(isinstance(x, str) and a in x for x in b.p):
                return True
            return self.decide(('in', txt(a), txt(b)))
        if isinstance(b, str) and not isinstance(a, str):
            self.err('TypeError', 'in <string> requires string')
        if isinstance(b, (dict, list, tuple, set, frozenset, str, bytes)):
            return a in b
        raise Unsupported('in')

    def e_Attribute(self, e, env):
        return self.attr(self.ev(e.value, env), e.attr)

    def attr(self, o, n):
        if isinstance(o, Mod):
            if o.n == 'os' and n in ('sep', 'linesep'):
                return getattr(os, n)
            if n == 'path' and o.n == 'os':
                return Mod('os.path')
            if o.n == 're' and n.isupper():
                return getattr(re, n)
            return ('lib', '%s.%s' % (o.n, n))
        if isinstance(o, Obj):
            if n in o.f:
                return o.f[n]
            c = self.glob.get(o.cls)
            if isinstance(c, Cls):
                if n in c.methods:
                    return Bound(o, n)
                if n in c.defaults:
                    return self.ev(c.defaults[n], self.glob)
            if o.cls in ('parser', 'pattern', 'iter', 'group'):
                return Bound(o, n)
            self.err('AttributeError', n)
        if isinstance(o, argparse.Namespace):
            if not hasattr(o, n):
                self.err('AttributeError', n)
            return getattr(o, n)
        if isinstance(o, Path) and n in ('name', 'suffix', 'stem', 'parent', 'parts'):
            return getattr(o, n)
        return Bound(o, n)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            g = lambda x: self.ev(x, env) if x is not None else None
            if e.slice.step is not None:
                raise Unsupported('slice step')
            return self.slice(o, g(e.slice.lower), g(e.slice.upper))
        if isinstance(o, tuple) and o and o[0] in ('lib', 'builtin'):
            return o        # a type
        return self.subscript(o, self.ev(e.slice, env))

    def subscript(self, o, i):
        if isinstance(o, File):
            self.err('TypeError', 'file is not subscriptable')
        if isinstance(o, Lines):
            if not isinstance(i, (int, Lin)):
                raise Unsupported('line index')
            return o.at(i)
        if isinstance(o, dict):
            if i not in o:
                self.err('KeyError', repr(i))
            return o[i]
        if isinstance(o, (list, tuple, str, bytes)):
            if isinstance(i, Lin):
                raise Unsupported('symbolic index')
            if not isinstance(i, int):
                self.err('TypeError', 'index')
            if not -len(o) <= i < len(o):
                self.err('IndexError', 'index out of range')
            return o[i]
        if isinstance(o, Txt):
            raise Unsupported('character of a text')
        if isinstance(o, Obj) and isinstance(i, int):
            return list(o.f.values())[i]
        if o is None:
            self.err('TypeError', 'None is not subscriptable')
        raise Unsupported('subscript of %s' % type(o).__name__)

    def slice(self, o, a, b):
        if isinstance(o, Lines):
            if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)) and not (isinstance(b, int) and b < 0):
                n = norm(add(b, a, -1))
                if isinstance(n, int):
                    return [o.at(add(a, i)) for i in range(max(0, n))]
            raise Unsupported('slice of all lines')
        if isinstance(o, Txt):
            if len(o.p) == 1 and o.p[0][0] in ('line', 'slice'):
                x = o.p[0]
                a = None if a == 0 else a
                if x[0] == 'line':
                    return Txt([('slice', x[1], x[2], a, b, x[3])], o.by)
                if x[3] is None and b is None:
                    return Txt([('slice', x[1], x[2], a, x[4], x[5])], o.by)
                if a is None and x[4] is None:
                    return Txt([('slice', x[1], x[2], x[3], b if x[3] is None else add(x[3], b), x[5])], o.by)
                if x[3] is not None and x[4] is None:
                    return Txt([('slice', x[1], x[2], add(x[3], a if a is not None else 0), None if b is None else add(x[3], b), x[5])], o.by)
                if x[3] is None and b is not None and norm(add(x[4], b, -1)) == 0:
                    return Txt([('slice', x[1], x[2], a, x[4], x[5])], o.by)
                if x[3] is None and b is None and a is not None:
                    return Txt([('slice', x[1], x[2], a, x[4], x[5])], o.by)
            raise Unsupported('slice of a text')
        if isinstance(o, (str, list, tuple, bytes)):
            if isinstance(a, Lin) or isinstance(b, Lin):
                raise Unsupported('symbolic slice')
            return o[a:b]
        raise Unsupported('slice of %s' % type(o).__name__)

    def e_ListComp(self, e, env):
        if len(e.generators) == 1 and not e.generators[0].ifs and isinstance(e.generators[0].target, ast.Name):
            it = self.ev(e.generators[0].iter, env)
            if isinstance(it, File):
                it = self.lines(it)
            if isinstance(it, Lines):
                return self.map_lines(it, e.generators[0].target.id, e.elt, env)
        return list(self.comp(e.generators, env, lambda v: self.ev(e.elt, v)))

    def map_lines(self, it, name, elt, env):
        """a map over all lines of a file, which must leave each a line."""
        r = self.ev(elt, {name: it.at(sym('?')), '__up__': env})
        if isinstance(r, Txt) and len(r.p) == 1 and r.p[0][:3] == ('line', it.f, sym('?')):
            return Lines(it.f, r.p[0][3], r.by)
        raise Unsupported('map over all lines')

    def e_GeneratorExp(self, e, env):
        return self.e_ListComp(e, env)

    def e_SetComp(self, e, env):
        return set(self.comp(e.generators, env, lambda v: self.ev(e.elt, v)))

    def e_DictComp(self, e, env):
        return dict(self.comp(e.generators, env, lambda v: (self.key(self.ev(e.key, v)), self.ev(e.value, v))))

    def comp(self, gens, env, f):
        out = []

        def go(i, v):
            if i == len(gens):
                out.append(f(v))
                return
            for x in self.items(self.ev(gens[i].iter, v)):
                w = {'__up__': v}
                self.assign(gens[i].target, x, w)
                if all(self.truth(self.ev(c, w)) for c in gens[i].ifs):
                    go(i + 1, w)
        go(0, env)
        return out

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env))
            else:
                kw[k.arg] = self.ev(k.value, env)
        self.cur = e.lineno
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        line = self.cur
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Cls):
            o = Obj(f.name, {})
            if '__init__' in f.methods:
                self.call_fn(Fn(f.methods['__init__'], None), [o] + args, kw)
                return o
            for n, v in zip(f.fields, args):
                o.f[n] = v
            for k, v in kw.items():
                if k not in f.fields:
                    self.err('TypeError', 'unexpected argument %s' % k)
                o.f[k] = v
            for n in f.fields:
                if n not in o.f:
                    if n not in f.defaults:
                        self.err('TypeError', 'missing argument %s' % n)
                    o.f[n] = self.ev(f.defaults[n], self.glob)
            if len(args) > len(f.fields):
                self.err('TypeError', 'too many arguments')
            return o
        if isinstance(f, Bound):
            return self.method(f.o, f.n, args, kw)
        if isinstance(f, tuple) and f and f[0] == 'builtin':
            return self.builtin(f[1], args, kw)
        if isinstance(f, tuple) and f and f[0] == 'lib':
            return self.lib(f[1], args, kw)
        if isinstance(f, tuple) and f and f[0] == 'exc':
            return Obj('exception', {'kind': f[1], 'args': args})
        if f is None or isinstance(f, (int, str, dict, list)):
            self.err('TypeError', 'not callable')
        raise Unsupported('call of %r' % (f,))

    def call_fn(self, f, args, kw):
        n = f.node
        a = n.args
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion')
        env = {'__up__': f.env}
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and not a.vararg:
            self.err('TypeError', 'too many arguments')
        for x, v in zip(names, args):
            env[x] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        kws = set(names) | {x.arg for x in a.kwonlyargs}
        rest = {}
        for k, v in kw.items():
            if k not in kws:
                if not a.kwarg:
                    self.err('TypeError', 'unexpected argument %s' % k)
                rest[k] = v
            elif k in env and k != '__up__':
                self.err('TypeError', 'argument %s given twice' % k)
            else:
                env[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = rest
        for x, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if x not in env:
                env[x] = self.ev(d, f.env or self.glob)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.ev(d, f.env or self.glob)
        for x in kws:
            if x not in env:
                self.err('TypeError', 'missing argument %s' % x)
        try:
            if isinstance(n, ast.Lambda):
                return self.ev(n.body, env)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
                raise Unsupported('generator')
            self.block(n.body, env)
        except _Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def lines(self, f):
        return Lines(f.name, f.unit, f.by)

    def open(self, name, mode='r', buffering=-1, encoding=None, errors=None, newline=None, **kw):
        name = simp(txt(name)) if not isinstance(name, Path) else str(name)
        if not isinstance(name, str):
            raise Unsupported('file name')
        self.opened.append((self.cur, name, mode))
        if 'r' not in mode or '+' in mode:
            raise Unsupported('open for writing')
        by = 'b' in mode
        enc = (encoding or '').lower().replace('_', '-') if isinstance(encoding, str) or encoding is None else ''
        single = enc in ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1') or (enc in ('ascii', 'us-ascii') and errors == 'surrogateescape')
        if enc in ('utf-8-sig',):
            single = False
        return File(name, 'bytes' if by or single else 'characters', by, mode)

    def method(self, o, n, a, kw):
        if isinstance(o, Obj):
            c = self.glob.get(o.cls)
            if isinstance(c, Cls):
                return self.call_fn(Fn(c.methods[n], None), [o] + a, kw)
            if o.cls == 'parser':
                if n == 'add_argument':
                    conv = {}
                    for k, v in kw.items():
                        if k == 'type':
                            v = {('lib', 'pathlib.Path'): Path, ('builtin', 'int'): int, ('builtin', 'str'): str}.get(v, MISSING)
                            if v is MISSING:
                                raise Unsupported('argument type')
                        elif k == 'action' and not isinstance(v, str):
                            raise Unsupported('argument action')
                        conv[k] = v
                    if 'help' in conv:
                        conv['help'] = ''
                    try:
                        o.f['p'].add_argument(*a, **conv)
                    except Exception as x:
                        self.err(type(x).__name__, str(x))
                    return None
                if n == 'add_mutually_exclusive_group':
                    return Obj('parser', {'p': o.f['p'].add_mutually_exclusive_group(**kw)})
                if n == 'add_argument_group':
                    return Obj('parser', {'p': o.f['p'].add_argument_group()})
                if n == 'parse_args':
                    import contextlib
                    import io
                    try:
                        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                            return o.f['p'].parse_args(list(self.scen['argv']))
                    except SystemExit as x:
                        raise Exit(x.code)
                raise Unsupported('parser.' + n)
            if o.cls == 'pattern':
                return self.lib('re.' + n, [o.f['pat']] + a, kw)
            raise Unsupported('method %s' % n)
        if isinstance(o, File):
            if n == 'readlines':
                return self.lines(o)
            if n == 'read':
                return ('text', o)
            if n in ('close', '__enter__', '__exit__'):
                return None
            raise Unsupported('file.' + n)
        if isinstance(o, tuple) and len(o) == 2 and o[0] == 'text':
            if n == 'splitlines':
                keep = a[0] if a else kw.get('keepends', False)
                if o[1].by and not keep:
                    raise Unsupported('lines without ends')
                raise Unsupported('splitlines')
            raise Unsupported('text.' + n)
        if isinstance(o, Txt):
            if n == 'encode':
                return Txt([self.recode(x, True) for x in o.p], True)
            if n == 'decode':
                return Txt(o.p, False)
            if n == 'format':
                raise Unsupported('format')
            if n in ('rstrip', 'strip', 'lstrip'):
                return Txt([('strip', n, tuple(o.p))], o.by)
            if n == 'startswith' and a and isinstance(a[0], str) and o.p and isinstance(o.p[0], str) and len(o.p[0]) >= len(a[0]):
                return o.p[0].startswith(a[0])
            raise Unsupported('text.%s' % n)
        if isinstance(o, str):
            if n == 'join':
                out = []
                for i, x in enumerate(self.items(a[0])):
                    if not isinstance(x, (str, Txt)):
                        self.err('TypeError', 'join')
                    out += ([o] if i else []) + list(txt(x).p)
                return simp(Txt(out))
            if n == 'format':
                return self.fmt(o, a, kw)
            if n not in SAFE_STR or any(isinstance(x, (Txt, Lin)) for x in a):
                raise Unsupported('str.' + n)
            return self.lib_call(getattr(o, n), a, kw)
        if isinstance(o, bytes):
            if n == 'join':
                out = []
                for i, x in enumerate(self.items(a[0])):
                    out += ([o.decode('latin-1')] if i else []) + list(txt(x).p)
                return simp(Txt(out, True))
            if n in SAFE_STR:
                return self.lib_call(getattr(o, n), a, kw)
            raise Unsupported('bytes.' + n)
        if isinstance(o, dict):
            if n == 'get':
                return o.get(a[0], a[1] if len(a) > 1 else kw.get('default'))
            if n == 'items':
                return [(k, v) for k, v in o.items()]
            if n == 'keys':
                return list(o.keys())
            if n == 'values':
                return list(o.values())
            if n == 'update':
                o.update(a[0])
                return None
            if n == 'setdefault':
                return o.setdefault(a[0], a[1] if len(a) > 1 else None)
            if n == 'pop':
                if a[0] not in o:
                    if len(a) > 1:
                        return a[1]
                    self.err('KeyError', repr(a[0]))
                return o.pop(a[0])
            if n == 'copy':
                return dict(o)
            raise Unsupported('dict.' + n)
        if isinstance(o, list):
            if n in ('append', 'extend', 'insert', 'pop', 'reverse', 'copy', 'index', 'count', 'clear'):
                if n == 'extend':
                    a = [self.items(a[0])]
                return self.lib_call(getattr(o, n), a, kw)
            if n == 'sort':
                if any(isinstance(x, (Lin, Txt)) for x in o) or kw.get('key'):
                    raise Unsupported('sort')
                return self.lib_call(o.sort, [], kw)
            raise Unsupported('list.' + n)
        if isinstance(o, set):
            if n in ('add', 'update', 'union', 'discard'):
                return self.lib_call(getattr(o, n), a, kw)
        if isinstance(o, Path):
            if n in ('joinpath', 'relative_to', 'as_posix', 'is_absolute', 'with_name', 'is_relative_to'):
                return self.lib_call(getattr(o, n), a, kw)
            if n == 'open':
                return self.open(o, *a, **kw)
        if o is None:
            self.err('AttributeError', n)
        raise Unsupported('%s.%s' % (type(o).__name__, n))

    def recode(self, x, enc):
        if isinstance(x, tuple) and x[0] == 'line':
            return ('line', x[1], x[2], 'bytes')
        return x

    def fmt(self, s, a, kw):
        out = []
        auto = 0
        for lit, field, spec, conv in __import__('string').Formatter().parse(s):
            out.append(lit)
            if field is None:
                continue
            if spec or conv:
                raise Unsupported('format specification')
            if field == '':
                field, auto = str(auto), auto + 1
            if field.isdigit():
                if int(field) >= len(a):
                    self.err('IndexError', 'format')
                v = a[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                raise Unsupported('format field')
            out += txt(v).p
        return simp(Txt(out))

    def lib_call(self, f, a, kw):
        try:
            return f(*a, **kw)
        except (Unsupported, PyError):
            raise
        except Exception as x:
            self.err(type(x).__name__, str(x))

    def lib(self, q, a, kw):
        if q in ('argparse.ArgumentParser',):
            return Obj('parser', {'p': argparse.ArgumentParser()})
        if q in ('json.load', 'json.loads'):
            return self.scen['json']()
        if q in ('re.match', 're.fullmatch', 're.search'):
            pat, t = a[0], a[1]
            if isinstance(pat, Obj) and pat.cls == 'pattern':
                pat = pat.f['pat']
            if len(a) > 2 or kw or not isinstance(pat, str):
                raise Unsupported('regular expression flags')
            if q == 're.fullmatch':
                pat = '(?:%s)\\Z' % pat
            if q == 're.search':
                pat = '(?s:.*?)(?:%s)' % pat
            return Match(pat, txt(t))
        if q == 're.compile':
            if len(a) > 1 or kw:
                raise Unsupported('regular expression flags')
            return Obj('pattern', {'pat': a[0]})
        if q == 'sys.exit':
            raise Exit(a[0] if a else 0)
        if q in ('pathlib.Path', 'Path'):
            return self.lib_call(Path, a, kw)
        if q in ('os.path.join', 'os.path.basename', 'os.path.relpath', 'os.path.normpath', 'os.path.dirname', 'os.path.commonpath') and \
                all(isinstance(x, (str, Path)) for x in a):
            f = {'join': os.path.join, 'basename': os.path.basename, 'relpath': os.path.relpath, 'normpath': os.path.normpath,
                 'dirname': os.path.dirname, 'commonpath': os.path.commonpath}[q.split('.')[-1]]
            return self.lib_call(f, a, kw)
        if q in ('typing.cast',):
            return a[1]
        if q == 'io.open':
            return self.open(*a, **kw)
        if q == 'itertools.chain':
            return [y for x in a for y in self.items(x)]
        if q == 'sys.stdout.write':
            self.out.append((self.cur, txt(a[0])))
            return None
        raise Unsupported('call of %s' % q)

    def builtin(self, n, a, kw):
        if n == 'print':
            if kw.get('file') is not None:
                return None
            out = []
            sep = kw.get('sep', ' ')
            for i, x in enumerate(a):
                out += ([sep] if i else []) + list(txt(x).p)
            self.out.append((self.cur, Txt(out + [kw.get('end', '\n')])))
            return None
        if n == 'open':
            return self.open(*a, **kw)
        if n == 'len':
            v = a[0]
            if isinstance(v, (str, bytes, list, tuple, dict, set)):
                return len(v)
            if isinstance(v, Txt):
                return sym('len(%r)' % (v,))
            if isinstance(v, Range):
                return len(self.items(v))
            raise Unsupported('len')
        if n == 'str':
            return simp(txt(a[0])) if a else ''
        if n == 'int':
            if isinstance(a[0], Lin):
                return a[0]
            if isinstance(a[0], (int, str)):
                return self.lib_call(int, a, kw)
            raise Unsupported('int')
        if n == 'bool':
            return self.truth(a[0])
        if n == 'range':
            if len(a) == 1:
                return Range(0, a[0], 1)
            return Range(a[0], a[1], a[2] if len(a) > 2 else 1)
        if n == 'list':
            if not a:
                return []
            if isinstance(a[0], Lines):
                return a[0]
            if isinstance(a[0], File):
                return self.lines(a[0])
            return self.items(a[0])
        if n == 'tuple':
            return tuple(self.items(a[0])) if a else ()
        if n in ('set', 'frozenset'):
            return set(self.items(a[0])) if a else set()
        if n == 'dict':
            r = dict(a[0]) if a else {}
            r.update(kw)
            return r
        if n == 'iter':
            return Obj('iter', {'items': self.items(a[0]), 'pos': 0})
        if n == 'next':
            o = a[0]
            if isinstance(o, list):      # a generator expression
                o = Obj('iter', {'items': o, 'pos': 0})
            if not isinstance(o, Obj) or o.cls != 'iter':
                raise Unsupported('next')
            if o.f['pos'] >= len(o.f['items']):
                if len(a) > 1:
                    return a[1]
                self.err('StopIteration', '')
            o.f['pos'] += 1
            return o.f['items'][o.f['pos'] - 1]
        if n == 'enumerate':
            st = a[1] if len(a) > 1 else kw.get('start', 0)
            return [(add(st, i), x) for i, x in enumerate(self.items(a[0]))]
        if n == 'zip':
            return [tuple(x) for x in zip(*[self.items(y) for y in a])]
        if n == 'reversed':
            return self.items(a[0])[::-1]
        if n in ('max', 'min'):
            xs = a if len(a) > 1 else self.items(a[0])
            if kw.get('key') is not None:
                raise Unsupported('max with key')
            if not xs:
                if 'default' in kw:
                    return kw['default']
                self.err('ValueError', '%s() of an empty sequence' % n)
            if all(isinstance(x, (int, str)) for x in xs):
                return self.lib_call({'max': max, 'min': min}[n], [xs], {})
            r = xs[0]
            for x in xs[1:]:
                if not isinstance(x, (int, Lin)) or not isinstance(r, (int, Lin)):
                    raise Unsupported(n)
                s = self.sign(add(x, r, -1))
                if s > 0 and n == 'max' or s < 0 and n == 'min':
                    r = x
            return r
        if n == 'sorted':
            xs = self.items(a[0])
            if all(isinstance(x, (int, str)) for x in xs) and not kw.get('key'):
                return self.lib_call(sorted, [xs], kw)
            raise Unsupported('sorted')
        if n == 'sum':
            r = a[1] if len(a) > 1 else 0
            for x in self.items(a[0]):
                r = self.binop(ast.Add(), r, x)
            return r
        if n in ('any', 'all'):
            for x in self.items(a[0]):
                if self.truth(x) == (n == 'any'):
                    return n == 'any'
            return n == 'all'
        if n == 'map':
            return [self.call(a[0], [x], {}) for x in self.items(a[1])]
        if n == 'filter':
            return [x for x in self.items(a[1]) if self.truth(self.call(a[0], [x], {}) if a[0] is not None else x)]
        if n == 'isinstance':
            raise Unsupported('isinstance')
        if n == 'getattr' and isinstance(a[1], str):
            try:
                return self.attr(a[0], a[1])
            except PyError:
                if len(a) > 2:
                    return a[2]
                raise
        if n == 'exit':
            raise Exit(a[0] if a else 0)
        raise Unsupported('builtin ' + n)


BUILTINS = {'print', 'open', 'len', 'str', 'int', 'bool', 'range', 'list', 'tuple', 'set', 'frozenset', 'dict', 'iter', 'next', 'enumerate', 'zip',
            'reversed', 'max', 'min', 'sorted', 'sum', 'any', 'all', 'map', 'filter', 'isinstance', 'getattr', 'exit', 'bytes', 'float', 'object', 'type'}
EXC = {'KeyError', 'ValueError', 'IndexError', 'AssertionError', 'Exception', 'RuntimeError', 'NotImplementedError', 'TypeError', 'SystemExit',
       'FileNotFoundError', 'LookupError', 'OSError'}


def paths(tree, scen, limit=256):
    """all partitions of one scenario: (interpreter, exit code, error)."""
    choices = []
    n = 0
    while True:
        it = Interp(tree, scen, choices)
        code, error = 0, None
        try:
            it.run()
        except Exit as x:
            code = x.code
        except PyError as x:
            error = x
        except _Ret:
            raise Unsupported('return outside function')
        yield it, (0 if code is None else code), error
        n += 1
        if n >= limit:
            raise Unsupported('too many partitions')
        # next combination
        del choices[it.pos:]
        while choices:
            v = choices.pop()
            key = it.taken[len(choices)][0]
            opts = (1, 0, -1) if key[0] == 'sign' else (True, False)
            i = opts.index(v)
            if i + 1 < len(opts):
                choices.append(opts[i + 1])
                break
        else:
            return
