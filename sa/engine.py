"""Path-sensitive abstract interpretation of the exported, resolved program.

The domain is finite-predicate / template based: values of the analysed program
are abstracted by
  * Term   - an uninterpreted (hash-consed) external object, e.g. a clang node
             or a property of one,
  * TStr   - a string template (literal text and symbolic atoms),
  * Lin    - an affine combination of symbolic integers,
  * Obj / Vec / Ptr / Opt - records, containers, pointers of the analysed code.
Control flow is partitioned on predicates over Terms; a partition is identified
by the list of predicate outcomes.  Nothing of the analysed program is run and
no solver is used: predicates are decided from the facts of the partition, from
a fixed table of facts about clang's API (clangmodel.py), or split.
"""
import re
import sys

sys.setrecursionlimit(20000)


class Infeasible(Exception):
    pass


class Unsupported(Exception):
    pass


class PathLimit(Exception):
    pass


class Abort(Exception):
    """assert failure / unreachable / exit."""

    def __init__(self, why, loc=None):
        Exception.__init__(self, why)
        self.why = why
        self.loc = loc


# ---------------------------------------------------------------- values
class Term:
    __slots__ = ('f', 'a', 'h', 't')
    table = {}

    def __repr__(self):
        if self.f.startswith('.') and self.a:
            s = repr(self.a[0]) + self.f
            if len(self.a) > 1:
                s += '(' + ','.join(map(repr, self.a[1:])) + ')'
            return s
        if not self.a:
            return self.f
        return self.f + '(' + ','.join(map(repr, self.a)) + ')'

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __reduce__(self):
        return (T, (self.f,) + self.a)


def T(f, *a):
    k = (f, a)
    r = Term.table.get(k)
    if r is None:
        r = Term()
        r.f = f
        r.a = a
        r.h = hash(k)
        r.t = None
        Term.table[k] = r
    return r


def hashable(v):
    """A hashable key for any value, for use as a Term argument."""
    if isinstance(v, Cell):
        return hashable(v.v)
    if isinstance(v, (Term, str, int, float, bool, type(None), Lin, TStr, NullPtr, frozenset, tuple)):
        return v
    if isinstance(v, Ptr):
        return T('ptr', hashable(v.c.v)) if not isinstance(v.c.v, Obj) else T('ptr#', v.c.v.uid)
    if isinstance(v, Obj):
        return T('obj:' + v.cls, *[(n, hashable(c.v)) for n, c in sorted(v.f.items())
                                   if not n.startswith('$')])
    if isinstance(v, Vec):
        return T('vec', *[hashable(c.v) for c in v.items])
    if isinstance(v, Opt):
        return T('opt', hashable(v.c)) if v.c is not None else T('opt0')
    return T('val:' + type(v).__name__, id(v))


class Lin:
    """const + sum(coef*atom)."""
    __slots__ = ('c', 'm')

    def __init__(self, c, m):
        self.c = c
        self.m = m

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.m == o.m

    def __hash__(self):
        return hash((self.c, self.m))

    def __repr__(self):
        s = '+'.join(('%d*' % k if k != 1 else '') + repr(a) for a, k in self.m)
        return '(' + s + ('%+d' % self.c if self.c else '') + ')'


def lin(c, d):
    m = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: repr(x[0])))
    if not m:
        return c
    if c == 0 and len(m) == 1 and m[0][1] == 1:
        return m[0][0]
    return Lin(c, m)


def as_lin(v):
    if isinstance(v, bool):
        return int(v), {}
    if isinstance(v, int):
        return v, {}
    if isinstance(v, Lin):
        return v.c, dict(v.m)
    if isinstance(v, Term):
        return 0, {v: 1}
    return None


def add(a, b, sign=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + sign * b
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a + sign * b
    x, y = as_lin(a), as_lin(b)
    if x is None or y is None:
        return T('+' if sign == 1 else '-', hashable(a), hashable(b))
    d = dict(x[1])
    for k, n in y[1].items():
        d[k] = d.get(k, 0) + sign * n
    return lin(x[0] + sign * y[0], d)


class TStr:
    __slots__ = ('p',)

    def __init__(self, p=()):
        self.p = p

    def __eq__(self, o):
        return isinstance(o, TStr) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return ''.join(x if isinstance(x, str) else '\u27e8%r\u27e9' % (x,) for x in self.p)

    @property
    def lit(self):
        if not self.p:
            return ''
        if len(self.p) == 1 and isinstance(self.p[0], str):
            return self.p[0]
        return None


EMPTY = TStr()


def tstr(v):
    if isinstance(v, TStr):
        return v
    if isinstance(v, str):
        return TStr((v,)) if v else EMPTY
    return TStr((v,))


def cat(a, b):
    a, b = a.p, b.p
    if not a:
        return TStr(b)
    if not b:
        return TStr(a)
    if isinstance(a[-1], str) and isinstance(b[0], str):
        return TStr(a[:-1] + (a[-1] + b[0],) + b[1:])
    return TStr(a + b)


class NullPtr:
    def __repr__(self):
        return 'null'

    def __reduce__(self):
        return (_null, ())


NULL = NullPtr()


def _null():
    return NULL


class Cell:
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v

    def __repr__(self):
        return '&' + repr(self.v)


class Ptr:
    __slots__ = ('c', 'base', 'idx')

    def __init__(self, c, base=None, idx=None):
        self.c = c
        self.base = base
        self.idx = idx

    def __repr__(self):
        return 'ptr(%s)' % (self.c.v.__class__.__name__,)


UNINIT = T('uninit')
_uid = [0]


class Obj:
    __slots__ = ('cls', 'f', 'uid')

    def __init__(self, cls, f=None):
        self.cls = cls
        self.f = f if f is not None else {}
        _uid[0] += 1
        self.uid = _uid[0]

    def get(self, n):
        c = self.f.get(n)
        if c is None:
            c = self.f[n] = Cell(UNINIT)
        return c

    def __repr__(self):
        return '%s#%d' % (self.cls, self.uid)


class Vec:
    __slots__ = ('items', 'kind', 'sym')

    def __init__(self, items=None, kind='vector', sym=None):
        self.items = items if items is not None else []
        self.kind = kind
        self.sym = sym      # Term: unknown initial contents (before items)

    def __repr__(self):
        return '[%s]' % ', '.join(repr(c.v) for c in self.items)


class Opt:
    __slots__ = ('c',)

    def __init__(self, c=None):
        self.c = c     # Cell or None


class Iter:
    __slots__ = ('vec', 'i')

    def __init__(self, vec, i):
        self.vec = vec
        self.i = i


class Stream:
    __slots__ = ('buf', 'name', 'sink')

    def __init__(self, name, buf=EMPTY, sink=None):
        self.buf = buf
        self.name = name
        self.sink = sink


class Closure:
    __slots__ = ('key', 'frame', 'this')

    def __init__(self, key, frame, this):
        self.key = key
        self.frame = frame
        self.this = this


class Bound:
    """std::bind-like / pointer-to-function value."""
    __slots__ = ('key', 'obj')

    def __init__(self, key, obj=None):
        self.key = key
        self.obj = obj


def rv(x):
    return x.v if type(x) is Cell else x


def lv(x):
    return x if type(x) is Cell else Cell(x)


def copyval(v):
    t = type(v)
    if t is Obj:
        return Obj(v.cls, {n: Cell(copyval(c.v)) for n, c in v.f.items()})
    if t is Vec:
        return Vec([Cell(copyval(c.v)) for c in v.items], v.kind, v.sym)
    if t is Opt:
        return Opt(Cell(copyval(v.c.v)) if v.c is not None else None)
    if t is Iter:
        return Iter(v.vec, v.i)
    if t is Stream:
        return Stream(v.name, v.buf, v.sink)
    return v


def moveval(cell):
    """Value semantics of a move out of the cell."""
    if type(cell) is not Cell:
        return cell
    v = cell.v
    t = type(v)
    if t is Vec:
        n = Vec(v.items, v.kind, v.sym)
        v.items = []
        v.sym = None
        return n
    if t is Ptr:
        # only used for smart pointers
        cell.v = NULL
        return v
    if t is Obj:
        n = Obj(v.cls, {})
        for k, c in v.f.items():
            if type(c.v) is Vec or type(c.v) is Obj:
                n.f[k] = Cell(moveval(c))
            else:
                n.f[k] = Cell(c.v)
        return n
    if t is Opt:
        return Opt(Cell(moveval(v.c)) if v.c is not None else None)
    return v


# ---------------------------------------------------------------- context
class Ctx:
    """One partition (path)."""

    def __init__(self, prefix, config):
        self.prefix = prefix
        self.pos = 0
        self.trace = []        # list of (choice, n)
        self.facts = {}        # bool Term -> bool
        self.doms = {}         # dom Term -> frozenset
        self.cls = {}          # node Term -> (pos, frozenset(neg))
        self.effects = []
        self.notes = []
        self.statics = {}
        self.config = config
        self.line = None
        self.func = None
        self.depth = 0
        self.fresh = 0
        self.log = []          # human readable decisions
        self.steps = 0

    def choose(self, n, desc=None):
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
        self.pos += 1
        self.trace.append((c, n))
        if len(self.trace) > 400:
            raise PathLimit('too many decisions')
        return c

    def new(self, f):
        self.fresh += 1
        return T(f, self.fresh)

    def effect(self, *e):
        l = self.line
        if getattr(self.config, 'locs', False):
            l = Loc(l or 0)
            l.fn = self.config.stack[-1] if self.config.stack else None
        self.effects.append(e + (l,))

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)


class Loc(int):
    """a line of the function fn."""
    fn = None


C = None   # current context


def setctx(c):
    global C
    C = c


def P_in(dom, vals):
    vals = frozenset(vals)
    return T('in', dom, vals)


def getdom(t):
    d = C.doms.get(t)
    if d is None:
        d = C.config.init_dom(t)
        if d is not None:
            C.doms[t] = d
    return d


def setdom(t, d):
    if not d:
        raise Infeasible()
    C.doms[t] = d


def narrow(t, vals):
    d = getdom(t)
    nd = d & frozenset(vals)
    if not nd:
        raise Infeasible()
    C.doms[t] = nd


def decide(t):
    """Truth of a boolean Term in the current partition; splits if open."""
    if t.f == 'not':
        return not decide(t.a[0])
    r = C.facts.get(t)
    if r is not None:
        return r
    if t.f == 'in':
        dt, vals = t.a
        d = getdom(dt)
        i = d & vals
        if not i:
            return False
        if i == d:
            return True
        if C.choose(2) == 0:
            C.doms[dt] = i
            C.log.append((t, True))
            C.config.on_dom(dt)
            return True
        C.doms[dt] = d - i
        C.log.append((t, False))
        C.config.on_dom(dt)
        return False
    if t.f == 'isa':
        return C.config.isa(t.a[0], t.a[1])
    r = C.config.theory(t)
    if r is None:
        r = C.choose(2) == 0
        C.log.append((t, r))
        C.facts[t] = r
        C.config.on_fact(t, r)
        return r
    if isinstance(r, Term):
        r = decide(r)
    C.facts[t] = r
    return r


def known(t):
    """True/False if already decided in this partition, else None (never splits)."""
    if isinstance(t, bool):
        return t
    if t.f == 'not':
        k = known(t.a[0])
        return None if k is None else not k
    r = C.facts.get(t)
    if r is not None:
        return r
    if t.f == 'in':
        d = getdom(t.a[0])
        i = d & t.a[1]
        return False if not i else (True if i == d else None)
    return None


def truth(v):
    if v is True or v is False:
        return v
    if type(v) is Cell:
        v = v.v
    if type(v) is Term:
        if v.f == 'uninit':
            C.note('branch on an uninitialised value at line %s' % C.line)
        return decide(v)
    if isinstance(v, (int, float)):
        return bool(v)
    if v is NULL:
        return False
    if isinstance(v, (Ptr, Closure, Bound)):
        return True
    if isinstance(v, Lin):
        return decide(T('nz', v))
    if isinstance(v, Opt):
        return v.c is not None
    if isinstance(v, TStr):
        return True
    if v is None:
        raise Unsupported('truth of void')
    if isinstance(v, Stream):
        return decide(stream_ok(v))
    return decide(T('truth', hashable(v)))


def stream_ok(s):
    """has everything gone well with the stream so far?  Failures are sticky."""
    n = 0
    for e in C.effects:
        if e[1] == s.sink and e[0] in ('open', 'filewrite', 'close', 'flush', 'clear'):
            n += 1
        if e[0] == 'clear' and e[1] == s.sink:
            n += 1000
        if e[0] == 'streamcheck' and e[1] == s.sink and e[2].a[1] // 1000 == n // 1000 and C.facts.get(e[2]) is False:
            C.effect('streamcheck', s.sink, e[2])
            return e[2]
    k = T('streamok', hashable(s.sink) if s.sink is not None else s.name, n)
    C.effect('streamcheck', s.sink, k)
    return k


def neg(v):
    if isinstance(v, Cell):
        v = v.v
    if isinstance(v, Term):
        if v.f == 'not':
            return v.a[0]
        return T('not', v)
    if isinstance(v, Lin):
        return T('not', T('nz', v))
    return not truth(v)


def is_null(v):
    """value -> bool or Term"""
    if v is NULL:
        return True
    if isinstance(v, Term):
        r = C.config.null(v)
        if r is not None:
            return r
        return T('null', v)
    if isinstance(v, int) and not isinstance(v, bool):
        return v == 0
    return False


def equal(a, b):
    """bool or Term."""
    if type(a) is Cell:
        a = a.v
    if type(b) is Cell:
        b = b.v
    if a is b:
        return True
    if a is NULL:
        return is_null(b)
    if b is NULL:
        return is_null(a)
    ta, tb = type(a), type(b)
    if ta is TStr or tb is TStr:
        a, b = tstr(a), tstr(b)
        if a == b:
            return True
        return str_equal(a, b)
    if ta is Ptr and tb is Ptr:
        if a.c is b.c:
            return True
        if isinstance(a.c.v, Term) and a.c.v is b.c.v:
            return T('eqp', hashable(a), hashable(b), id(a), id(b))
        return False
    if ta is Iter and tb is Iter:
        if a.vec is not b.vec:
            # undefined in C++, so the model has lost track of the container
            raise Unsupported('iterators of different containers')
        return a.i == b.i
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if ta is Term and isinstance(b, int):
        if getdom(a) is not None:
            return P_in(a, (int(b),))
        r = C.config.equal_int(a, b)
        if r is not None:
            return r
        if b == 0 or b is False:
            return neg(a)
        if b is True:
            return a
    if tb is Term and isinstance(a, int):
        return equal(b, a)
    if ta is Lin or tb is Lin or (ta is Term and tb is Term):
        d = add(a, b, -1)
        if isinstance(d, int):
            return d == 0
        if isinstance(d, Lin) and not any(k < 0 for _, k in d.m) and d.c > 0:
            pass
        if ta is Term and tb is Term:
            da, db = getdom(a), getdom(b)
            if da is not None and db is not None:
                if not (da & db):
                    return False
            r = C.config.equal(a, b)
            if r is not None:
                return r
    if ta is Vec and tb is Vec:
        if len(a.items) != len(b.items):
            return False
        for x, y in zip(a.items, b.items):
            if not truth(equal(x, y)):
                return False
        return True
    if ta is Opt and tb is Opt:
        if a.c is None or b.c is None:
            return a.c is b.c
        return equal(a.c, b.c)
    if ta is Opt:
        return False if a.c is None else equal(a.c, b)
    if tb is Opt:
        return equal(b, a)
    ha, hb = hashable(a), hashable(b)
    if ha == hb:
        return True
    if ta is Obj and tb is Obj and a.cls == b.cls:
        pass
    x, y = sorted((ha, hb), key=repr)
    return T('eq', x, y)


def str_equal(a, b):
    """equality of two string templates: strip common prefix/suffix, then
    False if contradictory literals, else a predicate."""
    pa, pb = list(a.p), list(b.p)
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = 0
            m = min(len(x), len(y))
            while n < m and x[n] == y[n]:
                n += 1
            if n < m:
                return False
            pa[0], pb[0] = x[n:], y[n:]
            if not pa[0]:
                pa.pop(0)
            if not pb[0]:
                pb.pop(0)
        elif x == y:
            pa.pop(0)
            pb.pop(0)
        else:
            break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = 0
            m = min(len(x), len(y))
            while n < m and x[-1 - n] == y[-1 - n]:
                n += 1
            if n < m:
                return False
            pa[-1], pb[-1] = x[:len(x) - n], y[:len(y) - n]
            if not pa[-1]:
                pa.pop()
            if not pb[-1]:
                pb.pop()
        elif x == y:
            pa.pop()
            pb.pop()
        else:
            break
    if not pa and not pb:
        return True
    if not pa or not pb:
        rest = pa or pb
        if any(isinstance(x, str) for x in rest):
            return False
    x, y = sorted((TStr(tuple(pa)), TStr(tuple(pb))), key=repr)
    return T('eq', x, y)


class Len(int):
    """number of elements of a container that stands for arbitrarily large ones."""


def beyond(a, b):
    """whether a is the size of a container that might as well reach the constant b."""
    return type(a) is Len and type(b) is int and b >= 8 and b > a


def less(a, b):
    a, b = rv(a), rv(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if beyond(a, b):
            return neg(T('large', b, C.line))
        if beyond(b, a + 1 if type(a) is int else a):
            return T('large', a + 1, C.line)
        return a < b
    if isinstance(a, Iter) and isinstance(b, Iter):
        return a.i < b.i
    if isinstance(a, TStr) and isinstance(b, TStr) and a.lit is not None and b.lit is not None:
        return a.lit < b.lit
    d = None
    if as_lin(a) is not None and as_lin(b) is not None:
        d = add(a, b, -1)
        if isinstance(d, int):
            return d < 0
        r = C.config.sign(d)
        if r is not None and r != 0:
            return r < 0
    return T('lt', hashable(a), hashable(b))


def arith(op, a, b, typ=None):
    a, b = rv(a), rv(b)
    if op == '+' or op == '-':
        if isinstance(a, Iter):
            return Iter(a.vec, a.i + b if op == '+' else a.i - b) if isinstance(b, int) else \
                (a.i - b.i)
        if isinstance(a, TStr) and isinstance(b, int) and a.lit is not None:
            return tstr(a.lit[b:])
        if isinstance(a, Ptr) and a.base is not None and isinstance(b, int):
            i = a.idx + (b if op == '+' else -b)
            return Ptr(a.base.items[i] if i < len(a.base.items) else None, a.base, i)
        return add(a, b, 1 if op == '+' else -1)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if op == '*':
            return a * b
        if op == '/':
            if b == 0:
                raise Abort('division by zero')
            if isinstance(a, int) and isinstance(b, int):
                q = abs(a) // abs(b)
                return q if (a < 0) == (b < 0) else -q
            return a / b
        if op == '%':
            if b == 0:
                raise Abort('division by zero')
            return a - b * (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
        if op == '&':
            return (a & b) if not isinstance(a, bool) else (bool(a) and bool(b))
        if op == '|':
            return (a | b)
        if op == '^':
            return (a ^ b)
        if op == '<<':
            return a << b
        if op == '>>':
            return a >> b
    if op == '*':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int):
                if x == 0:
                    return 0
                if x == 1:
                    return y
                l = as_lin(y)
                if l is not None:
                    return lin(l[0] * x, {k: n * x for k, n in l[1].items()})
    if op in ('&', '|') and (isinstance(a, bool) or isinstance(b, bool) or typ == 'bool'):
        x = truth(a)
        y = truth(b)
        return (x and y) if op == '&' else (x or y)
    return T('op' + op, hashable(a), hashable(b))


# ---------------------------------------------------------------- frames
class Frame:
    __slots__ = ('vars', 'this', 'up', 'fn')

    def __init__(self, this=None, up=None, fn=None):
        self.vars = {}
        self.this = this
        self.up = up
        self.fn = fn

    def find(self, i):
        f = self
        while f is not None:
            c = f.vars.get(i)
            if c is not None:
                return c
            f = f.up
        return None


BRK = object()
CNT = object()


class Ret:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def is_ref(t):
    return t.endswith('&')


_ta = re.compile(r'<[^<>]*>')
_strip_cache = {}


def strip_targs(q):
    r = _strip_cache.get(q)
    if r is None:
        s = q.replace('operator<<', 'operator\x01\x01').replace('operator<=>', 'operator\x01=\x02') \
             .replace('operator>>', 'operator\x02\x02').replace('operator->', 'operator-\x02') \
             .replace('operator<=', 'operator\x01=').replace('operator>=', 'operator\x02=') \
             .replace('operator<', 'operator\x01').replace('operator>', 'operator\x02')
        while True:
            n = _ta.sub('', s)
            if n == s:
                break
            s = n
        r = s.replace('\x01', '<').replace('\x02', '>')
        r = r.replace('std::__cxx11::', 'std::').replace('std::__1::', 'std::')
        _strip_cache[q] = r
    return r


def base_type(t):
    """strip const/&/* decorations: the class name."""
    t = t.strip()
    changed = True
    while changed:
        changed = False
        for suf in ('&', '*', ' const', ' volatile'):
            if t.endswith(suf):
                t = t[:-len(suf)].strip()
                changed = True
        for pre in ('const ', 'volatile ', 'class ', 'struct ', 'enum '):
            if t.startswith(pre):
                t = t[len(pre):]
                changed = True
    return t


NUMERIC = {'int', 'unsigned int', 'long', 'unsigned long', 'char', 'short', 'unsigned short', 'long long',
           'unsigned long long', 'unsigned char', 'signed char', 'double', 'float'}


def up_to_text(d):
    """the function takes one text and returns a text."""
    if len(d['p']) != 1 or not d.get('b') or d.get('isctor'):
        return False
    tx = lambda t: re.sub(r'\bconst\b|&|\s', '', t or '') in (
        'std::string', 'std::basic_string<char>', 'std::string_view', 'llvm::StringRef', 'std::basic_string_view<char>',
        'std::__cxx11::basic_string<char>', 'std::__cxx11::basic_string<char,std::char_traits<char>,std::allocator<char>>',
        'std::basic_string<char,std::char_traits<char>,std::allocator<char>>')
    return tx(d['p'][0]['t']) and tx(d.get('ret')) and not (is_ref(d['p'][0]['t']) and 'const' not in d['p'][0]['t'])


def map_text(v, m):
    r = EMPTY
    for p in v.p:
        if isinstance(p, str):
            r = cat(r, tstr(p.translate(m)))
        else:
            for k, n in m.items():
                p = T('replace', p, k, n)
            r = cat(r, TStr((p,)))
    return r


class Program:
    """Compiles exported functions to closures."""

    def __init__(self, prog, models):
        self.p = prog
        self.fns = prog['functions']
        self.callees = prog['callees']
        self.models = models
        self.compiled = {}
        self.resolved = {}
        self.dtors = {}
        for k, f in self.fns.items():
            if f.get('isdtor'):
                self.dtors[f['cls']] = k
        self.bases = {}
        self.supers = {}
        for n, r in prog['records'].items():
            self.bases[n] = [base_type(b) for b in ((r or {}).get('bases') or [])]
        self.opaque = {}        # function key -> kind
        self.overriders = {}
        for k, f in self.fns.items():
            for o in f.get('ov') or []:
                self.overriders.setdefault(o, []).append(k)
        self.by_qn = {}
        for k, f in self.fns.items():
            self.by_qn.setdefault(f['qn'], []).append(k)
        self.generic = {}       # generic lambda -> its specialisations
        self.hooks = {}         # qn -> fn(prog, info, o, a) before inlining
        self.max_depth = 60
        self.loop_bound = 3
        self.rec_bound = 6
        self.rec_free = ()

    # -------------------------------------------------- class helpers
    def is_subclass(self, c, d):
        s = self.supers.get(c)
        if s is None:
            s = set()
            todo = [c]
            while todo:
                x = todo.pop()
                if x not in s:
                    s.add(x)
                    todo.extend(self.bases.get(x, ()))
            self.supers[c] = s
        return d in s

    def repo_record(self, cls):
        r = self.p['records'].get(cls)
        return r if r and r.get('repo') else None

    # -------------------------------------------------- calling
    def call_fn(self, key, this, args, up=None):
        """args: list of evaluated values (Cell or value)."""
        f = self.compiled.get(key)
        if f is None:
            f = self.compile_fn(key)
        return f(this, args, up)

    def compile_fn(self, key):
        d = self.fns[key]
        params = [(p['id'], is_ref(p['t']), p['t']) for p in d['p']]
        state = {}
        ret_ref = is_ref(d['ret'] or 'void')
        prog = self

        textual = up_to_text(d)

        def run(this, args, up):
            if textual and len(args) == 1:
                v = rv(args[0])
                if isinstance(v, TStr) and v.lit is None:
                    m = prog.char_map(key, this, up, state)
                    if m is not None:
                        return map_text(v, m)
            body = state.get('b')
            if body is None:
                body = state['b'] = prog.stmt(d['b']) if d.get('b') else (lambda fr: None)
                state['inits'] = prog.compile_inits(d) if d.get('isctor') else None
            fr = Frame(this, up, d)
            vs = fr.vars
            for i, (pid, ref, pt) in enumerate(params):
                v = args[i] if i < len(args) else UNINIT
                if ref:
                    vs[pid] = v if type(v) is Cell else Cell(v)
                else:
                    vs[pid] = Cell(v.v if type(v) is Cell else v)
            C.depth += 1
            if C.depth > prog.max_depth:
                raise PathLimit('call depth')
            saved = C.func
            C.func = d
            if state['inits']:
                for ini in state['inits']:
                    ini(fr)
            r = body(fr)
            C.func = saved
            C.depth -= 1
            if type(r) is Ret:
                v = r.v
                if ret_ref:
                    return v if type(v) is Cell else Cell(v)
                return v.v if type(v) is Cell else v
            return None
        self.compiled[key] = run
        return run

    NAMES = ('int', 'unsigned int', 'unsigned long long', 'long double', 'signed char', 'a b c', ' x ', 'x  y', 'bool',
             '__int128', 'unsigned __int128', '_Bool', 'wchar_t', 'unsigned char', 'ab c' * 60)

    def char_map(self, key, this, up, state):
        """What a function from text to text does, if it acts on each character by itself: it is interpreted on all
        characters and on sample names.  None if it is not such a function."""
        if 'map' in state:
            return state['map']
        state['map'] = None
        n0, e0 = len(C.trace), len(C.effects)

        def f(x):
            r = rv(self.call_fn(key, this, [Cell(tstr(x))], up))
            if not isinstance(r, TStr) or r.lit is None or len(C.trace) != n0 or len(C.effects) != e0:
                raise Unsupported('text function')
            return r.lit
        depth, func = C.depth, C.func
        try:
            m = {}
            for k in range(32, 127):
                r = f(chr(k))
                if len(r) != 1:
                    return None
                if r != chr(k):
                    m[k] = ord(r)
            if f('') != '' or any(f(x) != x.translate(m) for x in self.NAMES) or len(m) > 1:
                return None
        except (Unsupported, Infeasible, Abort, PathLimit):
            C.depth, C.func = depth, func
            return None
        state['map'] = m
        return m

    def compile_inits(self, d):
        out = []
        for ini in d.get('inits') or []:
            e = self.expr(ini['e']) if ini.get('e') is not None else None
            if 'm' in ini and ini['m'] is not None:
                n = ini['m']
                rec = self.p['records'].get(d['cls']) or {}
                ft = None
                for f in rec.get('fields') or []:
                    if f['n'] == n:
                        ft = f['t']
                ref = is_ref(ft) if ft else False

                def fi(fr, n=n, e=e, ref=ref):
                    v = e(fr) if e else UNINIT
                    o = fr.this.v
                    if ref:
                        o.f[n] = v if type(v) is Cell else Cell(v)
                    else:
                        o.f[n] = Cell(v.v if type(v) is Cell else v)
                out.append(fi)
            elif 'base' in ini and ini['base'] is not None:
                node = ini['e']
                out.append(self.base_init(node))
            else:
                node = ini['e']
                out.append(self.base_init(node))
        return out

    def base_init(self, node):
        # base class / delegating constructor: run on the same object
        if node and node.get('k') == 'Ctor' and node['f'] in self.fns:
            key = node['f']
            args = [self.expr(x) for x in node['a']]

            def bi(fr):
                self.call_fn(key, fr.this, [a(fr) for a in args])
            return bi
        return lambda fr: None

    # -------------------------------------------------- statements
    def stmt(self, s):
        if s is None:
            return lambda fr: None
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            if k in ('OtherStmt', 'OtherExpr'):
                def other(fr):
                    raise Unsupported('statement at line %s' % s.get('l'))
                return other
            e = self.expr(s)

            def ex(fr):
                e(fr)
            return ex
        return m(s)

    def s_Expr(self, s):
        e = self.expr(s['e'])

        def ex(fr):
            e(fr)
        return ex

    def s_Null(self, s):
        return lambda fr: None

    def s_Label(self, s):
        return self.stmt(s['s'])

    def has_dtor(self, t):
        return base_type(t) in self.dtors and not t.rstrip().endswith(('*', '&'))

    def s_Block(self, s):
        ss = [self.stmt(x) for x in s['s']]
        raii = []
        for x in s['s']:
            if x['k'] == 'Decls':
                for d in x['d']:
                    if d.get('k') == 'Var' and self.has_dtor(d.get('t') or ''):
                        raii.append((d['id'], self.dtors[base_type(d['t'])]))
        if not raii:
            if len(ss) == 1:
                return ss[0]

            def blk(fr):
                for x in ss:
                    r = x(fr)
                    if r is not None:
                        return r
            return blk

        def blk2(fr):
            for i, _ in raii:
                fr.vars.pop(i, None)
            r = None
            for x in ss:
                r = x(fr)
                if r is not None:
                    break
            for i, dk in reversed(raii):
                c = fr.vars.get(i)
                if c is not None:
                    self.call_fn(dk, c, [])
                    fr.vars.pop(i, None)
            return r
        return blk2

    def s_Decls(self, s):
        ds = [self.var(d) for d in s['d'] if d.get('k') == 'Var']
        if len(ds) == 1:
            return ds[0]

        def decls(fr):
            for d in ds:
                d(fr)
        return decls

    def s_Var(self, s):
        return self.var(s)

    def var(self, d):
        i = d['id']
        t = d.get('t') or ''
        ref = is_ref(t)
        init = self.expr(d['init']) if d.get('init') is not None else None
        binds = [(b['id'], self.expr(b['init']) if b.get('init') else None)
                 for b in d.get('bind') or []]
        static = d.get('static')
        prog = self

        def mk(fr):
            if static:
                c = C.statics.get(i)
                if c is not None:
                    fr.vars[i] = c
                    return
            if init is None:
                c = Cell(UNINIT)
            else:
                v = init(fr)
                if ref:
                    c = v if type(v) is Cell else Cell(v)
                else:
                    c = Cell(v.v if type(v) is Cell else v)
            fr.vars[i] = c
            if static:
                C.statics[i] = c
            if binds:
                prog.bind(fr, c, binds)
        return mk

    def bind(self, fr, c, binds):
        v = c.v
        names = None
        if isinstance(v, Obj):
            if v.cls in ('std::pair', 'std::tuple'):
                names = list(v.f)
            else:
                names = list(v.f)
        for n, (bid, bi) in enumerate(binds):
            if names is not None and n < len(names):
                fr.vars[bid] = v.f[names[n]]
            elif bi is not None:
                x = bi(fr)
                fr.vars[bid] = x if type(x) is Cell else Cell(x)
            elif isinstance(v, Term):
                fr.vars[bid] = Cell(T('.first' if n == 0 else '.second' if n == 1 else '.get%d' % n, v))
            elif isinstance(v, Vec):
                fr.vars[bid] = v.items[n]
            else:
                raise Unsupported('structured binding')

    def cond(self, s):
        """compiles optional init/var/cond to a function returning bool."""
        init = self.stmt(s['init']) if s.get('init') else None
        var = self.stmt(s['var']) if s.get('var') else None
        c = self.expr(s['c']) if s.get('c') is not None else None

        def f(fr):
            if init:
                init(fr)
            if var:
                var(fr)
            if c is None:
                return True
            v = c(fr)
            if v is True or v is False:
                return v
            return truth(v)
        return f

    def s_If(self, s):
        c = self.cond(s)
        th = self.stmt(s['th'])
        el = self.stmt(s['el']) if s.get('el') else None

        def iff(fr):
            if c(fr):
                return th(fr)
            elif el is not None:
                return el(fr)
        return iff

    def open_ended(self, c):
        """the loop does not count through something: nothing in its condition bounds it, so it ends when a
        symbolic question is answered."""
        if c is None:
            return True
        k = c.get('k')
        if k in ('Bool', 'Int', 'Ref', 'Member'):
            return True
        if k == 'Cast':
            return self.open_ended(c['e'])
        if k == 'Un':
            return c.get('op') == '!' and self.open_ended(c['e'])
        if k == 'Bin':
            if c['op'] in ('==', '!='):
                return any(self.is_nullptr(x) for x in (c['a'], c['b']))
            if c['op'] in ('&&', '||'):
                return self.open_ended(c['a']) and self.open_ended(c['b'])
        return False

    def is_nullptr(self, e):
        while e.get('k') == 'Cast':
            e = e['e']
        return e.get('k') == 'NullPtr'

    def loop(self, fr, pre, body, inc, post, bound=60):
        n = 0
        while True:
            if pre is not None:
                d0 = len(C.trace)
                if not pre(fr):
                    return
                if len(C.trace) != d0:
                    n += 1
                    if n > self.loop_bound:
                        C.note('loop bound')
                        raise Infeasible()
            C.steps += 1
            if C.steps > 20000:
                raise PathLimit('steps')
            d1 = len(C.trace)
            r = body(fr)
            if r is BRK:
                return
            if r is not None and r is not CNT:
                return r
            if inc is not None:
                inc(fr)
            if post is not None:
                if not post(fr):
                    return
            if len(C.trace) != d1:
                n += 1
                if n > bound:
                    C.note('loop bound')
                    raise Infeasible()

    def s_While(self, s):
        c = self.cond(s)
        b = self.stmt(s['b'])
        prog = self
        lit_true = s['c'] and s['c'].get('k') in ('Bool', 'Int')
        if lit_true:
            # while (true): bound by decisions inside the body
            def w2(fr):
                n = 0
                while c(fr):
                    d0 = len(C.trace)
                    r = b(fr)
                    if r is BRK:
                        return
                    if r is not None and r is not CNT:
                        return r
                    C.steps += 1
                    if C.steps > 20000:
                        raise PathLimit('steps')
                    if len(C.trace) != d0:
                        n += 1
                        if n > prog.loop_bound:
                            C.note('loop bound')
                            raise Infeasible()
            return w2
        bound = self.loop_bound if self.open_ended(s['c']) else 60
        return lambda fr: prog.loop(fr, c, b, None, None, bound)

    def s_Do(self, s):
        c = self.cond(s)
        b = self.stmt(s['b'])
        prog = self
        bound = self.loop_bound if self.open_ended(s['c']) else 60

        def do(fr):
            n = m = 0
            while True:
                d1 = len(C.trace)
                r = b(fr)
                if r is BRK:
                    return
                if r is not None and r is not CNT:
                    return r
                d0 = len(C.trace)
                if not c(fr):
                    return
                C.steps += 1
                if C.steps > 20000:
                    raise PathLimit('steps')
                if len(C.trace) != d0:
                    n += 1
                elif len(C.trace) != d1:
                    m += 1
                if n > prog.loop_bound or m > bound:
                    raise Infeasible()
        return do

    def s_For(self, s):
        init = self.stmt(s['init']) if s.get('init') else None
        c = self.cond({'c': s.get('c'), 'var': s.get('var')})
        b = self.stmt(s['b'])
        inc = self.stmt(s['inc']) if s.get('inc') else None
        prog = self
        bound = self.loop_bound if self.open_ended(s.get('c')) else 60

        def fo(fr):
            if init:
                init(fr)
            return prog.loop(fr, c, b, inc, None, bound)
        return fo

    def s_RangeFor(self, s):
        init = self.stmt(s['init']) if s.get('init') else None
        rng = self.expr(s['range'])
        v = s['var']
        vid = v['id']
        ref = is_ref(v.get('t') or '')
        byval_copy = not ref
        binds = [(b['id'], self.expr(b['init']) if b.get('init') else None)
                 for b in v.get('bind') or []]
        b = self.stmt(s['b'])
        prog = self

        def rf(fr):
            if init:
                init(fr)
            r = rv(rng(fr))
            for item in iterate(r):
                if ref:
                    fr.vars[vid] = item if type(item) is Cell else Cell(item)
                else:
                    fr.vars[vid] = Cell(copyval(item.v if type(item) is Cell else item))
                if binds:
                    prog.bind(fr, fr.vars[vid], binds)
                x = b(fr)
                if x is BRK:
                    break
                if x is not None and x is not CNT:
                    return x
        return rf

    def s_Return(self, s):
        if s.get('e') is None:
            return lambda fr: Ret(None)
        e = self.expr(s['e'])
        return lambda fr: Ret(e(fr))

    def s_Break(self, s):
        return lambda fr: BRK

    def s_Continue(self, s):
        return lambda fr: CNT

    def s_Try(self, s):
        return self.stmt(s['b'])

    def s_Case(self, s):
        return self.stmt(s['s'])

    def s_Default(self, s):
        return self.stmt(s['s'])

    def s_Switch(self, s):
        init = self.stmt(s['init']) if s.get('init') else None
        var = self.stmt(s['var']) if s.get('var') else None
        c = self.expr(s['c'])
        body = s['b']['s'] if s['b']['k'] == 'Block' else [s['b']]
        stmts = []
        labels = {}     # value -> index
        default = None
        for x in body:
            idx = len(stmts)
            while x is not None and x['k'] in ('Case', 'Default'):
                if x['k'] == 'Case':
                    v = x['v']
                    v = self.const(v)
                    labels[v] = idx
                else:
                    default = idx
                x = x['s']
            stmts.append(self.stmt(x))
        groups = {}
        for v, i in labels.items():
            groups.setdefault(i, set()).add(v)
        order = sorted(groups)
        prog = self

        def sw(fr):
            if init:
                init(fr)
            if var:
                var(fr)
            v = rv(c(fr))
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                i = labels.get(v, default)
            else:
                i = default
                for g in order:
                    if isinstance(v, Term) and getdom(v) is not None:
                        p = P_in(v, groups[g])
                        if g == default:
                            continue
                        if truth(p):
                            i = g
                            break
                    else:
                        hit = False
                        for lvv in sorted(groups[g]):
                            if truth(equal(v, lvv)):
                                hit = True
                                break
                        if hit:
                            i = g
                            break
            if i is None:
                return
            for x in stmts[i:]:
                r = x(fr)
                if r is BRK:
                    return
                if r is not None:
                    return r
        return sw

    def const(self, e):
        if isinstance(e, int):
            return e
        k = e['k']
        if k in ('Int', 'Char', 'Enum', 'Bool'):
            return int(e['v'])
        if k == 'Cast':
            return self.const(e['e'])
        if k == 'Un' and e['op'] == '-':
            return -self.const(e['e'])
        f = self.expr(e)
        v = rv(f(Frame()))
        return v

    # -------------------------------------------------- expressions
    def expr(self, e):
        if e is None:
            return lambda fr: None
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            k = e['k']

            def other(fr):
                raise Unsupported('expression %s at line %s' % (k, e.get('l')))
            return other
        return m(e)

    def e_Int(self, e):
        v = int(e['v'])
        return lambda fr: v

    e_Char = e_Int

    def e_Bool(self, e):
        v = bool(e['v'])
        return lambda fr: v

    def e_Float(self, e):
        v = float(e['v'])
        return lambda fr: v

    def e_Str(self, e):
        v = tstr(e['v'])
        return lambda fr: v

    def e_NullPtr(self, e):
        return lambda fr: NULL

    def e_Enum(self, e):
        v = int(e['v'])
        return lambda fr: v

    def e_This(self, e):
        def this(fr):
            f = fr
            while f.this is None and f.up is not None:
                f = f.up
            return Ptr(f.this)
        return this

    def e_Fn(self, e):
        v = Bound(e['f'])
        return lambda fr: v

    def e_Ref(self, e):
        i = e['id']
        if e.get('g'):
            return lambda fr: self.global_cell(i, e)

        def ref(fr):
            c = fr.vars.get(i)
            if c is None:
                f = fr.up
                while f is not None:
                    c = f.vars.get(i)
                    if c is not None:
                        return c
                    f = f.up
                c = C.statics.get(i)
                if c is not None:
                    return c
                g = self.p['globals'].get(i)
                if g is not None:
                    return self.global_cell(i, e)
                raise Unsupported('unbound variable %s at line %s' % (i, e.get('l')))
            return c
        return ref

    def global_cell(self, i, e):
        c = C.statics.get(i)
        if c is not None:
            return c
        g = self.p['globals'].get(i)
        c = C.config.global_value(self, i, g, e)
        if c is None:
            if g is not None and g.get('init') is not None:
                v = self.expr(g['init'])(Frame())
                c = v if type(v) is Cell and is_ref(g['t']) else Cell(rv(v))
            else:
                c = Cell(T('global:' + (e.get('qn') or e.get('n') or i)))
        C.statics[i] = c
        return c

    def e_Member(self, e):
        n = e['n']
        b = self.expr(e['b'])
        arrow = e.get('arrow')
        prog = self

        def mem(fr):
            o = b(fr)
            o = rv(o)
            if arrow:
                o = deref(o)
                o = rv(o)
            if type(o) is Obj:
                c = o.f.get(n)
                if c is None:
                    c = o.f[n] = Cell(UNINIT)
                return c
            if o is NULL:
                raise Abort('null dereference', C.line)
            if isinstance(o, Term):
                r = C.config.field(o, n)
                return Cell(r)
            raise Unsupported('member %s of %r' % (n, type(o)))
        return mem

    def e_Cast(self, e):
        ck = e['ck']
        x = self.expr(e['e'])
        if ck == 'LValueToRValue':
            def l2r(fr):
                v = x(fr)
                return v.v if type(v) is Cell else v
            return l2r
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            def tob(fr):
                v = rv(x(fr))
                if isinstance(v, bool):
                    return v
                if ck == 'PointerToBoolean':
                    return neg(is_null(v)) if not isinstance(v, TStr) else True
                if isinstance(v, (int, float)):
                    return bool(v)
                if isinstance(v, Term):
                    d = getdom(v)
                    if d is not None:
                        return T('not', P_in(v, (0,)))
                    return v
                return truth(v)
            return tob
        if ck == 'IntegralToFloating':
            def tof(fr):
                v = rv(x(fr))
                return float(v) if isinstance(v, int) else v
            return tof
        if ck == 'NullToPointer':
            return lambda fr: NULL
        if ck == 'ToVoid':
            def vo(fr):
                x(fr)
                return None
            return vo
        if ck == 'IntegralCast':
            t = e['t']

            def ic(fr):
                v = rv(x(fr))
                if isinstance(v, int) and not isinstance(v, bool):
                    if v < 0 and 'unsigned' in t:
                        bits = 64 if 'long' in t else 8 if 'char' in t else 16 if 'short' in t else 32
                        return v & ((1 << bits) - 1)
                    if t == 'int' and v >= (1 << 31):
                        return v - (1 << 32) if v < (1 << 32) else v
                return v
            return ic
        return x

    def e_Un(self, e):
        op = e['op']
        x = self.expr(e['e'])
        if op == '!':
            def no(fr):
                v = x(fr)
                if v is True:
                    return False
                if v is False:
                    return True
                return neg(v)
            return no
        if op == '&':
            def addr(fr):
                c = x(fr)
                v = rv(c)
                if isinstance(v, Term) and C.config.identity(v, e['t']):
                    return v
                if isinstance(v, Bound):
                    return v
                return Ptr(c if type(c) is Cell else Cell(c))
            return addr
        if op == '*':
            def de(fr):
                return deref(rv(x(fr)))
            return de
        if op == '-':
            def mi(fr):
                v = rv(x(fr))
                return arith('*', v, -1) if not isinstance(v, float) else -v
            return mi
        if op == '+':
            return lambda fr: rv(x(fr))
        if op == '~':
            def bn(fr):
                v = rv(x(fr))
                return ~v if isinstance(v, int) else T('op~', hashable(v))
            return bn
        if op in ('++', '--'):
            d = 1 if op == '++' else -1
            post = e.get('post')

            def inc(fr):
                c = x(fr)
                o = c.v
                if isinstance(o, Iter):
                    n = Iter(o.vec, o.i + d)
                elif isinstance(o, Ptr) and o.base is not None:
                    n = arith('+', o, d)
                else:
                    n = add(o, d)
                c.v = n
                return o if post else c
            return inc
        if op in ('__extension__',):
            return x
        return lambda fr: T('un' + op, hashable(rv(x(fr))))

    def e_Bin(self, e):
        op = e['op']
        a = self.expr(e['a'])
        b = self.expr(e['b'])
        if op == '&&':
            def land(fr):
                v = a(fr)
                if v is not True and (v is False or not truth(v)):
                    return False
                v = b(fr)
                return v.v if type(v) is Cell else v
            return land
        if op == '||':
            def lor(fr):
                v = a(fr)
                if v is True or (v is not False and truth(v)):
                    return True
                v = b(fr)
                return v.v if type(v) is Cell else v
            return lor
        if op == ',':
            def comma(fr):
                a(fr)
                return b(fr)
            return comma
        if op == '=':
            def asg(fr):
                r = b(fr)
                c = a(fr)
                v = rv(r)
                assign(c, v)
                return c
            return asg
        if op == '==':
            return lambda fr: equal(a(fr), b(fr))
        if op == '!=':
            def ne(fr):
                r = equal(a(fr), b(fr))
                return (not r) if isinstance(r, bool) else neg(r)
            return ne
        if op == '<':
            return lambda fr: less(a(fr), b(fr))
        if op == '>':
            return lambda fr: less(b2 if False else b(fr), a(fr)) if False else self._gt(a(fr), b(fr))
        if op == '<=':
            return lambda fr: self._le(a(fr), b(fr))
        if op == '>=':
            return lambda fr: self._ge(a(fr), b(fr))
        if op.endswith('=') and len(op) > 1:
            o2 = op[:-1]

            def ca(fr):
                r = rv(b(fr))
                c = a(fr)
                assign(c, arith(o2, c.v, r, e.get('t')))
                return c
            return ca
        typ = e.get('t')
        return lambda fr: arith(op, a(fr), b(fr), typ)

    @staticmethod
    def _gt(a, b):
        return less(b, a)

    @staticmethod
    def _le(a, b):
        r = less(b, a)
        return (not r) if isinstance(r, bool) else neg(r)

    @staticmethod
    def _ge(a, b):
        r = less(a, b)
        return (not r) if isinstance(r, bool) else neg(r)

    def is_assert_fail(self, e):
        while e and e['k'] == 'Cast':
            e = e['e']
        return bool(e and e['k'] == 'Call' and e.get('f') and
                    self.callees.get(e['f'], {}).get('qn') == '__assert_fail')

    def e_Cond(self, e):
        c = self.expr(e['c'])
        if self.is_assert_fail(e['b']):
            line = e.get('l')

            def asr(fr):
                C.config.asserted(self, fr, c, line)
                return None
            return asr
        a = self.expr(e['a'])
        b = self.expr(e['b'])

        def cond(fr):
            v = c(fr)
            if v is True or (v is not False and truth(v)):
                return a(fr)
            return b(fr)
        return cond

    def e_StdInit(self, e):
        return self.expr(e['e'])

    def e_InitList(self, e):
        xs = [self.expr(x) for x in e['a']]
        cls = e.get('cls')
        t = e.get('t') or ''
        rec = self.repo_record(cls) if cls else None
        bt = base_type(t)

        def il(fr):
            vals = [x(fr) for x in xs]
            if rec is not None:
                o = Obj(cls)
                for f, v in zip(rec.get('fields') or [], vals):
                    o.f[f['n']] = (v if type(v) is Cell else Cell(v)) if is_ref(f['t']) else Cell(rv(v))
                return o
            if '[' in t or bt.startswith('std::array') or bt.startswith('std::initializer_list') \
                    or bt.startswith('const std::'):
                if len(vals) == 1 and bt.startswith('std::array') and isinstance(rv(vals[0]), Vec):
                    return rv(vals[0])
                return Vec([Cell(rv(v)) for v in vals])
            if bt.startswith('std::pair'):
                return Obj('std::pair', {'first': Cell(rv(vals[0])), 'second': Cell(rv(vals[1]))})
            if len(vals) == 1 and not cls:
                return rv(vals[0])
            if len(vals) == 0:
                return C.config.default_value(self, bt)
            if cls is None:
                return Vec([Cell(rv(v)) for v in vals])
            return Obj(cls, {'$%d' % i: Cell(rv(v)) for i, v in enumerate(vals)})
        return il

    def e_ValueInit(self, e):
        ty = e.get('t') or ''
        t = base_type(ty)
        if ty.endswith('*'):
            return lambda fr: NULL
        if t == 'bool':
            return lambda fr: False
        if t in NUMERIC or t in self.p['enums']:
            return lambda fr: 0
        return lambda fr: C.config.default_value(self, t)

    def e_Index(self, e):
        b = self.expr(e['b'])
        i = self.expr(e['i'])

        def ix(fr):
            return index(rv(b(fr)), rv(i(fr)))
        return ix

    def e_New(self, e):
        x = self.expr(e['e']) if e.get('e') else None

        def new(fr):
            v = x(fr) if x else UNINIT
            return Ptr(Cell(rv(v)))
        return new

    def e_Delete(self, e):
        x = self.expr(e['e'])

        def de(fr):
            x(fr)
        return de

    def e_Throw(self, e):
        def th(fr):
            raise Abort('throw', C.line)
        return th

    def e_Lambda(self, e):
        key = e['f']
        if e.get('specs'):
            self.generic[key] = [k for k in e['specs'] if k in self.fns]
        caps = e.get('caps') or []
        cs = []
        for c in caps:
            if 'this' in c and c['this']:
                continue
            cs.append((c.get('id'), c.get('ref'), self.expr(c['init']) if c.get('init') else None))

        def lam(fr):
            f = fr
            while f.this is None and f.up is not None:
                f = f.up
            nf = Frame(f.this, fr, fr.fn)
            for i, ref, ini in cs:
                if ini is not None:
                    v = ini(fr)
                    nf.vars[i] = (v if type(v) is Cell else Cell(v)) if ref else Cell(copyval(rv(v)))
                elif not ref:
                    c = fr.find(i)
                    if c is not None:
                        nf.vars[i] = Cell(copyval(c.v))
            return Closure(key, nf, f.this)
        return lam

    # ------------------------------------------------- calls
    def e_Ctor(self, e):
        key = e['f']
        info = self.callees.get(key, {})
        cls = e.get('cls') or info.get('cls')
        args = [self.expr(x) for x in e['a']]
        line = e.get('l')
        kind = info.get('ctor')
        prog = self
        rec = self.repo_record(cls)
        if key in self.fns and (self.fns[key].get('b') is not None or self.fns[key].get('inits') is not None):
            def ct(fr):
                C.line = line
                vals = [a(fr) for a in args]
                C.line = line
                h = prog.ctor_hook(key, cls, vals)
                if h is not None:
                    return h
                if len(vals) == 1 and isinstance(rv(vals[0]), Closure) and kind in ('copy', 'move'):
                    return rv(vals[0])
                return prog.construct(cls, key, vals)
            return ct
        if rec is not None:
            if kind in ('copy', 'move'):
                def cm(fr):
                    v = args[0](fr)
                    if kind == 'move':
                        return moveval(v)
                    return copyval(rv(v))
                return cm

            def dflt(fr):
                return prog.construct(cls, None, [a(fr) for a in args])
            return dflt
        qn = strip_targs(cls or '')
        m = self.models.get(qn + '::' + qn.split('::')[-1]) or self.models.get('ctor ' + qn)
        if m is not None:
            def mc(fr):
                C.line = line
                vals = [a(fr) for a in args]
                C.line = line
                return m(prog, info, None, vals)
            return mc

        def ext(fr):
            C.line = line
            vals = [a(fr) for a in args]
            C.line = line
            return C.config.ext_ctor(prog, info, cls, kind, vals)
        return ext

    def ctor_hook(self, key, cls, vals):
        k = self.opaque.get(key)
        if k:
            return T('C:' + cls, *[hashable(v) for v in vals])
        return None

    def construct(self, cls, key, vals):
        o = Obj(cls)
        cell = Cell(o)
        self.default_fields(cls, o)
        if key is not None:
            self.call_fn(key, cell, vals)
        return o

    def default_fields(self, cls, o):
        rec = self.p['records'].get(cls) or {}
        for b in self.bases.get(cls, ()):
            if self.repo_record(b):
                self.default_fields(b, o)
        for f in rec.get('fields') or []:
            if f.get('init') is not None:
                v = self.expr(f['init'])(Frame(Cell(o)))
                o.f[f['n']] = Cell(rv(v))
            elif not is_ref(f['t']) and not f['t'].endswith('*'):
                v = C.config.default_value(self, base_type(f['t']))
                o.f[f['n']] = Cell(v)

    def resolve_virtual(self, key, info, obj):
        """key of the final overrider for the dynamic class of obj, or None."""
        if type(obj) is not Obj:
            return None
        name = info.get('n')
        cls = obj.cls
        seen = [cls]
        while seen:
            c = seen.pop(0)
            for k, f in self.fns.items():
                if f.get('cls') == c and f['qn'] == c + '::' + name and \
                        len(f['p']) == len(info.get('ps') or []):
                    return k
            seen.extend(self.bases.get(c, ()))
        return None

    def e_MCall(self, e):
        key = e['f']
        info = self.callees.get(key) or {'qn': key, 'n': key}
        o = self.expr(e['o'])
        arrow = e.get('arrow')
        args = [self.expr(x) for x in e['a']]
        line = e.get('l')
        return self.mcall(key, info, o, arrow, args, line, e.get('qual'))

    def mcall(self, key, info, o, arrow, args, line, qual=False):
        prog = self
        qn = strip_targs(info.get('qn') or '')
        virt = info.get('virt') and not qual
        model = self.models.get(qn)
        in_repo = key in self.fns
        cache = {}

        def call(fr):
            obj = o(fr)
            vals = [a(fr) for a in args]
            C.line = line
            v = obj.v if type(obj) is Cell else obj
            if arrow:
                if v is NULL:
                    raise Abort('null dereference', line)
                obj = deref(v)
                v = obj.v if type(obj) is Cell else obj
            if type(obj) is not Cell:
                obj = Cell(obj)
            h = prog.hooks.get(qn)
            if h is not None:
                r = h(prog, info, obj, vals)
                if r is not NotImplemented:
                    return r
            if virt and type(v) is Obj:
                k2 = cache.get(v.cls)
                if k2 is None:
                    k2 = cache[v.cls] = prog.resolve_virtual(key, info, v) or ''
                if k2:
                    return prog.invoke(k2, obj, vals)
            if in_repo:
                if type(v) is Term and v.f.startswith('C:'):
                    return T('.' + info['n'], v, *[hashable(x) for x in vals])
                if type(v) is Term:
                    return C.config.repo_method_on_term(prog, key, info, obj, vals)
                return prog.invoke(key, obj, vals)
            if model is not None:
                return model(prog, info, obj, vals)
            return C.config.ext_method(prog, info, qn, obj, vals)
        return call

    def invoke(self, key, obj, vals):
        k = self.opaque.get(key)
        if k == 'MR':
            for p, x in zip(self.fns[key]['p'], vals):
                if base_type(p['t']).startswith('clang::SourceRange'):
                    return T('MR', hashable(x))
        if k:
            return T('F:' + key, *[hashable(x) for x in vals])
        st = C.config.stack
        if st.count(key) >= self.rec_bound and key not in self.rec_free:
            C.note('recursion bound: ' + key)
            raise Infeasible()
        st.append(key)
        try:
            return self.call_fn(key, obj, vals)
        finally:
            st.pop()

    def e_Call(self, e):
        key = e.get('f')
        args = [self.expr(x) for x in e['a']]
        line = e.get('l')
        prog = self
        if not key:
            ce = self.expr(e['ce'])

            def dyn(fr):
                f = rv(ce(fr))
                vals = [a(fr) for a in args]
                C.line = line
                return prog.call_value(f, vals)
            return dyn
        info = self.callees.get(key) or {'qn': key, 'n': key}
        qn = strip_targs(info.get('qn') or '')
        model = self.models.get(qn)
        if key in self.fns:
            def rc(fr):
                vals = [a(fr) for a in args]
                C.line = line
                h = prog.hooks.get(qn)
                if h is not None:
                    r = h(prog, info, None, vals)
                    if r is not NotImplemented:
                        return r
                return prog.invoke(key, None, vals)
            return rc
        if model is not None:
            def mc(fr):
                vals = [a(fr) for a in args]
                C.line = line
                return model(prog, info, None, vals)
            return mc

        def xc(fr):
            vals = [a(fr) for a in args]
            C.line = line
            h = prog.hooks.get(qn)
            if h is not None:
                r = h(prog, info, None, vals)
                if r is not NotImplemented:
                    return r
            return C.config.ext_call(prog, info, qn, vals)
        return xc

    def call_value(self, f, vals):
        if isinstance(f, Closure):
            d = self.fns.get(f.key)
            if d is None:
                sp = self.generic.get(f.key) or ()
                if len(sp) != 1:
                    raise Unsupported('lambda body missing')
                return self.call_fn(sp[0], f.this, vals, f.frame)
            return self.call_fn(f.key, f.this, vals, f.frame)
        if isinstance(f, Bound):
            if f.key in self.fns:
                return self.invoke(f.key, f.obj, vals)
            info = self.callees.get(f.key) or {'qn': f.key, 'n': f.key}
            qn = strip_targs(info.get('qn') or '')
            m = self.models.get(qn)
            if m:
                return m(self, info, None, vals)
            return C.config.ext_call(self, info, qn, vals)
        if isinstance(f, Term):
            return T('call', f, *[hashable(v) for v in vals])
        raise Unsupported('call of %r' % (f,))

    def e_OpCall(self, e):
        key = e['f']
        info = self.callees.get(key) or {'qn': key, 'n': key}
        op = e['op']
        args = [self.expr(x) for x in e['a']]
        line = e.get('l')
        qn = strip_targs(info.get('qn') or '')
        cls = info.get('cls')
        prog = self
        nparams = len(info.get('ps') or [])
        member = cls is not None and not info.get('static') and nparams == len(args) - 1
        if op == '()' and args:
            def callop(fr):
                f = rv(args[0](fr))
                vals = [a(fr) for a in args[1:]]
                C.line = line
                if isinstance(f, (Closure, Bound)):
                    if f.key not in prog.fns and key in prog.fns:
                        return prog.call_fn(key, f.this, vals, f.frame)
                    return prog.call_value(f, vals)
                if isinstance(f, Obj) and key in prog.fns:
                    return prog.invoke(key, Cell(f), vals)
                if isinstance(f, Term):
                    return T('call', f, *[hashable(v) for v in vals])
                raise Unsupported('operator()')
            return callop
        if key in self.fns and self.fns[key].get('b') is not None:
            if member:
                def ro(fr):
                    vals = [a(fr) for a in args]
                    C.line = line
                    return prog.invoke(key, lv(vals[0]), vals[1:])
                return ro

            def rf(fr):
                vals = [a(fr) for a in args]
                C.line = line
                return prog.invoke(key, None, vals)
            return rf
        from stdmodel import opcall

        def oc(fr):
            if op == '=':
                # right operand first
                r = args[1](fr)
                l = args[0](fr)
                C.line = line
                return opcall(prog, info, qn, op, [l, r])
            vals = [a(fr) for a in args]
            C.line = line
            return opcall(prog, info, qn, op, vals)
        return oc


def deref(v):
    t = type(v)
    if t is Cell:
        v = v.v
        t = type(v)
    if t is Ptr:
        if v.c is None:
            raise Abort('out of range dereference', C.line)
        return v.c
    if t is Term:
        n = C.config.null(v)
        if n is None and known(T('null', v)) is True:
            raise Abort('null dereference', C.line)
        return Cell(v)
    if v is NULL:
        raise Abort('null dereference', C.line)
    if t is Iter:
        if v.i < 0 or v.i >= len(v.vec.items):
            raise Abort('out of range iterator', C.line)
        return v.vec.items[v.i]
    if t is TStr:
        return index(v, 0)
    if t is Opt:
        if v.c is None:
            raise Abort('empty optional', C.line)
        return v.c
    if t is Bound:
        return v
    if t is Obj:
        return Cell(v)
    if t is Vec:
        return v.items[0]
    raise Unsupported('deref of %r' % (v,))


def index(b, i):
    if isinstance(b, TStr):
        l = b.lit
        if l is not None and isinstance(i, int):
            if i == len(l):
                return 0
            if 0 <= i < len(l):
                return Cell(ord(l[i]))
            raise Abort('string index out of range', C.line)
        return Cell(T('[]', b, hashable(i)))
    if isinstance(b, Vec):
        if isinstance(i, int):
            if 0 <= i < len(b.items):
                return b.items[i]
            if b.sym is None:
                raise Abort('index out of range', C.line)
        return Cell(T('[]', hashable(b), hashable(i)))
    if isinstance(b, Ptr):
        if b.base is not None:
            return index(b.base, add(b.idx, i))
        if i == 0:
            return b.c
    if isinstance(b, Term):
        return Cell(C.config.elem(b, i))
    if b is NULL:
        raise Abort('null dereference', C.line)
    raise Unsupported('index of %r' % (b,))


def assign(c, v):
    if type(c) is not Cell:
        raise Unsupported('assignment to non-lvalue')
    c.v = v


def iterate(r):
    """items (Cells or values) of a range value."""
    if isinstance(r, Vec):
        if r.sym is not None:
            for x in C.config.iter_sym(r.sym):
                yield x
        i = 0
        while i < len(r.items):
            yield r.items[i]
            i += 1
            if i > 4000:
                raise PathLimit('container size')
        return
    if isinstance(r, TStr):
        if r.lit is not None:
            for ch in r.lit:
                yield Cell(ord(ch))
            return
        raise Unsupported('iteration over symbolic string')
    if isinstance(r, Term):
        for x in C.config.iter_sym(r):
            yield x
        return
    if isinstance(r, Obj) and 'first' in r.f and r.cls.startswith('llvm::iterator_range'):
        return
    raise Unsupported('iteration over %r' % (r,))
