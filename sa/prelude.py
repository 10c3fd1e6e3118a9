"""Analysis of the run-time support that the tool emits.

The text templates of the prelude come from the whole-tool analysis (pipeline.py).  Each template is parsed and
type-checked once, with a marker for every symbolic number (first id of the file, number of its mutants, values computed
from them), and its syntax tree is interpreted abstractly: integers are linear expressions over the first id, the number
of mutants, the queried id and the listed ids; every branch on them adds a linear constraint to the partition and
partitions with unsatisfiable constraints are dropped (Fourier-Motzkin elimination); quotients by constants are fresh
variables with their defining constraints; arrays are lists of symbolic stores; texts are sequences of characters and
opaque numerals; loops are widened after three iterations.  No numbers are substituted and nothing is executed."""
import json
import os
import re
import subprocess
import tempfile
import shutil
import build
import engine as E
from engine import Term, Lin, T

MARK = 7600000


class Unreadable(Exception):
    pass


class Wrong(Exception):
    """the emitted code does something it must not do."""


class Dead(Exception):
    """no values reach this partition."""


class Cut(Exception):
    """the partition was generalised: the rest is covered by the generic iteration."""


NUM, FIRST = T('num'), T('first')


# ------------------------------------------------------------------------------------------ templates
class Template:
    def __init__(self, cxx, track, parts, start, total, facts):
        self.cxx, self.track, self.parts = cxx, track, parts
        sub = {}
        first = start if isinstance(start, int) else FIRST
        for t, s in ((start, FIRST), (total, NUM)):
            if isinstance(t, int):
                continue
            c, m = E.as_lin(t)
            x = sorted(m, key=repr)[0]
            if m[x] != 1 or x in sub:
                raise Unreadable('the numbers of the file')
            d = {s: 1}
            for y, k in m.items():
                if y != x:
                    d[y] = d.get(y, 0) - k
            sub[x] = E.lin(-c, d)
        num = total if isinstance(total, int) else NUM
        self.first, self.num = first, num
        self.terms = []
        txt = ''
        for x in parts:
            if isinstance(x, str):
                txt += x
            else:
                x = subst(x, sub)
                if x not in self.terms:
                    self.terms.append(x)
                if txt[-1:].isalnum():
                    raise Unreadable('a number is attached to other text')
                txt += str(MARK + self.terms.index(x))
        self.text = txt
        self.facts = []
        for t, v in facts:
            t = subst(t, sub)
            if all(isinstance(x, (int, Lin, Term)) for x in t.a) and not (syms(t) - {NUM, FIRST}):
                self.facts.append((t, v))
        self.key = (cxx, track, txt, repr(first), repr(num), tuple(map(repr, self.terms)), tuple(sorted(map(repr, self.facts))))
        for t in self.terms:
            if syms(t) - {NUM, FIRST}:
                raise Unreadable('the number %r in the prelude' % (t,))

    def parse(self):
        exe = build.build_exporter()
        tmp = tempfile.mkdtemp(prefix='dredd-sa-')
        try:
            src = os.path.join(tmp, 'p.cc' if self.cxx else 'p.c')
            with open(src, 'w') as f:
                f.write(self.text)
            out = os.path.join(tmp, 'o.json')
            fl = ['-xc++', '-std=c++17'] if self.cxx else ['-xc', '-std=c11']
            r = subprocess.run([exe, out, tmp + '/', src, '--', *fl, '-w', '-resource-dir', build.LLVM + '/lib/clang/17'],
                               capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(out):
                m = re.search(r'error: (.*)', r.stderr)
                raise Wrong('the prelude does not compile%s' % (': ' + m.group(1) if m else ''))
            with open(out) as f:
                self.prog = json.load(f)
            if not self.prog['functions']:
                m = re.search(r'error: (.*)', r.stderr)
                raise Wrong('the prelude does not compile%s' % (': ' + m.group(1) if m else ''))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return self.prog

    def function(self, name):
        for k, f in self.prog['functions'].items():
            if f and f['qn'] == name:
                return k, f
        raise Wrong('the prelude does not define %s' % name)



def subst(t, m):
    if isinstance(t, Term):
        if t in m:
            return m[t]
        if t.a:
            return T(t.f, *[subst(x, m) if isinstance(x, (Term, Lin)) else x for x in t.a])
        return t
    if isinstance(t, Lin):
        c, d = E.as_lin(t)
        r = c
        for x, k in d.items():
            y = subst(x, m)
            for _ in range(abs(k)):
                r = E.add(r, y, 1 if k > 0 else -1)
        return r
    return t


def syms(t):
    if isinstance(t, Lin):
        return set().union(*[syms(x) for x in E.as_lin(t)[1]])
    if isinstance(t, Term):
        if t.f.startswith('op') or t.f in ('lt', 'le', 'eq', 'nz', 'not'):
            return set().union(set(), *[syms(x) for x in t.a])
        return {t}
    return set()


def scale(t, k):
    c, m = E.as_lin(t)
    return E.lin(c * k, {x: v * k for x, v in m.items()})


# ------------------------------------------------------------------------------------------ linear constraints
def row(t):
    """t <= 0 as (frozenset of items, constant)"""
    c, m = E.as_lin(t)
    return frozenset(m.items()), c


def tidy(m, c):
    g = 0
    for v in m.values():
        g = gcd(g, abs(v))
    if g > 1:
        m = {k: v // g for k, v in m.items()}
        c = -((-c) // g)        # integer tightening: sum <= -c/g
    return frozenset(m.items()), c


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


SAT = {}


def feasible(rows):
    """rows: (items, c) meaning sum + c <= 0"""
    key = frozenset(rows)
    if key in SAT:
        return SAT[key]
    cur = {}
    ok = True
    for it, c in rows:
        it, c = tidy(dict(it), c)
        if not it:
            if c > 0:
                ok = False
            continue
        if it not in cur or cur[it] < c:
            cur[it] = c
    while ok and cur:
        cnt = {}
        for it in cur:
            for x, v in it:
                a = cnt.setdefault(x, [0, 0])
                a[0 if v > 0 else 1] += 1
        x = min(cnt, key=lambda y: (cnt[y][0] * cnt[y][1] - cnt[y][0] - cnt[y][1], repr(y)))
        ps, ns, new = [], [], {}
        for it, c in cur.items():
            m = dict(it)
            v = m.pop(x, 0)
            if v > 0:
                ps.append((m, c, v))
            elif v < 0:
                ns.append((m, c, -v))
            else:
                new[it] = c
        if len(ps) * len(ns) > 4000:
            raise Unreadable('too many constraints')
        for m1, c1, a in ps:
            for m2, c2, b in ns:
                m = {}
                for y, v in m1.items():
                    m[y] = v * b
                for y, v in m2.items():
                    m[y] = m.get(y, 0) + v * a
                m = {y: v for y, v in m.items() if v}
                it, c = tidy(m, c1 * b + c2 * a)
                if not it:
                    if c > 0:
                        ok = False
                        break
                elif it not in new or new[it] < c:
                    new[it] = c
            if not ok:
                break
        cur = new
    SAT[key] = ok
    return ok


# ------------------------------------------------------------------------------------------ values
class Cell:
    __slots__ = ('v', 'of', 'ix')

    def __init__(self, v, of=None, ix=0):
        self.v, self.of, self.ix = v, of, ix


class Arr:
    """an array whose cells are known one by one (characters, and numerals as one cell)."""
    fixed = False

    def __init__(self, cells):
        self.c = [Cell(x, self, i) for i, x in enumerate(cells)]


class SArr:
    """an array of symbolic size: the stores made so far, in order."""

    def __init__(self, size, el):
        self.size, self.el, self.w = size, el, []


class SCell:
    """element i of a symbolic array."""

    def __init__(self, ev, arr, i):
        self.ev, self.arr, self.i = ev, arr, i

    @property
    def v(self):
        return Elem(self.arr, self.i, len(self.arr.w)) if self.arr.w else zero_of(self.arr.el)

    @v.setter
    def v(self, x):
        if isinstance(x, Or) and x.a.arr is self.arr and x.a.n == len(self.arr.w) and self.ev.same(x.a.i, self.i):
            self.arr.w.append(('or', self.i, x.b))
        else:
            self.arr.w.append(('set', self.i, x))


class Elem:
    """content of element i after n stores."""

    def __init__(self, arr, i, n):
        self.arr, self.i, self.n = arr, i, n


class Or:
    def __init__(self, a, b):
        self.a, self.b = a, b


class And:
    def __init__(self, a, b):
        self.a, self.b = a, b


class Bit:
    """1 << s"""

    def __init__(self, s):
        self.s = s


class P:
    """pointer to element i of an array (or of the one-element array around a cell)."""

    def __init__(self, arr, i):
        self.arr, self.i = arr, i


class Tok:
    """a numeral in a text: its value is the term."""

    def __init__(self, t):
        self.t = t


class File:
    def __init__(self, path, mode, ok):
        self.path, self.mode, self.ok = path, mode, ok


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


NULLP = None
INTW = {'bool': (1, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True),
        'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'long': (64, True),
        'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False)}
NPOS = (1 << 64) - 1


def plain(t):
    t = re.sub(r'\b(const|volatile|restrict|struct|class)\b', '', t or '').strip().rstrip('&').strip()
    m = re.match(r'(?:std::)?(?:_Atomic\((.*)\)|atomic<(.*)>)$', t)
    if m:
        return (m.group(1) or m.group(2)).strip()
    return re.sub(r'\s+', ' ', t)


class Tx(tuple):
    """a text: characters and numerals."""


def isint(v):
    return isinstance(v, (int, Lin, Term)) and not (isinstance(v, Term) and v.f == 'sym')


def rv(v):
    return v.v if isinstance(v, (Cell, SCell)) else v


def zero_of(t):
    return False if plain(t) == 'bool' else 0


class Run:
    """one partition: decisions taken, constraints collected."""

    def __init__(self, prefix, base):
        self.prefix, self.trace = prefix, []
        self.rows = list(base)
        self.fresh = 0
        self.divs = {}

    def add(self, *ts):
        for t in ts:
            self.rows.append(row(t))

    def can(self, *ts):
        return feasible(self.rows + [row(t) for t in ts])

    def branch(self, opts):
        ok = [o for o in opts if self.can(*o[0])]
        if not ok:
            raise Dead()
        i = 0
        if len(ok) > 1:
            k = len(self.trace)
            i = self.prefix[k] if k < len(self.prefix) else 0
            self.trace.append((i, len(ok)))
        self.add(*ok[i][0])
        return ok[i][1]

    def lt(self, a, b):
        d = E.add(a, b, -1)
        if isinstance(d, int):
            return d < 0
        return self.branch([([E.add(d, 1)], True), ([scale(d, -1)], False)])

    def eq(self, a, b):
        d = E.add(a, b, -1)
        if isinstance(d, int):
            return d == 0
        n = scale(d, -1)
        return self.branch([([d, n], True), ([E.add(d, 1)], False), ([E.add(n, 1)], False)])

    def must(self, t):
        """t <= 0 always"""
        return not self.can(E.add(1, t, -1))

    def must_eq(self, a, b):
        d = E.add(a, b, -1)
        return self.must(d) and self.must(scale(d, -1))

    def never_eq(self, a, b):
        d = E.add(a, b, -1)
        return not self.can(d, scale(d, -1))

    def sym(self, name):
        self.fresh += 1
        return T('%s%d' % (name, self.fresh))

    def div(self, x, c):
        """quotient of x >= 0 by a positive constant"""
        if isinstance(x, int):
            return x // c
        if (x, c) not in self.divs:
            q = T('quot', E.hashable(x), c)
            self.divs[x, c] = q
            m = E.add(x, scale(q, c), -1)
            self.add(scale(m, -1), E.add(m, c - 1, -1))
        return self.divs[x, c]

    def term(self, t):
        """linear form of an expression that the tool computed."""
        if isinstance(t, (int, bool)):
            return int(t)
        if isinstance(t, Lin):
            c, m = E.as_lin(t)
            r = c
            for x, k in m.items():
                r = E.add(r, scale(self.term(x), k))
            return r
        if t in (NUM, FIRST):
            return t
        if isinstance(t, Term) and t.f in ('op/', 'op%', 'op*', 'op>>', 'op<<', 'op+', 'op-', 'op&') and len(t.a) == 2:
            a, b = self.term(t.a[0]), self.term(t.a[1])
            return arith(self, t.f[2:], a, b)
        raise Unreadable('the number %r' % (t,))


def arith(run, op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        a, b = int(a), int(b)
        if op in '/%':
            if b == 0:
                raise Wrong('division by zero')
            q = abs(a) // abs(b)
            q = q if (a < 0) == (b < 0) else -q
            return q if op == '/' else a - b * q
        if op in ('<<', '>>') and b < 0:
            raise Wrong('a shift by a negative number')
        return {'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b, '^': a ^ b, '<<': a << b if op == '<<' else 0,
                '>>': a >> b if op == '>>' else 0}[op]
    if op == '+':
        return E.add(a, b)
    if op == '-':
        return E.add(a, b, -1)
    if op == '*' and isinstance(b, int):
        return scale(a, b)
    if op == '*' and isinstance(a, int):
        return scale(b, a)
    if isinstance(b, int):
        if op == '<<' and b >= 0:
            return scale(a, 1 << b)
        c = None
        if op in '/%' and b > 0:
            c = b
        elif op == '>>' and b >= 0:
            c = 1 << b
        elif op == '&' and b > 0 and (b & (b + 1)) == 0:
            c = b + 1
        if c is not None:
            neg = run.lt(a, 0)
            if not neg:
                q = run.div(a, c)
                return q if op in ('/', '>>') else E.add(a, scale(q, c), -1)
            if op in '/%':
                q = scale(run.div(scale(a, -1), c), -1)
                return q if op == '/' else E.add(a, scale(q, c), -1)
            raise Unreadable('bits of a negative number')
    raise Unreadable('operator %s' % op)


class Eval:
    def __init__(self, tpl, run, env, fopen_ok=True):
        self.t, self.prog, self.run, self.env, self.fopen_ok = tpl, tpl.prog, run, env, fopen_ok
        self.marks = {MARK + i: run.term(t) for i, t in enumerate(tpl.terms)}
        self.static = {}
        self.out = []           # (path, item) appended
        self.tok = None
        self.steps = 0
        self.frames = []
        self.closed = True

    def same(self, a, b):
        return E.add(a, b, -1) == 0

    # ---- conversions
    def wrap(self, v, t):
        t = plain(t)
        if t == 'bool':
            return self.truth(v)
        if isinstance(v, bool):
            v = int(v)
        if t not in INTW or not (isint(v) or isinstance(v, (Bit, And, Or, Elem))):
            return v
        w, s = INTW[t]
        if isinstance(v, int):
            v &= (1 << w) - 1
            if s and v >> (w - 1):
                v -= 1 << w
            return v
        if isinstance(v, Bit):
            return v if self.run.lt(v.s, w) else 0
        if isinstance(v, And):
            b = self.wrap(v.b, t)
            return And(v.a, b) if isinstance(b, Bit) else b
        if isinstance(v, (Or, Elem)):
            return v
        if w >= 32:
            if not s and self.run.lt(v, 0):
                return E.add(v, 1 << w)
            return v
        if self.run.must(scale(v, -1)) and self.run.must(E.add(v, (1 << (w - (1 if s else 0))) - 1, -1)):
            return v
        return self.run.sym('narrow')

    def truth(self, v):
        v = rv(v)
        if isinstance(v, File):
            return v.ok
        if isinstance(v, (bool, int)) or v is None:
            return v not in (0, None, False)
        if isint(v):
            return not self.run.eq(v, 0)
        if isinstance(v, Bit):
            return True
        if isinstance(v, And):
            return self.overlap(v)
        if isinstance(v, Elem):
            return self.content(v)
        if isinstance(v, Or):
            return self.truth(v.b) or self.truth(v.a)
        if isinstance(v, (P, Arr, SArr)):
            return True
        if isinstance(v, Tok):
            return True
        raise Unreadable('condition on %s' % type(v).__name__)

    def content(self, v):
        """whether an element is not zero."""
        for kind, i, x in reversed(v.arr.w[:v.n]):
            if self.run.eq(i, v.i):
                if self.truth(x):
                    return True
                if kind == 'set':
                    return False
        return False

    def overlap(self, v):
        """whether an element has the bits of a mask."""
        if not isinstance(v.a, Elem):
            raise Unreadable('operator &')

        def bits(x):
            if isinstance(x, Elem):
                raise Unreadable('element stored in another one')
            if isinstance(x, Or):
                return bits(x.a) or bits(x.b)
            if isinstance(x, Bit) and isinstance(v.b, Bit):
                return self.run.eq(x.s, v.b.s)
            if isinstance(x, int) and isinstance(v.b, Bit):
                if x == 0:
                    return False
                if x > 0 and x & (x - 1) == 0:
                    return self.run.eq(v.b.s, x.bit_length() - 1)
            if isinstance(x, Bit) and isinstance(v.b, int):
                if v.b == 0:
                    return False
                if v.b > 0 and v.b & (v.b - 1) == 0:
                    return self.run.eq(x.s, v.b.bit_length() - 1)
            if isinstance(x, int) and isinstance(v.b, int):
                return x & v.b != 0
            raise Unreadable('operator &')
        for kind, i, x in reversed(v.a.arr.w[:v.a.n]):
            if self.run.eq(i, v.a.i):
                if bits(x):
                    return True
                if kind == 'set':
                    return False
        return False

    # ---- storage
    def zero(self, t, local=False):
        m = re.match(r'(.*?)\[(\d+)\]$', t)
        if m:
            n = int(m.group(2))
            n = self.marks.get(n, n)
            if self.run.can(n):
                raise Wrong('an array is declared whose size can be zero')
            if local and plain(m.group(1)) in ('char', 'signed char', 'unsigned char') and isinstance(n, int):
                a = Arr([None] * n)
                a.fixed = True
                return a
            if plain(m.group(1)) not in INTW and plain(m.group(1)) != 'std::atomic_flag':
                raise Unreadable('an array of %s' % m.group(1))
            return SArr(n, m.group(1))
        t = plain(t)
        if t.endswith('*'):
            return NULLP
        if t == 'bool':
            return False
        if t in INTW:
            return 0
        if 'basic_string' in t:
            return Tx()
        if 'ofstream' in t or 'fstream' in t:
            return File(None, None, False)
        if 'mutex' in t or 'once_flag' in t or 'mtx_t' in t:
            return 0
        if t == 'std::atomic_flag':
            return False
        raise Unreadable('a variable of type %s' % t)

    def glob(self, i):
        if i in self.static:
            return self.static[i]
        g = self.prog['globals'].get(i)
        if g is None:
            raise Unreadable('variable %s' % i)
        c = Cell(self.zero(g['t']))
        self.static[i] = c
        if g.get('init') is not None and not isinstance(c.v, (Arr, SArr)) and \
                g['init']['k'] not in ('Ctor', 'InitList', 'ValueInit'):
            c.v = self.wrap(rv(self.ex(g['init'])), g['t'])
        return c

    def call(self, key, args):
        f = self.prog['functions'].get(key)
        if not f or f.get('b') is None:
            raise Unreadable('call of %s' % key)
        if len(self.frames) > 20:
            raise Unreadable('recursion')
        fr = {}
        for p, a in zip(f['p'], args):
            fr[p['id']] = a if isinstance(a, (Cell, SCell)) and p['t'].rstrip().endswith('&') else Cell(self.wrap(rv(a), p['t']))
        self.frames.append(fr)
        try:
            self.st(f['b'])
        except Ret as r:
            return self.wrap(r.v, f['ret']) if not isinstance(r.v, (Cell, SCell)) else r.v
        finally:
            self.frames.pop()
        return None

    # ---- statements
    def st(self, s):
        self.steps += 1
        if self.steps > 20000:
            raise Unreadable('the analysis of the prelude does not terminate')
        if s is None:
            return
        k = s['k']
        if k == 'Block':
            for x in s['s']:
                self.st(x)
        elif k == 'Decls':
            for d in s['d']:
                self.var(d)
        elif k == 'Expr':
            self.ex(s['e'])
        elif k == 'If':
            if s.get('init'):
                self.st(s['init'])
            if s.get('var'):
                self.var(s['var'])
            if self.cond(s['c']):
                self.st(s.get('th'))
            else:
                self.st(s.get('el'))
        elif k in ('While', 'For', 'Do'):
            self.loop(s, k)
        elif k == 'Return':
            e = s.get('e')
            v = self.ex(e) if e is not None else None
            raise Ret(rv(v))
        elif k == 'Break':
            raise Brk()
        elif k == 'Continue':
            raise Cont()
        elif k == 'Null':
            pass
        else:
            raise Unreadable('statement %s' % k)

    def snapshot(self):
        return {i: c.v for i, c in list(self.frames[-1].items()) + list(self.static.items()) if isinstance(c, Cell)}

    def loop(self, s, k):
        if s.get('init'):
            self.st(s['init'])
        n, snaps, wide = 0, [], None
        while True:
            snaps.append((self.snapshot(), len(self.out)))
            if n == 4:
                wide = self.widen(snaps)
            if not (k == 'Do' and n == 0) and s.get('c') is not None:
                if s.get('var'):
                    self.var(s['var'])
                if not self.cond(s['c']):
                    if n == 4:
                        self.only(wide)
                    break
            if n > 5:
                raise Cut()
            n += 1
            try:
                self.st(s.get('b'))
            except Brk:
                if n == 5:
                    self.only(wide)
                break
            except Cont:
                pass
            if k == 'For' and s.get('inc') is not None:
                self.ex(s['inc'])

    def only(self, j):
        """leaving in the generic iteration itself is the same as leaving after the one before it."""
        if not self.run.can(j):
            raise Dead()
        self.run.add(j)

    def widen(self, snaps):
        """generalises the state after four iterations to that after an arbitrary number of further ones."""
        (a, la), (b, lb), (c, lc) = snaps[-3:]
        j = self.run.sym('more')
        self.run.add(scale(j, -1))
        for i, v in c.items():
            if i not in b or i not in a:
                continue
            if isint(v) and isint(b[i]) and isint(a[i]):
                d, d0 = E.add(v, b[i], -1), E.add(b[i], a[i], -1)
                if d == 0 and d0 == 0:
                    continue
                if d != d0 or not isinstance(d, int):
                    raise Unreadable('a loop whose variables do not change regularly')
                v = E.add(v, scale(j, d))
                (self.frames[-1].get(i) or self.static[i]).v = v
            elif v is not b[i] and not (isinstance(v, File) or type(v) is type(b[i]) and v == b[i]):
                raise Unreadable('a loop over %s' % type(v).__name__)
        if lc - lb != lb - la:
            raise Unreadable('a loop whose output changes irregularly')
        self.out.append((None, ('gap', j, lc - lb)))
        return j

    def var(self, d):
        if d.get('static'):
            if d['id'] in self.static:
                return
            c = Cell(self.zero(d['t']))
            self.static[d['id']] = c
            i = d.get('init')
            if i is not None and not isinstance(c.v, (Arr, SArr)) and i['k'] not in ('Ctor', 'InitList', 'ValueInit'):
                c.v = self.wrap(rv(self.ex(i)), d['t'])
            return
        i = d.get('init')
        if i is None:
            v = None
            if '[' in d['t'] or 'std::' in d['t']:
                v = self.zero(d['t'], True)
        else:
            v = self.ex(i)
            if d['t'].rstrip().endswith('&') and isinstance(v, (Cell, SCell)):
                self.frames[-1][d['id']] = v
                return
            v = self.wrap(rv(v), d['t'])
        self.frames[-1][d['id']] = Cell(v)

    def cond(self, e):
        return self.truth(self.ex(e))

    # ---- expressions: a Cell for lvalues, a plain value otherwise
    def ex(self, e):
        self.steps += 1
        if self.steps > 20000:
            raise Unreadable('the analysis of the prelude does not terminate')
        h = getattr(self, 'e_' + e['k'], None)
        if h is None:
            raise Unreadable('expression %s' % (e.get('cls') or e['k']))
        return h(e)

    def e_Int(self, e):
        return self.marks.get(e['v'], e['v'])

    def e_Char(self, e):
        return e['v']

    def e_Bool(self, e):
        return bool(e['v'])

    def e_Str(self, e):
        return self.cstr(Tx(e['v']))

    def e_NullPtr(self, e):
        return NULLP

    def e_ValueInit(self, e):
        return self.zero(e['t'])

    def cstr(self, s):
        return P(Arr([x if isinstance(x, Tok) else ord(x) for x in s] + [0]), 0)

    def e_Ref(self, e):
        if e.get('qn', '').endswith('::npos'):
            return NPOS
        if e['id'] in self.frames[-1] if self.frames else False:
            return self.frames[-1][e['id']]
        if e['id'] in self.static:
            return self.static[e['id']]
        if e.get('g') and e.get('repo'):
            if e['id'] in self.prog['globals']:
                return self.glob(e['id'])
            raise Unreadable('static variable %s' % e.get('n'))
        if e.get('g'):
            return Cell(('sym', e.get('qn') or e['n']))
        raise Unreadable('variable %s' % e.get('n'))

    def e_Enum(self, e):
        return ('sym', e.get('qn') or e.get('n'))

    def e_Fn(self, e):
        return ('sym', e.get('qn') or e.get('n') or e.get('f'))

    def e_Cast(self, e):
        ck = e['ck']
        v = self.ex(e['e'])
        if ck in ('LValueToRValue', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            return rv(v)
        if ck == 'ArrayToPointerDecay':
            x = rv(v)
            return P(x, 0) if isinstance(x, (Arr, SArr)) else x
        if ck == 'NullToPointer':
            return NULLP
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return self.truth(v)
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            return self.wrap(rv(v), e['t'])
        if ck == 'ToVoid':
            return None
        if ck == 'UserDefinedConversion' and isinstance(rv(v), File):
            return rv(v).ok
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion',
                  'BitCast', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return v
        raise Unreadable('conversion %s' % ck)

    def e_Bin(self, e):
        op = e['op']
        if op == '&&':
            return self.cond(e['a']) and self.cond(e['b'])
        if op == '||':
            return self.cond(e['a']) or self.cond(e['b'])
        if op == ',':
            self.ex(e['a'])
            return self.ex(e['b'])
        if op == '=':
            b = rv(self.ex(e['b']))
            c = self.lv(e['a'])
            c.v = self.wrap(b, e['t'])
            return c
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            b = rv(self.ex(e['b']))
            c = self.lv(e['a'])
            old = Elem(c.arr, c.i, len(c.arr.w)) if isinstance(c, SCell) and op in ('|=', '&=') else c.v
            c.v = self.wrap(self.op(op[:-1], old, b, e['t']), e['t'])
            return c
        a, b = rv(self.ex(e['a'])), rv(self.ex(e['b']))
        return self.op(op, a, b, e['t'])

    def op(self, op, a, b, t):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if op in ('==', '!='):
            if isinstance(a, P) and isinstance(b, P):
                r = a.arr is b.arr and self.same(a.i, b.i)
            elif a is None or b is None:
                r = a is b
            elif isinstance(a, Tok) or isinstance(b, Tok):
                o = b if isinstance(a, Tok) else a
                if o in (0, ord(','), ord('\n'), ord(' '), ord(';')):
                    r = False
                else:
                    raise Unreadable('comparison with a digit')
            elif isint(a) and isint(b):
                r = self.run.eq(a, b)
            elif b == 0 and not isinstance(b, tuple):
                r = not self.truth(a)
            elif a == 0 and not isinstance(a, tuple):
                r = not self.truth(b)
            elif isinstance(a, And) and isinstance(a.b, Bit) and isinstance(b, Bit) and self.same(a.b.s, b.s):
                r = self.truth(a)
            else:
                raise Unreadable('operator ==')
            return r if op == '==' else not r
        if isinstance(a, P) and isint(b) and op in '+-':
            return P(a.arr, E.add(a.i, b, 1 if op == '+' else -1))
        if isinstance(a, P) and isinstance(b, P) and op == '-' and a.arr is b.arr:
            return E.add(a.i, b.i, -1)
        if op == '<<' and isint(b) and isinstance(a, int) and a == 1 and not isinstance(b, int):
            w = max(INTW.get(plain(t), (64, 0))[0], 32)
            if self.run.can(E.add(b, 1)) or self.run.can(E.add(w, b, -1)):
                raise Wrong('a value of %d bits can be shifted by a negative number or by %d or more' % (w, w))
            return Bit(b)
        if op == '>>' and isint(b) and isinstance(a, Elem):
            return And(a, Bit(b)) if not isinstance(b, int) else And(a, 1 << b)
        if op == '&':
            if isinstance(b, Elem):
                a, b = b, a
            if isinstance(a, Elem) and (isinstance(b, (Bit, int))):
                return And(a, b)
            if isinstance(a, And) and isinstance(b, int) and b == 1:
                return a
            if isinstance(a, int) and isinstance(b, (Bit, int)) and a == 0 or isinstance(b, int) and b == 0:
                return 0
        if op == '|':
            if isinstance(b, Elem):
                a, b = b, a
            if isinstance(a, Elem):
                return Or(a, b)
            if isinstance(a, int) and a == 0:
                return b
            if isinstance(b, int) and b == 0:
                return a
        if not isint(a) or not isint(b):
            raise Unreadable('operator %s on %s and %s' % (op, type(a).__name__, type(b).__name__))
        if op == '<':
            return self.run.lt(a, b)
        if op == '>':
            return self.run.lt(b, a)
        if op == '<=':
            return not self.run.lt(b, a)
        if op == '>=':
            return not self.run.lt(a, b)
        return self.wrap(arith(self.run, op, a, b), t)

    def e_Un(self, e):
        op = e['op']
        if op == '!':
            return not self.cond(e['e'])
        if op == '&':
            c = self.lv(e['e'])
            if isinstance(c, SCell):
                return P(c.arr, c.i)
            if c.of is not None:
                return P(c.of, c.ix)
            a = Arr([])
            a.c = [c]
            return P(a, 0)
        if op == '*':
            return self.deref(rv(self.ex(e['e'])), 0)
        if op in ('++', '--'):
            c = self.lv(e['e'])
            old = c.v
            if isinstance(old, P):
                c.v = P(old.arr, E.add(old.i, 1, 1 if op == '++' else -1))
            else:
                c.v = self.op(op[0], old, 1, e['t'])
            return old if e.get('post') else c
        v = rv(self.ex(e['e']))
        if not isint(v):
            raise Unreadable('operator %s' % op)
        if op == '-':
            return self.wrap(scale(v, -1), e['t'])
        if op == '~' and isinstance(v, int):
            return self.wrap(~v, e['t'])
        if op in ('+', '__extension__'):
            return v
        raise Unreadable('operator %s' % op)

    def deref(self, p, i):
        if p is None:
            raise Wrong('a null pointer is dereferenced')
        if isinstance(p, (Arr, SArr)):
            p = P(p, 0)
        if not isinstance(p, P) or not isint(i):
            raise Unreadable('indexing of %s' % type(p).__name__)
        j = E.add(p.i, i)
        if isinstance(p.arr, SArr):
            if self.run.can(E.add(j, 1)):
                raise Wrong('an array can be accessed at a negative index')
            if self.run.can(E.add(p.arr.size, j, -1)):
                raise Wrong('an array can be accessed beyond its end')
            return SCell(self, p.arr, j)
        if not isinstance(j, int):
            raise Unreadable('an index')
        if not 0 <= j < len(p.arr.c):
            raise Wrong('a text is accessed beyond its end')
        return p.arr.c[j]

    def e_Index(self, e):
        b, i = rv(self.ex(e['b'])), rv(self.ex(e['i']))
        return self.deref(b, i)

    def e_Cond(self, e):
        return self.ex(e['a'] if self.cond(e['c']) else e['b'])

    def e_InitList(self, e):
        xs = e.get('a') or e.get('s') or []
        if len(xs) == 1 and '[' not in e['t']:
            return self.ex(xs[0])
        return self.zero(e['t'])

    def lv(self, e):
        c = self.ex(e)
        return c if isinstance(c, (Cell, SCell)) else Cell(c)

    # ---- library
    def e_Ctor(self, e):
        cls = e.get('cls') or ''
        a = [self.ex(x) for x in e['a']]
        if 'basic_string' in cls and 'stream' not in cls:
            if not a:
                return Tx()
            return self.text(rv(a[0]))
        if cls.endswith('basic_ofstream'):
            f = File(None, None, False)
            if a:
                self.open(f, a)
            return f
        if cls.endswith(('lock_guard', 'unique_lock', 'scoped_lock')):
            return 0
        if cls.endswith('allocator') or cls == 'std::allocator':
            return 0
        if re.search(r'\[\d+\]$', e['t']):
            return self.zero(e['t'])
        if cls.startswith('std::atomic'):
            return rv(a[0]) if a else self.zero(plain(e['t']))
        raise Unreadable('an object of type %s' % cls)

    def text(self, v):
        if isinstance(v, Tx):
            return v
        if v is None:
            raise Wrong('a null pointer is used as a text')
        if isinstance(v, P) and isinstance(v.arr, Arr):
            s, i = [], 0
            while True:
                c = self.deref(v, i).v
                if c is None:
                    raise Wrong('memory that was not written is read')
                if isinstance(c, Tok):
                    s.append(c)
                elif c == 0:
                    return Tx(s)
                elif isinstance(c, int):
                    s.append(chr(c))
                else:
                    raise Unreadable('a text')
                i += 1
        raise Unreadable('a text')

    def pystr(self, v):
        s = self.text(v)
        if any(isinstance(x, Tok) for x in s):
            raise Unreadable('a text that is not constant')
        return ''.join(s)

    def open(self, f, a):
        f.path = self.text(rv(a[0]))
        f.mode = str([rv(x) for x in a[1:]])
        f.ok = self.fopen_ok
        if 'app' not in f.mode:
            raise Wrong('the tracking file is not opened for appending')

    def write(self, f, s):
        if f is None:
            raise Wrong('a file that could not be opened is written to')
        if not isinstance(f, File):
            raise Unreadable('a file')
        if f.ok:
            self.out += [(f.path, x) for x in s]

    def e_Call(self, e):
        if e.get('f') is None:
            raise Unreadable('indirect call')
        n = e['f'].split('(')[0].split('{')[0].split('<')[0]
        f = self.prog['functions'].get(e['f'])
        if f:
            return self.call(e['f'], [self.ex(x) for x in e['a']])
        b = n.split('::')[-1]
        a = [rv(self.ex(x)) for x in e['a']]
        h = getattr(self, 'f_' + b.replace('__builtin_', ''), None)
        if h is None:
            raise Unreadable('function %s' % n)
        return h(a, e)

    def f_getenv(self, a, e):
        n = self.pystr(a[0])
        v = self.env.get(n)
        return NULLP if v is None else self.cstr(v)

    def f_malloc(self, a, e):
        if not isinstance(a[0], int):
            raise Unreadable('malloc')
        return P(Arr([None] * a[0]), 0)

    def f_calloc(self, a, e):
        if not isinstance(a[0], int) or not isinstance(a[1], int):
            raise Unreadable('calloc')
        return P(Arr([0] * (a[0] * a[1])), 0)

    def f_free(self, a, e):
        return None

    def f_strlen(self, a, e):
        return len(self.text(a[0]))

    def f_strcpy(self, a, e):
        s = self.text(a[1])
        if isinstance(a[0], P) and isinstance(a[0].arr, Arr) and a[0].arr.fixed and any(isinstance(x, Tok) for x in s):
            raise Wrong('a text of arbitrary length is copied into an array of constant size')
        for i, x in enumerate(s):
            self.deref(a[0], i).v = x if isinstance(x, Tok) else ord(x)
        self.deref(a[0], len(s)).v = 0
        return a[0]

    def f_memcpy(self, a, e):
        if not isinstance(a[2], int):
            raise Unreadable('memcpy')
        if isinstance(a[0], P) and isinstance(a[0].arr, Arr) and a[0].arr.fixed:
            raise Unreadable('memcpy')
        for i in range(a[2]):
            self.deref(a[0], i).v = self.deref(a[1], i).v
        return a[0]

    def f_strdup(self, a, e):
        return self.cstr(self.text(a[0]))

    def strtok(self, p, delim):
        d = [ord(x) for x in self.pystr(delim)]
        if p is None:
            return NULLP, NULLP

        def at(q):
            return self.deref(q, 0).v

        def isin(c, l):
            return not isinstance(c, Tok) and c in l
        while isin(at(p), d):
            p = P(p.arr, p.i + 1)
        if isin(at(p), [0]):
            return NULLP, NULLP
        q = p
        while not isin(at(q), d + [0]):
            q = P(q.arr, q.i + 1)
        if isin(at(q), [0]):
            return p, NULLP
        self.deref(q, 0).v = 0
        return p, P(q.arr, q.i + 1)

    def f_strtok(self, a, e):
        r, self.tok = self.strtok(a[0] if a[0] is not None else self.tok, a[1])
        return r

    def f_strtok_r(self, a, e):
        c = self.deref(a[2], 0)
        r, c.v = self.strtok(a[0] if a[0] is not None else c.v, a[1])
        return r

    def f_strchr(self, a, e):
        i = 0
        if not isinstance(a[0], P) or not isinstance(a[1], int) or chr(a[1]).isdigit():
            raise Unreadable('strchr')
        while True:
            x = self.deref(a[0], i).v
            if not isinstance(x, Tok):
                if x == a[1]:
                    return P(a[0].arr, a[0].i + i)
                if x == 0:
                    return NULLP
            i += 1

    def numeral(self, v, strict=False):
        s = self.text(v)
        if s and isinstance(s[0], Tok):
            return s[0].t
        if not s:
            if strict:
                raise Wrong('text that is not a number is parsed')
            return 0
        if s[0] in ',;':
            if strict:
                raise Wrong('text that is not a number is parsed')
            return 0
        raise Unreadable('a numeral')

    def f_atoi(self, a, e):
        return self.wrap(self.numeral(a[0]), e['t'])

    f_atol = f_atoll = f_atoi

    def f_stoi(self, a, e):
        if len(a) > 2 and isinstance(a[2], int) and a[2] not in (10, 0):
            return self.run.sym('otherbase')
        return self.wrap(self.numeral(a[0], True), e['t'])

    f_stol = f_stoul = f_stoll = f_stoull = f_stoi

    def f_strtol(self, a, e):
        s = self.text(a[0])
        if a[1] is not None:
            self.deref(a[1], 0).v = P(a[0].arr, a[0].i + (1 if s and isinstance(s[0], Tok) else 0))
        if isinstance(a[2], int) and a[2] not in (10, 0):
            return self.run.sym('otherbase')
        return self.wrap(self.numeral(a[0]), e['t'])

    f_strtoul = f_strtoll = f_strtoull = f_strtol

    def f_fopen(self, a, e):
        if not self.pystr(a[1]).startswith('a'):
            raise Wrong('the tracking file is not opened for appending')
        return File(self.text(a[0]), 'app', True) if self.fopen_ok else NULLP

    def f_fclose(self, a, e):
        if a[0] is None:
            raise Wrong('a file that could not be opened is closed')
        return 0

    def f_fflush(self, a, e):
        return 0

    def f_fprintf(self, a, e):
        fmt, xs = self.pystr(a[1]), list(a[2:])
        out, i = [], 0
        for m in re.finditer(r'%(?:%|([-+ #0-9.]*)[a-z]*?([a-zA-Z]))', fmt):
            out += list(fmt[i:m.start()])
            i = m.end()
            if m.group(0) == '%%':
                out.append('%')
                continue
            if not xs:
                raise Wrong('a conversion without argument')
            v = xs.pop(0)
            if m.group(2) == 's':
                out += list(self.text(v))
            elif m.group(2) == 'c' and isinstance(v, int):
                out.append(chr(v))
            elif m.group(2) in 'diu' and not m.group(1):
                out.append(Tok(v))
            else:
                out.append('<%s>' % m.group(0))
        self.write(a[0], out + list(fmt[i:]))
        return 0

    def f_fputs(self, a, e):
        self.write(a[1], self.text(a[0]))
        return 0

    def f_fputc(self, a, e):
        self.write(a[1], [chr(a[0]) if isinstance(a[0], int) else '<char>'])
        return 0

    def f_to_string(self, a, e):
        return Tx([Tok(a[0])])

    def nothing(self, a, e):
        return 0

    f_mtx_lock = f_mtx_unlock = f_pthread_mutex_lock = f_pthread_mutex_unlock = nothing

    def f_move(self, a, e):
        return a[0]

    def f_expect(self, a, e):
        return a[0]

    def rmw(self, c, op, v):
        if op in ('exchange', 'test_and_set'):
            old = c.v
            if isinstance(old, Elem):
                old = self.truth(old)
            c.v = True if op == 'test_and_set' else v
            return old
        if op in ('store', 'init'):
            c.v = v
            return None
        if op == 'load':
            return c.v
        if op == 'fetch_or' and isinstance(v, (bool, int)):
            old = self.truth(c.v)
            if v:
                c.v = True
            return old
        if op == 'fetch_or':
            old = Elem(c.arr, c.i, len(c.arr.w)) if isinstance(c, SCell) else c.v
            c.v = self.op('|', old, v, 'unsigned long')
            return old
        if op == 'clear':
            c.v = False
            return None
        if op in ('fetch_add', 'fetch_sub') and isint(c.v):
            old = c.v
            c.v = E.add(old, v, 1 if op == 'fetch_add' else -1)
            return old
        raise Unreadable('atomic %s' % op)

    def e_OtherExpr(self, e):
        if e.get('cls') == 'AtomicExpr':
            op = e['op'].replace('__c11_atomic_', '').replace('__atomic_', '').replace('_n', '')
            a = [rv(self.ex(x)) for x in e['s']]
            # children: pointer, order, value ...
            return self.rmw(self.deref(a[0], 0), op, a[2] if len(a) > 2 else a[1] if op == 'init' else None)
        if e.get('cls') in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr') and \
                len(e['s']) == 1:
            return self.ex(e['s'][0])
        raise Unreadable('expression %s' % e.get('cls'))

    def e_MCall(self, e):
        n = e['f'].split('(')[0].split('{')[0].split('::')[-1]
        c = self.lv(e['o'])
        o = c.v
        if e.get('arrow') and isinstance(o, P):
            c = self.deref(o, 0)
            o = c.v
        a = [rv(self.ex(x)) for x in e['a']]
        cls = e['f'].split('::' + n)[0]
        if cls.startswith('std::atomic') or cls.startswith('std::__atomic'):
            if n.startswith('operator') and not n.startswith('operator='):
                return o
            if n.startswith('operator='):
                n = 'store'
            if n.startswith('compare_exchange'):
                exp = self.lv(e['a'][0])
                old = self.truth(o)
                if old == self.truth(exp.v):
                    c.v = a[1]
                    return True
                exp.v = old
                return False
            return self.rmw(c, n, a[0] if a else None)
        if isinstance(o, Tx):
            return self.strm(c, n, a)
        if isinstance(o, File):
            if n == 'open':
                self.open(o, a)
                return None
            if n in ('is_open', 'good', 'operator bool'):
                return o.ok
            if n in ('fail', 'bad', 'operator!'):
                return not o.ok
            if n in ('close', 'flush'):
                return None
            if n == 'operator<<':
                return self.put(c, a[0], e['a'][0])
            if n == 'put':
                self.write(o, [chr(a[0]) if isinstance(a[0], int) else '<char>'])
                return c
        raise Unreadable('method %s' % e['f'].split('(')[0])

    def strm(self, c, n, a):
        s = c.v
        if n in ('find', 'find_first_of'):
            x = chr(a[0]) if isinstance(a[0], int) else self.pystr(a[0])
            start = a[1] if len(a) > 1 and isinstance(a[1], int) else 0
            if len(x) != 1 or x.isdigit():
                raise Unreadable('string::find')
            for i in range(start, len(s)):
                if s[i] == x:
                    return i
            return NPOS
        if n == 'substr':
            p = a[0] if a else 0
            k = a[1] if len(a) > 1 else NPOS
            if not isinstance(p, int) or not isinstance(k, int):
                raise Unreadable('substr')
            if p > len(s):
                raise Wrong('substr beyond the end')
            return Tx(s[p:] if k >= len(s) else s[p:p + k])
        if n == 'empty':
            return not s
        if n in ('size', 'length'):
            return len(s)
        if n == 'erase':
            p = a[0] if a else 0
            k = a[1] if len(a) > 1 else NPOS
            if not isinstance(p, int) or not isinstance(k, int):
                raise Unreadable('erase')
            if p > len(s):
                raise Wrong('erase beyond the end')
            c.v = Tx(s[:p] + (() if k >= len(s) else s[p + k:]))
            return c
        if n in ('c_str', 'data'):
            return self.cstr(s)
        if n == 'clear':
            c.v = Tx()
            return None
        if n in ('append', 'push_back'):
            c.v = Tx(s + ((chr(a[0]),) if isinstance(a[0], int) else tuple(self.text(a[0]))))
            return c
        raise Unreadable('string::%s' % n)

    def put(self, c, v, node):
        f = c.v
        if isinstance(v, tuple) and not isinstance(v, Tx) and v[0] == 'sym':
            if v[1].split('<')[0].endswith('endl'):
                self.write(f, '\n')
            elif v[1].split('<')[0].endswith(('hex', 'oct', 'showbase', 'showpos')):
                self.write(f, ['<%s>' % v[1]])
            return c
        if isinstance(v, (Tx, P)):
            s = self.text(v)
        elif plain(node.get('t')) in ('char', 'signed char', 'unsigned char'):
            s = [chr(v) if isinstance(v, int) else '<char>']
        elif isint(v):
            s = [Tok(v)]
        else:
            raise Unreadable('output of %s' % type(v).__name__)
        self.write(f, s)
        return c

    def e_OpCall(self, e):
        op = e['op']
        if op == '<<':
            c = self.lv(e['a'][0])
            if isinstance(c.v, File):
                return self.put(c, rv(self.ex(e['a'][1])), e['a'][1])
        if op in ('=', '+=', '|=', '++'):
            c = self.lv(e['a'][0])
            v = rv(self.ex(e['a'][1])) if len(e['a']) > 1 else 1
            if isinstance(c.v, Tx) or isinstance(v, Tx):
                v = self.text(v) if not isinstance(v, int) else Tx(chr(v))
                c.v = v if op == '=' else Tx(c.v + v)
                return c
            if op == '=':
                c.v = v
                return c
            old = Elem(c.arr, c.i, len(c.arr.w)) if isinstance(c, SCell) and op == '|=' else c.v
            c.v = self.op('|' if op == '|=' else '+', old, v, 'int')
            return c.v
        a = [rv(self.ex(x)) for x in e['a']]
        if op == '!' and isinstance(a[0], File):
            return not a[0].ok
        if op in ('==', '!=') and any(isinstance(x, Tx) for x in a):
            x, y = self.text(a[0]), self.text(a[1])
            if len(x) and len(y):
                raise Unreadable('comparison of texts')
            r = len(x) == len(y)
            return r if op == '==' else not r
        if op == '+' and any(isinstance(x, Tx) for x in a):
            return Tx(sum((((chr(x),) if isinstance(x, int) else tuple(self.text(x))) for x in a), ()))
        if op == '[]':
            if isinstance(a[0], Tx):
                if not isinstance(a[1], int):
                    raise Unreadable('an index')
                x = a[0][a[1]] if a[1] < len(a[0]) else '\0'
                return x if isinstance(x, Tok) else ord(x)
            return self.deref(a[0], a[1])
        raise Unreadable('operator %s' % op)


# ------------------------------------------------------------------------------------------ rules
def base(tpl):
    """constraints between the first id and the number of mutants."""
    run = Run([], [])
    rows = []
    if not isinstance(tpl.first, int):
        rows += [row(scale(FIRST, -1))]
    rows += [row(E.add(1, tpl.num, -1))]
    run.rows = rows
    for t, v in tpl.facts:
        f, a = t.f, t.a
        try:
            a = [run.term(x) for x in a]
        except Unreadable:
            continue
        d = E.add(a[0], a[1], -1) if len(a) == 2 else a[0] if len(a) == 1 else None
        if d is None or isinstance(d, int):
            continue
        if f == 'lt':
            run.add(E.add(d, 1) if v else scale(d, -1))
        elif f == 'le':
            run.add(d if v else E.add(scale(d, -1), 1))
        elif f == 'eq' and v or f == 'nz' and not v:
            run.add(d, scale(d, -1))
    return run.rows


def partitions(tpl, analyse, limit=6000):
    """analyse(run) for every partition; its result is None or a message."""
    rows = base(tpl)
    if not feasible(rows):
        return 0, None
    prefix, n = [], 0
    while True:
        run = Run(prefix, rows)
        try:
            r = analyse(run)
        except Dead:
            r = None
        n += 1
        if r:
            return n, r
        t = run.trace
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return n, None
        prefix = [x[0] for x in t]
        prefix[-1] += 1
        if n > limit:
            raise Unreadable('too many partitions')


def show(run, names):
    return ''


SOME = '__dredd_some_mutation_enabled'


def regular(tpl):
    """C06: (number of partitions, None or (message, situation))"""
    key, f = tpl.function('__dredd_enabled_mutation')
    total = 0
    forms = [('not set', None, 0), ('empty', (), 0), ('one id', (0,), 1), ('one id and a comma', (0, ','), 1),
             ('two ids', (0, ',', 1), 2), ('two ids and a comma', (0, ',', 1, ','), 2), ('three ids', (0, ',', 1, ',', 2), 3)]
    for name, form, k in forms:
        def analyse(run, form=form, k=k, name=name):
            vs = [T('listed%d' % i) for i in range(k)]
            qs = [T('query%d' % i) for i in range(2 if k < 3 else 1)]
            for v in vs:
                run.add(scale(v, -1))
            for q in qs:
                run.add(scale(q, -1), E.add(E.add(q, 1), tpl.num, -1))
            env = None if form is None else Tx(Tok(vs[x]) if isinstance(x, int) else x for x in form)
            ex = Eval(tpl, run, {'DREDD_ENABLED_MUTATION': env})
            some = None
            for i, g in tpl.prog['globals'].items():
                if g['qn'] == SOME:
                    some = ex.glob(i)
            if some is None:
                raise Wrong('the prelude does not define ' + SOME)
            what = 'DREDD_ENABLED_MUTATION: %s' % name
            if not ex.truth(some):
                return 'before the first query no mutant is considered', what
            for n, q in enumerate(qs):
                w = what + (', second query' if n else '')
                try:
                    r = ex.truth(ex.call(key, [q]))
                except Wrong as x:
                    return str(x), w
                ids = [E.add(v, tpl.first, -1) for v in vs]
                if r and not any(run.must_eq(v, q) for v in ids):
                    return 'a mutant can be enabled that the variable does not list', w
                if not r and not all(run.never_eq(v, q) for v in ids):
                    return 'a mutant can be disabled that the variable lists', w
                if not ex.truth(some):
                    for v in ids:
                        if run.can(scale(v, -1), E.add(E.add(v, 1), tpl.num, -1)):
                            return 'no mutant is considered although the variable lists one of the file', w
            return None
        n, r = partitions(tpl, analyse)
        total += n
        if r:
            return total, r
    return total, None


def tracking(tpl):
    """C05"""
    key, f = tpl.function('__dredd_record_covered_mutants')
    total = 0
    l1, k1, l2, k2 = T('place1'), T('mutants1'), T('place2'), T('mutants2')
    seqs = [('a place', [(l1, k1)]), ('the same place twice', [(l1, k1), (l1, k1)]),
            ('a place and one with larger ids', [(l1, k1), (l2, k2)]), ('a place and one with smaller ids', [(l2, k2), (l1, k1)])]
    for envset in (True, False):
        for ok in (True, False):
            for name, seq in seqs:
                if not envset and not ok:
                    continue

                def analyse(run, envset=envset, ok=ok, name=name, seq=seq):
                    for l, k in ((l1, k1), (l2, k2)):
                        if (l, k) in seq:
                            run.add(scale(l, -1), scale(k, -1), E.add(E.add(l, k), tpl.num, -1))
                    if len(set(seq)) == 2:
                        run.add(E.add(E.add(l1, k1), l2, -1))
                    path = Tx(['\x01'])
                    ex = Eval(tpl, run, {'DREDD_MUTANT_TRACKING_FILE': path if envset else None}, ok)
                    what = '%s; DREDD_MUTANT_TRACKING_FILE is %s%s' % (name, 'set' if envset else 'not set',
                                                                       '' if ok else ', the file cannot be opened')
                    seen = set()
                    for l, k in seq:
                        ex.out = []
                        cut = False
                        try:
                            ex.call(key, [l, k])
                        except Wrong as w:
                            return str(w), what
                        except Cut:
                            cut = True
                        if any(p is not None and p != path for p, _ in ex.out):
                            return 'another file is written', what
                        r = sequence(run, ex.out, E.add(tpl.first, l), cut)
                        if isinstance(r, str):
                            return r, what
                        if cut:
                            return None
                        want = k if envset and ok and (l, k) not in seen else 0
                        seen.add((l, k))
                        if not run.must_eq(r, want):
                            return ('the ids of a place are recorded again' if want == 0 else 'not all ids of a place are recorded, or '
                                    'too many') if ok and envset else 'ids are recorded', what
                    return None
                n, r = partitions(tpl, analyse)
                total += n
                if r:
                    return total, r
    return total, None


def sequence(run, out, first, cut):
    """number of consecutive ids, one per line, that were recorded; or a message."""
    n = 0
    i = 0
    items = [x for _, x in out]
    while i < len(items):
        x = items[i]
        if isinstance(x, tuple) and x[0] == 'gap':
            if x[2] == 0:
                i += 1
                continue
            if x[2] != 2:
                return 'the ids are not recorded one per line'
            n = E.add(n, x[1])
            i += 1
            continue
        if not isinstance(x, Tok) or not isint(x.t):
            return 'something else than an id is recorded'
        if not run.must_eq(x.t, E.add(first, n)):
            return 'an id is recorded that does not belong to the place'
        if i + 1 >= len(items) or items[i + 1] != '\n':
            return 'an id is not followed by a line break'
        n = E.add(n, 1)
        i += 2
    return n


HIDDEN = {'strtok', 'localtime', 'gmtime', 'asctime', 'ctime', 'strerror', 'rand', 'srand', 'setenv', 'putenv', 'setlocale',
          'tmpnam', 'strsignal', 'getpwnam', 'gethostbyname', 'readdir', 'drand48', 'lgamma', 'mblen', 'ecvt'}
OKTYPES = re.compile(r'^(const )?(std::atomic\b|std::atomic_flag|_Atomic\(|std::mutex|std::once_flag|std::recursive_mutex|'
                     r'std::shared_mutex|once_flag|mtx_t|pthread_mutex_t|atomic_flag)')


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def shared_state(tpl):
    """C07: yields (key, message)."""
    fns = {k: f for k, f in tpl.prog['functions'].items() if f}
    statics = []
    for i, g in tpl.prog['globals'].items():
        statics.append((i, g['qn'], g['t'], g.get('tls'), g.get('const')))
    for k, f in fns.items():
        for n in walk(f):
            if n.get('k') == 'Var' and n.get('static'):
                statics.append((n['id'], n['n'], n['t'], n.get('tls'), n['t'].startswith('const ')))
    count = len(statics)
    locked = {}
    for k, f in fns.items():
        locked[k] = any((n.get('k') == 'Ctor' and str(n.get('cls')).endswith(('lock_guard', 'unique_lock', 'scoped_lock'))) or
                        (n.get('k') == 'Call' and re.match(r'(mtx_lock|pthread_mutex_lock)\b', str(n.get('f')))) for n in walk(f))
    found = []
    for i, name, t, tls, const in statics:
        el = re.sub(r'(\[\d+\])+$', '', t)
        if tls or const or OKTYPES.match(el):
            continue
        users = [k for k, f in fns.items() if any(n.get('k') == 'Ref' and n.get('id') == i for n in walk(f))]
        if users and all(locked[k] for k in users):
            continue
        found.append(('shared %s' % name, 'the variable %s is shared by all threads and neither atomic nor thread-local' % name))
    for k, f in fns.items():
        for n in walk(f):
            if n.get('k') == 'Call' and n.get('f'):
                count += 1
                b = n['f'].split('(')[0].split('{')[0].split('::')[-1]
                if b in HIDDEN:
                    found.append((b, '%s calls %s, which keeps state that all threads share' % (f['qn'], b)))
    # a flag that is tested and set has to be in one step
    for i, name, t, tls, const in statics:
        el = re.sub(r'(\[\d+\])+$', '', t)
        if tls or not OKTYPES.match(el) or 'mutex' in el or 'once' in el:
            continue
        ops = set()
        for k, f in fns.items():
            if locked[k]:
                ops.add('rmw')
            for n in walk(f):
                nm = tg = None
                if n.get('k') == 'MCall':
                    nm, tg = n['f'].split('(')[0].split('{')[0].split('::')[-1], n.get('o')
                elif n.get('k') == 'OtherExpr' and n.get('cls') == 'AtomicExpr':
                    nm, tg = n['op'], n['s'][:1]
                elif n.get('k') == 'OpCall' and n.get('op') == '=':
                    nm, tg = 'store', n['a'][:1]
                elif n.get('k') == 'Bin' and n.get('op') == '=':
                    nm, tg = 'store', n['a']
                elif n.get('k') == 'Cast' and n.get('ck') == 'AtomicToNonAtomic':
                    nm, tg = 'load', n['e']
                if nm is None or not any(x.get('k') == 'Ref' and x.get('id') == i for x in walk(tg)):
                    continue
                if 'load' in nm or nm.startswith('operator') and not nm.startswith('operator='):
                    ops.add('load')
                elif 'store' in nm or nm.startswith('operator='):
                    ops.add('store')
                else:
                    ops.add('rmw')
        if {'load', 'store'} <= ops and 'rmw' not in ops:
            found.append(('two-step %s' % name, '%s is tested and set in two steps, so two threads can both find it unset' % name))
    return count, found
