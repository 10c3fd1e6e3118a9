"""Abstract semantics of the parts of the C++ standard library the analysed
program uses (and of close relatives a refactoring would reach for)."""
import engine as E
from engine import (T, Term, TStr, Lin, Cell, Ptr, Obj, Vec, Opt, Iter, Stream, Closure, Bound,
                    NULL, EMPTY, UNINIT, rv, lv, tstr, cat, copyval, moveval, truth, neg,
                    equal, less, arith, add, hashable, deref, index, iterate, base_type,
                    strip_targs, Abort, Unsupported, PathLimit, Infeasible)

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


SEQ = ('std::vector', 'std::set', 'std::unordered_set', 'std::deque', 'std::list',
       'std::initializer_list', 'std::array', 'std::multiset', 'llvm::SmallVector',
       'llvm::SmallVectorImpl', 'std::span', 'llvm::SmallPtrSet', 'llvm::DenseSet',
       'llvm::StringSet', 'std::stack', 'std::queue', 'llvm::SmallVectorTemplateBase',
       'llvm::SmallVectorTemplateCommon', 'llvm::SmallVectorBase', 'llvm::SmallSet',
       'llvm::SetVector', 'std::forward_list')
MAP = ('std::map', 'std::unordered_map', 'llvm::DenseMap', 'llvm::StringMap', 'std::multimap')
SETS = ('std::set', 'std::unordered_set', 'std::multiset', 'llvm::SmallPtrSet', 'llvm::DenseSet',
        'llvm::StringSet', 'llvm::SmallSet', 'llvm::SetVector')
SMART = ('std::unique_ptr', 'std::shared_ptr', 'llvm::IntrusiveRefCntPtr', 'std::__shared_ptr',
         'std::weak_ptr')
STR = ('std::basic_string', 'llvm::StringRef', 'std::basic_string_view', 'llvm::Twine')
HASHED = ('std::unordered_set', 'std::unordered_map', 'llvm::SmallPtrSet', 'llvm::DenseSet',
          'llvm::DenseMap', 'llvm::StringSet', 'llvm::StringMap')


def kind_of(cls):
    return strip_targs(cls or '')


def truthy_pred(f, prog):
    return lambda x: truth(prog.call_value(rv(f), [x]))


# ------------------------------------------------------------------ strings
def to_str(v, ptype=None):
    """value -> TStr; chars are ints with char type."""
    v = rv(v)
    if isinstance(v, TStr):
        return v
    if isinstance(v, Term):
        return TStr((v,))
    if isinstance(v, bool):
        return tstr('1' if v else '0')
    if isinstance(v, int):
        if ptype is not None and 'char' in ptype and 'char *' not in ptype:
            return tstr(chr(v))
        return tstr(str(v))
    if isinstance(v, Lin):
        return TStr((v,))
    if isinstance(v, float):
        return tstr(('%g' % v))
    if isinstance(v, Ptr):
        if isinstance(v.c.v, TStr):
            return v.c.v
        return TStr((T('addr', hashable(v)),))
    if v is NULL:
        return TStr((T('addr', 'null'),))
    if isinstance(v, Vec):
        return to_str(Vec_str(v))
    return TStr((T('str', hashable(v)),))


def Vec_str(v):
    s = ''
    for c in v.items:
        if not isinstance(c.v, int):
            return T('str', hashable(v))
        if c.v == 0:
            break
        s += chr(c.v)
    return tstr(s)


def string_ctor(prog, info, o, a):
    if not a:
        return EMPTY
    ps = info.get('ps') or []
    k = info.get('ctor')
    if k == 'move':
        return rv(a[0])
    if k == 'copy':
        return rv(a[0])
    v = rv(a[0])
    if len(a) >= 2 and ps and ps[0] in ('unsigned long', 'size_t') and 'char' in ps[1]:
        c = rv(a[1])
        if isinstance(v, int) and isinstance(c, int):
            return tstr(chr(c) * v)
        return TStr((T('fill', hashable(v), hashable(c)),))
    if isinstance(v, Iter):
        w = rv(a[1])
        if isinstance(v.vec, StrBox) and isinstance(w, Iter):
            return substr(v.vec.cell.v, v.i, w.i - v.i)
        items = v.vec.items[v.i:w.i]
        s = EMPTY
        for c in items:
            s = cat(s, to_str(c, 'char'))
        return s
    if isinstance(v, StrIt):
        return strit_range(v, rv(a[1]))
    if isinstance(v, Term) and len(a) >= 2 and not (ps[1:2] and 'alloc' in ps[1]):
        n = rv(a[1])
        if isinstance(n, (int, Lin, Term)) and 'alloc' not in (ps[1] if len(ps) > 1 else ''):
            return TStr((T('chars', v, hashable(n)),))
    if isinstance(v, TStr) and len(a) >= 2 and len(ps) > 1 and 'long' in ps[1]:
        if len(a) >= 3 and len(ps) > 2 and 'long' in ps[2]:
            return substr(v, rv(a[1]), rv(a[2]))
        if 'char *' in ps[0]:
            return substr(v, 0, rv(a[1]))
        return substr(v, rv(a[1]), None)
    if isinstance(v, Vec):
        s = EMPTY
        for c in v.items:
            s = cat(s, to_str(c, 'char'))
        return s
    return to_str(v)


for c in STR:
    MODELS[c + '::' + c.split('::')[-1]] = string_ctor


class StrBox:
    """container view of a string cell, for iterators."""
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell


class StrIt:
    __slots__ = ('cell', 'end', 'off')

    def __init__(self, cell, end, off=0):
        self.cell = cell
        self.end = end
        self.off = off


def strit_range(a, b):
    if isinstance(a, StrIt) and isinstance(b, StrIt) and not a.end and a.off == 0 and b.end and b.off == 0:
        return a.cell.v
    if isinstance(a, StrIt) and isinstance(b, StrIt) and not a.end and not b.end:
        return substr(a.cell.v, a.off, add(b.off, a.off, -1))
    raise Unsupported('string iterator range')


def substr(s, pos, n):
    s = tstr(s)
    if pos == 0 and n is None:
        return s
    l = s.lit
    if l is not None and isinstance(pos, int) and (n is None or isinstance(n, int)):
        if pos > len(l):
            raise Abort('substr out of range', E.C.line)
        return tstr(l[pos:] if n is None or n < 0 or n > len(l) else l[pos:pos + n])
    # symbolic: keep exact prefix cuts on literal heads
    if isinstance(pos, int) and n is None and s.p and isinstance(s.p[0], str) and pos <= len(s.p[0]):
        return TStr(((s.p[0][pos:],) if s.p[0][pos:] else ()) + s.p[1:])
    return TStr((T('substr', s if s.lit is None or True else s, hashable(pos),
                   None if n is None else hashable(n)),))


def strlen(s):
    s = tstr(s)
    n = 0
    for x in s.p:
        if isinstance(x, str):
            n = add(n, len(x))
        else:
            n = add(n, T('len', x))
    return n


def str_mutating(f):
    def m(prog, info, o, a):
        r = f(prog, info, o, a)
        return o if r is None else r
    return m


def s_append(prog, info, o, a):
    ps = info.get('ps') or ['']
    v = rv(a[0])
    if len(a) == 2 and ps[0] in ('unsigned long', 'size_t'):
        c = rv(a[1])
        x = tstr(chr(c) * v) if isinstance(v, int) and isinstance(c, int) else TStr((T('fill', hashable(v), hashable(c)),))
    elif len(a) == 2 and isinstance(v, TStr):
        x = substr(v, 0, rv(a[1]))
    elif len(a) == 3 and isinstance(v, TStr):
        x = substr(v, rv(a[1]), rv(a[2]))
    elif len(a) == 2 and isinstance(v, StrIt):
        x = strit_range(v, rv(a[1]))
    else:
        x = to_str(v, ps[0])
    o.v = cat(tstr(o.v), x)
    return o


def s_find(prog, info, o, a, rev=False):
    s = tstr(rv(o))
    x = to_str(a[0], (info.get('ps') or [''])[0])
    pos = rv(a[1]) if len(a) > 1 else 0
    if s.lit is not None and x.lit is not None and isinstance(pos, int):
        r = s.lit.rfind(x.lit) if rev else s.lit.find(x.lit, pos)
        return r if r >= 0 else (1 << 64) - 1
    return T('.find', s, x, hashable(pos))


def s_starts(prog, info, o, a, end=False):
    s = tstr(rv(o))
    x = to_str(a[0], (info.get('ps') or [''])[0])
    if x.lit is not None and s.p:
        p = s.p[-1] if end else s.p[0]
        if isinstance(p, str):
            if len(p) >= len(x.lit):
                return p.endswith(x.lit) if end else p.startswith(x.lit)
            ov = (x.lit.endswith(p) if end else x.lit.startswith(p))
            if not ov or s.lit is not None:
                return False
        elif len(s.p) >= 1:
            tn = E.C.config.str_affix(p, x.lit, end)
            if tn is not None:
                return tn
    elif x.lit is not None and not s.p:
        return x.lit == ''
    return T('.ends' if end else '.starts', s, x)


def str_method(prog, info, o, a):
    n = info['n']
    s = rv(o)
    if isinstance(s, Term):
        s = tstr(s)
        if isinstance(o, Cell) and n in MUT:
            o.v = s
    if not isinstance(s, TStr):
        if isinstance(s, Obj):
            raise Unsupported('string method %s' % n)
        s = to_str(s)
    ps = info.get('ps') or ['']
    if n in ('str', 'c_str', 'data', 'operator basic_string', 'getSingleStringRef', 'toStringRef') or n.startswith('operator '):
        if n == 'str' and a:
            o.v = to_str(a[0])
            return None
        return s
    if n in ('size', 'length'):
        return strlen(s)
    if n == 'empty':
        if not s.p:
            return True
        if any(isinstance(x, str) for x in s.p):
            return False
        return E.C.config.str_empty(s)
    if n == 'append' or n == 'operator+=':
        return s_append(prog, info, o, a)
    if n == 'push_back':
        o.v = cat(s, to_str(a[0], 'char'))
        return None
    if n == 'pop_back':
        if s.p and isinstance(s.p[-1], str):
            o.v = TStr(s.p[:-1] + ((s.p[-1][:-1],) if s.p[-1][:-1] else ()))
            return None
        o.v = TStr((T('popback', s),))
        return None
    if n in ('substr',):
        return substr(s, rv(a[0]) if a else 0,
                      rv(a[1]) if len(a) > 1 and not is_npos(rv(a[1])) else None)
    if n in ('drop_front', 'drop_back', 'take_front', 'take_back'):
        k = rv(a[0]) if a else 1
        if n == 'drop_front':
            return substr(s, k, None)
        if n == 'take_front':
            return substr(s, 0, k)
        return TStr((T(n, s, hashable(k)),))
    if n in ('find', 'find_first_of', 'find_last_of', 'rfind', 'find_first_not_of', 'find_last_not_of'):
        if n in ('find', 'rfind'):
            return s_find(prog, info, o, a, n == 'rfind')
        return T('.' + n, s, *[hashable(to_str(x)) for x in a])
    if n in ('contains',):
        x = to_str(a[0], ps[0])
        if s.lit is not None and x.lit is not None:
            return x.lit in s.lit
        if x.lit is not None and any(isinstance(p, str) and x.lit in p for p in s.p):
            return True
        return T('.contains', s, x)
    if n in ('starts_with', 'startswith'):
        return s_starts(prog, info, o, a)
    if n in ('ends_with', 'endswith'):
        return s_starts(prog, info, o, a, True)
    if n in ('equals', ):
        return equal(s, to_str(a[0]))
    if n == 'compare' and len(a) == 1 and getattr(E.C.config, 'hash_order', None) and isinstance(rv(a[0]), TStr):
        p, q = repr(s), repr(to_str(a[0]))
        return (p > q) - (p < q)
    if n == 'compare':
        r = equal(s, to_str(a[0]))
        return 0 if truth(r) else T('.compare', s, to_str(a[0]))
    if n in ('clear',):
        o.v = EMPTY
        return None
    if n in ('reserve', 'shrink_to_fit'):
        return None
    if n in ('begin', 'cbegin'):
        return StrIt(o, False)
    if n in ('end', 'cend'):
        return StrIt(o, True)
    if n in ('back', 'front'):
        if s.p:
            p = s.p[-1] if n == 'back' else s.p[0]
            if isinstance(p, str):
                return Cell(ord(p[-1] if n == 'back' else p[0]))
            return Cell(T('.' + n, p))
        raise Abort('%s of empty string' % n, E.C.line)
    if n in ('at', 'operator[]'):
        return index(s, rv(a[0]))
    if n == 'insert':
        p = rv(a[0])
        if p == 0 or (isinstance(p, StrIt) and not p.end and p.off == 0):
            x = to_str(a[1], ps[1] if len(ps) > 1 else None)
            o.v = cat(x, s)
            return o
        if equal(p, strlen(s)) is True or (isinstance(p, StrIt) and p.end):
            o.v = cat(s, to_str(a[1], ps[1] if len(ps) > 1 else None))
            return o
        if s.lit is not None and isinstance(p, int):
            x = to_str(a[1], ps[1] if len(ps) > 1 else None)
            o.v = cat(cat(tstr(s.lit[:p]), x), tstr(s.lit[p:]))
            return o
        raise Unsupported('string insert')
    if n in ('erase', 'replace', 'resize'):
        if s.lit is not None and n == 'erase' and all(isinstance(rv(x), int) for x in a):
            p = rv(a[0]) if a else 0
            k = rv(a[1]) if len(a) > 1 else len(s.lit)
            o.v = tstr(s.lit[:p] + s.lit[p + k:])
            return o
        if n == 'replace' and len(a) >= 3 and s.lit is not None and isinstance(rv(a[0]), int) and isinstance(rv(a[1]), int):
            p, k = rv(a[0]), rv(a[1])
            o.v = cat(cat(tstr(s.lit[:p]), to_str(a[2])), tstr(s.lit[p + k:]))
            return o
        o.v = TStr((T('str.' + n, s, *[hashable(x) for x in a]),))
        return o
    if n == 'assign' or n == 'operator=':
        o.v = to_str(a[0], ps[0])
        return o
    if n == 'swap':
        o.v, a[0].v = a[0].v, o.v
        return None
    return T('.' + n, s, *[hashable(x) for x in a])


MUT = ('append', 'push_back', 'pop_back', 'clear', 'insert', 'erase', 'replace', 'resize', 'operator+=', 'operator=', 'assign')


def is_npos(v):
    return isinstance(v, int) and v in (-1, (1 << 64) - 1)


for c in STR:
    for n in ('str', 'c_str', 'data', 'size', 'length', 'empty', 'append', 'push_back', 'pop_back',
              'substr', 'find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of',
              'find_last_not_of', 'contains', 'starts_with', 'ends_with', 'startswith', 'endswith',
              'equals', 'compare', 'clear', 'reserve', 'begin', 'end', 'cbegin', 'cend', 'back',
              'front', 'at', 'insert', 'erase', 'replace', 'resize', 'assign', 'swap',
              'drop_front', 'drop_back', 'take_front', 'take_back', 'operator basic_string',
              'operator basic_string_view', 'operator StringRef', 'toStringRef', 'operator[]',
              'operator+=', 'operator=', 'shrink_to_fit'):
        MODELS[c + '::' + n] = str_method


@model('std::to_string', 'llvm::to_string', 'llvm::itostr', 'llvm::utostr')
def to_string(prog, info, o, a):
    v = rv(a[0])
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        return tstr('%f' % v)
    return to_str(v)


@model('std::stoi', 'std::stol', 'std::stoul')
def stoi(prog, info, o, a):
    s = tstr(rv(a[0]))
    if s.lit is not None:
        try:
            return int(s.lit)
        except ValueError:
            raise Abort('stoi', E.C.line)
    return T('stoi', s)


@model('isalnum', 'isalpha', 'isdigit', 'isspace', 'isupper', 'islower', 'ispunct',
       'std::isalnum', 'std::isalpha', 'std::isdigit', 'std::isspace', 'std::isupper', 'std::islower')
def isx(prog, info, o, a):
    v = rv(a[0])
    if isinstance(v, int):
        ch = chr(v & 0xff)
        return int(getattr(ch, info['n'].split('::')[-1])()) if info['n'] != 'ispunct' else int(not ch.isalnum() and not ch.isspace())
    return T(info['n'], hashable(v))


@model('toupper', 'tolower', 'std::toupper', 'std::tolower')
def toup(prog, info, o, a):
    v = rv(a[0])
    if isinstance(v, int):
        return ord(chr(v).upper() if 'upper' in info['n'] else chr(v).lower())
    return T(info['n'], hashable(v))


# ------------------------------------------------------------------ streams
def stream_ctor(prog, info, o, a):
    cls = strip_targs(info.get('cls') or '')
    if cls in ('std::basic_ofstream', 'std::basic_fstream', 'llvm::raw_fd_ostream'):
        name = to_str(a[0]) if a else None
        s = Stream('ofstream', sink=name)
        if a:
            E.C.effect('open', name, hashable(rv(a[1])) if len(a) > 1 else None)
        return s
    if cls == 'llvm::raw_string_ostream':
        return Stream('rso', sink=a[0])
    s = Stream(cls)
    if a and isinstance(rv(a[0]), (TStr, Term)):
        s.buf = to_str(a[0])
    return s


for c in ('std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream',
          'std::basic_ofstream', 'std::basic_fstream', 'llvm::raw_fd_ostream', 'llvm::raw_string_ostream'):
    MODELS[c + '::' + c.split('::')[-1]] = stream_ctor


def stream_method(prog, info, o, a):
    s = rv(o)
    n = info['n']
    if isinstance(s, Stream):
        if n == 'str':
            if a:
                s.buf = to_str(a[0])
                return None
            if s.name == 'rso':
                return s.sink.v
            return s.buf
        if n == 'flush':
            E.C.effect('flush', s.sink)
            return o
        if n in ('close', 'open', 'good', 'fail', 'is_open', 'bad', 'eof', 'operator bool', 'operator!', 'clear', 'has_error', 'flush', 'error'):
            if n == 'open':
                s.sink = to_str(a[0])
                E.C.effect('open', s.sink, None)
                return None
            if n == 'close':
                E.C.effect('close', s.sink)
                return None
            if n == 'clear':
                E.C.effect('clear', s.sink)
                return None
            if n in ('bad', 'is_open', 'eof'):
                # says less than whether all went well
                k = T('stream' + n, hashable(s.sink), len([e for e in E.C.effects if e[1] == s.sink and e[0] != 'streamcheck']))
                if n == 'is_open' and not E.truth(k):
                    E.C.effect('streamcheck', s.sink, T('streamok', hashable(s.sink), -1))
                    E.C.facts[T('streamok', hashable(s.sink), -1)] = False
                return k
            k = E.stream_ok(s)
            return neg(k) if n in ('fail', 'bad', 'operator!', 'has_error') else k
        if n == 'write' or n == 'put':
            stream_put(lv(o), to_str(a[0], 'char' if n == 'put' else None) if n == 'put' else substr(to_str(a[0]), 0, rv(a[1])))
            return o
        if n in ('precision', 'width', 'fill', 'setf', 'flags', 'imbue', 'unsetf', 'setstate', 'exceptions', 'rdbuf', 'tellp', 'rdstate'):
            return None
    return T('.' + n, hashable(rv(o)), *[hashable(x) for x in a])


for c in ('std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream', 'std::basic_ofstream',
          'std::basic_ostream', 'std::basic_ios', 'std::basic_fstream', 'llvm::raw_string_ostream',
          'llvm::raw_ostream', 'std::ios_base', 'llvm::raw_fd_ostream'):
    for n in ('str', 'flush', 'close', 'open', 'good', 'fail', 'is_open', 'bad', 'eof', 'operator bool',
              'operator!', 'write', 'put', 'precision', 'width', 'fill', 'setf', 'clear', 'has_error', 'error',
              'flags', 'setstate', 'exceptions'):
        MODELS[c + '::' + n] = stream_method


def stream_put(cell, x):
    s = cell.v
    if s.name == 'rso':
        s.sink.v = cat(tstr(s.sink.v), x)
    elif s.name == 'ofstream':
        s.buf = cat(s.buf, x)
        E.C.effect('filewrite', s.sink, x)
    elif s.name in ('stdout', 'stderr'):
        E.C.effect('print', s.name, x)
    else:
        s.buf = cat(s.buf, x)


@model('llvm::errs')
def errs(prog, info, o, a):
    return Cell(Stream('stderr'))


@model('llvm::outs')
def outs(prog, info, o, a):
    return Cell(Stream('stdout'))


def opcall(prog, info, qn, op, a):
    """operators on library types."""
    x = a[0]
    v = rv(x)
    ps = info.get('ps') or []
    cls = strip_targs(info.get('cls') or '')
    C = E.C
    if op in ('<', '>', '<=', '>=') and len(a) == 2 and isinstance(v, TStr) and isinstance(rv(a[1]), TStr) and \
            getattr(C.config, 'hash_order', None):
        # any one total order of texts serves for comparing two runs
        p, q = repr(v), repr(rv(a[1]))
        return {'<': p < q, '>': p > q, '<=': p <= q, '>=': p >= q}[op]
    if op == '<<' and len(a) == 2:
        if isinstance(v, Stream):
            y = rv(a[1])
            pt = ps[-1] if ps else ''
            if isinstance(y, Bound):
                # std::endl, std::flush ...
                nm = (prog.callees.get(y.key, {}) or {}).get('n', '')
                if nm == 'endl':
                    stream_put(lv(x), tstr('\n'))
                return x
            if isinstance(y, Term) and ('*' in pt and 'char' not in pt):
                s = TStr((T('addr', y),))
            elif isinstance(y, Ptr) and not isinstance(y.c.v, TStr):
                s = TStr((T('addr', hashable(y)),))
            elif isinstance(y, Stream):
                s = y.buf
            elif isinstance(y, bool):
                s = tstr('1' if y else '0')
            elif isinstance(y, int) and base_type(pt) in ('char', 'signed char', 'unsigned char'):
                s = tstr(chr(y))
            elif isinstance(y, int) and y >= (1 << 63) and False:
                s = tstr(str(y))
            elif isinstance(y, Obj):
                return C.config.ext_opcall(prog, info, qn, op, a)
            else:
                s = to_str(y, pt)
            stream_put(lv(x), s)
            return x
        if isinstance(v, Term):
            C.effect('stream<<', v, hashable(rv(a[1])))
            return x
    if op == '+' and len(a) == 2:
        y = rv(a[1])
        if isinstance(v, Iter):
            return arith('+', v, y)
        if isinstance(v, StrIt):
            return StrIt(v.cell, v.end, add(v.off, y))
        if 'basic_string' in (info.get('ret') or '') or isinstance(v, TStr) or isinstance(y, TStr):
            return cat(to_str(v, ps[0]), to_str(y, ps[-1]))
        if qn.startswith('std::operator+') or qn.startswith('llvm::operator+'):
            return cat(to_str(v, ps[0]), to_str(y, ps[-1]))
        return add(v, y)
    if op == '-' and len(a) == 2:
        if isinstance(v, Iter):
            return arith('-', v, rv(a[1]))
        if isinstance(v, StrIt):
            y = rv(a[1])
            if isinstance(y, StrIt):
                if v.end == y.end:
                    return add(v.off, y.off, -1)
                return strlen(v.cell.v) if v.end else T('strdiff')
            return StrIt(v.cell, v.end, add(v.off, y, -1))
    if op == '+=':
        if isinstance(v, TStr) or cls == 'std::basic_string':
            return s_append(prog, info, lv(x), a[1:])
        if isinstance(v, Iter):
            x.v = Iter(v.vec, v.i + rv(a[1]))
            return x
    if op == '=':
        y = rv(a[1])
        p0 = ps[0] if ps else ''
        mv = p0.endswith('&&')
        if cls == 'std::basic_string':
            lv(x).v = to_str(y, p0)
            return x
        if cls == 'std::optional':
            if isinstance(y, Opt):
                lv(x).v = (moveval(a[1]) if mv else copyval(y))
            elif is_nullopt(y):
                lv(x).v = Opt()
            elif isinstance(y, Term) and 'optional' in p0:
                lv(x).v = y
            else:
                lv(x).v = Opt(Cell(copyval(y)))
            return x
        if cls in SMART:
            if type(a[1]) is Cell:
                nv = a[1].v
                if cls == 'std::unique_ptr':
                    a[1].v = NULL
                lv(x).v = nv
            else:
                lv(x).v = y
            return x
        if isinstance(x, Cell):
            if isinstance(v, Term) and isinstance(y, Term) and C.config.foreign_store(prog, x, v, y):
                return x
            nv = moveval(a[1]) if (mv and type(a[1]) is Cell and isinstance(y, (Vec, Obj))) else copyval(y)
            if isinstance(y, Vec) and isinstance(v, Vec):
                nv = Vec(nv.items, v.kind, nv.sym)
            if isinstance(v, Obj) and isinstance(nv, Obj) and v.cls == nv.cls:
                v.f = nv.f      # keep object identity
                return x
            x.v = nv
            return x
        raise Unsupported('operator= on %r' % (v,))
    if op == '==' or op == '!=':
        y = rv(a[1]) if len(a) > 1 else NULL
        if isinstance(v, StrIt) and isinstance(y, StrIt):
            r = v.cell is y.cell and v.end == y.end and v.off == y.off
        elif is_nullopt(y) and isinstance(v, Opt):
            r = v.c is None
        elif is_nullopt(y):
            r = neg(opt_has(v))
        else:
            if isinstance(v, int) and isinstance(y, TStr):
                v = to_str(v, 'char')
            r = equal(v, y)
        if op == '!=':
            return (not r) if isinstance(r, bool) else neg(r)
        return r
    if op == '<':
        return less(v, a[1])
    if op == '>':
        return less(a[1], v)
    if op == '<=':
        return neg(less(a[1], v)) if not isinstance(less(a[1], v), bool) else not less(a[1], v)
    if op == '>=':
        r = less(v, a[1])
        return (not r) if isinstance(r, bool) else neg(r)
    if op == '[]':
        i = rv(a[1])
        if isinstance(v, Vec) and v.kind == 'map':
            return map_at(v, i, info, prog, create=True)
        return index(v, i)
    if op == '*' and len(a) == 1:
        if isinstance(v, Term):
            C.config.deref_term(prog, info, v)
            if info.get('cls', '').startswith('clang::Stmt::CastIterator') or 'iterator' in (info.get('cls') or ''):
                return Cell(v)
            if strip_targs(info.get('cls') or '') == 'std::optional':
                return Cell(T('.val', v))
            if strip_targs(info.get('cls') or '') == 'llvm::Expected':
                return Cell(T('.val', v))
            return Cell(v)
        if isinstance(v, StrIt):
            return Cell(T('strchar', tstr(v.cell.v), v.end, hashable(v.off)))
        return deref(v)
    if op == '->':
        if isinstance(v, Term):
            if cls in ('std::optional', 'llvm::Expected'):
                return T('.val', v)
            return v
        if isinstance(v, Ptr) or v is NULL:
            return v
        if isinstance(v, Opt):
            return Ptr(deref(v))
        if isinstance(v, Iter):
            c = deref(v)
            return c.v if cls in SMART else Ptr(c)
        if isinstance(v, Obj):
            return Ptr(lv(x))
    if op == '!':
        return neg(v)
    if op in ('++', '--'):
        d = 1 if op == '++' else -1
        post = len(a) == 2
        if isinstance(v, Iter):
            n = Iter(v.vec, v.i + d)
            lv(x).v = n
            return v if post else x
        if isinstance(v, StrIt):
            lv(x).v = StrIt(v.cell, v.end, add(v.off, d))
            return v if post else x
    if op == 'bool':
        return truth(v)
    return C.config.ext_opcall(prog, info, qn, op, a)


class NullOpt:
    def __repr__(self):
        return 'nullopt'


NULLOPT = NullOpt()


def is_nullopt(v):
    return v is NULLOPT or (isinstance(v, Term) and 'nullopt' in v.f)


@model('std::nullopt_t::nullopt_t')
def nullopt_ctor(prog, info, o, a):
    return NULLOPT


# ------------------------------------------------------------------ containers
def seq_ctor(prog, info, o, a):
    cls = strip_targs(info.get('cls') or '')
    kind = 'set' if cls in SETS else ('map' if cls in MAP else 'vector')
    k = info.get('ctor')
    if a:
        v = rv(a[0])
        if k == 'move' or (info.get('ps') and info['ps'][0].endswith('&&') and isinstance(v, Vec)):
            m = moveval(a[0])
            return Vec(m.items, kind, m.sym) if isinstance(m, Vec) else m
        if isinstance(v, Vec):
            r = Vec([], kind, v.sym)
            for c in v.items:
                seq_insert(r, copyval(c.v))
            return r
        if isinstance(v, Iter) and len(a) > 1:
            w = rv(a[1])
            r = Vec([], kind, v.vec.sym if v.i == 0 else None)
            for c in v.vec.items[v.i:w.i]:
                seq_insert(r, copyval(c.v))
            if v.vec.kind in ('uset', 'umap') or hashed_kind(v.vec):
                r.kind = kind
                E.C.config.copied_hashed(r, cls)
            return r
        if isinstance(v, int) and len(a) >= 2 and not isinstance(rv(a[1]), Iter):
            if 'allocator' not in (info.get('ps') or ['', ''])[-1] or len(a) > 2:
                return Vec([Cell(copyval(rv(a[1]))) for _ in range(v)], kind)
        if isinstance(v, int):
            return Vec([Cell(0) for _ in range(v)], kind)
        if isinstance(v, Term):
            if v.f == 'itbegin':
                return Vec([], kind, v.a[0])
            if 'alloc' in repr(v.f):
                return Vec([], kind)
            return Vec([], kind, v)
    if cls in HASHED:
        kind = 'u' + kind if kind in ('set', 'map') else kind
    return Vec([], 'map' if kind in ('map', 'umap') else kind)


def hashed_kind(v):
    return v.kind in ('uset', 'umap')


def seq_insert(vec, v):
    if vec.kind in ('set', 'uset'):
        for c in vec.items:
            if truth(equal(c.v, v)):
                return c, False
        if vec.sym is not None:
            if truth(T('contains', vec.sym, hashable(v))):
                return None, False
    if vec.kind == 'map':
        k = v.f['first'].v if isinstance(v, Obj) else None
        for c in vec.items:
            if truth(equal(c.v.f['first'].v, k)):
                return c, False
    c = Cell(v)
    order = getattr(E.C.config, 'hash_order', None)
    if order and vec.kind == 'set':
        k = repr(hashable(v))
        i = 0
        while i < len(vec.items) and repr(hashable(vec.items[i].v)) < k:
            i += 1
        vec.items.insert(i, c)
    elif order == 'reverse' and vec.kind == 'uset':
        vec.items.insert(0, c)
    else:
        vec.items.append(c)
    return c, True


def map_at(v, key, info, prog, create=False):
    for c in v.items:
        if truth(equal(c.v.f['first'].v, key)):
            return c.v.f['second']
    if v.sym is not None:
        return Cell(T('mapat', v.sym, hashable(key)))
    if not create:
        raise Abort('map::at', E.C.line)
    cta = info.get('cta') or []
    d = E.C.config.default_value(prog, base_type(cta[1]) if len(cta) > 1 and not cta[1].endswith('*') else 'int')
    if len(cta) > 1 and cta[1].endswith('*'):
        d = NULL
    p = Obj('std::pair', {'first': Cell(key), 'second': Cell(d)})
    v.items.append(Cell(p))
    return p.f['second']


RVIEWS = {}     # the reversed views of containers


def seq_method(prog, info, o, a):
    v = rv(o)
    n = info['n']
    if isinstance(v, Term):
        return E.C.config.ext_method(prog, info, strip_targs(info['qn']), o, a)
    if v is UNINIT:
        v = o.v = Vec()
    if not isinstance(v, Vec):
        if isinstance(v, TStr):
            return str_method(prog, info, o, a)
        raise Unsupported('%s on %r' % (n, v))
    it = v.items
    if n in ('begin', 'cbegin'):
        return Iter(v, 0)
    if n in ('end', 'cend'):
        return Iter(v, len(it))
    if n in ('rbegin', 'rend', 'crbegin', 'crend'):
        memo = E.C.__dict__.setdefault('rviews', {}) if hasattr(E.C, '__dict__') else RVIEWS
        w = memo.get(id(v))
        if w is None or w[0] is not v or len(w[1].items) != len(it) or \
                any(x is not y for x, y in zip(w[1].items, reversed(it))):
            w = memo[id(v)] = (v, Vec(list(reversed(it)), v.kind))
        return Iter(w[1], 0 if 'begin' in n else len(it))
    if n == 'size':
        if v.sym is not None:
            return add(len(it), T('.size', v.sym))
        return E.Len(len(it)) if getattr(E.C.config, 'open_sizes', False) and v.kind != 'array' else len(it)
    if n == 'empty':
        if it:
            return False
        if v.sym is not None:
            return T('.empty', v.sym)
        return True
    if n in ('push_back', 'emplace_back', 'push', 'emplace') and not (n == 'emplace' and v.kind in ('set', 'uset', 'map')):
        if n.startswith('emplace'):
            ety = (info.get('cta') or [''])[0]
            val = emplace_value(prog, ety, a)
        else:
            p0 = (info.get('ps') or [''])[0]
            if p0.endswith('&&'):
                val = smart_move(a[0])
            else:
                val = copyval(rv(a[0]))
        c = Cell(val)
        it.append(c)
        E.C.config.on_push(v, c)
        return c if n == 'emplace_back' else None
    if n in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
        if v.kind in ('set', 'uset', 'map'):
            x = rv(a[0])
            if n == 'insert' and len(a) == 2 and isinstance(x, Iter):
                y = rv(a[1])
                if isinstance(y, Iter):
                    for c in x.vec.items[x.i:y.i]:
                        seq_insert(v, copyval(c.v))
                    return None
                x = y
            if n == 'insert' and isinstance(x, Vec):
                for c in x.items:
                    seq_insert(v, copyval(c.v))
                return None
            if v.kind == 'map' and n != 'insert':
                if len(a) == 2:
                    x = Obj('std::pair', {'first': Cell(rv(a[0])), 'second': Cell(rv(a[1]))})
            elif n == 'emplace' and v.kind != 'map':
                x = emplace_value(prog, (info.get('cta') or [''])[0], a)
            c, new = seq_insert(v, copyval(x))
            if n == 'insert_or_assign' and not new:
                c.v = x
            E.C.config.on_insert(v, x, new)
            pos = it.index(c) if c is not None and c in it else 0
            return Obj('std::pair', {'first': Cell(Iter(v, pos)), 'second': Cell(new)})
        x = rv(a[0])
        if isinstance(x, Iter):
            y = rv(a[1])
            if len(a) == 3 and isinstance(y, Iter):
                z = rv(a[2])
                it[x.i:x.i] = [Cell(copyval(c.v)) for c in y.vec.items[y.i:z.i]]
                return Iter(v, x.i)
            if isinstance(y, Vec) and len(a) == 2 and 'initializer_list' in (info.get('ps') or ['', ''])[1]:
                it[x.i:x.i] = [Cell(copyval(c.v)) for c in y.items]
                return Iter(v, x.i)
            if isinstance(y, MoveIter):
                z = rv(a[2])
                it[x.i:x.i] = [Cell(smart_move(c)) for c in y.it.vec.items[y.it.i:z.it.i]]
                return Iter(v, x.i)
            it.insert(x.i, Cell(smart_move(a[1]) if (info.get('ps') or ['', ''])[1].endswith('&&') else copyval(y)))
            return Iter(v, x.i)
    if n in ('back', 'front', 'top'):
        if not it:
            if v.sym is not None:
                return Cell(T('.' + n, v.sym))
            raise Abort('%s of empty container' % n, E.C.line)
        return it[0 if n == 'front' else -1]
    if n in ('pop_back', 'pop', 'pop_front', 'pop_back_val'):
        if not it:
            if v.sym is not None:
                v.sym = T('pop', v.sym)
                return None
            raise Abort('pop of empty container', E.C.line)
        c = it.pop(0 if n == 'pop_front' else -1)
        return c.v if n == 'pop_back_val' else None
    if n in ('at', 'operator[]'):
        if v.kind == 'map':
            return map_at(v, rv(a[0]), info, prog, n != 'at')
        return index(v, rv(a[0]))
    if n in ('contains', 'count'):
        k = rv(a[0])
        for c in it:
            x = c.v.f['first'].v if v.kind == 'map' else c.v
            if truth(equal(x, k)):
                return True if n == 'contains' else 1
        if v.sym is not None:
            return T('contains', v.sym, hashable(k))
        return False if n == 'contains' else 0
    if n == 'find':
        k = rv(a[0])
        for i, c in enumerate(it):
            x = c.v.f['first'].v if v.kind == 'map' else c.v
            if truth(equal(x, k)):
                return Iter(v, i)
        if v.sym is not None:
            if truth(T('contains', v.sym, hashable(k))):
                return Ptr(Cell(T('found', v.sym, hashable(k))))
        return Iter(v, len(it))
    if n == 'erase':
        x = rv(a[0])
        if isinstance(x, Iter):
            if len(a) > 1:
                y = rv(a[1])
                del it[x.i:y.i]
            else:
                if x.i >= len(it):
                    raise Abort('erase past the end', E.C.line)
                del it[x.i]
            return Iter(v, x.i)
        for i, c in enumerate(it):
            e = c.v.f['first'].v if v.kind == 'map' else c.v
            if truth(equal(e, x)):
                del it[i]
                return 1
        return 0
    if n == 'clear':
        it[:] = []
        v.sym = None
        return None
    if n in ('reserve', 'shrink_to_fit', 'rehash'):
        return None
    if n == 'resize':
        k = rv(a[0])
        if isinstance(k, int):
            if k < len(it):
                del it[k:]
            while len(it) < k:
                it.append(Cell(copyval(rv(a[1])) if len(a) > 1 else E.C.config.default_value(prog, base_type((info.get('cta') or ['int'])[0]))))
            return None
        raise Unsupported('resize')
    if n == 'swap':
        w = rv(a[0])
        v.items, w.items = w.items, v.items
        v.sym, w.sym = w.sym, v.sym
        return None
    if n == 'assign':
        x = rv(a[0])
        if isinstance(x, Iter):
            y = rv(a[1])
            v.items = [Cell(copyval(c.v)) for c in x.vec.items[x.i:y.i]]
            v.sym = None
            return None
        if isinstance(x, Vec):
            v.items = [Cell(copyval(c.v)) for c in x.items]
            v.sym = None
            return None
    if n == 'data':
        return Ptr(it[0] if it else None, v, 0)
    if n == 'append' or n == 'append_range':
        x = rv(a[0])
        if isinstance(x, Vec):
            it.extend(Cell(copyval(c.v)) for c in x.items)
            return None
        if isinstance(x, Iter):
            y = rv(a[1])
            it.extend(Cell(copyval(c.v)) for c in x.vec.items[x.i:y.i])
            return None
    raise Unsupported('%s::%s' % (info.get('cls'), n))


def smart_move(x):
    if type(x) is Cell:
        if isinstance(x.v, (Ptr,)):
            v = x.v
            x.v = NULL
            return v
        return moveval(x)
    return x


def emplace_value(prog, ety, a):
    bt = base_type(ety)
    st = strip_targs(bt)
    if ety.endswith('*') or not a:
        return rv(a[0]) if a else E.C.config.default_value(prog, bt)
    if st in SMART:
        return smart_move(a[0])
    if st.startswith('std::basic_string'):
        return to_str(a[0])
    if st.startswith('std::pair') and len(a) == 2:
        return Obj('std::pair', {'first': Cell(rv(a[0])), 'second': Cell(rv(a[1]))})
    if prog.repo_record(bt):
        return make_obj(prog, bt, a)
    if len(a) == 1:
        return copyval(rv(a[0]))
    return E.C.config.ext_ctor(prog, {'cls': bt}, bt, 'other', a)


class MoveIter:
    __slots__ = ('it',)

    def __init__(self, it):
        self.it = it


@model('std::make_move_iterator')
def mmi(prog, info, o, a):
    return MoveIter(rv(a[0]))


for c in SEQ + MAP:
    MODELS[c + '::' + c.split('::')[-1]] = seq_ctor
    for n in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'size', 'empty', 'push_back', 'emplace_back', 'push',
              'emplace', 'insert', 'insert_or_assign', 'try_emplace', 'back', 'front', 'top', 'pop_back',
              'pop', 'pop_front', 'pop_back_val', 'at', 'operator[]', 'contains', 'count', 'find', 'erase', 'clear',
              'reserve', 'shrink_to_fit', 'rehash', 'resize', 'swap', 'assign', 'data', 'append'):
        MODELS[c + '::' + n] = seq_method


@model('std::allocator::allocator')
def alloc(prog, info, o, a):
    return T('alloc')


@model('__gnu_cxx::__normal_iterator::__normal_iterator', 'std::_Rb_tree_const_iterator::_Rb_tree_const_iterator')
def itctor(prog, info, o, a):
    return copyval(rv(a[0])) if a else UNINIT


@model('std::begin', 'std::cbegin', 'std::ranges::begin')
def sbegin(prog, info, o, a):
    v = rv(a[0])
    if isinstance(v, TStr):
        return StrIt(lv(a[0]), False)
    if isinstance(v, Term):
        return T('itbegin', v)
    return Iter(v, 0)


@model('std::end', 'std::cend', 'std::ranges::end')
def send(prog, info, o, a):
    v = rv(a[0])
    if isinstance(v, TStr):
        return StrIt(lv(a[0]), True)
    if isinstance(v, Term):
        return T('itend', v)
    return Iter(v, len(v.items))


@model('std::size', 'std::ssize')
def ssize(prog, info, o, a):
    v = rv(a[0])
    return len(v.items) if isinstance(v, Vec) else strlen(v) if isinstance(v, TStr) else T('.size', hashable(v))


def span(a):
    """(cells, rest args) of an algorithm's range argument(s)."""
    x = rv(a[0])
    if isinstance(x, Iter):
        y = rv(a[1])
        base = []
        if x.vec.sym is not None:
            raise Unsupported('algorithm over symbolic container')
        return x.vec, x.i, y.i, a[2:]
    if isinstance(x, Vec):
        return x, 0, len(x.items), a[1:]
    if isinstance(x, (Term,)):
        if x.f == 'itbegin':
            v = Vec([Cell(rv(c)) for c in iterate(x.a[0])])
            return v, 0, len(v.items), a[2:]
        v = Vec([Cell(rv(c)) for c in iterate(x)])
        return v, 0, len(v.items), a[1:]
    if isinstance(x, Ptr) and x.base is not None:
        y = rv(a[1])
        return x.base, x.idx, y.idx, a[2:]
    raise Unsupported('algorithm range')


@model('std::find', 'std::ranges::find', 'llvm::find')
def find(prog, info, o, a):
    if isinstance(rv(a[0]), StrIt):
        return T('strfind', hashable(rv(a[0]).cell.v), hashable(rv(a[2])))
    vec, i, j, rest = span(a)
    k = rv(rest[0])
    for n in range(i, j):
        if truth(equal(vec.items[n].v, k)):
            return Iter(vec, n)
    return Iter(vec, j)


@model('llvm::is_contained')
def is_contained(prog, info, o, a):
    vec, i, j, rest = span(a)
    k = rv(rest[0])
    for n in range(i, j):
        if truth(equal(vec.items[n].v, k)):
            return True
    return False


@model('std::count')
def count(prog, info, o, a):
    vec, i, j, rest = span(a)
    k = rv(rest[0])
    return sum(1 for n in range(i, j) if truth(equal(vec.items[n].v, k)))


@model('std::find_if', 'std::find_if_not', 'llvm::find_if', 'std::ranges::find_if')
def find_if(prog, info, o, a):
    vec, i, j, rest = span(a)
    inv = info['n'].endswith('not')
    for n in range(i, j):
        if truth(prog.call_value(rv(rest[0]), [vec.items[n]])) != inv:
            return Iter(vec, n)
    return Iter(vec, j)


@model('std::any_of', 'std::all_of', 'std::none_of', 'llvm::any_of', 'llvm::all_of', 'llvm::none_of',
       'std::ranges::any_of', 'std::ranges::all_of', 'std::ranges::none_of')
def any_of(prog, info, o, a):
    vec, i, j, rest = span(a)
    for n in range(i, j):
        r = truth(prog.call_value(rv(rest[0]), [vec.items[n]]))
        if info['n'] == 'any_of' and r:
            return True
        if info['n'] == 'all_of' and not r:
            return False
        if info['n'] == 'none_of' and r:
            return False
    return info['n'] != 'any_of'


@model('std::count_if', 'llvm::count_if')
def count_if(prog, info, o, a):
    vec, i, j, rest = span(a)
    return sum(1 for n in range(i, j) if truth(prog.call_value(rv(rest[0]), [vec.items[n]])))


@model('std::for_each', 'llvm::for_each', 'std::ranges::for_each')
def for_each(prog, info, o, a):
    vec, i, j, rest = span(a)
    for n in range(i, j):
        prog.call_value(rv(rest[0]), [vec.items[n]])
    return rv(rest[0])


@model('std::copy_if', 'std::transform', 'std::copy', 'std::move_if')
def copy_if(prog, info, o, a):
    vec, i, j, rest = span(a)
    out = rv(rest[0])
    f = rv(rest[1]) if len(rest) > 1 else None
    for n in range(i, j):
        c = vec.items[n]
        v = c.v
        if info['n'] == 'copy_if':
            if not truth(prog.call_value(f, [c])):
                continue
        elif info['n'] == 'transform':
            v = rv(prog.call_value(f, [c]))
        if isinstance(out, BackIns):
            out.vec.items.append(Cell(copyval(v)))
        elif isinstance(out, Iter):
            out.vec.items[out.i].v = copyval(v)
            out = Iter(out.vec, out.i + 1)
        else:
            raise Unsupported('output iterator')
    return out


class BackIns:
    __slots__ = ('vec',)

    def __init__(self, vec):
        self.vec = vec


@model('std::back_inserter', 'std::inserter')
def back_inserter(prog, info, o, a):
    v = rv(a[0])
    if v is UNINIT:
        v = a[0].v = Vec()
    return BackIns(v)


@model('std::remove_if', 'std::remove', 'std::erase_if', 'llvm::erase_if')
def remove_if(prog, info, o, a):
    n0 = info['n']
    if n0.startswith('erase'):
        vec = rv(a[0])
        keep = [c for c in vec.items if not truth(prog.call_value(rv(a[1]), [c]))]
        d = len(vec.items) - len(keep)
        vec.items[:] = keep
        return d
    vec, i, j, rest = span(a)
    keep = []
    for n in range(i, j):
        c = vec.items[n]
        if n0 == 'remove':
            r = truth(equal(c.v, rv(rest[0])))
        else:
            r = truth(prog.call_value(rv(rest[0]), [c]))
        if not r:
            keep.append(c)
    m = i + len(keep)
    tail = [Cell(UNINIT) for _ in range(j - m)]
    vec.items[i:j] = keep + tail
    return Iter(vec, m)


@model('std::sort', 'std::stable_sort', 'llvm::sort', 'std::ranges::sort')
def sort(prog, info, o, a):
    vec, i, j, rest = span(a)
    items = vec.items[i:j]
    if len(items) < 2:
        vec.kind = 'vector'
        E.C.config.sorted_range(vec)
        return None
    keys = [hashable(c.v) for c in items]
    E.C.config.sorted_range(vec)
    vals = sorted((c.v for c in items), key=repr)
    if rest and getattr(E.C.config, 'hash_order', None):
        vals = []
        for c in items:
            n = len(vals)
            while n > 0 and truth(prog.call_value(rv(rest[0]), [Cell(c.v), Cell(vals[n - 1])])):
                n -= 1
            vals.insert(n, c.v)
    for c, v in zip(items, vals):
        c.v = v
    return None


@model('std::reverse')
def reverse(prog, info, o, a):
    vec, i, j, rest = span(a)
    vals = [c.v for c in vec.items[i:j]][::-1]
    for c, v in zip(vec.items[i:j], vals):
        c.v = v
    return None


@model('std::accumulate')
def accumulate(prog, info, o, a):
    vec, i, j, rest = span(a)
    acc = rv(rest[0])
    for n in range(i, j):
        x = vec.items[n]
        if len(rest) > 1:
            acc = rv(prog.call_value(rv(rest[1]), [Cell(acc), x]))
        elif isinstance(acc, TStr):
            acc = cat(acc, to_str(x))
        else:
            acc = add(acc, rv(x))
    return acc


@model('std::replace', 'std::ranges::replace', 'std::replace_if')
def replace(prog, info, o, a):
    x = rv(a[0])
    if isinstance(x, StrIt) or isinstance(x, TStr):
        cell = x.cell if isinstance(x, StrIt) else a[0]
        rest = a[2:] if isinstance(x, StrIt) else a[1:]
        s = tstr(cell.v)
        if info['n'] == 'replace_if':
            f = rv(rest[0])
            new = rv(rest[1])
            out = []
            for p in s.p:
                if isinstance(p, str):
                    q = ''
                    for ch in p:
                        q += chr(new) if truth(prog.call_value(f, [Cell(ord(ch))])) else ch
                    out.append(q)
                else:
                    hit = [c for c in range(32, 127)
                           if not chr(c).isalnum() and truth(prog.call_value(f, [Cell(c)]))]
                    t = p
                    if hit == [32]:
                        t = T('replace', p, 32, new)
                    else:
                        t = T('replace', p, tuple(hit), new)
                    out.append(t)
            r = EMPTY
            for p in out:
                r = cat(r, tstr(p))
            cell.v = r
            return None
        old, new = rv(rest[0]), rv(rest[1])
        cell.v = str_replace(s, old, new)
        return None
    vec, i, j, rest = span(a)
    for c in vec.items[i:j]:
        if truth(equal(c.v, rv(rest[0]))):
            c.v = rv(rest[1])
    return None


def str_replace(s, old, new):
    r = EMPTY
    for p in s.p:
        if isinstance(p, str):
            r = cat(r, tstr(p.replace(chr(old), chr(new))))
        else:
            r = cat(r, TStr((T('replace', p, old, new),)))
    return r


@model('std::distance')
def distance(prog, info, o, a):
    x, y = rv(a[0]), rv(a[1])
    return y.i - x.i


@model('std::next', 'std::prev')
def nxt(prog, info, o, a):
    x = rv(a[0])
    n = rv(a[1]) if len(a) > 1 else 1
    if info['n'] == 'prev':
        n = -n
    return Iter(x.vec, x.i + n)


@model('std::advance')
def advance(prog, info, o, a):
    x = a[0]
    x.v = Iter(x.v.vec, x.v.i + rv(a[1]))


@model('std::min', 'std::max')
def minmax(prog, info, o, a):
    if len(a) == 1:
        v = rv(a[0])
        xs = [c.v for c in v.items]
    else:
        xs = [rv(a[0]), rv(a[1])]
    if all(isinstance(x, (int, float)) for x in xs):
        return min(xs) if info['n'] == 'min' else max(xs)
    r = xs[0]
    for y in xs[1:]:
        l = truth(less(y, r))
        if l == (info['n'] == 'min'):
            r = y
    return r


@model('std::swap')
def swap(prog, info, o, a):
    x, y = a[0], a[1]
    if isinstance(x.v, Vec) and isinstance(y.v, Vec):
        x.v.items, y.v.items = y.v.items, x.v.items
        x.v.sym, y.v.sym = y.v.sym, x.v.sym
    else:
        x.v, y.v = y.v, x.v


@model('std::move')
def smove(prog, info, o, a):
    if len(a) > 1:
        # algorithm std::move(first, last, out)
        vec, i, j, rest = span(a)
        out = rv(rest[0])
        for n in range(i, j):
            v = smart_move(vec.items[n])
            if isinstance(out, BackIns):
                out.vec.items.append(Cell(v))
            else:
                out.vec.items[out.i].v = v
                out = Iter(out.vec, out.i + 1)
        return out
    return a[0]


@model('std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof')
def fwd(prog, info, o, a):
    if info['n'] == 'addressof':
        return Ptr(lv(a[0]))
    return a[0]


@model('std::exchange')
def exchange(prog, info, o, a):
    old = a[0].v
    a[0].v = rv(a[1])
    return old


@model('std::make_pair', 'std::make_tuple', 'std::tie', 'std::forward_as_tuple')
def make_pair(prog, info, o, a):
    names = ['first', 'second'] if info['n'] == 'make_pair' else ['_%d' % i for i in range(len(a))]
    return Obj('std::pair' if info['n'] == 'make_pair' else 'std::tuple',
               {n: (x if info['n'] in ('tie',) and type(x) is Cell else Cell(copyval(rv(x)))) for n, x in zip(names, a)})


def pair_ctor(prog, info, o, a):
    if len(a) == 1 and isinstance(rv(a[0]), Obj):
        v = rv(a[0])
        if 'first' in v.f and isinstance(v.f['second'].v, Ptr) and info.get('ctor') == 'move':
            return moveval(a[0])
        return copyval(v)
    if len(a) == 1 and isinstance(rv(a[0]), Term):
        return rv(a[0])
    tup = 'tuple' in (info.get('cls') or '')
    names = ['_%d' % i for i in range(len(a))] if tup else ['first', 'second']
    if not a:
        cta = info.get('cta') or []
        return Obj('std::tuple' if tup else 'std::pair', {n: Cell(E.C.config.default_value(prog, base_type(t))) for n, t in zip(names, cta)})
    return Obj('std::tuple' if tup else 'std::pair', {n: Cell(smart_move(x) if isinstance(rv(x), Ptr) and type(x) is Cell else copyval(rv(x))) for n, x in zip(names, a)})


MODELS['std::pair::pair'] = pair_ctor
MODELS['std::tuple::tuple'] = pair_ctor


@model('std::get')
def sget(prog, info, o, a):
    v = rv(a[0])
    ta = info.get('ta') or ['0']
    try:
        i = int(ta[0])
    except ValueError:
        i = None
    if isinstance(v, Obj) and i is not None:
        return list(v.f.values())[i]
    if isinstance(v, Vec) and i is not None:
        return v.items[i]
    return T('get' + ta[0], hashable(v))


# ------------------------------------------------------------------ pointers
def make_obj(prog, cls, a):
    """construct repo object of class cls from evaluated args: find ctor."""
    best = None
    for k, f in prog.fns.items():
        if f.get('isctor') and f.get('cls') == cls and len(f['p']) == len(a):
            best = k
            break
    if best is None:
        if len(a) == 1 and isinstance(rv(a[0]), Obj) and rv(a[0]).cls == cls:
            return copyval(rv(a[0]))
        return prog.construct(cls, None, a)
    h = prog.ctor_hook(best, cls, a)
    if h is not None:
        return h
    # by-value parameters: move/copy
    d = prog.fns[best]
    vals = []
    for p, x in zip(d['p'], a):
        if E.is_ref(p['t']):
            vals.append(x)
        else:
            v = rv(x)
            if isinstance(v, Ptr) and 'unique_ptr' in p['t']:
                vals.append(smart_move(x))
            else:
                vals.append(copyval(v))
    return prog.construct(cls, best, vals)


@model('std::make_unique', 'std::make_shared', 'llvm::makeIntrusiveRefCnt', 'std::make_unique_for_overwrite')
def make_unique(prog, info, o, a):
    cls = base_type((info.get('ta') or [''])[0])
    st = strip_targs(cls)
    if prog.repo_record(cls):
        v = make_obj(prog, cls, a)
        return Ptr(Cell(v))
    m = MODELS.get(st + '::' + st.split('::')[-1])
    if m:
        return Ptr(Cell(m(prog, {'cls': cls, 'ps': [], 'ctor': 'other'}, None, a)))
    return E.C.config.ext_new(prog, cls, a)


def smart_ctor(prog, info, o, a):
    if not a:
        return NULL
    v = rv(a[0])
    cls = strip_targs(info.get('cls') or '')
    if type(a[0]) is Cell and isinstance(v, (Ptr,)) and cls == 'std::unique_ptr' and \
            (info.get('ps') or [''])[0].endswith('&&'):
        a[0].v = NULL
    return v


def smart_method(prog, info, o, a):
    n = info['n']
    v = rv(o)
    if isinstance(v, Term):
        if n in ('get', 'operator->', 'operator*', 'release', 'getPtr'):
            return v
        if n == 'operator bool':
            return neg(E.is_null(v))
    if n in ('get', 'getPtr'):
        return v
    if n == 'operator bool':
        return not (v is NULL)
    if n == 'release':
        o.v = NULL
        return v
    if n == 'reset':
        o.v = rv(a[0]) if a else NULL
        return None
    if n == 'swap':
        o.v, a[0].v = a[0].v, o.v
        return None
    if n in ('operator->', 'operator*'):
        return v if n == 'operator->' else deref(v)
    if n == 'use_count':
        return T('.use_count', hashable(v))
    raise Unsupported('smart pointer ' + n)


for c in SMART:
    MODELS[c + '::' + c.split('::')[-1]] = smart_ctor
    for n in ('get', 'operator bool', 'release', 'reset', 'swap', 'operator->', 'operator*', 'getPtr', 'use_count'):
        MODELS[c + '::' + n] = smart_method


# ------------------------------------------------------------------ optional / function
def opt_ctor(prog, info, o, a):
    if not a:
        return Opt()
    v = rv(a[0])
    if is_nullopt(v):
        return Opt()
    if isinstance(v, Opt):
        return moveval(a[0]) if info.get('ctor') == 'move' else copyval(v)
    if isinstance(v, Term) and info.get('ctor') in ('copy', 'move'):
        return v
    return Opt(Cell(smart_move(a[0]) if isinstance(v, Ptr) else copyval(v)))


def opt_has(v):
    if isinstance(v, Opt):
        return v.c is not None
    if isinstance(v, Term):
        return T('.has', v)
    return True


def opt_method(prog, info, o, a):
    n = info['n']
    v = rv(o)
    if n in ('has_value', 'operator bool', 'hasValue'):
        return opt_has(v)
    if n in ('value', 'getValue'):
        if isinstance(v, Opt):
            if v.c is None:
                raise Abort('bad optional access', E.C.line)
            return v.c
        return Cell(T('.val', hashable(v)))
    if n == 'value_or':
        if truth(opt_has(v)):
            return v.c.v if isinstance(v, Opt) else T('.val', v)
        return rv(a[0])
    if n == 'reset':
        o.v = Opt()
        return None
    if n == 'emplace':
        ety = (info.get('cta') or [''])[0]
        o.v = Opt(Cell(emplace_value(prog, ety, a)))
        return o.v.c
    raise Unsupported('optional ' + n)


MODELS['std::optional::optional'] = opt_ctor
for n in ('has_value', 'operator bool', 'value', 'value_or', 'reset', 'emplace'):
    MODELS['std::optional::' + n] = opt_method


@model('std::make_optional')
def mkopt(prog, info, o, a):
    return Opt(Cell(copyval(rv(a[0]))))


def function_ctor(prog, info, o, a):
    return rv(a[0]) if a else NULL


MODELS['std::function::function'] = function_ctor
MODELS['llvm::function_ref::function_ref'] = function_ctor


@model('std::function::operator bool')
def fbool(prog, info, o, a):
    return rv(o) is not NULL


@model('std::exit', 'exit', 'abort', 'std::abort', '_exit')
def sexit(prog, info, o, a):
    E.C.effect('exit', hashable(rv(a[0])) if a else None)
    raise Abort('exit', E.C.line)


@model('__assert_fail', 'llvm::llvm_unreachable_internal', 'llvm::report_fatal_error', '__builtin_unreachable')
def unreach(prog, info, o, a):
    raise Abort('assert', E.C.line)


@model('__builtin_expect')
def bexpect(prog, info, o, a):
    return rv(a[0])


@model('strcmp', 'std::strcmp')
def strcmp(prog, info, o, a):
    return 0 if truth(equal(to_str(a[0]), to_str(a[1]))) else 1


@model('strlen', 'std::strlen')
def cstrlen(prog, info, o, a):
    return strlen(to_str(a[0]))
