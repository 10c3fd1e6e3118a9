"""Effect analyses over the resolved program: C20 (order, addresses, time) and C21 (assertions)."""
import re
import build
from report import Finding, rel

ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}
READERS = re.compile(r'^(get|is|has|find|begin|end|cbegin|cend|rbegin|rend|at$|back$|front$|top$|data$|size$|empty$|count|contains|'
                     r'operator(\*|->|==|!=|<|>|<=|>=|bool| bool|!)|Ignore|lower_bound|upper_bound|equal_range|'
                     r'value|str$|c_str$|cast|dyn_cast|isa|any_of|all_of|none_of|lookup|parents|children|body|decls)')
PUREFN = re.compile(r'^(std|llvm|clang|__gnu_cxx)::.*\b(move|forward|get|begin|end|cbegin|cend|size|empty|data|find|find_if|count|count_if|'
                    r'any_of|all_of|none_of|is_contained|isa|cast|dyn_cast|cast_or_null|dyn_cast_or_null|isa_and_nonnull|min|max|'
                    r'next|prev|distance|equal|addressof|as_const|advance|back|front|abs|holds_alternative|get_if|to_string)\b')


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def is_assert(prog, e):
    b = e.get('b')
    while isinstance(b, dict) and b.get('k') == 'Cast':
        b = b['e']
    return isinstance(b, dict) and b.get('k') == 'Call' and b.get('f') and \
        (prog['callees'].get(b['f']) or {}).get('qn') in ('__assert_fail', '__assert_rtn', '_wassert')


def own(prog, f):
    return bool(f) and f.get('b') is not None and '/src/' in (f.get('file') or '') and (f.get('file') or '').endswith(('.cc', '.h'))


def locals_of(f):
    """ids of variables whose storage belongs to this call (not references or pointees)."""
    out = set()
    for p in f.get('p') or []:
        if not (p.get('t') or '').rstrip().endswith(('&', '&&')):
            out.add(p['id'])
    for n in walk(f.get('b')):
        if n.get('k') == 'Var' and not n.get('static'):
            t = (n.get('t') or '').rstrip()
            if not t.endswith('&'):
                out.add(n['id'])
    return out


def root(e):
    """variable that an l-value is part of, or None; a dereference leaves the object."""
    while isinstance(e, dict):
        k = e.get('k')
        if k == 'Ref':
            return e
        if k in ('Cast', 'Paren'):
            e = e.get('e')
        elif k == 'Member' and not e.get('arrow'):
            e = e.get('b')
        elif k == 'Index':
            e = e.get('b')
        elif k == 'OpCall' and e.get('op') == '[]':
            e = e['a'][0]
        elif k == 'MCall' and not e.get('arrow'):
            e = e.get('o')
        elif k == 'Ctor':
            return {'tmp': True}
        elif k in ('Call',):
            return None
        else:
            return None
    return None


class Purity:
    def __init__(self, prog):
        self.prog, self.memo = prog, {}
        self.local = set()

    def fn(self, key):
        """None if calling the function has no effect, else a description."""
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None       # recursion: decided by the rest
        f = self.prog['functions'].get(key)
        if not f or f.get('b') is None:
            r = None
        else:
            r = self.expr(f['b'], locals_of(f))
        self.memo[key] = r
        return r

    def expr(self, e, local=frozenset()):
        for n in walk(e):
            r = self.node(n, local)
            if r:
                return r
        return None

    def owned(self, e, local):
        r = root(e)
        return r is not None and (r.get('tmp') or r.get('id') in local)

    def node(self, n, local):
        k = n.get('k')
        if k == 'Bin' and n['op'] in ASSIGN and not self.owned(n['a'], local):
            return 'an assignment'
        if k == 'Un' and n['op'] in ('++', '--') and not self.owned(n['e'], local):
            return 'an increment or decrement'
        if k == 'OpCall' and n['op'] in ASSIGN | {'++', '--'} and not self.owned(n['a'][0], local):
            return 'an assignment'
        if k in ('New', 'Delete'):
            return None if k == 'New' else 'a deletion'
        if k in ('Call', 'MCall', 'OpCall') and n.get('f'):
            c = self.prog['callees'].get(n['f']) or {}
            f = self.prog['functions'].get(n['f'])
            name = c.get('n') or n['f']
            if f and f.get('b') is not None:
                if k == 'MCall' and not c.get('const') and self.owned(n.get('o'), local):
                    return None
                r = self.fn(n['f'])
                return 'a call of %s, which has %s' % (c.get('qn'), r) if r else None
            if k == 'OpCall':
                if n['op'] == '[]' and re.search(r'\bmap\b|Map\b', re.sub(r'<.*', '', c.get('cls') or '')) and not c.get('const'):
                    return None if self.owned(n['a'][0], local) else 'an access with [] that may insert into a map'
                if n['op'] in ('<<', '>>') and c.get('ps') and c['ps'][0].rstrip().endswith('&') and 'const' not in c['ps'][0] \
                        and not self.owned(n['a'][0], local):
                    return 'output'
                return None
            if c.get('repo') and f is not None:
                return None
            if k == 'MCall':
                if c.get('const') or c.get('static') or READERS.match(c.get('n') or ''):
                    return None
                if self.owned(n.get('o'), local):
                    return None
                return 'a call of the modifying function %s' % c.get('qn')
            q = c.get('qn') or ''
            if PUREFN.match(q) or READERS.match(c.get('n') or ''):
                return None
            ps = c.get('ps') or []
            for i, p in enumerate(ps):
                t = p.rstrip()
                if (t.endswith('&') and not t.endswith('&&') and 'const' not in t) or \
                        (t.endswith('*') and 'const' not in t and not q.startswith(('llvm::', 'clang::', 'std::'))):
                    if i < len(n['a']) and not self.owned(n['a'][i], local):
                        return 'a call of %s' % q
            if q in ('printf', 'fprintf', 'puts', 'exit', 'abort', 'std::exit', 'std::abort', 'remove', 'rename', 'system', 'fopen', 'fclose'):
                return 'a call of %s' % q
        return None


STRIP = {'l', 'id', 'line', 'col'}


def shape(prog, n):
    """the code without assertions, positions and numbering."""
    if isinstance(n, dict):
        if n.get('k') == 'Cond' and is_assert(prog, n):
            return None
        if n.get('k') == 'Cast' and n.get('ck') == 'ToVoid' and (n.get('e') or {}).get('k') in ('Int', 'Ref'):
            return None
        if n.get('k') in ('Expr', 'Cast', 'Paren') and 'e' in n:
            s = shape(prog, n['e'])
            if s is None:
                return None
            if n['k'] == 'Paren':
                return s
        return {k: shape(prog, v) for k, v in n.items() if k not in STRIP}
    if isinstance(n, list):
        return [x for x in (shape(prog, v) for v in n) if x is not None]
    return n


def c21(rep):
    prog = build.export()
    rel_ = build.export(('-DNDEBUG',))
    pur = Purity(prog)
    asserts = fns = 0
    for key, f in sorted(prog['functions'].items()):
        if not own(prog, f):
            continue
        fns += 1
        loc = rel(f['file'])
        for n in walk(f['b']):
            if n.get('k') == 'Cond' and is_assert(prog, n):
                asserts += 1
                r = pur.expr(n['c'])
                if r:
                    rep.add(Finding('assert %s' % r, '%s:%s %s' % (loc, n.get('l'), f['qn']), 'assertions have no effect',
                                    'the condition of an assertion contains %s' % r))
        g = rel_['functions'].get(key)
        if not g or g.get('b') is None:
            if any(key == n.get('f') for h in rel_['functions'].values() if h for n in walk(h.get('b'))):
                rep.add(Finding('missing ' + f['qn'], '%s:%s %s' % (loc, f.get('l') or f.get('line'), f['qn']), 'same code with and without NDEBUG',
                                'the function is only defined in one build'))
            continue
        a, b = shape(prog, f['b']), shape(rel_, g['b'])
        if a == b:
            continue
        ea, eb = effects(prog, pur, f), effects(rel_, Purity(rel_), g)
        d = [(r, (ea.get(r) or eb.get(r))[0]) for r in sorted(set(ea) | set(eb)) if len(ea.get(r, ())) != len(eb.get(r, ()))]
        if d:
            rep.add(Finding('NDEBUG ' + f['qn'], '%s:%s %s' % (loc, f.get('l') or f.get('line'), f['qn']),
                            'same code with and without NDEBUG',
                            'what the function does differs between builds with and without assertions',
                            '; '.join('%s (line %s)' % x for x in d[:4])))
    rep.count('functions', fns)
    rep.count('assertions', asserts)
    if not asserts:
        rep.note('note', 'no assertions found')
    if fns < 50:
        raise build.AnalysisError('only %d functions were analysed' % fns)


def effects(prog, pur, f):
    loc = locals_of(f)
    out = {}

    def go(n):
        if isinstance(n, dict):
            if n.get('k') == 'Cond' and is_assert(prog, n):
                return
            r = pur.node(n, loc)
            if n.get('k') == 'Return':
                r = 'a return'
            if r:
                out.setdefault(r, []).append(n.get('l'))
            for v in n.values():
                go(v)
        elif isinstance(n, list):
            for v in n:
                go(v)
    go(f['b'])
    return out


# ------------------------------------------------------------------------------------------ determinism
HASH = re.compile(r'\b(unordered_(multi)?(set|map)|DenseMap|DenseSet|SmallPtrSet(Impl)?|StringMap|StringSet|SmallSet|SmallDenseMap|FoldingSet)\b')
PTRKEY = re.compile(r'\bstd::(multi)?(set|map)<[^<>,]*\*')
CLOCK = re.compile(r'^(::)?(time|clock|gettimeofday|clock_gettime|rand|random|srand|drand48|getpid|getppid|gethostname|tmpnam|mkstemp|mktemp|'
                   r'getenv|secure_getenv|std::rand|std::time|std::clock|std::getenv|std::this_thread::get_id|'
                   r'std::chrono::.*::now|std::random_device::.*|llvm::sys::Process::(GetRandomNumber|getProcessId|GetEnv)|'
                   r'llvm::sys::TimePoint.*|llvm::sys::fs::createUniqueFile|llvm::sys::fs::createTemporaryFile)$')


def type_of(prog, t):
    return t if isinstance(t, str) else str(t)


def c20(rep):
    prog = build.export()
    pur = Purity(prog)
    n_fns = loops = calls = 0
    for key, f in sorted(prog['functions'].items()):
        if not own(prog, f):
            continue
        n_fns += 1
        loc = rel(f['file'])

        def add(n, msg, key):
            rep.add(Finding(key, '%s:%s %s' % (loc, n.get('l'), f['qn']), 'output does not depend on order, addresses, time or '
                            'environment', msg))
        for n in walk(f['b']):
            k = n.get('k')
            if k == 'RangeFor':
                loops += 1
                t = type_of(prog, n.get('rt'))
                r = n.get('range') or {}
                if unordered(t) or unordered(type_of(prog, strip_cast(r).get('t'))):
                    e = ordered_effect(prog, pur, f, n)
                    if e:
                        add(n, 'a loop over a container whose order is not determined by its content has %s' % e, 'loop ' + f['qn'])
            elif k in ('MCall', 'Call', 'Ctor', 'OpCall') and n.get('f'):
                calls += 1
                c = prog['callees'].get(n['f']) or {}
                q = re.sub(r'<[^<>]*(<[^<>]*>[^<>]*)*>', '', c.get('qn') or '')
                if CLOCK.match(q) or CLOCK.match(c.get('qn') or '') or (k == 'Ctor' and 'random_device' in (n.get('cls') or '')):
                    add(n, '%s is used' % (q or n.get('cls')), 'source ' + q)
                if c.get('n') == 'getID' and (c.get('cls') or '').startswith('clang::'):
                    add(n, 'a number derived from an address (%s) is used' % q, 'address')
            elif k == 'Cast' and n.get('ck') == 'PointerToIntegral':
                add(n, 'an address is converted to a number', 'address')
            elif k == 'Bin' and n['op'] in ('<', '>', '<=', '>='):
                ts = [type_of(prog, strip_cast(x).get('t')).rstrip() for x in (n['a'], n['b'])]
                if all(t.endswith('*') and re.search(r'\b(clang|dredd|llvm)::', t) for t in ts):
                    add(n, 'two addresses are compared for order', 'address order')
    rep.count('functions', n_fns)
    rep.count('loops', loops)
    rep.count('calls', calls)
    if n_fns < 50:
        raise build.AnalysisError('only %d functions were analysed' % n_fns)


def strip_cast(e):
    while isinstance(e, dict) and e.get('k') == 'Cast':
        e = e['e']
    return e or {}


def unordered(t):
    head = t.split('<')[0] if t else ''
    return bool(HASH.search(head)) or bool(PTRKEY.match((t or '').replace('const ', '', 1)) or PTRKEY.match(t or ''))


def ordered_effect(prog, pur, f, loop):
    """an effect of the body whose result depends on the order of the iterations."""
    inner = set(n['id'] for n in walk(loop) if n.get('k') == 'Var') | {loop['var'].get('id')} | \
        set(b['id'] for b in loop['var'].get('bind') or [])
    uses = lambda e: any(x.get('k') == 'Ref' and x.get('id') in inner for x in walk(e))
    sorted_later = set()
    for n in walk(f['b']):
        if n.get('k') == 'Call' and re.search(r'\bsort\b', (prog['callees'].get(n.get('f')) or {}).get('n') or ''):
            for x in walk(n):
                if x.get('k') == 'Ref':
                    sorted_later.add(x.get('id'))
    for n in walk(loop['b']):
        k = n.get('k')
        if k == 'Return' and n.get('e') is not None and uses(n['e']):
            return 'a result that depends on the order'
        if k == 'Bin' and n['op'] in ASSIGN or k == 'OpCall' and n['op'] in ASSIGN:
            lhs, rhs = (n['a'], n['b']) if k == 'Bin' else (n['a'][0], n['a'][1:])
            r = root(lhs)
            if r and r.get('id') in inner:
                continue
            if k == 'Bin' and n['op'] in ('+=', '-=', '|=', '&=', '^='):
                continue
            if r and r.get('id') in sorted_later:
                continue
            if uses(rhs):
                return 'an assignment that depends on the order'
        elif k in ('MCall', 'OpCall', 'Call') and n.get('f'):
            c = prog['callees'].get(n['f']) or {}
            cls = re.sub(r'<.*', '', c.get('cls') or '')
            name = c.get('n') or ''
            if k == 'MCall' and name in ('insert', 'emplace', 'erase', 'try_emplace') and re.search(r'(set|map|Set|Map)', cls):
                continue
            if k == 'MCall' and name in ('push_back', 'emplace_back', 'append'):
                r = root(n.get('o'))
                if r and (r.get('id') in inner or r.get('id') in sorted_later):
                    continue
                return 'an append that keeps the order'
            if k == 'OpCall' and n['op'] == '[]':
                continue
            e = pur.node(n, inner)
            if e and not (k == 'OpCall' and n['op'] in ASSIGN):
                return e
    return None
