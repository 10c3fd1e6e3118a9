"""C04: what is reported about a place is what is there."""
import build
import explore
import gen
import gencheck as G
import gendb
from checks import gp, merge_gen
from engine import T, Term, Lin, TStr, Cell, Obj, rv, base_type, add, lin, as_lin
from report import Finding, rel

R = T('R')
RULE = 'reported locations, snippets and operators describe the place'
LOCS = {'.getBegin': 'begin', '.getEnd': 'end'}


class Odd(Exception):
    pass


def atom(t):
    """a quantity of the range: ('line'|'column'|'offset'|'token'|'buffer', 'begin'|'end')."""
    if not isinstance(t, Term):
        raise Odd(repr(t))
    n = t.f.split('.')[-1].split('::')[-1]
    args = [a for a in t.a if isinstance(a, Term) and a.f not in ('SM', 'AC', 'LO', 'null')]

    def loc(x):
        if isinstance(x, Term) and x.f in LOCS and x.a[0] == R:
            return LOCS[x.f]
        raise Odd(repr(x))
    if n in ('getSpellingLineNumber', 'getExpansionLineNumber'):
        return ('line', loc(args[-1]))
    if n in ('getSpellingColumnNumber', 'getExpansionColumnNumber'):
        return ('column', loc(args[-1]))
    if n in ('getPresumedLineNumber', 'getPresumedColumnNumber'):
        return ('presumed ' + ('line' if 'Line' in n else 'column'), loc(args[-1]))
    if n == 'MeasureTokenLength':
        return ('token', loc(args[0]))
    if n == 'getFileOffset':
        return ('offset', loc(args[-1]))
    if n in ('second', 'first'):
        d = args[0]
        if isinstance(d, Term) and d.f.split('.')[-1] in ('getDecomposedLoc', 'getDecomposedSpellingLoc', 'getDecomposedExpansionLoc'):
            l = loc([a for a in d.a if isinstance(a, Term) and a.f != 'SM'][-1])
            return ('offset', l) if n == 'second' else ('file', '')
    if n in ('getMainFileID', 'getFileID'):
        return ('file', '')
    raise Odd(repr(t))


def value(v):
    """linear form over quantities: (constant, {quantity: coefficient})."""
    c, m = as_lin(v)
    out = {}
    for a, k in (m.items() if isinstance(m, dict) else m):
        if isinstance(a, Term) and a.f == 'len' and isinstance(a.a[0], Term) and a.a[0].f in SLICES:
            d = piece(a.a[0], 0)[1]
            if d is None:
                raise Odd(repr(a))
            c += k * d[0]
            for q, j in d[1].items():
                out[q] = out.get(q, 0) + k * j
            continue
        q = atom(a)
        out[q] = out.get(q, 0) + k
    return c, {q: k for q, k in out.items() if k}


def words(x):
    c, m = x
    s = ' + '.join(('%d * ' % k if k != 1 else '') + ('%s of the %s' % ({'token': 'length of the last token' if q[1] == 'end' else
                   'length of the first token'}.get(q[0], q[0]), q[1]) if q[0] != 'token' else
                   'length of the %s token' % ('last' if q[1] == 'end' else 'first')) for q, k in sorted(m.items()))
    return (s + (' %+d' % c if c else '')) or str(c)


WANT = {'start line': (0, {('line', 'begin'): 1}), 'start column': (0, {('column', 'begin'): 1}),
        'end line': (0, {('line', 'end'): 1}), 'end column': (0, {('column', 'end'): 1, ('token', 'end'): 1})}
OFF = (0, {('offset', 'begin'): 1})
LEN = (0, {('offset', 'end'): 1, ('offset', 'begin'): -1, ('token', 'end'): 1})


def plus(a, b, f=1):
    m = dict(a[1])
    for q, k in b[1].items():
        m[q] = m.get(q, 0) + f * k
    return a[0] + f * b[0], {q: k for q, k in m.items() if k}


SLICES = ('substr', 'take_back', 'take_front', 'drop_front', 'drop_back')


def piece(x, least):
    """(offset, length) of a piece of the buffer; length None: up to the end of the file."""
    if isinstance(x, TStr) and len(x.p) == 1:
        x = x.p[0]
    if isinstance(x, Term) and x.f.split('.')[-1] == 'getBufferData':
        atom([a for a in x.a if isinstance(a, Term) and a.f != 'null'][-1])
        return (0, {}), None
    if not isinstance(x, Term) or x.f not in SLICES:
        raise Odd(repr(x))
    o, n = piece(x.a[0], least)
    a = [value(k) if k is not None else None for k in x.a[1:]]

    def within(k):
        # a piece of constant size is not clipped when the text is known to be at least that long
        if n is None:
            return
        if k == n or (not k[1] and ((not n[1] and 0 <= k[0] <= n[0]) or (n == LEN and 0 <= k[0] <= least))):
            return
        d = plus(n, k, -1)
        if d[1] or d[0] < 0:
            raise Odd('piece that may be clipped')
    if x.f == 'substr':
        k = a[1] if len(a) > 1 else None
        within(a[0] if k is None else plus(a[0], k))
        return plus(o, a[0]), k if k is not None else (None if n is None else plus(n, a[0], -1))
    k = a[0]
    within(k)
    if x.f == 'take_front':
        return o, k
    if x.f == 'drop_front':
        return plus(o, k), None if n is None else plus(n, k, -1)
    if n is None:
        raise Odd('piece counted from the end of the file')
    if x.f == 'drop_back':
        return o, plus(n, k, -1)
    return plus(o, plus(n, k, -1)), k


def snippet(v, log):
    """problem with a snippet on a partition, or None."""
    if not isinstance(v, TStr):
        raise Odd(repr(v))
    ps = []
    for x in v.p:
        if isinstance(x, str):
            ps.append(x)
        elif isinstance(x, Term) and x.f in SLICES:
            o, n = piece(x, shortest(log))
            if n is None:
                return 'the snippet extends to the end of the file', False
            ps.append((o, n))
        else:
            raise Odd(repr(x))
    least = shortest(log)
    rs = [p for p in ps if not isinstance(p, str)]
    if len(ps) == 1 and len(rs) == 1:
        if rs[0][0] != OFF:
            return 'the snippet starts at the %s' % words(rs[0][0]), False
        if rs[0][1] != LEN:
            return 'the snippet has length %s' % words(rs[0][1]), False
        return None, False
    if len(rs) == 2 and len(ps) == 3 and isinstance(ps[1], str):
        (o1, n1), (o2, n2) = rs
        if n1[1] or n2[1]:
            raise Odd('abbreviation of symbolic length')
        if o1 != OFF:
            return 'the first part of an abbreviated snippet starts at the %s' % words(o1), True
        end = plus(o2, n2)
        if end != plus(OFF, LEN):
            return 'the last part of an abbreviated snippet ends at the %s, which is not the end of the place' % words(end), True
        if n1[0] <= 0 or n2[0] <= 0:
            return 'an abbreviated snippet lacks its first or last characters', True
        if least is not None and least < n1[0] + n2[0]:
            return 'a snippet of %d characters is abbreviated to its first %d and last %d characters' % (least, n1[0], n2[0]), True
        return None, True
    if not rs:
        return 'the snippet does not contain text of the place', False
    raise Odd('snippet of %d parts' % len(ps))


def shortest(log):
    """smallest length of the text on a partition, from comparisons with constants (None: not known)."""
    lo = 1
    for t, v in log:
        if not isinstance(t, Term) or t.f not in ('lt', 'le', 'gt', 'ge') or len(t.a) != 2 or not isinstance(v, bool):
            continue
        try:
            a, b = value(t.a[0]), value(t.a[1])
        except Odd:
            continue
        d = plus(b, a, -1)      # b - a
        if d[1] == LEN[1]:      # a < b : len + d0 > 0
            if t.f == 'lt' and v:
                lo = max(lo, 1 - d[0])
            if t.f == 'le' and v:
                lo = max(lo, -d[0])
        elif d[1] == {q: -k for q, k in LEN[1].items()}:
            if t.f == 'lt' and not v:       # not (a < b): b - a <= 0
                lo = max(lo, d[0])
            if t.f == 'le' and not v:
                lo = max(lo, d[0] + 1)
    return lo


def classes(rep, P):
    """per class describing a range: accessor -> what it yields."""
    out = {}
    for key in [k for k, v in P.opaque.items() if v == 'info']:
        f = P.fns[key]
        cls = f['cls']
        ms = [(m, g) for m, g in P.fns.items() if g.get('cls') == cls and not g['p'] and not g.get('isctor') and '~' not in g['qn'] and
              g.get('b') is not None]
        cf = gen.GenConfig(P, 'clang::Stmt', True, {})
        names = {}
        snip = {}
        saved = P.opaque.pop(key)

        def run():
            args = [R if base_type(p['t']) in gen.RANGES else gen.sym_arg(cf, p['t'], gen.NODE) for p in f['p']]
            o = P.construct(cls, key, args)
            return {g['qn'].split('::')[-1]: (rv(P.invoke(m, Cell(o), [])), g) for m, g in ms}

        def on(p):
            if p.status != 'ok':
                return
            rep.count('description_partitions', 1)
            for n, (v, g) in p.result.items():
                w = '%s:%s %s' % (rel(g.get('file') or f.get('file') or '?'), g.get('l') or g.get('line') or f.get('l') or f.get('line'), cls)
                try:
                    if isinstance(v, TStr):
                        bad, short = snippet(v, p.log)
                        names.setdefault(n, set()).add('snippet')
                        snip.setdefault(n, set()).add(short)
                        if bad:
                            rep.add(Finding('snippet ' + bad, '%s:%s %s' % (rel(f.get('file') or '?'), f.get('l') or f.get('line'), cls), RULE, bad,
                                            ', '.join('%r=%s' % x for x in p.log)[:800]))
                    else:
                        x = value(v)
                        names.setdefault(n, set()).add(next((k for k, y in WANT.items() if y == x), words(x)))
                except Odd as e:
                    rep.note('not_analysed_constructs', {'%s: %s' % (n, e): 1})
                    names.setdefault(n, set()).add(None)
        st = explore.explore(cf, run, limit=2000, on_path=on)
        P.opaque[key] = saved
        if st['unsupported']:
            rep.note('not_analysed_constructs', dict(list(st['unsupported'].items())[:5]))
        elif snip and not any(True in s for s in snip.values()):
            rep.add(Finding('no abbreviation', '%s:%s %s' % (rel(f.get('file') or '?'), f.get('l') or f.get('line'), cls), RULE,
                            'long snippets are not abbreviated'))
        out[cls] = names
    return out


def accessor(v):
    """(class, range, accessor) of a reported value."""
    if isinstance(v, TStr):
        if len(v.p) != 1:
            raise Odd(repr(v))
        v = v.p[0]
    if isinstance(v, Term) and v.f.startswith('.') and len(v.a) == 1:
        o = v.a[0]
        if isinstance(o, Term) and o.f.startswith('C:'):
            return o.f[2:], o.a[0], v.f[1:]
    raise Odd(repr(v))


def fields(kind):
    n = G.NODE
    sub = {'bin': (('expr_', n), ('lhs_', T('.getLHS', n)), ('rhs_', T('.getRHS', n))),
           'un': (('expr_', n), ('operand_', T('.getSubExpr', n))), 'expr': (('', n),), 'stmt': (('', n),)}[kind]
    for pre, node in sub:
        yield pre + 'start', 'line', 'start line', node
        yield pre + 'start', 'column', 'start column', node
        yield pre + 'end', 'line', 'end line', node
        yield pre + 'end', 'column', 'end column', node
        yield pre + 'snippet', None, 'snippet', node


def run(rep, P):
    info = classes(rep, P)
    if not info:
        raise build.AnalysisError('no class that describes source ranges was found')

    def path(P, cf, t, p, pinfo):
        g = gp(P, cf, t, p, 'base')
        if not g.inst or not isinstance(g.group, dict):
            return [], 0
        out = []
        n = 0
        for fld, part, what, node in fields(t['kind']):
            v = g.group.get(fld)
            name = fld + ('.' + part if part else '')
            if part is not None:
                v = v.get(part) if isinstance(v, dict) else None
            if v is None:
                out.append((g.line(), 'the field %s of the mutation information is not set' % name))
                continue
            n += 1
            try:
                cls, rng, acc = accessor(v)
            except Odd as e:
                raise G.Unreadable(str(e))
            kinds = info.get(cls, {}).get(acc)
            if not kinds:
                raise G.Unreadable('%s::%s' % (cls, acc))
            if None in kinds:
                pass    # noted with the class: what it yields could not be established
            elif kinds != {what}:
                out.append((g.line(), 'the field %s holds the %s of the place instead of the %s' % (name, ' or '.join(sorted(kinds)), what)))
            want = T('MR', T('.getSourceRange', node))
            if rng != want:
                out.append((g.line(), 'the field %s describes %r instead of %r' % (name, rng, want)))
        if t['kind'] in ('bin', 'un'):
            n += 1
            on = G.enum_names_cached(g, 'BinaryOperator' if t['kind'] == 'bin' else 'UnaryOperator')
            got = on.get(g.group.get('operator', 0))
            if on and got != g.opname:
                out.append((g.line(), 'the operator %s is reported as %s' % (g.opname, got)))
        return out, n
    found, total = gendb.run(P, gendb.Rule(path), variants={'base': {}})
    merge_gen(rep, P, found, total, RULE)
