"""Relational and typing rules on the generators: C05, C24, C18 (generator parts)."""
import c18
import gencheck as G
import gendb
import emit
from checks import merge_gen, GEN_ASSUME, gp, each_mode, MODES, ALLMODES
from engine import T, Term, TStr, add


def pair(P, cf, t, p, v):
    a, b = gp(P, cf, t, p, 'base'), gp(P, cf, t, p, v)
    for g in (a, b):
        if g.unread:
            raise G.Unreadable(g.unread)
    return a, b


def same_pb(a, b, what):
    out = []
    if a.pb != b.pb:
        ids = lambda g: [(i.get('mutation_id', 0), i.get('action', 0)) for i in g.inst]
        out.append((b.line(), 'the mutation information differs %s: %s' %
                    (what, 'mutants %r instead of %r' % (ids(b), ids(a)) if ids(a) != ids(b) else
                     'the description of the construct is not the same')))
    if a.final != b.final:
        out.append((b.line(), 'the id counter ends at %r %s, and at %r otherwise' % (b.final, what, a.final)))
    return out


def track_path(P, cf, t, p, info, b=None):
    a, b = (gp(P, cf, t, p, 'base'), b) if b is not None else pair(P, cf, t, p, 'track')
    out = same_pb(a, b, 'in tracking mode')
    n = len(b.inst)
    if t['kind'] == 'stmt':
        try:
            body = G.parse_stmt_text(b)
            m = G.run_stmt(b, body, None, G.TRACK_ROLE)
        except emit.Malformed as x:
            return out + [(b.line(), 'tracking mode: ' + str(x))], 3
        if m.count != 1:
            out.append((b.line(), 'in tracking mode the statement is executed %d times' % m.count))
    else:
        b.role = G.TRACK_ROLE
        out += [(l, 'tracking mode: ' + msg) for l, msg in G.well_formed(b)]
        if b.err:
            return out, 3
        b.role = G.TRACK_ROLE
        out += [(l, msg) for l, msg in G.check_disabled(b, ((None, 'only coverage is tracked'),))]
        try:
            m = b.machine(None)
        except emit.Malformed as x:
            return out + [(b.line(), 'tracking mode: ' + str(x))], 3
    want = [(G.LOCAL, n)]
    got = [(x, y) for x, y, _ in m.records]
    if got != want and not (n == 0 and not got):
        out.append((b.line(), 'the place has mutants id..id+%d but records %s' %
                    (n - 1, ', '.join('(%r, %r)' % (x, y) for x, y in got) or 'nothing')))
    elif any(g for _, _, g in m.records):
        out.append((b.line(), 'mutants are recorded only under a condition'))
    return out, 4


def c05_gen(rep, P):
    def path(P, cf, t, p, info):
        out, n = track_path(P, cf, t, p, info)
        if not out:
            a, b = pair(P, cf, t, p, 'track+show')
            out, k = track_path(P, cf, t, p, info, b)
            n += k
        return out, n
    found, total = gendb.run(P, gendb.Rule(path),
                             variants={k: v for k, v in ALLMODES.items() if k != 'show'})
    merge_gen(rep, P, found, total, 'tracking mode: same value, same ids, and exactly the ids of the place recorded')


def show_path(P, cf, t, p, info):
    a, b = pair(P, cf, t, p, 'show')
    out = same_pb(a, b, 'with --show-ast-node-types')

    def toks(g, x):
        try:
            return [(k.k, repr(k.v)) for k in emit.tokens(x)]
        except emit.Malformed as e:
            return str(e)

    def differs(x, y):
        return toks(a, x) != toks(b, y)
    if differs(a.text, b.text):
        out.append((b.line(), 'the rewritten code differs with --show-ast-node-types: %s' % str(toks(b, b.text))[:200]))
    for x, y in zip(a.ins, b.ins):
        if differs(x[1], y[1]):
            out.append((y[-1], 'the emitted function differs with --show-ast-node-types'))
    if len(a.ins) != len(b.ins):
        out.append((b.line(), '%d functions are emitted with --show-ast-node-types, %d otherwise' %
                    (len(b.ins), len(a.ins))))
    return out, 3


def c24_gen(rep, P):
    found, total = gendb.run(P, gendb.Rule(show_path), variants={'base': {}, 'show': {'GetShowAstNodeTypes': True}})
    merge_gen(rep, P, found, total, '--show-ast-node-types adds nothing but comments')


def opt_path(P, cf, t, p, info):
    a, b = pair(P, cf, t, p, 'opt')
    if t['kind'] == 'stmt':
        out = []
        if len(a.inst) != len(b.inst):
            out.append((b.line(), 'optimisation changes the mutants of a statement'))
        return out, 1
    return c18.check(a, b, cf, p)


def c18_gen(rep, P):
    found, total = gendb.run(P, gendb.Rule(opt_path), opts=(True,),
                             variants={'base': {'GetOptimiseMutations': False}, 'opt': {'GetOptimiseMutations': True}})
    merge_gen(rep, P, found, total, 'optimisation leaves out redundant mutants only; without it none are missing')


def c08_gen(rep, P):
    import c08
    from report import Finding

    def path(P, cf, t, p, info):
        out = []
        for v in ('base', 'track'):
            g = gp(P, cf, t, p, v)
            if g.unread:
                raise G.Unreadable(g.unread)
            if t['kind'] == 'stmt':
                continue
            if t['vk'] == 'lv' and not g.inst:
                continue    # the visitor only creates l-value mutations that have mutants (C12)
            g.role = G.REGULAR_ROLE if v == 'base' else G.TRACK_ROLE
            c08.collect(g, info, (t['cxx'], t['opt'], v))
            if g.err:
                continue
            try:
                m = g.machine(None)
            except emit.Malformed as x:
                if 'dredd_re' in str(x):
                    out.append((g.line(), str(x)))
                continue
            for pr in m.problems:
                out.append((g.line(), pr))
            for n in g.defs:
                if n not in m.called and v == 'base':
                    out.append((g.line(), 'the emitted function %s is not called' % emit.show_name(n)))
        return out, 2
    found, total = gendb.run(P, gendb.Rule(path),
                             variants={'base': {}, 'track': {'GetOnlyTrackMutantCoverage': True}})
    merge_gen(rep, P, found, total, 'calls and definitions of mutator functions match')
    bad, n = c08.decide(total['collect'])
    rep.count('signatures', n)
    rep.count('definitions_instantiated', len(total['collect']))
    for line, msg in bad[:200]:
        rep.add(Finding(msg, 'mutator function emitted at line %s' % line,
                        'one definition per mutator function signature', msg))


def c07_gen(rep, P):
    """emitted mutator functions and rewritten code keep no state."""
    import re
    import prelude
    hidden = re.compile(r'\b(%s)\s*\(' % '|'.join(sorted(prelude.HIDDEN)))

    def path(P, cf, t, p, info):
        out = []
        for v in ('base', 'track'):
            g = gp(P, cf, t, p, v)
            for e in g.ins + [(0, getattr(g, 'text', None), g.line())]:
                if e[1] is None:
                    continue
                txt = ''.join(x if isinstance(x, str) else '\x01' for x in (e[1].p if hasattr(e[1], 'p') else (e[1],)))
                txt = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', txt)
                depth = 0
                for m in re.finditer(r'[{};]|\bstatic\b[^;{}]*', txt):
                    w = m.group(0)
                    if w == '{':
                        depth += 1
                    elif w == '}':
                        depth -= 1
                    elif w.startswith('static') and not re.search(r'\bthread_local\b|\batomic|\bconst(expr)?\b|^static_', w):
                        if depth > 0 or not re.search(r'\(', w):
                            out.append((e[-1], 'emitted code has a variable of static storage duration that all threads share: %s' %
                                        w.replace('\x01', '..')[:60]))
                m = hidden.search(txt)
                if m:
                    out.append((e[-1], 'emitted code calls %s, which keeps state that all threads share' % m.group(1)))
        return out, 2
    found, total = gendb.run(P, gendb.Rule(path), variants={'base': {}, 'track': {'GetOnlyTrackMutantCoverage': True}})
    merge_gen(rep, P, found, total, 'emitted code keeps no shared state')


def c19_gen(rep, P):
    import c19

    def path(P, cf, t, p, info):
        if t['kind'] == 'stmt':
            return [], 0
        return each_mode(P, cf, t, p, MODES, c19.check)
    found, total = gendb.run(P, gendb.Rule(path), variants=MODES)
    merge_gen(rep, P, found, total, 'replacements fit the types and value categories of their operands')


def c02_gen(rep, P):
    def path(P, cf, t, p, info):
        return each_mode(P, cf, t, p, ALLMODES, lambda g: (G.check_ids(g), 2 + len(g.inst)))
    found, total = gendb.run(P, gendb.Rule(path), variants=ALLMODES)
    merge_gen(rep, P, found, total, 'a group reports the ids it consumes: id, id+1, ..., and leaves the counter after them')


def has_addr(x):
    if isinstance(x, Term):
        return x.f == 'addr' or any(has_addr(y) for y in x.a)
    if isinstance(x, TStr):
        return any(has_addr(y) for y in x.p)
    if isinstance(x, (tuple, list)):
        return any(has_addr(y) for y in x)
    if isinstance(x, dict):
        return any(has_addr(y) for y in x.values())
    return False


def address_path(P, cf, t, p, info):
    out = []
    for v in ('base', 'track'):
        g = gp(P, cf, t, p, v)
        for e in g.rw + g.ins:
            if has_addr(e[1:]):
                out.append((e[-1], 'an address is part of the emitted code'))
        if has_addr(g.pb):
            out.append((g.line(), 'an address is part of the mutation information'))
    return out, 2


def c20_gen(rep, P):
    found, total = gendb.run(P, gendb.Rule(address_path), variants={'base': {}, 'track': {'GetOnlyTrackMutantCoverage': True}})
    merge_gen(rep, P, found, total, 'emitted code and mutation information contain no addresses')
