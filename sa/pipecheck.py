"""Rules over the whole-tool analysis (pipeline.py)."""
import multiprocessing
import json
import os
import re
import time
import build
import engine as E
import explore
import pipeline
import prelude
import scenarios as S
import visitcheck as V
from engine import T, Term, TStr, Obj, Vec, Cell, Lin, rv, add, hashable
from report import Finding, rel

FLAG = lambda n: T('flag', n)
INFO_EMPTY = T('.empty', TStr((FLAG('mutation-info-file'),)))
QUIET = {FLAG('dump-asts'): False, FLAG('no-mutation-opts'): False, FLAG('only-track-mutant-coverage'): False,
         FLAG('show-ast-node-types'): False}


class Setup:
    def __init__(self, name, files, facts=None, names=None, spell=None, langs=(True, False), distinct=True):
        self.name, self.files, self.facts, self.names, self.spell = name, files, dict(facts or {}), names, spell
        self.langs, self.distinct = langs, distinct


# ------------------------------------------------------------------------------------------ skeletons
class TU(S.B):
    def __init__(self, name):
        S.B.__init__(self, name)
        self.k = 0

    def lit(self, cls='IntegerLiteral', kids=(), **a):
        t = T('E%d' % self.k)
        self.k += 1
        e = self.focus(cls, t, kids=list(kids), tc=('sint',), **a)
        self.facts[T('.isValueDependent', t)] = True
        if cls == 'BinaryOperator' and len(kids) == 2:
            self.values[T('.getLHS', t)] = kids[0].term
            self.values[T('.getRHS', t)] = kids[1].term
        for a in ('.getSubExpr', '.getLHS', '.getRHS'):
            self.facts[T('.isValueDependent', T(a, t))] = True
        return e

    def fnd(self, *stmts, name='f', bad=False, main=True):
        self.k += 1
        t = T('F%d' % self.k)
        f = self.ctx('FunctionDecl', [self.body(*stmts)] if stmts else [], term=t, role='decl')
        self.values[T('.getNameAsString', t)] = E.tstr(name)
        self.values[T('.getName', t)] = E.tstr(name)
        if not main:
            self.badrange = dict(getattr(self, 'badrange', {}))
            self.badrange[t] = 1
        return f

    def tu(self, *decls):
        t = self.ctx('TranslationUnitDecl', list(decls), term=T('TU'), role='decl')
        self.top = [t]
        return self


def one(n=1):
    s = TU('one')
    return s.tu(s.fnd(*[s.ret(s.lit()) for _ in range(n)]))


def empty():
    s = TU('empty')
    return s.tu(s.fnd())


def trees():
    out = []

    def add(name, f):
        s = TU(name)
        f(s)
        out.append(s)
    add('operator with operands', lambda s: s.tu(s.fnd(s.ret(s.lit('BinaryOperator', [s.lit(), s.lit()])))))
    add('two functions', lambda s: s.tu(s.fnd(s.ret(s.lit())), s.fnd(s.ret(s.lit()))))
    add('three functions, the middle one empty', lambda s: s.tu(s.fnd(s.ret(s.lit())), s.fnd(), s.fnd(s.ret(s.lit()))))
    add('nested blocks', lambda s: s.tu(s.fnd(
        s.body(s.ret(s.lit())), s.ret(s.lit()))))
    add('block in block in block', lambda s: s.tu(s.fnd(s.body(s.body(s.ret(s.lit('UnaryOperator', [s.lit()])))))))
    add('if with else', lambda s: s.tu(s.fnd(
        s.ctx('IfStmt', [s.lit(), s.body(s.ret(s.lit())), s.body()]))))
    add('loop with block', lambda s: s.tu(s.fnd(
        s.ctx('WhileStmt', [s.lit(), s.body(s.body(), s.body(s.ret(s.lit())), s.body())]))))
    add('expressions only', lambda s: s.tu(s.fnd(
        s.ctx('IfStmt', [s.lit('BinaryOperator', [s.lit('UnaryOperator', [s.lit()])])]))))
    add('empty blocks', lambda s: s.tu(s.fnd(s.body(), s.body(s.body(), s.body()))))
    add('empty blocks around an expression', lambda s: s.tu(
        s.fnd(), s.fnd(s.body(), s.body(s.body(), s.body(s.body(), s.ret(s.lit()))), s.body()), s.fnd()))
    return out


def preludes():
    """(skeleton, expected place)"""
    out = []
    P = '__dredd_prelude_start'

    def add(name, f, want):
        s = TU(name)
        s.want = f(s)
        s.place = want
        out.append(s)

    def first(s):
        m = s.fnd(name=P)
        s.tu(m, s.fnd(s.ret(s.lit())))
        return m.term

    def last(s):
        m = s.fnd(name=P)
        s.tu(s.fnd(s.ret(s.lit())), m)
        return m.term

    def twice(s):
        m = s.fnd(name=P)
        s.tu(m, s.fnd(s.ret(s.lit())), s.fnd(name=P))
        return m.term

    def header(s):
        m = s.fnd(name=P, main=False)
        s.tu(m, s.fnd(s.ret(s.lit())))

    def both(s):
        h = s.fnd(name=P, main=False)
        m = s.fnd(name=P)
        s.tu(h, m, s.fnd(s.ret(s.lit())))
        return m.term

    def similar(s):
        s.tu(s.fnd(name=P + '_'), s.fnd(name='_' + P), s.fnd(s.ret(s.lit())))

    def nothing(s):
        m = s.fnd(name=P)
        s.tu(m, s.fnd())
        return m.term

    def declared_constexpr(s):
        m = s.fnd(name=P)
        s.facts[T('.isConstexpr', m.term)] = True
        s.tu(m, s.fnd(s.ret(s.lit())))
        return m.term
    for n, f in (('declared first', first), ('declared last', last), ('declared twice', twice),
                 ('declared in a header', header), ('declared in a header and the file', both),
                 ('similar names', similar), ('declared, no mutants', nothing),
                 ('declared constexpr', declared_constexpr)):
        add(n, f, None)
    return out


def constants():
    out = []

    def add(name, f, langs=(True, False)):
        s = TU(name)
        s.arrays = {}
        s.langs = langs
        s.const = []        # (expression, only in C++)
        s.const_if = []
        f(s)
        out.append(s)

    def array(s, levels, cls='VarDecl'):
        s.k += 1
        t = T('A%d' % s.k)
        d = s.ctx(cls, [], term=t, role='decl')
        s.arrays[t] = levels
        for i, k in enumerate(levels):
            if k != 'carr':
                break
            s.const.append((T('size_expr', t, i), True))
        s.doms[T('tc', T('ty', t))] = frozenset(['carr'])
        for i in range(len(levels) + 1):
            k = levels[i] if i < len(levels) else 'other'
            s.doms[T('tc', T('tlty', t, i))] = frozenset([k if k in ('carr', 'varr') else 'sint'])
            x = T('size_expr', t, i)
            s.cls[x] = ('clang::IntegerLiteral', frozenset())
        return d
    L = (['carr'], ['carr', 'carr'], ['carr', 'carr', 'carr'], ['other'])
    for lv in L:
        n = ', %d level(s)' % len([x for x in lv if x == 'carr'])
        add('array variable' + n, lambda s: s.tu(array(s, lv), s.fnd(s.ret(s.lit()))))
        add('local array variable' + n, lambda s: s.tu(s.fnd(
            s.ctx('DeclStmt', [array(s, lv)]), s.ret(s.lit()))))
        add('array member' + n, lambda s: s.tu(s.ctx('CXXRecordDecl', [array(s, lv, 'FieldDecl')], role='decl'),
                                               s.fnd(s.ret(s.lit()))), (True,))
    add('two arrays', lambda s: s.tu(array(s, ['carr', 'carr']), array(s, ['carr']), s.fnd(s.ret(s.lit()))), (True,))

    def sa(s):
        d = s.ctx('StaticAssertDecl', [], term=T('SA'), role='decl')
        s.const.append((T('.getAssertExpr', d.term), False))
        s.cls[T('.getAssertExpr', d.term)] = ('clang::IntegerLiteral', frozenset())
        s.tu(d, s.fnd(s.ret(s.lit())))
    add('static assertion', sa)

    def targs(s, n=1, ty=('sint',)):
        v = s.ctx('VarDecl', [], term=T('V'), role='decl')
        ty_ = T('ty', v.term)
        s.facts[T('sugar', ty_, 'clang::TemplateSpecializationType')] = True
        s.tu(v, s.fnd(s.ret(s.lit())))
        a = T('.template_arguments', T('as<clang::TemplateSpecializationType>', ty_))
        s.facts[T('has', a, 0)] = True
        s.facts[T('has', a, 1)] = n > 1
        s.facts[T('has', a, 2)] = False
        for i in range(n):
            TS = 'clang::TemplateSpecializationType'
            nest = T('.getAsType', T('[]', a, i))
            b = T('.template_arguments', T('as<%s>' % TS, nest))
            if i:
                s.facts[T('sugar', nest, TS)] = False
            s.facts[T('has', b, 0)] = True
            s.facts[T('has', b, 1)] = False
            s.facts[T('sugar', T('.getAsType', T('[]', b, 0)), TS)] = False
            # an argument that is an expression; an argument of a type that is an argument
            ka, kb = T('.getKind', T('[]', a, i)), T('.getKind', T('[]', b, 0))
            s.const_if.append((T('.getAsExpr', T('[]', a, i)), [(ka, EXPR)], ()))
            if not i:
                s.const_if.append((T('.getAsExpr', T('[]', b, 0)), [(ka, TYPE), (kb, EXPR)], (T('sugar', nest, TS),)))
    add('template argument', lambda s: targs(s), (True,))
    add('two template arguments', lambda s: targs(s, 2), (True,))

    def builtin(name, mask, n):
        def f(s):
            P = V.program()
            b = S.enum(P, 'clang::Builtin::ID', name)
            if b is None:
                s.tu(s.fnd(s.ret(s.lit())))
                return
            kids = [s.lit() for _ in range(n)]
            c = s.lit('CallExpr', kids)
            s.values[T('.getBuiltinCallee', c.term)] = b
            s.values[T('.getNumArgs', c.term)] = n
            for i, k in enumerate(kids):
                s.values[T('.getArg', c.term, i)] = k.term
            s.mask[b] = mask
            s.tu(s.fnd(s.ret(c), s.ret(s.lit())))
            s.const = [(T('.getArg', c.term, i), False) for i, k in enumerate(kids) if mask >> i & 1]
        return f
    add('constant argument of a builtin', builtin('BI__builtin_frame_address', 1, 1))
    add('second argument of a builtin constant', builtin('BI__builtin_object_size', 2, 2))
    add('no argument of a builtin constant', builtin('BI__builtin_expect', 0, 2))
    return out


EXPR, TYPE = 7, 1        # clang::TemplateArgument::ArgKind


def r_constants(run):
    """C14"""
    for f in run.files:
        s = run.setup.files[f['i']]
        for e in f['rw']:
            if not e[1].startswith(('Replace', 'Remove')):
                continue
            rng, txt = e[2], text_of(e)
            x = expr_of_range(rng)
            if x is None or txt is None:
                yield (e[-1], 'the replaced text is not that of an expression: %r' % (rng,))
                return
            why = constant_value(run, s, x, txt)
            if why:
                yield (e[-1], why)
                return
        if f['started'] and not f['error'] and run.total(f) != 0:
            why = missing_constants(run, f, s)
            if why:
                yield (0, why)
                return


def missing_constants(run, f, s):
    done = [expr_of_range(e[2]) for e in f['rw'] if e[1].startswith('Replace')]
    facts = run.p.facts
    more = []
    for x, kinds, conds in getattr(s, 'const_if', ()):
        # required unless what was established on this path rules the case out
        if any(facts.get(T('eqk', k, w)) is False or any(facts.get(T('eqk', k, o)) is True for o in range(12) if o != w) for k, w in kinds):
            continue
        if any(facts.get(c) is False for c in conds):
            continue
        more.append((x, True))
    for x, cxx in list(getattr(s, 'const', ())) + more:
        # the same expression may be named by how it is reached or by what it is
        same = [x] + ([s.values[x]] if isinstance(s.values.get(x), Term) else [])
        same += [u for t, v in facts.items() if v is True and t.f == 'eq' and x in t.a for u in t.a if u is not x and isinstance(u, Term)]
        if any(y in done for y in same) or (cxx and not run.cf.cxx):
            continue
        if any(facts.get(T('invalid', T('MR', T('.getSourceRange', y)))) is True or facts.get(T('.has', T('ice', y))) is False for y in same):
            continue
        ds = [run.p.doms.get(T('tc', T('ty', y))) for y in same]
        if any(d is not None and d <= {'enum', 'senum'} for d in ds):
            continue
        if x.f == 'size_expr':
            return 'the size expression of dimension %d of an array is not replaced by its value' % (x.a[1] + 1)
        return 'a constant expression is not replaced by its value: %r' % (x,)
    return None


def expr_of_range(r):
    if isinstance(r, Term) and r.f == 'CSR':
        r = r.a[0]
    if isinstance(r, Term) and r.f == 'MR':
        r = r.a[0]
        return r.a[0] if isinstance(r, Term) and r.f == '.getSourceRange' else r
    return None


def constant_value(run, s, x, txt):
    d = txt.p[0] if len(txt.p) == 1 else None
    if isinstance(d, Term) and d.f in ('.getExtValue', '.getSExtValue', '.getZExtValue', '.getLimitedValue') and isinstance(d.a[0], Term):
        # printed as a number of 64 bits; the zero-extended value of what may be negative is another number
        if d.f in ('.getZExtValue', '.getLimitedValue') and x.f != 'size_expr' and d.a[0].f != 'apsint':
            return 'a value that may be negative is written as an unsigned number'
        d = T('digits', d.a[0], 10)
    if isinstance(d, Term) and d.f == 'digits' and isinstance(d.a[0], Term) and d.a[0].f == 'apsint' and isinstance(d.a[0].a[0], int) and d.a[1] == 10:
        d = str(d.a[0].a[0])
    if any(isinstance(p, Term) and p.f != 'digits' and p is not d for p in txt.p) or (isinstance(d, Term) and d.f != 'digits'):
        raise prelude.Unreadable('text of a value: %r' % (txt,))
    if x.f == '.getAssertExpr':
        return None if d == '1' or (d == 'true' and run.cf.cxx) else 'the condition of a static assertion that holds is replaced by %r' % (txt,)
    if not isinstance(d, Term):
        return 'an expression is replaced by %r' % (txt,)
    v, radix = d.a[:2]
    if radix != 10:
        return 'a value is written with radix %r without a prefix' % (radix,)
    while isinstance(v, Term) and v.f in ('.val', 'val', 'deref', '.value', 'optval') and len(v.a) == 1:
        v = v.a[0]
    if x.f == 'size_expr':
        if v is T('asize', *x.a):
            return None
        if v.f == 'asize':
            return 'the size expression of dimension %d of an array is replaced by the size of dimension %d%s' % (
                x.a[1] + 1, v.a[1] + 1, '' if v.a[0] is x.a[0] else ' of another array')
    if isinstance(v, Term) and v.f in ('ice', 'ival') and v.a[0] is x:
        d = run.p.doms.get(T('tc', T('ty', x)))
        if 'template_arguments' in repr(x) and (d is None or 'enum' in d):
            return 'a template argument of enumeration type is replaced by an integer'
        return None
    return 'an expression is replaced by the value %r' % (v,)


def setups():
    out = [Setup('one file', [one()], QUIET, distinct=False),
           Setup('two files', [one(), one()], QUIET),
           Setup('two files and an empty one between', [one(), empty(), one()],
                 {**QUIET, **{T('norealpath', 'file%d' % i): False for i in range(3)}}, langs=(True,)),
           Setup('a file named twice', [one(), one()], QUIET, names=['a', 'a'], spell=['a', 'a']),
           Setup('a file named in two ways', [one(), one()], {**QUIET, T('norealpath', 'a'): False},
                 names=['a', 'a'], spell=['a', './a']),
           Setup('a file named again after another', [one(), one(), one()],
                 {**QUIET, T('norealpath', 'a'): False, T('norealpath', 'b'): False},
                 names=['a', 'b', 'a'], spell=['a', 'b', 'a'], langs=(True,))]
    ok = dict(QUIET)
    ok.update({T('errors', 0): False, INFO_EMPTY: False, T('norealpath', 'file0'): False,
               T('.ok', T('jsonstatus')): True, T('overwrite_failed'): False, T('bool', T('optparser')): True})
    for s in trees():
        out.append(Setup('tree: ' + s.name, [s], ok, langs=(True,)))
    for s in constants():
        out.append(Setup('constant: ' + s.name, [s], {**ok, INFO_EMPTY: True}, langs=s.langs))
    okp = dict(ok)
    okp[INFO_EMPTY] = True
    for s in preludes():
        out.append(Setup('prelude: ' + s.name, [s], okp))
    fl = {k: v for k, v in ok.items() if k not in QUIET}
    out.append(Setup('all options', [one()], fl))
    return out


# ------------------------------------------------------------------------------------------ reading a partition
class Run:
    """what one partition of the tool does."""

    def __init__(self, cf, p, setup):
        self.cf, self.p, self.setup = cf, p, setup
        self.status = p.result['status']
        self.parsed = p.facts.get(T('bool', T('optparser')), True)
        n = len(setup.files)
        self.files = [{'i': i, 'apply': [], 'rw': [], 'new': [], 'started': False, 'skipped': False, 'print': [],
                       'error': p.facts.get(T('errors', i)), 'ev': [], 'edit_after_write': 0} for i in range(n)]
        self.before, self.after = [], []
        self.ran = False
        cur = None
        for e in p.effects:
            if e[0] == 'file':
                cur = self.files[e[1]]
            elif e[0] == 'ran':
                cur = None
                self.ran = True
            elif cur is not None:
                cur['ev'].append(e)
                if e[0] == 'started':
                    cur['started'] = True
                elif e[0] == 'skipped':
                    cur['skipped'] = True
                elif e[0] == 'apply':
                    cur['apply'].append(e)
                elif e[0] == 'rw' and e[1] != 'setSourceMgr':
                    cur['rw'].append(e)
                elif e[0] == 'newmut':
                    cur['new'].append(e)
                elif e[0] == 'print':
                    cur['print'].append(e)
            else:
                (self.after if self.ran else self.before).append(e)
        ms = [e for e in self.after if e[0] == 'tojson']
        self.info = ms[-1][1] if ms else None
        self.requested = not p.facts.get(INFO_EMPTY, True)

    def total(self, f):
        t = 0
        for a in f['apply']:
            t = add(t, a[6])
        return t

    def infos(self):
        if not isinstance(self.info, Obj):
            return []
        c = self.info.f.get('info_for_files')
        return [x.v for x in c.v.items] if c is not None else []

    def edits(self, f):
        return [e for e in f['rw'] if e[1] != 'overwriteChangedFiles']


def field(o, n, d=None):
    c = o.f.get(n)
    return c.v if c is not None else d


def items(o, n):
    c = o.f.get(n)
    return [x.v for x in c.v.items] if c is not None else []


def fname(run, i):
    return TStr((T('fname', run.cf.spell[i]),))


# ------------------------------------------------------------------------------------------ rules
def r_ids(run):
    """C02"""
    nxt = 0
    for f in run.files:
        start = nxt
        for a in f['apply']:
            first, before, n = a[4], a[5], a[6]
            if before != nxt:
                yield (a[-1], 'a mutation is applied with id counter %r although the next free id is %r' % (before, nxt))
                return
            if first != start:
                yield (a[-1], 'the first id of the file is passed as %r although the file starts at id %r' % (first, start))
                return
            nxt = add(nxt, n)
        for e in run.edits(f):
            ids = prelude_ids(e)
            if ids is not None and f['apply']:
                yield from prelude_numbers(e, start, run.total(f))


def text_of(e):
    x = e[-2]
    return x if isinstance(x, TStr) else TStr((x,)) if isinstance(x, (Term, str)) else None


def flat(t):
    return ''.join(x if isinstance(x, str) else '\x01' for x in t.p)


def is_prelude(e):
    t = text_of(e)
    return t is not None and e[1].startswith('Insert') and ('__dredd_enabled_mutation(' in flat(t) or
                                                            '__dredd_record_covered_mutants(' in flat(t))


def prelude_ids(e):
    return True if is_prelude(e) else None


def prelude_numbers(e, start, total):
    for x in text_of(e).p:
        if isinstance(x, str):
            continue
        if x == start or x == total or (isinstance(x, Term) and x.f.startswith('op')):
            continue        # other values: prelude.py
        yield (e[-1], 'the prelude mentions %r; the file starts at id %r and has %r mutants' % (x, start, total))
        return


def r_errors(run):
    """C09"""
    if not run.ran:
        return
    failed = [f for f in run.files if f['started'] and f['error']]
    printed = TStr(())
    for e in run.after:
        if e[0] == 'print':
            printed = E.cat(printed, text_of((0, 0, e[2], 0)))
    for f in failed:
        if run.edits(f) or f['apply']:
            yield ((run.edits(f) or f['apply'])[0][-1], 'a file with compile errors is mutated')
            return
        if fname(run, f['i']).p[0] not in printed.p:
            yield (0, 'a file with compile errors is not named among the failed files')
            return
        if any(field(x, 'filename') == fname(run, f['i']) for x in run.infos()):
            yield (0, 'mutation information is emitted for a file with compile errors')
            return
    for f in run.files:
        if not f['started'] and not f['skipped']:
            yield (0, 'a file is not processed after another one with errors')
            return
        if f['started'] and not f['error'] and fname(run, f['i']).p[0] in printed.p and \
                not any(run.cf.names[g['i']] == run.cf.names[f['i']] for g in failed):
            yield (0, 'a file without compile errors is named among the failed files')
            return
        if f['started'] and not f['error'] and f['new'] and len(f['apply']) == 0:
            yield (0, 'a file without compile errors is not mutated')
            return
    if failed and run.status == 0:
        yield (0, 'the exit status is 0 although a file has compile errors')


def r_once(run):
    """C10: a file is processed once."""
    seen = set()
    for f in run.files:
        n = run.cf.names[f['i']]
        if n in seen and f['apply']:
            yield (f['apply'][0][-1], 'a file that is named several times is mutated again')
            return
        if f['started']:
            seen.add(n)
        if f['skipped'] and n not in seen:
            yield (0, 'a file is skipped as already processed although it was not')
            return


def ancestors(s, t):
    n = s.nodes.get(t)
    while n is not None and n.parent is not None:
        n = n.parent
        yield n.term


def r_tree(run):
    """C15"""
    for f in run.files:
        if not f['started'] or f['error']:
            continue
        new = [(e[1], e[2]) for e in f['new']]
        app = [(a[3].f[2:], a[3].a) for a in f['apply']]
        if sorted(map(str, new)) != sorted(map(str, app)):
            lost = [x for x in new if x not in app]
            yield (0, 'the mutations that are applied are not those that were found%s' %
                   (': %s is lost' % lost[0][0].split('::')[-1] if lost else ', some occur twice'))
            return
    if not run.requested or run.info is None:
        return
    infos = run.infos()
    k = 0
    for f in run.files:
        if not f['started'] or f['error'] or run.total(f) == 0:
            continue
        mine = [x for x in infos if field(x, 'filename') == fname(run, f['i'])]
        if len(mine) != 1:
            continue        # C16
        yield from tree_of(run, f, mine[0])


def tree_of(run, f, info):
    nodes = items(info, 'mutation_tree')
    if not nodes:
        yield (0, 'the mutation tree has no root')
        return
    kids = [items(n, 'children') for n in nodes]
    parent = {}
    for i, ks in enumerate(kids):
        for c in ks:
            if not isinstance(c, int) or not 0 <= c < len(nodes):
                yield (0, 'the child index %r of node %d is not an index of the %d nodes' % (c, i, len(nodes)))
                return
            if c in parent or c == 0:
                yield (0, 'node %d is the child of several nodes' % c if c else 'the root is the child of a node')
                return
            parent[c] = i
    for i in range(1, len(nodes)):
        if i not in parent:
            yield (0, 'node %d is not reachable from the root' % i)
            return
        seen, j = set(), i
        while j in parent:
            if j in seen:
                yield (0, 'the nodes form a cycle')
                return
            seen.add(j)
            j = parent[j]
    where = {}
    for i, n in enumerate(nodes):
        for g in items(n, 'mutation_groups'):
            t = field(g, 'grp') if isinstance(g, Obj) else None
            if t is None:
                yield (0, 'a mutation group is empty')
                return
            if t.f != 'group':
                yield (0, 'a mutation group without mutants is reported')
                return
            if t in where:
                yield (0, 'a mutation group occurs twice in the tree')
                return
            where[t] = i
    at = {}
    for a in f['apply']:
        if a[6] == 0:
            continue
        g = T('group', f['i'], a[2])
        if g not in where:
            yield (a[-1], 'a mutation group is missing from the mutation tree')
            return
        at.setdefault(V.node_of((0, 0, a[3].a)), []).append(where[g])
    s = run.setup.files[f['i']]

    def below(i, j):
        while True:
            if i == j:
                return True
            if i not in parent:
                return False
            i = parent[i]
    for t, ix in at.items():
        for anc in ancestors(s, t):
            for j in at.get(anc, ()):
                if any(not below(i, j) for i in ix):
                    yield (0, 'a mutation of a construct inside a mutated construct is not below it in the tree')
                    return
    # statements of one block are alternatives: their mutations belong to sibling subtrees
    for t, ix in at.items():
        for u, jx in at.items():
            if t is u or t in set(ancestors(s, u)) or u in set(ancestors(s, t)):
                continue
            if separate(s, t, u) and any(below(i, j) or below(j, i) for i in ix for j in jx):
                yield (0, 'mutations of two different statements of a block are not in separate subtrees')
                return


def separate(s, t, u):
    """are t and u in (or equal to) different statements of one compound statement or different declarations?"""
    at, au = [t] + list(ancestors(s, t)), [u] + list(ancestors(s, u))
    com = next((x for x in at if x in au), None)
    return com is not None and s.nodes[com].cls in ('clang::CompoundStmt', 'clang::TranslationUnitDecl')


def r_info(run):
    """C16: mutation information and exit status."""
    if not run.parsed:
        if run.status == 0:
            yield (0, 'a bad command line leads to exit status 0')
        return
    if not run.ran:
        yield (0, 'the files are not processed')
        return
    err = any(f['error'] and f['started'] for f in run.files)
    opens = [e for e in run.p.effects if e[0] == 'open']
    writes = [e for e in run.p.effects if e[0] == 'filewrite']
    target = TStr((FLAG('mutation-info-file'),))
    if not run.requested:
        if opens or writes:
            yield ((opens or writes)[0][-1], 'a file is written although no mutation information was requested')
            return
        if not err and run.status != 0:
            yield (0, 'the exit status is %r although everything went well' % (run.status,))
        if err and run.status == 0:
            yield (0, 'the exit status is 0 although a file has errors')
        return
    json_ok = run.p.facts.get(T('.ok', T('jsonstatus')))
    if run.info is None:
        yield (0, 'mutation information was requested but is not generated%s' %
               (' if some file has errors' if err else ''))
        return
    good = [f for f in run.files if f['started'] and not f['error'] and run.total(f) != 0]
    infos = run.infos()
    if [field(x, 'filename') for x in infos] != [fname(run, f['i']) for f in good]:
        yield (0, 'the mutation information is about %r although the mutated files are %r' %
               ([field(x, 'filename') for x in infos], [fname(run, f['i']) for f in good]))
        return
    if json_ok is False:
        if run.status == 0:
            yield (0, 'the exit status is 0 although the mutation information could not be generated')
        return
    if json_ok is None and not run.setup.facts.get(T('.ok', T('jsonstatus'))):
        yield (0, 'it is not checked whether the mutation information could be generated')
        return
    mine = [e for e in writes if e[1] == target]
    if not opens or opens[-1][1] != target or not mine:
        yield (0, 'the mutation information is not written to the named file')
        return
    if 'app' in repr(opens[-1][2]) or ('ate' in repr(opens[-1][2]) and 'trunc' not in repr(opens[-1][2])):
        yield (opens[-1][-1], 'the mutation information is appended to what the file contained before')
        return
    txt = TStr(())
    for e in mine:
        txt = E.cat(txt, e[2])
    if [x for x in txt.p if not (isinstance(x, str) and not x.strip())] and \
            (len(txt.p) != 1 or not isinstance(txt.p[0], Term) or txt.p[0].f != 'json'):
        js = [x for x in txt.p if isinstance(x, Term) and x.f == 'json']
        if len(js) != 1 or any(isinstance(x, str) and x.strip() for x in txt.p):
            yield (mine[-1][-1], 'what is written is not the mutation information')
            return
    checks = [(i, e) for i, e in enumerate(run.p.effects) if e[0] == 'streamcheck']
    last = max(i for i, e in enumerate(run.p.effects) if e[0] == 'filewrite')
    done = [i for i, e in enumerate(run.p.effects) if i > last and e[0] in ('close', 'flush') and e[1] == target]
    vals = [run.p.facts.get(e[2]) for i, e in checks if done and i > done[0]]
    if not vals:
        if run.status == 0:
            yield (mine[-1][-1], 'the exit status is 0 although it is not known whether all of the mutation information '
                   'was written')
        return
    bad = any(run.p.facts.get(e[2]) is False for i, e in checks)
    if bad and run.status == 0:
        yield (0, 'the exit status is 0 although the mutation information could not be written')
    if not bad and not err and run.status != 0:
        yield (0, 'the exit status is %r although everything went well' % (run.status,))
    if err and run.status == 0:
        yield (0, 'the exit status is 0 although a file has errors')


OPTIONS = {'GetOptimiseMutations': ('no-mutation-opts', False), 'GetDumpAsts': ('dump-asts', True),
           'GetOnlyTrackMutantCoverage': ('only-track-mutant-coverage', True),
           'GetShowAstNodeTypes': ('show-ast-node-types', True)}


def r_options(run):
    """C16: options reach the code they are about."""
    P = run.cf.prog
    for f in run.files:
        for a in f['apply'][:1]:
            o = a[7]
            if not isinstance(o, Obj):
                continue
            for k, fn in P.fns.items():
                n = fn['qn'].split('::')[-1]
                if fn.get('cls') == o.cls and n in OPTIONS and not fn['p']:
                    try:
                        v = E.truth(rv(P.invoke(k, Cell(o), [])))
                    except E.Infeasible:
                        continue
                    flag, pol = OPTIONS[n]
                    w = E.truth(FLAG(flag))
                    if v != (w if pol else not w):
                        yield (0, '%s is %s although --%s is %s' % (n, v, flag, 'given' if w else 'not given'))
                        return
        for e in run.edits(f):
            if is_prelude(e):
                tr = '__dredd_record_covered_mutants(' in flat(text_of(e))
                if tr != bool(run.p.facts.get(FLAG('only-track-mutant-coverage'), False)):
                    yield (e[-1], 'the prelude is that of %s mode although --only-track-mutant-coverage is %s' %
                           ('tracking' if tr else 'regular', 'not given' if tr else 'given'))
                    return
        if f['started'] and not f['error']:
            d = [e for e in f['ev'] if e[0] == 'call' and e[1].split('::')[-1].startswith('dump')]
            want = run.p.facts.get(FLAG('dump-asts'))
            if want is True and not d:
                yield (0, 'the AST is not dumped although --dump-asts is given')
                return
            if d and want is not True:
                yield (d[0][-1], 'the AST is dumped although --dump-asts is not given')
                return


def r_prelude(run):
    """C22"""
    for f in run.files:
        if not f['started'] or f['error']:
            continue
        tot = run.total(f)
        ed = run.edits(f)
        if tot == 0:
            ow = [i for i, e in enumerate(f['rw']) if e[1] == 'overwriteChangedFiles']
            if ed and ow and f['rw'].index(ed[0]) < ow[-1]:
                yield (ed[0][-1], 'a file without mutants is modified')
                return
            continue
        ow = [i for i, e in enumerate(f['rw']) if e[1] == 'overwriteChangedFiles']
        if not ow:
            yield (0, 'the mutated text is never written to the file')
            return
        if any(e[1] != 'overwriteChangedFiles' for e in f['rw'][ow[-1]:]):
            yield (f['rw'][-1][-1], 'text is changed after the file has been written')
            return
        la = max(i for i, e in enumerate(f['ev']) if e[0] == 'apply')
        if not any(e[0] == 'rw' and e[1] == 'overwriteChangedFiles' for e in f['ev'][la:]):
            yield (0, 'the file is written before all mutations have been applied')
            return
        pre = [e for e in ed if is_prelude(e)]
        if len(pre) != 1:
            yield (ed[0][-1] if ed else 0, 'the prelude is inserted %d times' % len(pre))
            return
        loc = pre[0][2]
        s = run.setup.files[f['i']]
        want = getattr(s, 'want', None)
        top = start_of_file(loc)
        if want is not None:
            if loc is not T('.getBegin', T('MR', T('.getSourceRange', want))):
                yield (pre[0][-1], 'the prelude is not placed where __dredd_prelude_start is declared: %r' % (loc,))
                return
        elif top is False:
            yield (pre[0][-1], 'the prelude is not placed at the start of the file: %r' % (loc,))
            return
        # order of the text at that place
        order = []
        for e in ed:
            if not e[1].startswith('Insert'):
                continue
            if e[2] is not loc:
                if any(isinstance(x, Term) and x.f == 'decl' for x in text_of(e).p):
                    yield (e[-1], 'a mutator function is placed at %r and the prelude at %r' % (e[2], loc))
                    return
                continue
            if e[1] == 'InsertTextBefore':
                order.insert(0, e)
            else:
                order.append(e)
        seq = [x for e in order for x in text_of(e).p if isinstance(x, Term) and x.f == 'decl' or
               (isinstance(x, str) and '__dredd_' in x and is_prelude(e))]
        have = [x for x in seq if isinstance(x, Term)]
        need = [T('decl', f['i'], a[2]) for a in f['apply'] if a[6] != 0]
        have, need = distinct(run, have), distinct(run, need)
        if len(have) != len([x for x in seq if isinstance(x, Term)]):
            yield (pre[0][-1], 'a mutator function is inserted twice')
            return
        if sorted(map(repr, have)) != sorted(map(repr, need)):
            yield (pre[0][-1], 'the mutator functions that are inserted are not exactly those that are used')
            return
        ip = [i for i, x in enumerate(seq) if isinstance(x, str)]
        if ip and any(isinstance(x, Term) for x in seq[:ip[-1] + 1]):
            yield (pre[0][-1], 'a mutator function is placed before the prelude')
            return
        for e in ed:
            t = text_of(e)
            if t is not None and e not in order and e[1].startswith('Insert') and not is_prelude(e):
                yield (e[-1], 'unexpected text is inserted at %r' % (e[2],))
                return


def distinct(run, ds):
    out = []
    for d in ds:
        for e in out:
            a, b = TStr((d,)), TStr((e,))
            if d is e or run.p.facts.get(T('eq', a, b)) or run.p.facts.get(T('eq', b, a)) or \
                    run.p.facts.get(T('eq', d, e)) or run.p.facts.get(T('eq', e, d)):
                break
        else:
            out.append(d)
    return out


def start_of_file(loc):
    r = repr(loc)
    if r == 'SM.translateLineCol(SM.getMainFileID,1,1)' or r == 'SM.getLocForStartOfFile(SM.getMainFileID)':
        return True
    if 'translateLineCol' in r or 'LocForEndOfFile' in r or 'getSourceRange' in r or 'getBeginLoc' in r or 'getEndLoc' in r:
        return False
    return None


RULES = {'C14': (r_constants,), 'C02': (r_ids,), 'C09': (r_errors,), 'C10': (r_once,), 'C15': (r_tree,), 'C16': (r_info, r_options),
         'C22': (r_prelude,)}
_state = {}


def worker(j):
    P, sets, prop, assert_mode = _state['v']
    i, cxx = j
    s = sets[i]
    cf = pipeline.PipeConfig(P, s.files, cxx, {}, assert_mode, names=s.names, spell=s.spell, facts=s.facts)
    cf.distinct = s.distinct
    cf.hash_order = getattr(s, 'hash_order', None)
    out = {'i': i, 'cxx': cxx, 'found': {}, 'ok': 0, 'aborts': {}, 'sig': {}}

    def on(p):
        if p.status == 'abort':
            out['aborts'].setdefault((p.why, p.loc), [repr(x) for x in p.log][:30])
        if p.status != 'ok':
            return
        out['ok'] += 1
        run = Run(cf, p, s)
        if prop in ('C24', 'C20'):
            k = tuple(sorted((norm(t), v) for t, v in p.log if 'dump-asts' not in repr(t)))
            val = repr([[e for e in f['ev'] if e[0] in ('apply', 'rw', 'newmut')] for f in run.files]) + \
                repr(run.status) + repr([describe(x) for x in run.infos()])
            out['sig'].setdefault((k, bool(p.facts.get(FLAG('dump-asts'), False))), strip_lines(val))
        for r in RULES.get(prop, ()):
            for line, msg in r(run):
                if not line:
                    where = main_fn(P) if 'exit status' in msg or 'requested' in msg or 'failed files' in msg else handle_fn(P)
                    where = (P.fns[where].get('file'), P.fns[where].get('line') or P.fns[where].get('l') or 1)
                else:
                    fn = getattr(line, 'fn', None)
                    where = (P.fns[fn].get('file') if fn in P.fns else cfile(P), int(line))
                out['found'].setdefault((where, msg), [repr(x) for x in p.log][:30])
    st = explore.explore(cf, pipeline.run_main(P, cf), limit=30000, deadline=time.time() + 300, on_path=on)
    out['st'] = st
    return out


def norm(t):
    return re.sub(r'(streamok\(.*?),\d+\)', r'\1)', repr(t))


def strip_lines(s):
    return re.sub(r', \d+\)', ')', re.sub(r'#\d+', '#', s))


def describe(o):
    if isinstance(o, Obj):
        return (o.cls, sorted((n, describe(c.v)) for n, c in o.f.items()))
    if isinstance(o, Vec):
        return [describe(c.v) for c in o.items]
    return repr(o)


def main_fn(P):
    return pipeline.main_key(P)


def handle_fn(P):
    for k, f in P.fns.items():
        if f['qn'].endswith('::HandleTranslationUnit') and f.get('b') is not None:
            return k
    return main_fn(P)


def cfile(P):
    for k, f in P.fns.items():
        if f['qn'].endswith('::HandleTranslationUnit') and f.get('b') is not None:
            return rel(f.get('file') or '?')
    return 'src/libdredd/src/mutate_ast_consumer.cc'


def check(rep, prop, sets=None, assert_mode='assume', rule_name=None, full=False):
    P = V.program()
    sets = sets if sets is not None else setups()
    if assert_mode == 'check':
        for s in sets:
            s.facts[T('overwrite_failed')] = False      # a failure of the environment, not of an input
    _state['v'] = (P, sets, prop, assert_mode)
    jobs = [(i, c) for i, s in enumerate(sets) for c in s.langs]
    ctx = multiprocessing.get_context('fork')
    unsup, ok = {}, 0
    aborts = {}
    f = cfile(P)
    seen = set()
    sigs = []
    with ctx.Pool(min(8, os.cpu_count() or 1)) as pool:
        for r in pool.imap_unordered(worker, jobs):
            ok += r['ok']
            rep.count('tool_partitions', r['st']['paths'])
            for k, n in r['st']['unsupported'].items():
                unsup[k] = unsup.get(k, 0) + n
            if not r['st']['complete']:
                rep.note('incomplete', rep.coverage.get('incomplete', 0) + 1)
            for k, v in r['aborts'].items():
                aborts.setdefault(k, (sets[r['i']].name, v))
            sigs.append((sets[r['i']].name, r['cxx'], getattr(sets[r['i']], 'hash_order', None), r['sig']) if full else
                        (sets[r['i']].name, r['sig']))
            for (where, msg), log in sorted(r['found'].items(), key=str):
                if msg in seen:
                    continue
                seen.add(msg)
                rep.add(Finding(msg, '%s:%s' % (rel(where[0] or '?'), where[1]), rule_name or 'whole-tool analysis', msg, 'setup "%s", %s; %s' % (
                    sets[r['i']].name, 'C++' if r['cxx'] else 'C', ', '.join(log)[:900])))
    rep.count('tool_setups', len(jobs))
    if unsup:
        rep.note('not_analysed_constructs', dict(list(unsup.items())[:20]))
    if not ok:
        raise build.AnalysisError('no partition of the tool could be analysed: %s %s' % (list(unsup)[:3], list(aborts)[:3]))
    rep.tool_aborts = aborts
    return sigs


def check_dump(rep):
    """C24: the same facts lead to the same actions with and without --dump-asts."""
    P = V.program()
    f = cfile(P)
    sets = [x for x in setups() if not x.name.startswith('tree') or 'operands' in x.name]
    for x in sets:
        x.facts.pop(FLAG('dump-asts'), None)
    for name, sig in check(rep, 'C24', sets):
        on = [(dict(k), v) for (k, d), v in sig.items() if d]
        off = [(dict(k), v) for (k, d), v in sig.items() if not d]
        for a, v in on:
            for b, w in off:
                if v != w and all(b.get(t, x) == x for t, x in a.items()):
                    rep.add(Finding('dump-asts', f, 'debugging options change nothing else',
                                    'what is done differs with and without --dump-asts',
                                    'setup "%s"; %s' % (name, str(sorted(a.items()))[:900])))
                    return
        rep.count('tool_states_compared', len(on))


def check_order(rep):
    """C20: hash containers iterated in two orders lead to the same actions."""
    V.program()
    base = [x for x in setups() if x.name in ('one file', 'two files') or 'operands' in x.name or x.name.startswith('prelude')]
    for x in base:
        if not x.name.startswith('prelude'):
            x.facts.pop(FLAG('dump-asts'), None)
        x.facts[FLAG('dump-asts')] = False
    sets = []
    for o in ('insertion', 'reverse'):
        for x in base:
            y = Setup(x.name, x.files, x.facts, x.names, x.spell, x.langs, x.distinct)
            y.hash_order = o
            sets.append(y)
    by = {}
    n = 0
    for name, cxx, order, sig in check(rep, 'C20', sets, full=True):
        by.setdefault((name, cxx), {})[order] = sig
    for (name, cxx), d in sorted(by.items()):
        a, b = d.get('insertion', {}), d.get('reverse', {})
        for k, v in a.items():
            m = k if k in b else compatible(k, b)
            if m is not None:
                n += 1
                if b[m] != v:
                    rep.add(Finding('order', cfile(V.program()), 'output does not depend on order, addresses, time or environment',
                                    'the edits depend on the order in which a hash container is iterated',
                                    'setup "%s", %s: %s' % (name, 'C++' if cxx else 'C', first_difference(v, b[m]))))
                    break
    rep.count('tool_states_compared', n)


def compatible(k, other):
    """a state of the other run that differs only by conditions that are false in both (ties of a comparison)."""
    a = dict(k[0])
    for m in other:
        b = dict(m[0])
        if m[1] == k[1] and all(b.get(t, x) == x for t, x in a.items()) and \
                all(not a[t] for t in a if t not in b) and all(not b[t] for t in b if t not in a):
            return m
    return None


def first_difference(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return '...%s | ...%s' % (a[max(0, i - 60):i + 120], b[max(0, i - 60):i + 120])


def check_aborts(rep):
    """C25"""
    P = V.program()
    check(rep, 'C25', assert_mode='check')
    f = cfile(P)
    for (why, loc), (name, log) in sorted(rep.tool_aborts.items(), key=str):
        rep.add(Finding('tool %s %s' % (why, loc), '%s:%s' % (f, loc), 'no abort while processing a file',
                        'the tool can abort: %s' % why, 'setup "%s"; %s' % (name, ', '.join(log)[:900])))


# ------------------------------------------------------------------------------------------ emitted run-time support
def prelude_worker(j):
    P, sets = _state['p']
    i, cxx = j
    s = sets[i]
    cf = pipeline.PipeConfig(P, s.files, cxx, {}, 'assume', names=s.names, spell=s.spell, facts=s.facts)
    cf.distinct = s.distinct
    out = {}
    bad = {}

    def on(p):
        if p.status != 'ok':
            return
        run = Run(cf, p, s)
        start = 0
        for f in run.files:
            total = run.total(f)
            for e in run.edits(f):
                if not is_prelude(e) or total == 0:
                    continue
                facts = [(t, v) for t, v in p.log if isinstance(t, Term) and t.f in ('lt', 'le', 'eq', 'nz')]
                try:
                    t = prelude.Template(cxx, '__dredd_record_covered_mutants(' in flat(text_of(e)), text_of(e).p, start,
                                         total, facts)
                except prelude.Unreadable as u:
                    bad[str(u)] = bad.get(str(u), 0) + 1
                    continue
                fn = getattr(e[-1], 'fn', None)
                out.setdefault(t.key, (t, P.fns[fn].get('file') if fn in P.fns else cfile(P), int(e[-1] or 1), s.name))
            start = add(start, total)
    st = explore.explore(cf, pipeline.run_main(P, cf), limit=30000, deadline=time.time() + 200, on_path=on)
    return list(out.values()), bad, st


def prelude_job(j):
    what, (t, file, line, name) = j
    try:
        t.parse()
        if what == 'shared':
            return j, prelude.shared_state(t), None
        n, r = (prelude.tracking if t.track else prelude.regular)(t)
        return j, (n, [r] if r else []), None
    except prelude.Unreadable as u:
        return j, (0, []), str(u)
    except prelude.Wrong as w:
        return j, (1, [(str(w), str(w)) if what == 'shared' else (str(w), '')]), None


def check_preludes(rep, what):
    """what: 'regular' (C06), 'tracking' (C05) or 'shared' (C07)"""
    P = V.program()
    fl = dict(QUIET)
    for i in range(2):
        fl[T('errors', i)] = False
        fl[T('norealpath', 'file%d' % i)] = False
    fl.update({INFO_EMPTY: True, T('overwrite_failed'): False, T('bool', T('optparser')): True})
    fl.pop(FLAG('only-track-mutant-coverage'), None)
    if what != 'shared':
        fl[FLAG('only-track-mutant-coverage')] = what == 'tracking'
    sets = [Setup('one file', [one()], fl, distinct=False), Setup('two files', [one(), one(2)], fl)]
    _state['p'] = (P, sets)
    ctx = multiprocessing.get_context('fork')
    tpls = {}
    with ctx.Pool(4) as pool:
        for r, bad, st in pool.imap_unordered(prelude_worker, [(i, c) for i in range(len(sets)) for c in (True, False)]):
            rep.count('tool_partitions', st['paths'])
            for k, n in bad.items():
                rep.note('not_analysed_preludes', sorted(set(rep.coverage.get('not_analysed_preludes', []) + [k])))
            for x in r:
                tpls.setdefault(x[0].key, x)
    if not tpls:
        if rep.coverage.get('not_analysed_preludes'):
            return
        raise build.AnalysisError('the tool emits no run-time support in the files analysed')
    rep.count('prelude_templates', len(tpls))
    build.build_exporter()
    with ctx.Pool(min(8, os.cpu_count() or 1)) as pool:
        for j, (n, found), why in pool.imap_unordered(prelude_job, [(what, x) for x in tpls.values()]):
            t, file, line, name = j[1]
            rep.count('prelude_obligations', n)
            if why:
                rep.note('not_analysed_preludes', sorted(set(rep.coverage.get('not_analysed_preludes', []) + [why])))
            for a, b in found:
                lang = 'C++' if t.cxx else 'C'
                mode = 'tracking' if t.track else 'regular'
                where = prelude_source(P, t) or '%s:%d' % (rel(file or '?'), line)
                if what == 'shared':
                    rep.add(Finding(a, where, 'run-time support and threads', b, '%s prelude, %s' % (mode, lang)))
                else:
                    rep.add(Finding(a, where, 'emitted run-time support', '%s prelude: %s' % (mode, a),
                                    '%s; %s; setup "%s"' % (b, lang, name)))


def prelude_source(P, t):
    """the function of the tool that writes most of the prelude."""
    best, score = None, 2
    for k, f in P.fns.items():
        if f.get('b') is None or '/libdredd/' not in (f.get('file') or ''):
            continue
        ls = set(n['v'] for n in prelude.walk(f['b']) if n.get('k') == 'Str' and len(n.get('v') or '') > 8)
        n = sum(1 if x in t.text else -1 for x in ls)
        if n > score:
            best, score = f, n
    return '%s:%s %s' % (rel(best['file']), best.get('line') or best.get('l') or 1, best['qn']) if best else None
