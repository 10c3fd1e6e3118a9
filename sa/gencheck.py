"""Rules over what the mutation generators emit, evaluated for every partition."""
import engine as E
import clangmodel as M
import emit
from emit import Malformed, Unreadable, Machine, plain, same_value, truth_table
from engine import T, Term, TStr, Lin, Cell, Obj, Vec, rv, add, getdom

ROLE = {'some': '__dredd_some_mutation_enabled', 'enabled': '__dredd_enabled_mutation',
        'record': '__dredd_record_covered_mutants'}
REGULAR_ROLE = {'some': '__dredd_some_mutation_enabled', 'enabled': '__dredd_enabled_mutation', 'record': None}
TRACK_ROLE = {'some': None, 'enabled': None, 'record': '__dredd_record_covered_mutants'}
NODE = T('n')
LOCAL = add(T('id'), T('first'), -1)

BIN_STR = M.BO_STR
BIN_ACTION = {}
for _n in M.BIN_OK:
    BIN_ACTION['ReplaceWith' + _n] = BIN_STR[_n]
UN_ACTION = {'ReplaceWithMinus': ('u', '-'), 'ReplaceWithNot': ('u', '~'), 'ReplaceWithLNot': ('u', '!'),
             'ReplaceWithPreDec': ('u', '--'), 'ReplaceWithPreInc': ('u', '++'),
             'ReplaceWithPostDec': ('p', '--'), 'ReplaceWithPostInc': ('p', '++')}
EXPR_ACTION = {'InsertPreInc': ('u', '++'), 'InsertPreDec': ('u', '--'), 'InsertLNot': ('u', '!'),
               'InsertNot': ('u', '~'), 'InsertMinus': ('u', '-'),
               'ReplaceWithZeroFloat': 0, 'ReplaceWithOneFloat': 1, 'ReplaceWithMinusOneFloat': -1,
               'ReplaceWithZeroInt': 0, 'ReplaceWithOneInt': 1, 'ReplaceWithMinusOneInt': -1,
               'ReplaceWithTrue': 1, 'ReplaceWithFalse': 0}


def pbdump(v):
    v = rv(v)
    if isinstance(v, Obj):
        return {k: pbdump(c) for k, c in v.f.items()}
    if isinstance(v, Vec):
        return [pbdump(c) for c in v.items]
    return v


def enum_names(prog, suffix):
    for k, v in prog.p['enums'].items():
        if k.endswith('::' + suffix) and v:
            return {int(x[1]): x[0].split('::')[-1].replace(suffix + '_', '') for x in v}
    return {}


class GenPath:
    """What one run of a generator emitted on the current partition."""

    def __init__(self, prog, config, kind, res, effects):
        self.prog, self.config, self.kind = prog, config, kind
        self.cxx = config.cxx
        self.role = REGULAR_ROLE
        self.lines = []
        self.err = None
        self.unread = None
        n = NODE
        self.op = None
        self.opname = None
        postfix = False
        if kind in ('bin', 'un'):
            d = getdom(T('op', n))
            assert len(d) == 1, d
            v = next(iter(d))
            self.opname = M.bname(v) if kind == 'bin' else M.uname(v)
            self.op = (M.BO_STR if kind == 'bin' else M.UO_STR)[self.opname]
            postfix = self.opname in ('PostInc', 'PostDec')
        self.postfix = postfix
        self.ins = [e for e in effects if e[0] == 'insert']
        self.rw = [e for e in effects if e[0] == 'rw']
        self.defs = {}
        self.deflist = []
        self.problems = []
        try:
            self.text, self.lines, self.problems, self.exts = emit.layout(effects, kind, n, postfix, self.op)
            if kind != 'stmt':
                for e in self.ins:
                    for d in emit.parse_definitions(e[1]):
                        if d.name in self.defs and e[1] != self.defs[d.name][1]:
                            self.problems.append((e[-1], 'two different definitions of %s' % emit.show_name(d.name)))
                        self.defs[d.name] = (d, e[1], e[-1])
                        self.deflist.append(d)
                self.tree = emit.parse_expression(self.text)
        except Malformed as x:
            self.err = str(x)
        except Unreadable as x:
            self.unread = str(x)
        self.res = res
        self.pb = pbdump(res['pb']) if res else {}
        self.group = next(iter(self.pb.values())) if self.pb else {}
        self.gkind = next(iter(self.pb)) if self.pb else None
        self.final = res['id'] if res else None
        self.inst = self.group.get('instances', []) if isinstance(self.group, dict) else []
        if kind == 'stmt' and isinstance(self.group, dict) and 'mutation_id' in self.group:
            self.inst = [{'mutation_id': self.group['mutation_id'], 'action': None}]

    def line(self):
        if self.ins:
            return self.ins[-1][-1]
        return self.lines[-1] if self.lines else 0

    def machine(self, on):
        m = Machine({k: v[0] for k, v in self.defs.items()}, on, self.role, self.same_type)
        m.value = m.ev(self.tree, {})
        return m

    def tkey(self, atom):
        """representative of the type spelled by an atom."""
        if isinstance(atom, Term) and atom.f in ('tname', 'tstring') and isinstance(atom.a[0], Term):
            return self.config.tkey(atom.a[0])
        return atom

    def same_type(self, a, b):
        return self.tkey(a.base) == self.tkey(b.base)

    def type_of(self, term):
        """type key of a value term, or None if it is not constrained."""
        n = NODE
        if term == ('L',):
            return self.config.tkey(T('ty', T('.getLHS', n)))
        if term == ('R',):
            return self.config.tkey(T('ty', T('.getRHS', n)))
        if term == ('E',):
            return self.config.tkey(T('ty', T('.getSubExpr', n) if self.kind == 'un' else n))
        return None

    def original(self):
        if self.kind == 'bin':
            return ('b', self.op, ('L',), ('R',))
        if self.kind == 'un':
            return ('p' if self.postfix else 'u', self.op, ('E',))
        return ('E',)

    def expected_events(self):
        if self.kind == 'bin':
            if self.op in ('&&', '||'):
                return {'L': 'always', 'R': self.op}
            return {'L': 'always', 'R': 'always'}
        return {'E': 'always'}


def operand_nodes(kind):
    n = NODE
    if kind == 'bin':
        return {'L': T('.getLHS', n), 'R': T('.getRHS', n)}
    if kind == 'un':
        return {'E': T('.getSubExpr', n)}
    return {'E': n}


def well_formed(g):
    """C23: the text put in place of the construct is one balanced expression
    that calls what is declared, with every piece anchored on the construct."""
    out = []
    for line, p in g.problems:
        out.append((line, p))
    if g.err:
        out.append((g.line(), g.err))
    elif g.kind != 'stmt' and g.role is REGULAR_ROLE:
        for on in [None, 'other'] + [add(LOCAL, k) for k in range(len(g.inst))]:
            try:
                g.machine(on)
            except Malformed as x:
                out.append((g.line(), str(x)))
                break
    return out


REGULAR_MODES = ((None, 'no mutant is enabled'), ('other', 'only mutants elsewhere are enabled'))


def check_disabled(g, modes=REGULAR_MODES):
    """C01 for one partition: with no mutant of this group enabled the rewritten
    construct means what it meant."""
    out = []
    if g.err:
        return out
    for on, desc in modes:
        try:
            m = g.machine(on)
        except Malformed as x:
            return out
        types = []
        v = plain(m.value, types)
        want = g.original()
        if not same_value(v, want, g.kind == 'bin' and g.op in ('&&', '||') and not g.cxx):
            out.append((g.line(), 'when %s, %s evaluates to %s' % (desc, show(want), show(v))))
            continue
        if getattr(m, 'side', None):
            out.append((g.line(), 'when %s, %s is evaluated in addition' % (desc, show(plain(m.side[0])))))
        if m.copies:
            out.append((g.line(), 'when %s, an operand is evaluated on copies of the variables it names, so its '
                        'side effects and its result object are lost' % desc))
        ev = {}
        for o, gu in m.events:
            ev.setdefault(o, []).append(gu)
        for o, how in g.expected_events().items():
            e = ev.get(o, [])
            if len(e) != 1:
                out.append((g.line(), 'when %s, operand %s is evaluated %d times' % (desc, o, len(e))))
            elif how == 'always' and e[0]:
                out.append((g.line(), 'when %s, operand %s is evaluated conditionally' % (desc, o)))
            elif how != 'always' and not e[0]:
                out.append((g.line(), 'when %s, operand %s of %s is evaluated unconditionally' % (desc, o, how)))
        for ty, t in types:
            want_ty = g.type_of(t)
            if want_ty is None:
                if t == want:
                    want_ty = g.config.tkey(T('ty', NODE))
                else:
                    continue
            got = g.tkey(ty.base)
            if t == want and parent_conversion(g, ty):
                continue
            if got != want_ty and not literal_ok(g, ty, want_ty):
                out.append((g.line(), 'the value of %s passes through type %r' % (show(t), ty)))
        if g.cxx and g.kind in ('bin', 'un'):
            vk = getdom(T('vk', NODE))
            if vk <= frozenset(['lv']) and emit.is_tmp(m.value):
                out.append((g.line(), 'the result of %s is an object, but a copy of it is returned' % show(want)))
    return out


def parent_conversion(g, ty):
    """the type to which the parent of the expression converts it implicitly."""
    t = ty.base
    if not (isinstance(t, Term) and t.f in ('tname', 'tstring')):
        return False
    t = M.tybase(t.a[0])
    if t.f != 'ty' or t.a[0].f != 'parent':
        return False
    p = t.a[0]
    while p.f == 'parent':
        c = E.C.cls.get(p)
        if c is None or c[0] not in ('clang::ImplicitCastExpr', 'clang::ParenExpr'):
            return False
        if p is t.a[0] and c[0] != 'clang::ImplicitCastExpr':
            return False
        p = p.a[0]
    return p is NODE


def literal_ok(g, ty, key):
    """a literal type spelling that is the only possible type."""
    tc = getdom(T('tc', key))
    w = ty.base
    if w == ('bool',):
        return tc <= frozenset(['bool'])
    if w == ('int',) and not g.cxx and isinstance(key, Term):
        n = key.a[0]
        if g.config.is_bin(n) and g.config.opdom(n) <= M.bos(M.G_REL + M.G_LOG):
            return True
        if g.config.is_un(n) and g.config.opdom(n) <= M.uos(['LNot']):
            return True
    return False


def show(t):
    k = t[0]
    if k in ('L', 'R', 'E'):
        return {'L': 'lhs', 'R': 'rhs', 'E': 'operand'}[k]
    if k == 'c':
        return str(t[1])
    if k == 'b':
        return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if k == 'u':
        return '%s%s' % (t[1], show(t[2]))
    if k == 'p':
        return '%s%s' % (show(t[2]), t[1])
    if k == 'copy':
        return 'copy(%s)' % show(t[1])
    if k in ('tmp',):
        return show(t[1])
    if k == 'conv':
        return '%r(%s)' % (t[1], show(t[2]))
    return repr(t)


def action_names(g):
    suf = {'bin': 'MutationReplaceBinaryOperatorAction', 'un': 'MutationReplaceUnaryOperatorAction',
           'expr': 'MutationReplaceExprAction'}[g.kind]
    c = getattr(g.prog, '_actions', None)
    if c is None:
        c = g.prog._actions = {}
    if suf not in c:
        c[suf] = enum_names(g.prog, suf)
    return c[suf]


def expected_mutant(g, name):
    """value term that the reported action stands for."""
    if g.kind == 'bin':
        if name == 'ReplaceWithLHS':
            return ('L',)
        if name == 'ReplaceWithRHS':
            return ('R',)
        if name in BIN_ACTION:
            return ('b', BIN_ACTION[name], ('L',), ('R',))
    elif g.kind == 'un':
        if name == 'ReplaceWithOperand':
            return ('E',)
        if name in UN_ACTION:
            k, o = UN_ACTION[name]
            return (k, o, ('E',))
    elif g.kind == 'expr':
        v = EXPR_ACTION.get(name)
        if isinstance(v, tuple):
            return (v[0], v[1], ('E',))
        if v is not None:
            return ('c', v)
    return None


def check_ids(g):
    """C02 for one generator run: the reported ids are id, id+1, ..., id+N-1 and the counter ends at id+N."""
    out = []
    for k, i in enumerate(g.inst):
        if i.get('mutation_id', 0) != add(T('id'), k):
            out.append((g.line(), 'the %d. reported mutant has id %r, expected %r' %
                        (k, i.get('mutation_id', 0), add(T('id'), k))))
    if g.final != add(T('id'), len(g.inst)):
        out.append((g.line(), '%d mutants are reported but the id counter goes from id to %r' %
                    (len(g.inst), g.final)))
    if g.gkind is None:
        out.append((g.line(), 'no mutation group is reported'))
    return out


def check_actions(g):
    """C03 for one partition: enabling id k performs the k-th reported action."""
    out = []
    if g.err:
        return out
    names = action_names(g)
    logical = g.kind == 'bin' and g.op in ('&&', '||') and not g.cxx
    seen = []
    for k, i in enumerate(g.inst):
        a = i.get('action', 0)
        name = names.get(a, str(a))
        want = expected_mutant(g, name)
        if want is None:
            out.append((g.line(), 'reported action %s has no meaning for this construct' % name))
            continue
        try:
            m = g.machine(add(LOCAL, k))
        except Malformed as x:
            continue
        v = plain(m.value)
        if not same_value(v, want, logical):
            out.append((g.line(), 'mutant %d is reported as %s but enabling it evaluates %s to %s' %
                        (k, name, show(g.original()), show(v))))
        elif logical:
            pass
        else:
            # every operand that the replacement mentions is evaluated exactly once
            cnt = {}
            for o, gu in m.events:
                cnt[o] = cnt.get(o, 0) + 1
            need = mentioned(want)
            for o in need:
                if cnt.get(o, 0) != 1:
                    out.append((g.line(), 'mutant %d (%s) evaluates operand %s %d times' % (k, name, o, cnt.get(o, 0))))
        if getattr(m, 'side', None):
            out.append((g.line(), 'mutant %d (%s) also evaluates %s' % (k, name, show(plain(m.side[0])))))
        if want in seen:
            out.append((g.line(), 'action %s is reported twice' % name))
        seen.append(want)
        if want == g.original():
            out.append((g.line(), 'mutant %d (%s) does not change %s' % (k, name, show(want))))
    # the reported original operator
    if g.kind in ('bin', 'un') and isinstance(g.group, dict):
        on = enum_names_cached(g, 'BinaryOperator' if g.kind == 'bin' else 'UnaryOperator')
        got = on.get(g.group.get('operator', 0), '?')
        if got != g.opname:
            out.append((g.line(), 'operator %s is reported as %s' % (g.opname, got)))
    # ids just outside of the group have no effect
    for k in (-1, len(g.inst)):
        try:
            m = g.machine(add(LOCAL, k))
        except Malformed:
            break
        v = plain(m.value)
        if not same_value(v, g.original(), logical):
            out.append((g.line(), 'id+%d, which is not reported for this construct, changes it to %s' % (k, show(v))))
    want_kind = {'bin': 'replace_binary_operator', 'un': 'replace_unary_operator', 'expr': 'replace_expr'}[g.kind]
    if g.gkind != want_kind:
        out.append((g.line(), 'the group is reported as %s' % g.gkind))
    return out


def enum_names_cached(g, suf):
    c = getattr(g.prog, '_actions', None)
    if c is None:
        c = g.prog._actions = {}
    k = 'protobufs::' + suf
    if k not in c:
        c[k] = {}
        for e, v in g.prog.p['enums'].items():
            if e.endswith('protobufs::' + suf) and v:
                c[k] = {int(x[1]): x[0].split('::')[-1].replace(suf + '_', '') for x in v}
    return c[k]


def mentioned(t):
    if t[0] in ('L', 'R', 'E'):
        return [t[0]]
    return [x for y in t[1:] if isinstance(y, tuple) for x in mentioned(y)]


# ---------------------------------------------------------------- statements
class StmtMachine:
    def __init__(self, on):
        self.on = on
        self.count = 0
        self.records = []
        self.n = None


def parse_stmt_text(g):
    p = emit.Parser(emit.tokens(g.text))
    out = []

    def stmt():
        if p.peek().k == 'operand':
            p.i += 1
            p.accept(';')
            return ('S',)
        if p.accept('{'):
            b = []
            while not p.isop('}'):
                if p.peek().k in ('eof', 'opencomment'):
                    raise Malformed('unbalanced {')
                b.append(stmt())
            p.take('}')
            return ('block', b)
        if p.isid('if'):
            p.i += 1
            p.take('(')
            c = p.expr()
            p.take(')')
            a = stmt()
            b = None
            if p.isid('else'):
                p.i += 1
                b = stmt()
            return ('if', c, a, b)
        e = p.expr()
        p.take(';')
        return ('expr', e)
    while p.peek().k != 'eof':
        out.append(stmt())
    if g.exts and g.exts[0] == 'comment':
        # the construct may end in a line comment
        i = [k for k, x in enumerate(g.text.p) if isinstance(x, Term) and x.f == '$operand'][0]
        rest = g.text.p[i + 1:]
        if rest and not (isinstance(rest[0], str) and rest[0].startswith('\n')):
            raise Malformed('text is added on the same line as a trailing comment')
    return out


def run_stmt(g, body, on, role=None):
    m = Machine({}, on, role or REGULAR_ROLE)
    m.count = 0

    def run(s):
        if s[0] == 'S':
            m.count += 1
        elif s[0] == 'block':
            for x in s[1]:
                run(x)
        elif s[0] == 'if':
            if m.truth(m.ev(s[1], {})):
                run(s[2])
            elif s[3]:
                run(s[3])
        else:
            m.ev(s[1], {})
    for s in body:
        run(s)
    return m


def check_stmt(g, what):
    out = []
    line = g.lines[-1] if g.lines else 0
    if not g.rw:
        return [(line, 'the statement is not rewritten')] if what == 'form' else []
    try:
        body = parse_stmt_text(g)
    except Malformed as x:
        return [(line, str(x))] if what == 'form' else []
    if what == 'form':
        return out
    try:
        if what == 'disabled':
            for on, d in ((None, 'no mutant is enabled'), ('other', 'only mutants elsewhere are enabled')):
                m = run_stmt(g, body, on)
                if m.count != 1:
                    out.append((line, 'when %s the statement is executed %d times' % (d, m.count)))
        elif what == 'actions':
            m = run_stmt(g, body, LOCAL)
            if m.count != 0:
                out.append((line, 'enabling the id of a statement removal does not remove the statement'))
            for k in (-1, 1):
                m = run_stmt(g, body, add(LOCAL, k))
                if m.count != 1:
                    out.append((line, 'an id that is not reported for the statement removes it'))
            if g.gkind != 'remove_stmt':
                out.append((line, 'the group is reported as %s' % g.gkind))
    except Malformed as x:
        out.append((line, str(x)))
    return out


def check_glue(g, P, p):
    """An identifier inserted at the start of a construct must be separated from a preceding identifier character."""
    out = []
    if g.kind == 'stmt':
        # statements are direct children of a compound statement or label
        return out
    for e in g.rw:
        if e[1] not in ('InsertTextBefore', 'InsertText', 'InsertTextAfter'):
            continue
        txt = e[-2]
        if not txt.p:
            continue
        first = txt.p[0]
        if isinstance(first, str) and not emit.IDC.match(first[0]):
            continue
        nd, main, ext = emit.node_of(e[2].a[0]) if isinstance(e[2], Term) and e[2].a else (None, False, None)
        if g.kind == 'bin' and nd is T('.getRHS', NODE) and replaced_operator(g):
            continue        # directly preceded by the comma that replaces the operator, or by white space
        if not separated(P, p, e[2]):
            out.append((e[-1], 'text %s is inserted without making sure that the preceding character cannot be part '
                        'of an identifier' % repr(txt)[:60]))
    return out


def replaced_operator(g):
    return any(e[1] == 'ReplaceText' and e[-2].lit == ',' for e in g.rw)


def separated(P, p, loc):
    """the partition implies that the character before loc is no identifier character."""
    rng = loc.a[0] if isinstance(loc, Term) and loc.f == '.getBegin' else loc
    for t, r in p.facts.items():
        if isinstance(t, Term) and t.f.startswith('F:') and r is False and P.opaque.get(t.f[2:]) == 'textpred' and \
                (rng in t.a or loc in t.a):
            return True
    # predicates on the preceding character itself
    cd = None
    for t, r in p.facts.items():
        if isinstance(t, Term) and 'getCharacterData' in repr(t) and repr(rng) in repr(t):
            cd = True
    if cd:
        alnum = any(isinstance(t, Term) and 'alnum' in t.f and r is False for t, r in p.facts.items())
        return alnum or any(isinstance(t, Term) and t.f == 'out' and r is True for t, r in p.facts.items())
    return False
