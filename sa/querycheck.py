"""C17: scripts/query_mutant_info.py against the mutation information described by dredd.proto."""
import ast
import os
import re
import build
import pyabs
from pyabs import Txt, Lin, Unsupported, sym, add
from report import Finding
from gencheck import UN_ACTION, EXPR_ACTION

SCRIPT = 'scripts/query_mutant_info.py'
RULE = 'the query script describes every mutant as Dredd reports it'
BIN = {'Add': '+', 'Div': '/', 'Mul': '*', 'Rem': '%', 'Sub': '-', 'AddAssign': '+=', 'AndAssign': '&=', 'Assign': '=', 'DivAssign': '/=',
       'MulAssign': '*=', 'OrAssign': '|=', 'RemAssign': '%=', 'ShlAssign': '<<=', 'ShrAssign': '>>=', 'SubAssign': '-=', 'XorAssign': '^=',
       'And': '&', 'Or': '|', 'Xor': '^', 'LAnd': '&&', 'LOr': '||', 'EQ': '==', 'GE': '>=', 'GT': '>', 'LE': '<=', 'LT': '<', 'NE': '!=',
       'Shl': '<<', 'Shr': '>>'}


# ------------------------------------------------------------------------------------------ the format
def proto(path):
    """messages: name -> [(field, type, repeated, oneof)]; enums: name -> [names]."""
    s = re.sub(r'//[^\n]*|/\*.*?\*/', '', open(path).read(), flags=re.S)
    toks = re.findall(r'[A-Za-z_][\w.]*|\d+|"[^"]*"|[{}=;<>,\[\]]', s)
    msgs, enums = {}, {}
    i = 0

    def message(i):
        name = toks[i + 1]
        out = []
        i += 3
        one = None
        while True:
            t = toks[i]
            if t == '}':
                if one is None:
                    msgs[name] = out
                    return i + 1
                one = None
                i += 1
            elif t == 'oneof':
                one = toks[i + 1]
                i += 3
            elif t == 'message':
                i = message(i)
            elif t == 'enum':
                i = enum(i)
            elif t in ('reserved', 'option'):
                while toks[i] != ';':
                    i += 1
                i += 1
            else:
                rp = t == 'repeated'
                if t in ('repeated', 'optional'):
                    i += 1
                out.append((toks[i + 1], toks[i].split('.')[-1], rp, one))
                while toks[i] != ';':
                    i += 1
                i += 1

    def enum(i):
        name = toks[i + 1]
        i += 3
        vals = []
        while toks[i] != '}':
            if toks[i] in ('option', 'reserved'):
                while toks[i] != ';':
                    i += 1
            else:
                vals.append(toks[i])
                while toks[i] != ';':
                    i += 1
            i += 1
        enums[name] = vals
        return i + 1
    while i < len(toks):
        if toks[i] == 'message':
            i = message(i)
        elif toks[i] == 'enum':
            i = enum(i)
        else:
            while toks[i] != ';':
                i += 1
            i += 1
    return msgs, enums


def camel(n):
    p = n.split('_')
    return p[0] + ''.join(x[:1].upper() + x[1:] for x in p[1:])


class Format:
    """how the tool prints a message as JSON."""

    def __init__(self, msgs, enums, always=True, names=False, ints=False):
        self.msgs, self.enums, self.always, self.names, self.ints = msgs, enums, always, names, ints

    def field(self, n):
        return n if self.names else camel(n)

    def message(self, name, **given):
        out = {}
        for f, t, rep, one in self.msgs[name]:
            if f in given:
                v = given[f]
            elif one:
                continue
            elif rep:
                v = []
            elif t in self.msgs:
                continue
            elif t in self.enums:
                v = self.enums[t][0]
            else:
                v = '' if t == 'string' else False if t == 'bool' else 0
            if not self.always and (v == [] or v == '' or v == 0 or t in self.enums and v == self.enums[t][0]):
                continue
            if t in self.enums and self.ints:
                v = self.enums[t].index(v)
            out[self.field(f)] = v
        for k in given:
            if k not in [x[0] for x in self.msgs[name]]:
                raise build.AnalysisError('message %s has no field %s' % (name, k))
        return out


def json_options(rep):
    """options with which the tool prints the information (from the whole-tool model of main)."""
    prog = build.export()
    opts = {}
    found = False
    for key, f in prog['functions'].items():
        if not f or f.get('b') is None:
            continue
        from sidecheck import walk
        for n in walk(f['b']):
            if n.get('k') == 'Call' and n.get('f') and (prog['callees'].get(n['f']) or {}).get('n') in ('MessageToJsonString', 'BinaryToJsonString', 'MessageToJsonStream'):
                found = True
            if n.get('k') == 'Bin' and n['op'] == '=' and n['a'].get('k') == 'Member' and \
                    (n['a'].get('n') or n['a'].get('m') or '') in ('always_print_primitive_fields', 'preserve_proto_field_names', 'always_print_enums_as_ints',
                                                                   'always_print_fields_with_no_presence'):
                v = n['b']
                while v.get('k') == 'Cast':
                    v = v['e']
                if v.get('k') not in ('Bool', 'Int'):
                    return None
                opts[n['a'].get('n') or n['a'].get('m')] = bool(v.get('v'))
    return opts if found else None


# ------------------------------------------------------------------------------------------ oracle
class Place:
    """a source range with symbolic numbers spanning a fixed number of lines."""

    def __init__(self, name, span, base=None, offset=0):
        self.name, self.span = name, span
        self.sl, self.sc = pyabs.norm(add(sym((base or name) + '.line'), offset)), sym(name + '.start')
        self.el, self.ec = pyabs.norm(add(self.sl, span)), sym(name + '.end')
        self.lower = {(base or name) + '.line': 1, name + '.start': 1, name + '.end': 2}

    def start(self, fm):
        return fm.message('SourceLocation', line=self.sl, column=self.sc)

    def end(self, fm):
        return fm.message('SourceLocation', line=self.el, column=self.ec)

    def text(self, f):
        a, b = add(self.sc, -1), add(self.ec, -1)
        l0 = add(self.sl, -1)
        if self.span == 0:
            return [('slice', f, l0, a, b, 'bytes')]
        return [('slice', f, l0, a, None, 'bytes')] + [('line', f, add(l0, i), 'bytes') for i in range(1, self.span)] + \
            [('slice', f, add(l0, self.span), None, b, 'bytes')]


def pieces(t):
    """a text without white space, parentheses around ranges and indentation."""
    out = []
    for x in t.p:
        if isinstance(x, str):
            y = re.sub(r'\s+', '', x)
            if y:
                out.append(y)
        elif x[0] == 'rep' and not x[1].strip():
            continue
        else:
            if x[0] == 'line':
                x = ('line', x[1], x[2], 'bytes')       # a whole line is the same in both units
            out.append(x)
    return out


def strip_parens(p):
    """[ '(', ranges..., ')' ] -> ranges; literals are joined."""
    out = []
    for x in p:
        if isinstance(x, str):
            x = x.replace('(', '').replace(')', '')
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
                continue
        out.append(x)
    return out


def balanced(p):
    d = 0
    for x in p:
        for c in x if isinstance(x, str) else ():
            d += (c == '(') - (c == ')')
            if d < 0:
                return False
    return d == 0


def flat(p):
    return ''.join(x if isinstance(x, str) else '<%s>' % pyabs.show(x) for x in p)


class Scenario:
    def __init__(self, fm, spans=(0, 0, 0)):
        self.fm = fm
        self.lower = {}
        self.ids = []       # per id: (kind, action, file, places)
        self.spans = spans

    def place(self, name, k, base=None):
        last = k == 2 or k == 1 and 'operand' in name       # ends where the whole expression ends
        p = Place(name, self.spans[k], base, self.spans[0] - self.spans[k] if last else 0)
        self.lower.update(p.lower)
        return p

    def build(self, actions, split=True):
        """a file for each half of the actions; ids are numbered from 0."""
        fm = self.fm
        files = ['/mutated/root/dir/a.c', '/mutated/root/b.c']
        trees = [[], []]
        n = 0
        total = sum(len(a) if a else 1 for _, a in actions)
        num = lambda k: (k + 7) % total     # mutants of children are numbered before those of their parents
        for i, (kind, acts) in enumerate(actions):
            fi = i % 2
            orig = '/original/tree' + files[fi][len('/mutated/root'):]
            tag = '%s%d' % (kind, i)
            if kind == 'remove_stmt':
                p = self.place(tag, 0)
                g = fm.message('MutationRemoveStmt', mutation_id=num(n), start=p.start(fm), end=p.end(fm), snippet='snippet')
                self.ids.append((kind, None, orig, (p,)))
                n += 1
            else:
                msg = [t for f, t, _, _ in fm.msgs['MutationGroup'] if f == kind][0]
                inst_t = [t for f, t, _, _ in fm.msgs[msg] if f == 'instances'][0]
                inst = []
                if kind == 'replace_expr':
                    ps = (self.place(tag, 0),)
                    pos = {'start': ps[0].start(fm), 'end': ps[0].end(fm)}
                elif kind == 'replace_unary_operator':
                    ps = (self.place(tag + '.expr', 0, tag), self.place(tag + '.operand', 1, tag))
                    pos = {'expr_start': ps[0].start(fm), 'expr_end': ps[0].end(fm), 'operand_start': ps[1].start(fm), 'operand_end': ps[1].end(fm)}
                else:
                    ps = (self.place(tag + '.expr', 0, tag), self.place(tag + '.lhs', 1, tag), self.place(tag + '.rhs', 2, tag))
                    pos = {'expr_start': ps[0].start(fm), 'expr_end': ps[0].end(fm), 'lhs_start': ps[1].start(fm), 'lhs_end': ps[1].end(fm),
                           'rhs_start': ps[2].start(fm), 'rhs_end': ps[2].end(fm)}
                for a in acts:
                    inst.append(fm.message(inst_t, action=a, mutation_id=num(n)))
                    self.ids.append((kind, a, orig, ps))
                    n += 1
                g = fm.message(msg, instances=inst, **pos)
            trees[fi].append(fm.message('MutationGroup', **{kind: g}))
        info = []
        for f, t in zip(files, trees):
            h = len(t) // 2
            nodes = [fm.message('MutationTreeNode', mutation_groups=t[:h], children=[1, 2]), fm.message('MutationTreeNode', mutation_groups=t[h:]),
                     fm.message('MutationTreeNode', mutation_groups=[])]
            info.append(fm.message('MutationInfoForFile', filename=f, mutation_tree=nodes))
        self.ids = [self.ids[k] for k in sorted(range(total), key=num)]
        self.info = fm.message('MutationInfo', info_for_files=info)
        return self

    def scen(self, argv):
        import copy
        return {'argv': argv, 'json': lambda: copy.deepcopy(self.info), 'lower': self.lower}


OPERATOR_CHARS = '+-*/%&|^<>=!~?:,(){}[]'


def harmless(pat):
    """texts matched by the pattern contain no operators."""
    try:
        r = re.compile(pat)
    except re.error:
        return True
    for c in OPERATOR_CHARS:
        for t in ('a%sb' % c, 'a %s b' % c, '%sb' % c, '1 %s 2' % c):
            m = r.match(t)
            if m:
                return False
    return True


def expected(kind, action, ps, f):
    """pieces of the replacement, or None."""
    T = lambda i: ps[i].text(f)
    if kind == 'replace_expr':
        x = EXPR_ACTION.get(action)
        if isinstance(x, tuple):
            return [x[1]] + T(0) if x[0] == 'u' else T(0) + [x[1]]
        if x is None:
            return None
        if action in ('ReplaceWithTrue', 'ReplaceWithFalse'):
            return ['true' if x else 'false']
        return [str(x) + ('.0' if action.endswith('Float') else '')]
    if kind == 'replace_unary_operator':
        if action == 'ReplaceWithOperand':
            return T(1)
        x = UN_ACTION.get(action)
        if x is None:
            return None
        return [x[1]] + T(1) if x[0] == 'u' else T(1) + [x[1]]
    if action == 'ReplaceWithLHS':
        return T(1)
    if action == 'ReplaceWithRHS':
        return T(2)
    op = BIN.get(action.replace('ReplaceWith', '', 1))
    return None if op is None else T(1) + [op] + T(2)


def ends_with(got, want):
    """the printed pieces end with the wanted ones (a literal may share a piece with what precedes it)."""
    if len(got) < len(want):
        return False
    if not want:
        return True
    if got[len(got) - len(want) + 1:] != want[1:]:
        return False
    a, b = got[len(got) - len(want)], want[0]
    return a == b or isinstance(a, str) and isinstance(b, str) and a.endswith(b) and re.match(r'.*[\w:]$', a[:-len(b)] or ':') is not None and \
        not (b[0] not in '-~!+' and a[:-len(b)][-1:] in '-~!+')


def check_mutant(rep, add_finding, it, sc, i):
    kind, action, f, ps = sc.ids[i]
    what = kind + (' ' + action if action else '')
    line = it.out[-1][0] if it.out else 1
    where = [n for _, n, m in it.opened if n.endswith(('.c',))]
    if any(os.path.normpath(n) != f for n in where):
        add_finding(line, 'file', 'the source of a mutant is read from %s instead of %s' % (where[0], f))
        return 1
    texts = [t for _, t in it.out]
    allp = []
    for t in texts:
        allp += list(t.p)
    nums = [x[1] for x in allp if isinstance(x, tuple) and x[0] == 'num']
    p = ps[0]
    if nums and nums[:4] != [p.sl, p.sc, p.el, p.ec]:
        add_finding(it.out[0][0], 'range ' + kind, 'the range shown for %s is %s instead of %r:%r--%r:%r' % (
            what, ', '.join(map(repr, nums[:4])), p.sl, p.sc, p.el, p.ec))
    want = p.text(f) if kind == 'remove_stmt' else expected(kind, action, ps, f)
    if want is None:
        return 0
    full = pieces(Txt(allp))
    got = strip_parens(full)
    if not balanced(full):
        add_finding(line, 'parentheses ' + kind, 'the parentheses printed for %s are not balanced' % what)
    chars = [x for x in got if isinstance(x, tuple) and x[0] == 'slice' and x[5] != 'bytes']
    if chars:
        if ends_with([x[:5] + ('bytes',) if isinstance(x, tuple) and x[0] == 'slice' else x for x in got], want):
            add_finding(chars_line(it), 'byte columns', 'a line is cut at columns counted in characters, but Dredd reports columns in bytes: on lines '
                        'with non-ASCII characters the wrong text is shown')
            return 3
    if not ends_with(got, want):
        tail = got[-len(want) - 1:] if len(got) > len(want) else got
        add_finding(line, 'text ' + what, 'for %s the text shown is %s instead of %s (range spanning %d line(s))' % (
            what, flat(tail)[-300:], flat(want), p.span + 1))
    if kind != 'remove_stmt':
        orig = p.text(f)
        if not any(got[j:j + len(orig)] == orig for j in range(len(got))):
            add_finding(line, 'original ' + kind, 'the original text of %s is not shown' % what)
    # parentheses are left out only around texts without operators
    operands = {'replace_expr': (0,), 'replace_unary_operator': (1,), 'replace_binary_operator': (1, 2)}.get(kind, ())
    if operands and len(want) > 1 and any(isinstance(x, str) for x in want):
        plain = set(tuple(pieces(t)) for pat, t, r in it.matches if r and harmless(pat))
        need = [o for o in operands if tuple(ps[o].text(f)) not in plain]
        if sum(x.count('(') for x in full if isinstance(x, str)) < len(need):
            add_finding(line, 'no parentheses', 'operands that may contain operators are shown without parentheses')
    return 4


def chars_line(it):
    for l, n, m in it.opened:
        if n.endswith('.c'):
            return l
    return 1


def check(rep, tier):
    repo = build.REPO
    path = os.path.join(repo, SCRIPT)
    pp = [os.path.join(d, x) for d, _, fs in os.walk(os.path.join(repo, 'src')) for x in fs if x == 'dredd.proto']
    if not os.path.exists(path) or not pp:
        raise build.AnalysisError('script or format not found')
    msgs, enums = proto(pp[0])
    tree = ast.parse(open(path).read())
    opts = json_options(rep)
    if opts is None:
        rep.note('json_options', 'not found; assumed')
        opts = {'always_print_primitive_fields': True}
    fm = Format(msgs, enums, opts.get('always_print_primitive_fields', False) or opts.get('always_print_fields_with_no_presence', False),
                opts.get('preserve_proto_field_names', False), opts.get('always_print_enums_as_ints', False))
    kinds = [f for f, t, _, one in msgs['MutationGroup'] if one]
    acts = []
    for k in kinds:
        msg = [t for f, t, _, _ in msgs['MutationGroup'] if f == k][0]
        a = None
        for f, t, r, _ in msgs[msg]:
            if f == 'instances':
                en = [y for x, y, _, _ in msgs[t] if x == 'action'][0]
                a = enums[en]
        acts.append((k, a))
    if set(kinds) - {'remove_stmt', 'replace_expr', 'replace_unary_operator', 'replace_binary_operator'}:
        rep.note('unknown_kinds', sorted(set(kinds)))
    acts = [x for x in acts if x[0] in ('remove_stmt', 'replace_expr', 'replace_unary_operator', 'replace_binary_operator')]
    seen = set()
    obligations = 0
    unsup = {}

    def add_finding(line, key, msg, detail=''):
        if key in seen:
            return
        seen.add(key)
        rep.add(Finding(key, '%s:%s' % (SCRIPT, line), RULE, msg, detail))

    def go(sc, argv, on):
        nonlocal obligations
        try:
            for it, code, error in pyabs.paths(tree, sc.scen(argv)):
                if error is not None:
                    add_finding(error.line, 'error %s %s' % (error.kind, error.line), 'the script ends with %s' % error,
                                'arguments: %s' % ' '.join(argv))
                    obligations += 1
                    continue
                obligations += on(it, code) or 0
        except Unsupported as x:
            unsup[str(x)] = unsup.get(str(x), 0) + 1
            return False
        return True

    base = ['info.json']
    prefix = ['--path-prefix-replacement', '/mutated/root', '/original/tree']
    full = Scenario(fm).build(acts + acts)
    n = len(full.ids)

    def shown(sc, i):
        def on(it, code):
            if code != 0:
                add_finding(it.out[-1][0] if it.out else 1, 'status', 'showing mutant %d ends with status %r' % (i, code))
            return check_mutant(rep, add_finding, it, sc, i)
        return on
    for i in range(n):
        go(full, base + ['--show-info-for-mutant', str(i)] + prefix, shown(full, i))
    # ranges over several lines
    deep = 6 if tier == 'thorough' else 4
    few = [(k, a and [a[0], a[-1], a[len(a) // 2]]) for k, a in acts]
    for spans in [(s, t, u) for s in range(deep) for t in range(s + 1) for u in range(s - t + 1) if s]:
        sc = Scenario(fm, spans).build(few)
        for i in range(len(sc.ids)):
            go(sc, base + ['--show-info-for-mutant', str(i)] + prefix, shown(sc, i))

    def printed(it):
        return pieces(Txt([y for _, t in it.out for y in t.p]))

    def largest(want):
        def on(it, code):
            if printed(it) != [str(want)] or code != 0:
                add_finding(it.out[-1][0] if it.out else 1, 'largest', 'the largest mutant id is %d, but %s is printed (status %r)' % (
                    want, flat(printed(it)) or 'nothing', code))
            return 1
        return on
    go(full, base + ['--largest-mutant-id'], largest(n - 1))
    one = Scenario(fm).build([('remove_stmt', None)])
    go(one, base + ['--largest-mutant-id'], largest(0))
    go(Scenario(fm).build([]), base + ['--largest-mutant-id'], largest(-1))
    # a later file may hold the smaller ids only if it was mutated separately; the largest id need not come last
    def unknown(it, code):
        if code == 0:
            add_finding(it.out[-1][0] if it.out else 1, 'unknown id', 'an unknown mutant id is not reported as an error')
        return 1
    go(full, base + ['--show-info-for-mutant', str(n)] + prefix, unknown)
    go(full, base + ['--show-info-for-mutant', '-1'] + prefix, unknown)
    rep.count('mutants_described', n)
    rep.count('actions', sum(len(a) if a else 1 for _, a in acts))
    rep.count('obligations', obligations)
    if unsup:
        rep.note('not_analysed_constructs', unsup)
