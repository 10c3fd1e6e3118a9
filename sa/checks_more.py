"""Properties whose checks combine a generator part with other parts."""
import build
import checks_gen as CG
from checks import prop, program, GEN_ASSUME


TOOL_ASSUME = [
    'clang::tooling::ClangTool::run processes the files in the order given, creating a frontend action, an AST consumer '
    'and diagnostics as documented (modelled); Rewriter, real_path and JSON printing are modelled by their contracts',
    'in the whole-tool analysis a mutation has any number of mutants and inserts one new mutator function if it has any',
]


PRELUDE_ASSUME = [
    'library functions that the run-time support calls (getenv, strtok, std::string, std::ofstream, atomics ...) behave as '
    'documented; listed ids are decimal numerals; ids do not exceed the range of int',
    'lists of up to three ids are interpreted; every loop is generalised to any number of iterations after four',
]


def tool(rep, pid):
    import pipecheck
    pipecheck.check(rep, pid)


@prop('C09')
def c09(rep, tier):
    tool(rep, 'C09')
    rep.explanation = ('The whole tool is interpreted from main on sequences of files each of which may have compile '
                       'errors: a file with errors must not be rewritten nor described, must be printed among the '
                       'failed files, the other files must be processed, and the exit status must not be 0.')
    rep.assumptions = TOOL_ASSUME


@prop('C14')
def c14(rep, tier):
    tool(rep, 'C14')
    rep.explanation = ('The whole tool is interpreted from main on files that declare arrays of up to three dimensions '
                       '(variables, members, several), static assertions, specialisations of templates and calls of '
                       'builtins with constant arguments: each replaced range must be that of one of these '
                       'expressions, the text must be the decimal value of the same expression (same dimension of the '
                       'same array), and none of them that is in the main file may be left.')
    rep.assumptions = TOOL_ASSUME + VISIT_ASSUME


@prop('C15')
def c15(rep, tier):
    tool(rep, 'C15')
    rep.explanation = ('The whole tool is interpreted from main on skeleton ASTs of different nesting, each mutation '
                       'with or without mutants: the mutations found must be applied once each, and the nodes written '
                       'must form a tree that contains every mutation group once, below those of enclosing '
                       'constructs and apart from those of other statements.')
    rep.assumptions = TOOL_ASSUME + VISIT_ASSUME


@prop('C16')
def c16(rep, tier):
    tool(rep, 'C16')
    rep.explanation = ('The whole tool is interpreted from main for all option values, error states of the files and '
                       'outcomes of writing: options must reach the code they are about, the mutation information '
                       'must be written to the named file exactly if requested and describe the mutated files, and '
                       'the exit status must tell whether everything was done.')
    rep.assumptions = TOOL_ASSUME


@prop('C22')
def c22(rep, tier):
    tool(rep, 'C22')
    rep.explanation = ('The whole tool is interpreted from main on files with and without mutants and with '
                       '__dredd_prelude_start declared in different places: the prelude must be inserted once, before '
                       'all mutator functions and at the right place, and nothing if there are no mutants.')
    rep.assumptions = TOOL_ASSUME + VISIT_ASSUME


@prop('C02')
def c02(rep, tier):
    P = program()
    CG.c02_gen(rep, P)
    tool(rep, 'C02')
    rep.explanation = ('Each generator is interpreted abstractly on all partitions with a symbolic id counter; the '
                       'reported ids must be id..id+N-1 and the counter must end at id+N.  The whole tool is '
                       'interpreted from main on sequences of files whose mutations have symbolic numbers of mutants: '
                       'each mutation must be given the next free id and the first id of its file, and the prelude '
                       'the first id and number of mutants of its file.')
    rep.assumptions = GEN_ASSUME + TOOL_ASSUME


@prop('C05')
def c05(rep, tier):
    P = program()
    CG.c05_gen(rep, P)
    import pipecheck
    pipecheck.check_preludes(rep, 'tracking')
    rep.explanation = ('Every generator is interpreted twice on each partition, in regular and in tracking mode: the '
                       'mutation information and ids must be equal, the tracked code must have the original value, '
                       'and it must record exactly the ids of the place, once.  The emitted recording function is '
                       'interpreted over linear constraints for an arbitrary first id, number of mutants, place and '
                       'number of mutants of the place, reached once, twice, and before or after another place.')
    rep.assumptions = GEN_ASSUME + PRELUDE_ASSUME


@prop('C06')
def c06(rep, tier):
    import pipecheck
    pipecheck.check_preludes(rep, 'regular')
    rep.explanation = ('The run-time support that the tool emits (text templates of the whole-tool analysis) is parsed and '
                       'interpreted over linear constraints for an arbitrary first id and number of mutants of the file, an '
                       'arbitrary queried id and a variable that is not set, empty, or lists arbitrary ids: a query must '
                       'be true exactly for the listed ids, array accesses and shifts must be in range.')
    rep.assumptions = PRELUDE_ASSUME


@prop('C07')
def c07(rep, tier):
    import pipecheck
    pipecheck.check_preludes(rep, 'shared')
    CG.c07_gen(rep, program())
    rep.explanation = ('In the run-time support that the tool emits, every variable of static storage duration must be '
                       'thread-local, constant, atomic, or only used under a lock; flags that are tested and set must be so in one '
                       'step; library functions with hidden shared state are reported.  The mutator functions '
                       'that the generators emit must not have variables of static storage duration at all.')
    rep.assumptions = PRELUDE_ASSUME


@prop('C08')
def c08(rep, tier):
    P = program()
    CG.c08_gen(rep, P)
    rep.explanation = ('Every definition that any partition of any generator can emit is instantiated with the builtin '
                       'types its partition allows; equal signatures must have equal definitions, and every call in '
                       'rewritten code must match the definition emitted with it.')
    rep.assumptions = GEN_ASSUME


@prop('C18')
def c18(rep, tier):
    P = program()
    CG.c18_gen(rep, P)
    import ranges
    import scenarios as S
    import visitcheck as V
    V.run(rep, V.program(), S.complete(V.program()), V.required(), 'eligible constructs are mutated', 'complete')
    ranges.check(rep, complete=True)
    rep.explanation = ('Every generator is interpreted with and without optimisation on each partition: without it the '
                       'full family of type-correct mutants must be offered; a mutant left out with it must be '
                       'algebraically equal to the original, to an offered mutant or be subsumed as documented. '
                       'The visitor is interpreted on skeleton ASTs with an eligible construct in every ordinary '
                       'context; every partition must create its mutations.')
    rep.assumptions = GEN_ASSUME + VISIT_ASSUME


@prop('C19')
def c19(rep, tier):
    P = program()
    CG.c19_gen(rep, P)
    rep.explanation = ('For every partition and enabled mutant, operators in the emitted code are typed with the type '
                       'classes, value categories and qualifiers of the operands.')
    rep.assumptions = GEN_ASSUME


@prop('C24')
def c24(rep, tier):
    P = program()
    CG.c24_gen(rep, P)
    import pipecheck
    pipecheck.check_dump(rep)
    rep.explanation = ('Every generator is interpreted with and without --show-ast-node-types on each partition; the '
                       'emitted code without comments, the ids and the mutation information must be equal.  The whole '
                       'tool is interpreted with and without --dump-asts; the mutations, rewriting, information and '
                       'exit status must be equal in each state.')
    rep.assumptions = GEN_ASSUME + TOOL_ASSUME


VISIT_ASSUME = [
    'clang::RecursiveASTVisitor traverses the children of a node in order and dispatches to the overrides of the '
    'visitor as documented (modelled, together with the accessors of AST nodes that the visitor uses)',
    'the scenarios enumerate the syntactic contexts named by the property; facts that a scenario does not fix are '
    'partitioned by the analysis',
]


@prop('C11')
def c11(rep, tier):
    import scenarios as S
    import visitcheck as V
    P = V.program()
    V.run(rep, P, S.constant_contexts(P), V.forbidden(), 'constant-context', 'constant_context')
    rep.explanation = ('The visitor is interpreted abstractly on skeleton ASTs that place an expression of every '
                       'relevant node class in each context that has to stay constant or is not evaluated; no '
                       'partition may create a mutation of the expression or descend into it.')
    rep.assumptions = VISIT_ASSUME


@prop('C12')
def c12(rep, tier):
    import scenarios as S
    import visitcheck as V
    P = V.program()
    V.run(rep, P, S.unroutable(P), V.forbidden(descend=False), 'unroutable', 'unroutable')
    rep.explanation = ('The visitor is interpreted abstractly on skeleton ASTs in which an expression cannot be routed '
                       'through a mutator function (category, constness, bit-fields, register variables, lifetime of '
                       'temporaries, argument-dependent lookup, unsupported types ...); no partition may create a '
                       'mutation of it.')
    rep.assumptions = VISIT_ASSUME


@prop('C13')
def c13(rep, tier):
    import gencheck as G
    import gendb
    import scenarios as S
    import visitcheck as V
    from checks import each_mode, merge_gen, ALLMODES
    P = V.program()
    V.run(rep, P, S.unremovable(P), V.forbidden(kinds={'stmt'}, descend=False), 'unremovable', 'unremovable')
    P = program()
    ts = [t for t in gendb.tasks(P) if t['kind'] == 'stmt']

    def path(P, cf, t, p, info):
        return each_mode(P, cf, t, p, ALLMODES, lambda g: (G.well_formed(g) + G.check_stmt(g, 'form'), 2))
    found, total = gendb.run(P, gendb.Rule(path), variants=ALLMODES, ts=ts)
    merge_gen(rep, P, found, total, 'a removable statement is enclosed completely', least=4)
    rep.explanation = ('The visitor is interpreted abstractly on skeleton ASTs in which a statement cannot be wrapped '
                       'in a condition; no partition may create a removal of it.  The removal generator is interpreted '
                       'on all partitions of statement kind, labels, terminating token and following text; the braces '
                       'it inserts must enclose the statement with its semicolon, after any label.')
    rep.assumptions = VISIT_ASSUME + GEN_ASSUME


@prop('C25')
def c25(rep, tier):
    import gendb
    import scenarios as S
    import visitcheck as V
    import clangmodel as M
    from checks import merge_gen, where_of
    from report import Finding
    P = V.program()
    made = set()

    def note(P, cf, s, p):
        for e in p.effects:
            if e[0] == 'newmut' and P.mkind.get(e[1]) in ('bin', 'un'):
                yield 'created', e[-1]
    probe = S.operators(P)
    R = type(rep)()
    hits = V.run(R, P, probe, note, 'operator', 'operator', collect=True)
    for s in hits:
        made.add(s.op)
    rep.count('operators_probed', len(probe))
    rep.note('operators_mutated', sorted('%s %s' % x for x in made))
    if not made:
        raise build.AnalysisError('the visitor mutates no operator')
    fams = [('constant-context', S.constant_contexts), ('unroutable', S.unroutable), ('complete', S.complete),
            ('unremovable', S.unremovable), ('elsewhere', S.elsewhere), ('operators', S.operators)]
    for name, f in fams:
        r = type(rep)()
        V.run(r, P, f(P), lambda P, cf, s, p: (), 'abort', name, assert_mode='check')
        for k, v in r.coverage.items():
            if isinstance(v, int) and not isinstance(v, bool):
                rep.count(k, v)
        for (why, loc), scen in sorted(r.visit_aborts.items(), key=str):
            rep.add(Finding('visitor %s' % why, '%s:%s' % (V.vfile(P), loc), 'no abort while visiting',
                            'the visitor can abort: %s' % why, 'scenario ' + scen))
    P = program()
    ts = gendb.tasks(P)
    for t in list(ts):
        if t['kind'] in ('bin', 'un'):
            table = M.BO if t['kind'] == 'bin' else M.UO
            for kind, op in sorted(made):
                if kind == t['kind'] and not any(x['kind'] == kind and x['ops'] == [table[op]] and x['cxx'] == t['cxx'] and
                                                 x['opt'] == t['opt'] for x in ts):
                    ts.append(dict(t, ops=[table[op]]))
    keep = lambda t: t['kind'] not in ('bin', 'un') or \
        (t['kind'], (M.bname if t['kind'] == 'bin' else M.uname)(t['ops'][0])) in made
    ts = [t for t in ts if keep(t)]

    def ab(P, cf, t, p):
        return [(p.loc, 'the generator can abort: %s' % p.why)]
    from checks import ALLMODES
    found, total = gendb.run(P, gendb.Rule(lambda P, cf, t, p, i: ([], 1), ab), ts=ts, assert_mode='check',
                             variants=ALLMODES if tier == 'thorough' else
                             {'base': {}, 'track': {'GetOnlyTrackMutantCoverage': True}})
    merge_gen(rep, P, found, total, 'no assertion failure or unsupported-case abort for an operator, type or construct '
              'for which a mutation is created')
    import pipecheck
    pipecheck.check_aborts(rep)
    rep.explanation = ('Assertions are checked rather than assumed: the visitor is interpreted on every scenario family '
                       '(all operators included), the whole tool from main on skeleton files, and the generators on every partition of the operators that the '
                       'visitor creates mutations for; no partition may reach a failing assertion, unreachable marker '
                       'or abort.')
    rep.assumptions = VISIT_ASSUME + GEN_ASSUME


@prop('C10')
def c10(rep, tier):
    import gendb
    import ranges
    import scenarios as S
    import visitcheck as V
    from checks import each_mode, merge_gen
    P = V.program()
    V.run(rep, P, S.elsewhere(P), V.forbidden(descend=False), 'outside the main file', 'elsewhere')
    ranges.check(rep)
    tool(rep, 'C10')
    P = program()

    def path(P, cf, t, p, info):
        return each_mode(P, cf, t, p, ('base', 'track'), lambda g: (
            [x for x in g.problems if 'main file' in x[1]], 1 + len(g.rw)))
    found, total = gendb.run(P, gendb.Rule(path), variants={'base': {}, 'track': {'GetOnlyTrackMutantCoverage': True}})
    merge_gen(rep, P, found, total, 'text is only inserted or replaced at places traced to the main file')
    rep.explanation = ('The visitor is interpreted on skeleton ASTs whose nodes (or rewritten parts of them) cannot be '
                       'traced to the main file; no partition may create a mutation.  The function that traces ranges '
                       'is interpreted on all partitions: a valid result needs facts that show both ends to be text of '
                       'the main file or the right end of a macro expansion in it.  All rewriting of the generators '
                       'must be at traced places, and the tool as a whole must process a file once however often '
                       'and in whatever spelling it is named.')
    rep.assumptions = VISIT_ASSUME + GEN_ASSUME


@prop('C20')
def c20(rep, tier):
    import sidecheck
    import pipecheck
    sidecheck.c20(rep)
    CG.c20_gen(rep, program())
    pipecheck.check_order(rep)
    rep.explanation = ('All functions of the tool are searched for uses of time, randomness, environment and addresses, and '
                       'for loops over containers whose order is not determined by their content and whose body has an effect that depends '
                       'on the order.  In addition the whole tool is interpreted with hash containers iterated in two '
                       'different orders: the edits and the mutation information must be the same.')
    rep.assumptions = TOOL_ASSUME


@prop('C21')
def c21(rep, tier):
    import sidecheck
    sidecheck.c21(rep)
    rep.explanation = ('The conditions of all assertions are checked, through the functions they call, for writes to anything but their own '
                       'locals, calls of modifying functions and output; the program is resolved a second time with NDEBUG and '
                       'every function must have the same code apart from assertions.')
    rep.assumptions = ['functions of clang, LLVM and the standard library that are const or named like queries have no effect']


@prop('C17')
def c17(rep, tier):
    import querycheck
    querycheck.check(rep, tier)
    rep.explanation = ('The syntax tree of the query script is interpreted abstractly on mutation information that has the shape '
                       'dredd.proto and the tool\'s JSON options prescribe, with symbolic line and column numbers and source texts: for each '
                       'kind of mutation and each action the text shown must be made of the operator or constant the action stands for and of '
                       'the bytes of the ranges given, for ranges spanning up to several lines.')
    rep.assumptions = ['libprotobuf prints messages as its JSON mapping documents', 'constants, argument parsing and regular expressions '
                       'have the semantics of the Python library']


@prop('C04')
def c04(rep, tier):
    import c04 as C04
    C04.run(rep, program())
    rep.explanation = ('The class that describes source ranges is interpreted on a symbolic range: what each accessor yields is a linear '
                       'expression over line, column, offset and token length of the ends of the range, and the snippet is a slice of the buffer '
                       '(or its first and last characters when it is long), compared with the ends of the place.  Every generator is '
                       'interpreted on all partitions: each reported field must be the right accessor of the description of the right node, '
                       'and the operator that of the node.')
    rep.assumptions = GEN_ASSUME
