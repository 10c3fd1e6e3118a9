#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements are easy to edit)."""
import json, os
L = 'src/libdredd/src/'
VIS, CON = L + 'mutate_visitor.cc', L + 'mutate_ast_consumer.cc'
BIN, UN, EXP, RM = (L + 'mutation_replace_binary_operator.cc', L + 'mutation_replace_unary_operator.cc',
                    L + 'mutation_replace_expr.cc', L + 'mutation_remove_stmt.cc')
ACT, TREE, UTIL = L + 'new_mutate_frontend_action_factory.cc', L + 'mutation_tree_node.cc', L + 'util.cc'
MAIN, LOG = 'src/dredd/src/main.cc', 'src/dredd/src/log_failed_files_diagnostic_consumer.cc'
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})


p('C01', 'Disabled mutants leave behaviour unchanged',
  'When no mutant is enabled, the code that Dredd substitutes for an expression or statement behaves exactly like the original: same operator, same value, same result type and value category, each operand evaluated exactly once, in the same circumstances (short-circuiting included) and with the same side effects. '
  'This holds on every route through the instrumentation, both when no mutant of the file is enabled at all and when some other mutant of the file is enabled.',
  ['programs', 'configurations'], 'every operator, operand type, qualifier, side-effect status, language (C or C++) and optimisation setting Dredd can instrument, in every program',
  'The execution tests run a handful of programs and the golden files fix the text for the shapes that were sampled; the space of operator x type x constness x side-effect x language x option is far larger, and behaviour with an unrelated mutant enabled is hardly exercised.',
  [BIN, UN, EXP, RM], [('mutator function generation', BIN), ('mutator function generation', UN), ('mutator function generation', EXP), ('statement guard', RM)],
  ['the mutated source file', 'the running mutated program'])
p('C02', 'Mutant ids are unique and contiguous across groups and files',
  'Over one run, every mutant gets its own id, ids start at 0 and increase without gaps over all mutation groups of a file and over all files in the order they are processed. A group consumes exactly as many ids as it describes mutants, and the file-local number passed to the instrumentation is always the global id minus the first id of that file.',
  ['programs', 'configurations', 'histories'], 'every sequence of files and every collection of mutations in them',
  'Golden-file tests mutate one file at a time starting from id 0, so wrong offsets, skipped ids or ids clashing in a second file are invisible to them.',
  [BIN, UN, EXP, RM, CON, ACT, MAIN], [('mutation_id threading', CON), ('id bookkeeping per group', BIN), ('shared counter', ACT)],
  ['mutation info file', 'the mutated source files'], [('mutation_id', 'next free global id', MAIN)])
p('C03', 'Each reported mutant id activates exactly the reported change',
  'For every mutant in the mutation information, enabling its id makes the mutated program perform precisely the reported action at that place (the named operator, operand or constant), and every change the instrumentation can perform is reported once under the id that triggers it.',
  ['programs', 'configurations'], 'every mutation group, operator, operand type, language and optimisation setting',
  'The tests that check JSON look at a few programs and golden files check only the C/C++ text, not its agreement with the JSON, for most operators and types.',
  [BIN, UN, EXP, RM], [('emitted branches and added instances', BIN), ('emitted branches and added instances', UN), ('emitted branches and added instances', EXP)],
  ['mutation info file', 'the running mutated program with DREDD_ENABLED_MUTATION set'])
p('C04', 'Reported locations, snippets and operators describe the source',
  'Every mutation group in the mutation information names the original operator and the start line/column, end line/column (one past the last character) and snippet of exactly the expression, operand or statement that is mutated, as they appear in the main source file. '
  'Long snippets are abbreviated to their first and last characters around a snip marker, never mixing text of another place.',
  ['programs', 'inputs'], 'every mutated expression, operand and statement, wherever it is and however long',
  'Only the two query tests look at this information, on a few mutants; swapped or shifted locations for other groups, multi-line or long expressions pass unnoticed.',
  [BIN, UN, EXP, RM, UTIL], [('source range information', UTIL), ('protobuf construction', BIN), ('protobuf construction', UN), ('protobuf construction', EXP), ('protobuf construction', RM)],
  ['mutation info file'])
p('C05', 'Coverage-tracking mode observes without changing behaviour',
  'With --only-track-mutant-coverage the instrumented program behaves as the original program apart from appending to the tracking file; the mutant ids and mutation information are the same as in regular mode; and executing an instrumented place records exactly the ids of the mutants of that place.',
  ['programs', 'configurations'], 'every mutation kind, operator, operand type, language and optimisation setting',
  'A single bespoke test in C covers tracking mode; nothing compares its numbering with regular mode for other operators, types or C++.',
  [BIN, UN, EXP, RM, CON], [('tracking branches of the generators', BIN), ('tracking prelude', CON)],
  ['the mutated source file', 'the tracking file', 'mutation info file'])
p('C06', 'The environment variable enables exactly the listed mutants',
  'A mutated file treats DREDD_ENABLED_MUTATION as a comma-separated list of global ids: a mutant of the file is enabled exactly if its id is listed, ids of other files are ignored without any effect or out-of-range access, and an unset variable enables nothing. '
  'This is so whatever the first id of the file, the number of its mutants and the position of the query.',
  ['inputs', 'configurations'], 'every value of the variable, every number of mutants in a file and every first id of a file',
  'Tests use small files, first id 0 and one enabled mutant; word boundaries of the bit set, later files of a run and lists of ids are not settled by them.',
  [CON], [('regular prelude for C++', CON), ('regular prelude for C', CON)], ['the running mutated program'],
  [('enabled_bitset', 'one bit per mutant of the file', CON)])
p('C07', 'Run-time support is safe in multi-threaded programs',
  'Instrumentation may be executed concurrently by any number of threads of the mutated program without introducing a data race: all mutable state that the emitted run-time support keeps between calls is thread-local or atomic, and it relies on no library function with hidden shared state. In tracking mode a place reached by several threads at once is recorded once.',
  ['schedules', 'programs'], 'every interleaving of threads executing instrumented code',
  'No test runs a multi-threaded mutated program, and races depend on the schedule.',
  [CON], [('thread_local / atomic storage in the preludes', CON)], ['the running mutated program'])
p('C08', 'Every mutator call has exactly one matching definition',
  'In a mutated file each mutator function that a rewritten place calls is defined, with parameter and result types that match the call; two places that use the same mutator function name with the same parameter types always need the same definition, so no two different definitions of one function are ever emitted.',
  ['programs', 'configurations'], 'every set of mutations that can occur together in one file',
  'A clash needs two particular mutations in one file (for example same operator and types but different constant operands); golden files contain only the combinations that were thought of.',
  [BIN, UN, EXP], [('function name construction', BIN), ('function name construction', UN), ('function name construction', EXP), ('declaration set', CON)],
  ['the mutated source file'])
p('C09', 'A file with compile errors is left untouched and reported',
  'If a source file has compile-time errors Dredd leaves it unmodified and emits no mutation information for it, names it among the failed files, still processes the remaining files, and exits with a non-zero status.',
  ['inputs', 'histories', 'fault_sequences'], 'every set of files, errors and processing orders',
  'The bespoke tests use one error in one position; errors and warnings of other levels, errors in included files and in later files are not exercised.',
  [CON, ACT, MAIN, LOG], [('error check before mutation', CON), ('failed-file log', LOG), ('summary and exit status', MAIN)], ['exit status', 'standard error', 'source files'])
p('C10', 'Only the named source files are modified, each at most once',
  'Dredd only ever changes text of the main source file being processed: nothing that lies in an included file or that cannot be traced to text of the main file (such as the inside of a macro) is mutated or rewritten. '
  'A file named several times on the command line is mutated once.',
  ['programs', 'inputs', 'histories'], 'every include structure, macro use and list of files',
  'Tests contain few macros and headers, and never name a file twice.',
  [UTIL, VIS, CON, ACT], [('main-file range computation', UTIL), ('main-file guards', VIS), ('processed-file set', ACT)], ['source files and headers after a run'])
p('C11', 'Contexts that need compile-time constants are never mutated',
  'Dredd introduces no mutation in code that the language requires to be a compile-time constant or that may not contain function calls or lambdas: constexpr functions and variables, constinit variables, case labels, array sizes, template arguments, static assertions, noexcept operands, constexpr conditions, bit widths and other constant expressions, C static initialisers, default arguments, lambda captures, sizeof/alignof and other unevaluated operands (decltype, typeof, typeid, _Generic).',
  ['programs'], 'every placement of an expression in a program',
  'Golden tests contain one or two examples of most contexts and none of several combinations (nesting, C versus C++, declarations inside functions).',
  [VIS], [('Traverse overrides', VIS)], ['the mutated source file', 'the compiler accepting it'])
p('C12', 'Expressions that cannot be routed through a function are left alone',
  'Dredd never passes through a mutator function something that cannot be: bit-fields needed by reference, const l-values, l-values not read as values, braced initialiser lists, null-pointer constants used as pointers, values bound to temporaries with shorter lifetime, declarations in conditions, arguments that steer argument-dependent lookup, and values of non-builtin or unsupported types.',
  ['programs'], 'every expression of every program',
  'Each exclusion was added after a real-world failure with one golden example; combinations and other shapes are not sampled.',
  [VIS, EXP], [('guards before adding a mutation', VIS), ('CanMutateLValue', EXP)], ['the mutated source file', 'the compiler accepting it'])
p('C13', 'Statement removal applies only to removable statements',
  'Dredd makes a statement removable only if wrapping it in a condition keeps the program well-formed and otherwise unchanged: declarations, labels, case and default labels and empty statements are never wrapped, a statement after case labels is wrapped after them, and the closing brace always comes after the terminating semicolon and outside any comment.',
  ['programs', 'inputs'], 'every statement in every compound statement, with any trailing comments and preprocessor directives',
  'Golden tests have a few statement kinds; interplay of labels, comments, directives and macros is not covered.',
  [VIS, RM], [('TraverseCompoundStmt', VIS), ('range extension', RM)], ['the mutated source file', 'the compiler accepting it'])
p('C14', 'Constant rewriting preserves the value of the constant',
  'Where Dredd replaces a constant expression by a literal (array bounds, template arguments, arguments of builtins, static assertions) the literal has the value of the original expression, for every dimension and nesting level, is accepted where it stands, and only text of that expression is replaced. Every such expression of the main file that mutation could otherwise touch is replaced.',
  ['programs', 'inputs'], 'every constant, including negative and large ones, and every nesting of array and template types',
  'The tests use small positive constants.',
  [CON, VIS], [('RewriteExpressionsInMainFile', CON), ('recording of constants', VIS)], ['the mutated source file'])
p('C15', 'The mutation tree contains every mutation exactly once',
  'In the mutation information the nodes of a file form a tree rooted at node 0: every child index is valid, every other node is the child of exactly one node, and every mutation group occurs in exactly one node, under the nodes of its enclosing statements. Simplifying the tree loses or duplicates no mutation.',
  ['programs', 'histories'], 'every shape of mutation tree',
  'No test inspects the tree structure; pruning and compression depend on its shape.',
  [TREE, CON, VIS], [('TidyUp', TREE), ('ApplyMutations', CON), ('tree path stack', VIS)], ['mutation info file'])
p('C16', 'Command-line options and outcomes are honoured',
  'Each command-line option controls exactly the behaviour it documents, mutation information is written to the named file exactly if requested and covers all files that were mutated, and exit status 0 means that every file was processed and everything requested was written.',
  ['configurations', 'fault_sequences'], 'every combination of options and outcome of processing and writing',
  'Tests use two options; a failure to write and combinations of options are not tested.',
  [MAIN, 'src/libdredd/include/libdredd/options.h', CON, ACT], [('option wiring', MAIN), ('info file writing', MAIN)], ['exit status', 'mutation info file'])
p('C17', 'The query script understands all mutation information',
  'scripts/query_mutant_info.py decodes everything Dredd can write: every mutation kind, operator and action of the mutation information is handled, each with the source-level operator or constant it stands for, the id mapping covers every mutant once, and source ranges are read with the numbering Dredd writes.',
  ['inputs', 'programs'], 'every mutation information file Dredd can produce',
  'The two query tests look at a few mutants of small programs.',
  ['scripts/query_mutant_info.py', 'src/libdredd/include/libdredd/protobufs/dredd.proto'], [('id mapping', 'scripts/query_mutant_info.py'), ('action tables', 'scripts/query_mutant_info.py')], ['output of the script'])
p('C18', 'Optimisations only drop redundant mutants; none are lost without them',
  'With --no-mutation-opts Dredd offers every type-correct mutant of its mutation operators for every eligible expression and statement; with optimisations on it offers a subset of these mutants, and leaves out only mutants that are equivalent to the original, to another offered mutant or subsumed as documented.',
  ['programs', 'configurations'], 'every operator, operand value class, type and language',
  'Golden files fix the set for sampled operators and constants only.',
  [BIN, UN, EXP, VIS], [('redundancy predicates', BIN), ('redundancy predicates', UN), ('redundancy predicates', EXP), ('optimisation guards', VIS)], ['mutation info file'])
p('C19', 'Replacement code is well-typed for its operands',
  'Every replacement that a mutator function can return is valid C or C++ for the operand types and value categories it is generated for: integer-only operators are never applied to floating-point operands, increments only to modifiable l-values, and functions returning a reference return only l-values.',
  ['programs', 'configurations'], 'every operator, operand type combination and value category, in both languages',
  'The golden programs are not compiled for all combinations of operator and type.',
  [BIN, UN, EXP], [('IsValidReplacementOperator', BIN), ('IsValidReplacementOperator', UN), ('type guards', EXP)], ['the compiler accepting the mutated source file'])
p('C20', 'Output is deterministic',
  'For the same inputs and options Dredd writes byte-identical mutated files and mutation information on every run: nothing it writes (debug comments aside) depends on the iteration order of hash containers, on addresses, time, randomness or the environment.',
  ['programs', 'histories'], 'every input and every run',
  'Tests run each input once and compare a fixed expectation on one platform.',
  [CON, VIS, BIN, UN, EXP, RM], [('sorted declaration set', CON)], ['the mutated source files', 'mutation info file'])
p('C21', 'Debug and release builds behave the same',
  'Dredd behaves the same with assertions compiled in or out: no assertion has an effect that the rest of the program relies on, and every action on source text, ids or mutation information happens outside assertions.',
  ['configurations'], 'every code path, in both build types',
  'The test suite runs in one build type only.',
  [BIN, UN, EXP, RM, VIS, CON, ACT, MAIN, UTIL], [('assert operands', CON)], ['behaviour of a release build'])
p('C22', 'The prelude is present, first, and only in mutated files',
  'A file receives the run-time prelude exactly once and only if at least one mutant was introduced in it; the prelude precedes all mutator functions, which precede every use of them; and it is placed at the start of the file unless the user declares __dredd_prelude_start, which then determines the place. A file without mutants is not modified.',
  ['programs', 'configurations'], 'every file, with or without mutants and with or without a placement marker',
  'Golden tests cover the common layout, with few uses of the marker and few files without mutants.',
  [CON, VIS], [('prelude insertion', CON), ('marker detection', VIS)], ['the mutated source file'])
p('C23', 'Rewritten expressions are syntactically sound and attached to the right text',
  'The text inserted around an expression or statement is balanced, surrounds exactly that expression or statement, keeps its operands in order, removes nothing but the operator symbol of the original, and stays correct when mutations are nested in each other.',
  ['programs'], 'every nesting of mutated expressions and every configuration of a mutated expression',
  'Golden files sample a few nestings.',
  [BIN, UN, EXP, RM], [('ReplaceOperator', BIN), ('Apply', UN), ('ReplaceExprWithFunctionCall', EXP), ('Apply', RM)], ['the mutated source file'])
p('C24', 'Debugging options do not affect mutation',
  'The options --show-ast-node-types and --dump-asts change nothing but adding comments to the mutated source or printing to standard error: ids, mutants, mutation information and the meaning of the code are the same with and without them.',
  ['programs', 'configurations'], 'every program with and without the debugging options',
  'No test uses these options.',
  [BIN, UN, EXP, RM, CON], [('show-ast-node-types comments', BIN)], ['the mutated source file', 'mutation info file'])
p('C25', 'Dredd does not abort on valid programs',
  'Processing a valid C or C++ file never ends in an assertion failure or unsupported-case abort: every operator, type or construct for which a mutation is created is supported by the code that later applies it.',
  ['programs'], 'every operator and expression kind that a valid program can contain',
  'Tests contain the common operators only.',
  [VIS, BIN, UN, EXP, CON], [('guards when creating mutations', VIS), ('operator tables', BIN), ('operator tables', UN)], ['exit status'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for r in P:
        f.write(json.dumps(r) + '\n')
print(len(P), 'properties')
