#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
GENAI = ('path-sensitive (trace-partitioned) abstract interpretation of the exported clang AST with finite predicate, '
         'value-class and string-template domains')
TOOL = 'abstract interpretation of the whole tool from main over skeleton inputs with symbolic mutant counts'
VISIT = ('path-sensitive abstract interpretation of the AST visitor over skeleton syntax trees with a partitioned model '
         'of the clang AST API')
CLAIMED = {
    'C04': (GENAI + '; symbolic evaluation of the class that describes source ranges over linear terms', ''),
    'C17': ('abstract interpretation of the script\'s syntax tree over linear terms and symbolic texts, against the message format', ''),
    'C20': ('effect analysis of loops over unordered containers, clocks and addresses; relational abstract interpretation of the whole tool '
            'under two iteration orders', ''),
    'C21': ('interprocedural purity analysis of assertion conditions; comparison of the resolved program with and without NDEBUG', ''),
    'C09': (TOOL + '; effect analysis of files with errors', ''),
    'C10': (VISIT + '; provenance analysis of the source ranges that are rewritten; whole-tool effect analysis', ''),
    'C11': (VISIT + '; constant and unevaluated contexts', ''),
    'C12': (VISIT + '; contexts that cannot go through a function', ''),
    'C13': (VISIT + '; layout analysis of the statement-removal generator', ''),
    'C06': ('abstract interpretation of the emitted run-time support over a relational (linear constraint) domain with '
            'symbolic stores and loop widening', ''),
    'C07': ('storage-class, atomicity and effect analysis of the emitted run-time support and mutator functions', ''),
    'C14': (TOOL + '; value provenance of the literals', ''),
    'C15': (TOOL + '; shape analysis of the mutation tree', ''),
    'C16': (TOOL + '; option flow and exit status', ''),
    'C22': (TOOL + '; order and place of insertions', ''),
    'C25': (VISIT + ', of the generators and of the whole tool; reachability of assertions and aborts', ''),
    'C01': (GENAI + '; emitted code templates are parsed and evaluated abstractly with mutants disabled', ''),
    'C02': (GENAI + ' with an affine id counter', ''),
    'C03': (GENAI + '; emitted code evaluated with each id enabled and compared with the reported action', ''),
    'C05': (GENAI + '; relational run of regular and tracking mode; the emitted recording function over linear constraints', ''),
    'C08': (GENAI + '; signature/definition clash analysis over all emitted definitions', ''),
    'C18': (GENAI + '; relational run with and without optimisation, algebraic normalisation of dropped mutants', ''),
    'C19': (GENAI + '; type-class, value-category and qualifier checking of emitted code', ''),
    'C23': (GENAI + '; layout and grammar analysis of the rewriter insertions', ''),
    'C24': (GENAI + '; relational run with and without the debugging option', ''),
}
NA = {}
NOTE = ('Static analysis of the current sources of /repo: the program is neither built nor run, every partition of the '
        'analysed functions is covered (counts in the evidence file); complete up to the stated model of the clang '
        'library API.')
PENDING = 'not claimed yet: the check for this property is under construction'


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
    m = {'version': 1, 'setup_cmd': 'python3 sa/build.py', 'checks': [], 'not_applicable': []}
    for i in ids:
        if i in CLAIMED:
            tech, note = CLAIMED[i]
            m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py --property %s --tier quick' % i,
                                'thorough_cmd': 'python3 check.py --property %s --tier thorough' % i,
                                'technique': tech, 'level': 'other', 'level_note': (note + ' ' if note else '') + NOTE})
        else:
            m['not_applicable'].append({'property': i, 'reason': NA.get(i, PENDING)})
    with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
