"""Writes /verif/MANIFEST.json from the rule modules present."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = {
 'C01': 'abstract interpretation: effect (write-target provenance) analysis',
 'C02': 'abstract interpretation: effect analysis on shared state',
 'C03': 'typestate analysis of iterators (fresh/consumed)',
 'C04': 'provenance analysis of random generators and their seeds',
 'C05': 'abstract interpretation with linear facts: cluster length against limits',
 'C06': 'provenance analysis of the members of results',
 'C07': 'guard analysis of link insertions',
 'C08': 'loop-region coverage analysis of comparisons',
 'C09': 'loop-region coverage and predicate agreement of parallel workers',
 'C10': 'abstract interpretation to closed forms, rational normal form comparison',
 'C11': 'abstract interpretation to closed forms, sibling comparison of strategies',
 'C12': 'option-value flow analysis (dispatch exhaustiveness)',
 'C13': 'character-set abstract domain',
 'C14': 'normalisation-pipeline ordering analysis',
 'C15': 'row-shape analysis of CSV writers',
 'C16': 'taint analysis from CSV values to report sinks',
 'C17': 'typestate and bounds analysis of the Cython sources',
 'C18': 'progress analysis of the scanner loop, option-flow analysis',
 'C19': 'abstract interpretation to closed forms, guard analysis',
 'C20': 'set-dependence analysis of signatures',
 'C21': 'partial-operation precondition analysis on empty inputs',
 'C22': 'slice algebra over abstract interpretation',
 'C23': 'insertion-record analysis',
 'C24': 'class-invariant (symbolic state update) analysis',
}
NOTE = {}
NA = {
 'C30': 'The value of a dynamic program over arbitrary strings is a runtime quantity: no dataflow or typestate abstraction in reach decides equality with the true edit distance (its memory safety and character width are C17).',
 'C31': 'Completeness of the filters rests on combinatorial and metric lemmas (pigeonhole, triangle inequality) about runtime data, not on a structural fact of the code.',
 'C32': 'Equivalence between key collision and edit distance of two arbitrary strings is a combinatorial theorem, not a property of paths or flows.',
 'C33': 'A statistical statement about random draws.',
 'C34': 'The oracle (published tables) is outside the code; table equality with an external document is not decidable from the source.',
 'C35': 'Termination and optimality depend on runtime edge weights and networkx component structure.',
}
EXTRA = os.path.join(here, 'tools', 'na_extra.json')
if os.path.exists(EXTRA):
    NA.update(json.load(open(EXTRA)))
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(here, 'sa', 'rules', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=TECH[i], level='other',
                           level_note=NOTE.get(i, 'Static analysis of the sources (never executed): every obligation is decided on all abstract paths of the listed entry points; obligations that the abstraction cannot decide are reported as undecided in the evidence and never alarm.')))
    else:
        na.append(dict(property=i, reason='no check has been built yet'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
