#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: the properties with a script in py/ are claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'property-based testing against a reference lexer/parser written from the grammar; print-read round trip; shrinking tapes',
 'C02': 'property-based testing against an independent scoped-substitution expander, both preprocessors',
 'C03': 'property-based testing of generated import graphs against a reference graph model, repeated under the parallel scheduler',
 'C04': 'property-based testing of generated module sets against a reference name-resolution model',
 'C05': 'stateful property-based testing of unification histories against a reference first-order unifier',
 'C06': 'property-based testing of generated programs against a reference type inferencer; metamorphic type-breaking edits',
 'C07': 'property-based testing of pattern matrices against exhaustive enumeration of values',
 'C08': 'generated match programs run on every backend against a reference evaluator',
 'C09': 'generated operand tables per operation, type and backend against an exact arithmetic oracle',
 'C10': 'generated whole programs, differential between backends and against a reference evaluator',
 'C11': 'differential testing of the self-hosted compiler against the bootstrap compiler on generated and mutated programs; determinism metamorphic relation',
 'C12': 'generated structures and signatures, differential against the C compiler, both directions',
 'C13': 'generated instructions against an independent disassembler/assembler; differential between the two libraries; label layouts executed',
 'C14': 'generated objects parsed back by an independent ELF reader and linked by the system linker',
 'C15': 'stateful generated object histories loaded in process and executed against a model',
 'C16': 'model-based histories and iterator pipelines against list models',
 'C17': 'model-based histories with colliding keys against dictionary models',
 'C18': 'model-based version trees against dictionary models, all versions re-read',
 'C19': 'generated strings and numbers against a Unicode/IEEE reference; round trips',
 'C20': 'laws over generated values and generated derived data types; xxHash reference',
 'C21': 'model-based file histories against a file-system model in a scratch directory; path reference model',
 'C22': 'generated trees, templates and patterns against a reference evaluator of quasi-quotation and matching',
 'C23': 'grammar-aware mutation fuzzing of modules with crash, hang and located-error oracle; metamorphic insertions',
 'C25': 'generated histories of processes and streams against a model of them',
 'C26': 'generated modules with parameters of higher kind against a reference kind inference',
 'C24': 'generated command lines against a model of the options',
}
NOTE = {}
NA = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if os.path.exists('%s/py/%s.py' % (V, p.lower())) and p not in NA:
        checks.append(dict(property=p, quick_cmd='python3 run.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 run.py %s' % p,
                           technique=T[p], level='exploration', level_note=NOTE.get(p, 'Generated-input search; covers what evidence/%s.json reports, not a proof.' % p)))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'Not built yet.')))
m = dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
