#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {'C28': 'Predictive quality and accumulated rounding error are statistical and numerical runtime quantities that depend on the data; no argument over the source bounds them.'}
TECH = 'static dataflow: gated value graphs of the type-checked MIR (forust-ml, pyo3 bindings) and of the Python AST, compared with reference definitions'
EXTRA = {'C02': '; call-graph rule on parallel closures (no shared state, no scheduler-ordered reduction)', 'C03': '; call-graph rule: no entropy source reachable; trait-override rule',
         'C06': '; serialisation rule over the expanded serde impls (every field written is read back, defaults)'}
for q in ('C08', 'C10', 'C11', 'C12', 'C13', 'C14', 'C16', 'C18', 'C19', 'C20', 'C21', 'C24', 'C25', 'C31', 'C32'): EXTRA[q] = '; trait-override rule'
checks = []
for p in props:
    if p['id'] in NA: continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --thorough' % p['id'],
        technique=TECH + EXTRA.get(p['id'], ''),
        level='other',
        level_note='Decides, from the type-checked MIR of the current tree and without running it, that every function carrying the property has the value graph of its reviewed reference definition (all paths, all inputs, floats as reals up to association), and the structural rules of DESIGN.md. Trusts rustc, the models of std/rayon/rand/serde operations, and the reference; forms the normaliser cannot relate are reported as undecided in the evidence, not as violations.'))
json.dump(dict(version=1, setup_cmd='python3 engine/setup.py', checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes='No hooks in /repo. See DESIGN.md.'), open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
