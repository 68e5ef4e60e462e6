#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = 'The existing tests only exercise Vec, NatSet, GNSet and mergeSort on a few fixed values'
NOTEST = 'no test compiles a diagram or runs a search'
P = []
NA = {}
def prop(id, title, statement, over, text, why, files, mech, observe=None, na=None, note=None, state=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe: d['anchors']['observe_at'] = [x.strip() for x in observe.split(',')] if isinstance(observe, str) else observe
    if state: d['anchors']['state'] = state
    assert len(title) <= 80, title
    P.append((d, na, note))
exec(open(os.path.join(V, 'tool', 'props.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, na, note in P: f.write(json.dumps(d) + '\n')
TECH = 'static analysis: gated value graph of the LLVM IR (effects, conditions, loop summaries) compared with the obligations of the property'
checks = []; nas = []
for d, na, note in P:
    if na: nas.append({'property': d['id'], 'reason': na}); continue
    checks.append({'property': d['id'], 'quick_cmd': 'python3 check.py %s --quick' % d['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % d['id'],
                   'technique': TECH, 'level': 'proof', 'level_note': note or 'Every obligation is decided for all inputs from the source; what each function is assumed to do is itself an obligation of this or a sibling property. Callbacks of the model (transition, cost, merge, ...) are trusted to meet their documented contract; an obligation on code of an unrecognised shape is reported as undecided in the evidence.'})
m = {'version': 1, 'setup_cmd': 'python3 engine/build.py dd cont std', 'checks': checks, 'not_applicable': nas}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(nas), 'not applicable')
