#!/usr/bin/env python3
"""records the member lists of CODD's classes (engine/canon.json): names the rules use for the fields"""
import sys, json, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import build
out = {}; amb = {'', 'iterator', 'const_iterator', 'citerator', 'Location', 'TVecSetter'}
for p in ('dd', 'cont'):
    for t in json.load(open(build.program_json(p)[0]))['types']:
        if '/src/' in t['file'] and t['members'] and not t['name'].startswith('U') and t['name'].split('<')[0] not in amb:
            out.setdefault(os.path.basename(t['file']) + ':' + t['name'].split('<')[0], [m[:3] for m in t['members']])
json.dump(out, open(os.path.join(build.HERE, 'canon.json'), 'w'), indent=0, sort_keys=True)
print(len(out), 'classes')
