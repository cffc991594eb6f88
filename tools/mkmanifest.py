#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(V, 'tools', 'levels.json')))
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i,
                           thorough_cmd='python3 check.py %s thorough' % i,
                           technique=NOTES.get(i, {}).get('technique', 'TLA+ specification checked with TLC; conformance by validating traces of the real code against it'),
                           level='model_checking',
                           level_note=NOTES.get(i, {}).get('note', 'The TLA+ model is checked exhaustively within its bounds; the real code is bound to it by '
                           'validating, with TLC, traces of generated and random scenarios executed on the current build.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'The machinery for this property is not built yet.')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
