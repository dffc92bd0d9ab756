#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/properties.py and tools/checks.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from checks import C
import properties
NA = getattr(__import__('checks'), 'NA', {})
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for d in properties.P:
        f.write(json.dumps(d) + '\n')
ids = [d['id'] for d in properties.P]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[],
         notes='No hooks in /repo: the harness compiles /repo\'s sources out of tree into /verif/build. See DESIGN.md; repaired defects and known findings are in known_findings.txt.')
for i in ids:
    if i in C:
        k = C[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 tools/check.py %s' % i, thorough_cmd='python3 tools/check.py %s --thorough' % i,
                                technique=k['technique'], level=k['level'], level_note=k['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'the check is not built yet')))
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m['checks']), 'checks')
