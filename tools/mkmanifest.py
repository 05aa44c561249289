#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'engine'))
sys.dont_write_bytecode = True
import allchecks
from props import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p['id'])
    if c is None:
        na.append({'property': p['id'], 'reason': 'No check has been built for it yet.'})
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check.sh ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': c.technique, 'level': c.level,
                   'level_note': getattr(c, 'note', None) or 'Generated-input search: no violation among the generated cases, nothing is proved. Trusts the reference model of engine/ and rustc. ' + c.rule})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hook is needed in /repo: the macro is observed through rustc and the generated code through its public API.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import subprocess
for f, s in (('MANIFEST.json', '/root/.vp/MANIFEST.schema.json'),):
    subprocess.run(['python3-vt', '-c', 'import json,sys,jsonschema; jsonschema.validate(json.load(open(sys.argv[1])), json.load(open(sys.argv[2]))); print("valid")', os.path.join(V, f), s])
print(len(checks), 'claimed,', len(na), 'not')
