#!/usr/bin/env python3
"""MANIFEST.json and properties.jsonl are written from props/registry.py and props/statements.py"""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/engine', H + '/props']
import registry, statements
with open(H + '/properties.jsonl', 'w') as f:
    for p in statements.ALL: f.write(json.dumps(p) + '\n')
checks = []; na = []
for p in statements.ALL:
    i = p['id']
    if i in registry.PROPS:
        r = registry.PROPS[i]
        checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i,
                       'technique': r['technique'], 'level': 'other', 'level_note': r['note']})
    else: na.append({'property': i, 'reason': statements.NA[i]})
m = {'version': 1, 'setup_cmd': 'cd mirdump && cargo +nightly build --release --offline', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check recompiles /repo far enough to obtain MIR (cargo +nightly check through the wrapper in mirdump/) and decides its obligations on that MIR; nothing of /repo is executed.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
try: import jsonschema
except ImportError: sys.exit(0)
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids = set()
for p in statements.ALL:
    jsonschema.validate(p, S); assert p['id'] not in ids; ids.add(p['id'])
    assert p['id'] in registry.PROPS or p['id'] in statements.NA, p['id']
print(len(checks), 'claimed', len(na), 'not applicable')
