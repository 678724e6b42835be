#!/usr/bin/env python3
"""writes DESIGN.md"""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/engine', H + '/props', H + '/tools']
import registry, statements
out = [open(H + '/tools/design_head.md').read().rstrip(), '', '## Properties', '']
cost = json.load(open(H + '/tools/cost.json')) if os.path.exists(H + '/tools/cost.json') else {}
for s in sorted(statements.ALL, key=lambda s: s['id']):
    i = s['id']; out += ['### %s. %s' % (i, s['title']), '']
    if i in statements.NA: out += ['Not applicable: ' + statements.NA[i], '']; continue
    p = registry.PROPS[i]
    out += ['*What is decided and against what.* ' + p['explanation'], '',
            '*Bounds.* ' + p['note'].replace(registry.TRUST, '').strip(), '',
            '*Assumptions.* ' + '; '.join(x for x in p['assumptions'] if x not in registry.ASSUME[:2]) + ('.' if len(p['assumptions']) > 2 or p['assumptions'][0] not in registry.ASSUME else 'none beyond the soundness base.'), '',
            '*Why beyond tests.* ' + s['why_tests_cant'], '']
    if i in cost: out += ['*Cost.* ' + cost[i], '']
out += ['## Planted changes', '', 'Each compiles, passes the existing tests, and comes with a program that fails only with the change (`seeded/<id>/`). "Reported as" is what the check of its property printed with the change applied.', '',
        '| change | check | needs | reported as |', '|---|---|---|---|']
C = json.load(open(H + '/tools/caught.json')) if os.path.exists(H + '/tools/caught.json') else {}
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, d))); c = C.get(d)
    out.append('| %s: %s | %s | %s | %s |' % (d, m['what_it_breaks'].replace('|', '/'), m['property'], m['needs'].replace('|', '/'), c if c else 'not run'))
out += ['', open(H + '/tools/design_tail.md').read().rstrip(), '']
open(H + '/DESIGN.md', 'w').write('\n'.join(out))
