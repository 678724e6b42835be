#!/usr/bin/env python3
"""runs the check of its property against every planted change (in scratch copies, 3 at a time) and records the outcome in tools/caught.json"""
import sys, os, json
from concurrent.futures import ThreadPoolExecutor
import seed
H = seed.H; F = H + '/tools/caught.json'
C = json.load(open(F)) if os.path.exists(F) else {}
ids = sys.argv[1:] or sorted(os.listdir(H + '/seeded'))
if ids == ['new']: ids = [i for i in sorted(os.listdir(H + '/seeded')) if i not in C]
def one(i):
    p = json.load(open(H + '/seeded/%s/meta.json' % i))['property']
    r = seed.catch(i, [p])[0]
    C[i] = ('; '.join(x.replace('violated: ', '').replace('|', '/') for x in r[2] if 'violated' in x) if r[1] == 1 else 'MISSED' if r[1] == 0 else 'ERROR')
    print(i, r[1], C[i][:100], flush=True)
    json.dump(dict(sorted(C.items())), open(F, 'w'), indent=1)
with ThreadPoolExecutor(3) as ex: list(ex.map(one, ids))
