#!/usr/bin/env python3
"""seed.py add ID PROPERTY SPEC.json   -- SPEC: {"edits": [[file, old, new],...], "demo": "rust source" | null, "demo_sh": "...", "needs":..., "what":...}
   seed.py verify ID...                -- scratch copy: builds, tests pass, demo passes on the tree and fails with the patch
   seed.py catch ID... [--props all]   -- which checks report it (run against a scratch copy)"""
import sys, os, json, subprocess, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in the repository root; exit 0 when the behaviour is right
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo-XXXXXXXX)
trap 'rm -rf "$T"' EXIT
F="--edition 2015 -O -C overflow-checks=on -C debug-assertions=on --cap-lints allow"
rustc $F --crate-type rlib --crate-name demixer -o "$T/libdemixer.rlib" src/lib.rs
rustc $F --extern demixer="$T/libdemixer.rlib" -o "$T/demo" "$D/demo.rs"
timeout 200 "$T/demo"
'''
def copy():
    d = tempfile.mkdtemp(prefix='seed-'); r = d + '/repo'
    subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
    return d, r
def run(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=env, timeout=t)
def add(i, prop, spec):
    S = json.load(open(spec)) if isinstance(spec, str) else spec
    d, r = copy()
    try:
        for f, o, n in S['edits']:
            s = open(r + '/' + f).read()
            assert s.count(o) == 1, (i, f, o, s.count(o))
            open(r + '/' + f, 'w').write(s.replace(o, n))
        diff = run(['git', 'diff'], r).stdout
    finally: shutil.rmtree(d)
    out = H + '/seeded/' + i; os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    if S.get('demo'): open(out + '/demo.rs', 'w').write(S['demo'])
    open(out + '/demo.sh', 'w').write(S.get('demo_sh') or DEMO); os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': S['needs'], 'what_it_breaks': S['what']}, open(out + '/meta.json', 'w'), indent=1)
def verify(i, tests=True):
    d, r = copy(); out = H + '/seeded/' + i
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TARGET_DIR='/tmp/seedtarget')
    try:
        a = run(['bash', out + '/demo.sh'], r)
        if a.returncode: return 'demo FAILS on the unchanged tree: ' + (a.stdout + a.stderr)[-600:]
        x = run(['git', 'apply', out + '/patch.diff'], r)
        if x.returncode: return 'patch does not apply: ' + x.stderr
        b = run(['bash', out + '/demo.sh'], r)
        if b.returncode == 0: return 'demo PASSES with the patch'
        if tests:
            c = run(['cargo', 'test', '--workspace', '--features', 'long_tests', '--no-fail-fast', '--locked', '--offline', '--', '--test-threads', '8'], r, env)
            bad = [l for l in c.stdout.splitlines() if l.startswith('test ') and l.endswith('FAILED')]
            if c.returncode: return 'tests FAIL: ' + str(bad) + c.stderr[-500:]
        return 'ok (demo: %s)' % ((b.stdout + b.stderr).strip().splitlines() or ['-'])[-1][:160]
    except subprocess.TimeoutExpired as e: return 'timeout ' + str(e.cmd)
    finally: shutil.rmtree(d)
def catch(i, props):
    d, r = copy(); out = H + '/seeded/' + i; res = []
    try:
        run(['git', 'apply', out + '/patch.diff'], r)
        for p in props:
            c = run([H + '/check', p, '--repo', r], H)
            res.append((p, c.returncode, [l.strip()[:200] for l in c.stdout.splitlines() if 'violated:' in l or 'undecided:' in l][:4] + ([c.stderr[-300:]] if c.returncode > 1 else [])))
    finally: shutil.rmtree(d)
    return res
if __name__ == '__main__':
    c = sys.argv[1]
    if c == 'add': add(*sys.argv[2:5])
    elif c == 'verify':
        for i in (sys.argv[2:] or sorted(os.listdir(H + '/seeded'))): print(i, verify(i), flush=True)
    elif c == 'catch':
        a = sys.argv[2:]; allp = '--all' in a; a = [x for x in a if x != '--all'] or sorted(os.listdir(H + '/seeded'))
        M = [x['property'] for x in json.load(open(H + '/MANIFEST.json'))['checks']]
        for i in a:
            p = json.load(open(H + '/seeded/' + i + '/meta.json'))['property']
            for x in catch(i, M if allp else [p]):
                if not allp or x[1] or x[0] == p: print(i, 'CAUGHT' if x[1] == 1 else 'missed' if x[1] == 0 else 'ERROR', *x, flush=True)
