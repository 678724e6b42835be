#!/usr/bin/env python3
"""mutation campaign: mutate.py gen N SEED | run WORKERS      (scratch data under /tmp/mut; nothing registered uses this)"""
import sys, os, re, json, random, subprocess, shutil, hashlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = '/tmp/mut'
SKIP = ('src/bin/', 'src/lib.rs', 'src/random')
def code_lines(f):
    """(line index, text) of non-test, non-comment lines"""
    L = open('/repo/' + f).read().split('\n'); out = []; com = False
    for i, l in enumerate(L):
        if 'cfg(test)' in l: break
        s = l.strip()
        if s.startswith('/*') or s.startswith('/**'): com = '*/' not in s; continue
        if com: com = '*/' not in s; continue
        if not s or s.startswith('//') or s.startswith('use ') or s.startswith('#') or s.startswith('pub mod') or s.startswith('mod '): continue
        out.append((i, l))
    return L, out
OPS = [(r'(?<![<>=!+\-*/&|])\+(?![=+])', '-'), (r' - ', ' + '), (r' \* ', ' + '), (r'<<', '>>'), (r'>>(?!\()', '<<'), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
       (r'&&', '||'), (r'\|\|', '&&'), (r'\.max\(', '.min('), (r'\.min\(', '.max('), (r'Bit::Zero', 'Bit::One'), (r'Bit::One', 'Bit::Zero'), (r'\+=', '-='), (r'-=', '+='), (r'!(?=[a-z(])(?<!\w!)', ''), (r' / ', ' * '), (r' & ', ' | '), (r' \| ', ' & '), (r' \^ ', ' | '),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.\.', '..1 + '), (r'\.first\(', '.last('), (r'\.rev\(\)', '')]
def muts(f):
    L, C = code_lines(f)
    for i, l in C:
        s = l.strip()
        if 'assert' in s or 'println' in s or 'const ' in s and False: 
            pass
        for a, b in OPS:
            for m in re.finditer(a, l):
                yield i, l[:m.start()] + b + l[m.end():], a
        for m in re.finditer(r'(?<![\w.])(\d+)(?=[^\w.]|\b(?:usize|u8|u16|u32|i32|u64|i64))', l):
            n = int(m.group(1))
            for d in (1, -1):
                if n + d >= 0: yield i, l[:m.start()] + str(n + d) + l[m.end():], 'lit'
        if s.endswith(';') and not s.startswith('let') and not s.startswith('const') and not s.startswith('pub') and not s.startswith('}') and not s.startswith('type') and s.count('(') == s.count(')'):
            yield i, '', 'del'
        m = re.search(r'\((\w[\w.]*), (\w[\w.]*)\)', l)
        if m: yield i, l[:m.start(1)] + m.group(2) + ', ' + m.group(1) + l[m.end(2):], 'swap'
        m = re.search(r'\b(if|while) (.*) \{$', l)
        if m: yield i, l[:m.start(2)] + '!(' + m.group(2) + ') {', 'neg'; yield i, l[:m.start(2)] + 'false && ' + m.group(2) + ' {', 'iffalse'
def gen(n, seed):
    fs = subprocess.run('find src -name "*.rs"', shell=True, cwd='/repo', capture_output=True, text=True).stdout.split()
    allm = []
    for f in sorted(fs):
        if any(x in f for x in SKIP): continue
        for i, l, k in muts(f): allm.append((f, i, l, k))
    random.Random(seed).shuffle(allm)
    print(len(allm), 'candidates')
    os.makedirs(W, exist_ok=True); json.dump(allm[:n], open(W + '/list.json', 'w'))
MAP = {'src/main.rs': 'C20', 'fixed_point': 'C14 C21 C09', 'coding/mod': 'C19 C01', 'coding': 'C01', 'estimators': 'C07', 'lut/estim': 'C07', 'lut/cost': 'C07', 'lut': 'C21 C09 C07', 'mixing/mixer': 'C08', 'mixing/apm': 'C09', 'recent_bits': 'C10', 'bits_runs': 'C10',
       'util/last': 'C11', 'util/hash': 'C11', 'indexer': 'C12', 'quant': 'C12', 'window': 'C16 C18 C22', 'predictor/stats': 'C19', 'predictor': 'C06 C05', 'history/mod': 'C13 C18', 'tree/node.': 'C13 C18', 'tree/nodes': 'C17', 'node_child': 'C17', 'direction': 'C17 C18', 'history/tree': 'C18 C23', 'bit/mod': 'C10 C17 C06 C01', 'naive': 'C22', 'fat_map': 'C22'}
MAP.update(json.load(open(W + '/map.json')) if os.path.exists(W + '/map.json') else {})
def props(f):
    for k, v in MAP.items():
        if k in f: return v.split()
    return []
def work(j, part, stop=None):
    d = '%s/w%d' % (W, j); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    r = d + '/repo'; subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TARGET_DIR=d + '/t')
    for k, (f, i, l, kind) in part:
        subprocess.run(['git', 'checkout', '-q', '.'], cwd=r)
        L = open(r + '/' + f).read().split('\n'); old = L[i]; L[i] = l; open(r + '/' + f, 'w').write('\n'.join(L))
        rec = {'k': k, 'f': f, 'line': i + 1, 'old': old.strip(), 'new': l.strip(), 'kind': kind}
        def done(s, x=None):
            rec['status'] = s
            if x: rec['x'] = x
            open(W + '/out.jsonl', 'a').write(json.dumps(rec) + '\n')
        try: c = subprocess.run(['cargo', 'test', '--features', 'long_tests', '--locked', '--offline', '--no-fail-fast', '--', '--test-threads', '2'], cwd=r, env=env, capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired: done('tests'); continue
        if c.returncode:
            done('nocompile' if 'could not compile' in c.stderr else 'tests'); continue
        res = {}
        P = props(f)
        for p in P:
            try: x = subprocess.run(['nice', H + '/check', p, '--repo', r], cwd=d, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired: res[p] = 'timeout'; continue
            res[p] = [x.returncode, [q.strip()[:160] for q in x.stdout.split('\n') if 'violated:' in q or 'undecided:' in q][:4]]
            if x.returncode == 1: break
        done('caught' if any(v[0] == 1 for v in res.values()) else 'survived', res)
    shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    if sys.argv[1] == 'gen': gen(int(sys.argv[2]), int(sys.argv[3]))
    else:
        n = int(sys.argv[2]); M = json.load(open(W + '/list.json'))
        have = {json.loads(x)['k'] for x in open(W + '/out.jsonl')} if os.path.exists(W + '/out.jsonl') else set()
        M = [(hashlib.md5(repr(m[:3]).encode()).hexdigest(), m) for m in M]; M = [x for x in M if x[0] not in have]
        ps = []
        if len(sys.argv) > 3: M = M[::-1]; J = 10
        else: J = 0
        for j in range(n):
            pid = os.fork()
            if not pid: work(J + j, M[j::n]); os._exit(0)
            ps.append(pid)
        for p in ps: os.waitpid(p, 0)
