"""Effects of the library over its call graph: nothing it computes may depend on anything but its inputs (C04)."""
import re
from harness import *
DENY = [  # (what, pattern over the path of a function)
 ('the clock', r'^(std|core)::time::(SystemTime|Instant)\b|std::time::(SystemTime|Instant)|std::sys::.*time::'),
 ('the environment', r'^std::env::'),
 ('the file system', r'^std::fs::|^<std::fs::'),
 ('the network', r'^std::net::|^<.*std::net::'),
 ('the process', r'^std::process::|^std::os::|std::thread::(current|id|available_parallelism|ThreadId)|^std::thread::(Thread|current|available)'),
 ('another thread', r'^std::thread::|^std::sync::mpsc'),
 ('thread-local state', r'LocalKey'),
 ('shared mutable state', r'^(std|core)::sync::atomic::|^<?(std|core)::sync::(atomic|poison|mutex|Mutex|RwLock|Condvar|Barrier)'),
 ('randomised hashing', r'^<std::(hash::random|collections::hash_map|hash)::RandomState as .*BuildHasher>::|^std::hash::(random::)?RandomState::|^std::collections::hash_map::RandomState::'),
 ('randomised hashing', r'^(std|core)::hash::BuildHasher::hash_one'),
 ('the order of a hash map', r'^std::collections::(hash_map::|hash_set::|hash::map::|hash::set::)?Hash(Map|Set)::<.*>::(iter|iter_mut|keys|values|values_mut|drain|into_keys|into_values|retain|extract_if|difference|union|intersection|symmetric_difference)$'),
 ('the order of a hash map', r'^<&?(.a )?(mut )?std::collections::(hash_map::|hash_set::)?Hash(Map|Set)<.*> as (std|core)::iter::IntoIterator>::into_iter'),
 ('an address', r'::(addr|expose_provenance|expose_addr)$|^<\*(const|mut) T as (std|core)::hash::Hash>|<\*(const|mut) T as (std|core)::cmp::(Ord|PartialOrd)>|^(std|core)::(ptr|intrinsics).*::(ptr_)?addr'),
 ('standard input', r'^std::io::(stdin|Stdin|read_to_string)|^<std::io::Stdin'),
]
DENY = [(w, re.compile(r)) for w, r in DENY]
MAP = re.compile(r'^std::collections::(hash_map::)?Hash(Map|Set)|^<std::collections::(hash_map::)?Hash(Map|Set)|^std::collections::hash_map::(Entry|OccupiedEntry|VacantEntry)|^<std::collections::hash_map::|^hashbrown::|^<hashbrown::')
FLOATFN = re.compile(r'(std|core)::(f32|f64|intrinsics)::.*\b(exp|exp2|exp_m1|ln|ln_1p|log|log2|log10|pow|powf|powi|sin|cos|tan|asin|acos|atan|atan2|sinh|cosh|tanh|cbrt|hypot|gamma|ln_gamma|logf64|log2f64|expf64|exp2f64|powf64|powif64)$')
PANIC = re.compile(r'^(core|std)::(panicking|rt::begin_panic|option::(expect|unwrap)_failed|result::unwrap_failed|slice::index::.*fail|str::slice_error_fail|cell::panic|alloc::handle)|begin_panic|alloc::alloc::handle_alloc_error')
IO = re.compile(r'^<?(std|core)::io::|as std::io::')

def atoms(p, i):
    """outgoing edges and effectful constructs of one function"""
    out = []; facts = []; b = i['body']
    def ty(t, seen):
        if t in seen: return
        seen.add(t); T = p.ty[t]
        if T.get('inst') is not None and T['k'] in ('fndef', 'closure'): out.append((T['inst'], None))
        for k in ('targs', 'fields'):
            for x in T.get(k, ()) or ():
                if isinstance(x, int): ty(x, seen)
        if isinstance(T.get('of'), int): ty(T['of'], seen)
    for t in i['targs']: ty(t, set())
    if not b: return out, facts
    for l in b['locals']: ty(l, set())
    def kind(t): return p.ty[t]['k'] if isinstance(t, int) else None
    def walk(x, sp):
        if not isinstance(x, list): return
        if x and x[0] == 'fn' and len(x) == 2 and isinstance(x[1], int): out.append((x[1], sp))
        if x and x[0] == 'static' and len(x) == 4 and isinstance(x[1], str): facts.append(('static', x[1], ('once' if ONCE.search(x[3].split('<')[0]) else 'cell') if x[2] else None, sp))
        if x and x[0] == 'tls': facts.append(('tls', x[1], None, sp))
        if x and x[0] == 'cast' and len(x) == 5:
            if x[1] in ('PointerExposeProvenance', 'PointerExposeAddress') or (x[1] == 'Transmute' and kind(x[3]) in ('ptr', 'ref', 'fnptr') and kind(x[4]) == 'int'):
                facts.append(('address', x[1], None, sp))
        for y in x: walk(y, sp)
    for bl in b['blocks']:
        for s in bl['s']: walk(s, s[-1])
        t = bl['t']; walk(t, t[-1])
        sp = t[-1] if isinstance(t[-1], list) else None
        if t[0] == 'call':
            if t[1] is not None: out.append((t[1], sp))
            else: facts.append(('indirect', '', None, sp))
        if t[0] == 'drop' and t[3] is not None: out.append((t[3], sp))
        if t[0] == 'asm': facts.append(('asm', 'inline assembly', None, sp))
    return out, facts

class Graph:
    def __init__(s, p): s.p = p; s.memo = {}
    def at(s, i):
        if i not in s.memo: s.memo[i] = atoms(s.p, s.p.inst[i])
        return s.memo[i]
    def reach(s, roots, follow):
        par = {r: None for r in roots}; q = list(roots)
        while q:
            x = q.pop(0)
            for y, sp in s.at(x)[0]:
                if y not in par and y in s.p.inst:
                    par[y] = (x, sp)
                    if follow(s.p.inst[y]): q.append(y)
        return par
    def path(s, par, x):
        out = []
        while x is not None:
            out.append(s.p.inst[x]['path']); n = par[x]; x = n[0] if n else None
        return ' <- '.join(out[:8])

def is_local(i): return bool(i['local']) or i['crate'] == 'demixer'

def scan(A, g, rep, key, roots, step=False):
    """every function the roots can reach, and every construct in them"""
    p = A.p
    if not roots: raise Missing('operations of ' + key)
    par = g.reach([r['id'] for r in roots], lambda i: bool(i['body']) and not PANIC.search(i['path']) and not MAP.search(i['path']) and not deny(i['path']))
    n = {'local': 0, 'std': 0}; unknown = set(); bad = []
    rule1 = 'no function reachable from here consults the clock, environment, files, process, threads, random hashing or addresses'
    for x in par:
        i = p.inst[x]; loc = is_local(i); n['local' if loc else 'std'] += 1
        if loc: rep.funcs.add(i['path'])
        par_ = par[x]; sp = par_[1] if par_ else None
        fp = p.inst[par_[0]] if par_ else None
        if not loc:
            w = deny(i['path'])
            if w: bad.append((x, sp, w))
            elif fp is not None and is_local(fp) and i['crate'] not in ('core', 'alloc') and not IO.search(i['path']) and not MAP.search(i['path']) and not PANIC.search(i['path']) and not FLOATFN.search(i['path']) and 'DefaultHasher' not in i['path']:
                unknown.add(i['path'])
    def at(sp, i): return '%s:%d' % (sp[0], sp[1]) if sp else A.span(i)
    for x, sp, w in bad:
        rep.add(key + '/sources', rule1, at(sp, p.inst[x]), 'violated', 'uses %s: %s' % (w, g.path(par, x)))
    if unknown: rep.add(key + '/unknown', 'every library function used is classified', '-', 'undecided', ', '.join(sorted(unknown))[:500])
    if not bad: rep.add(key + '/sources', rule1, A.span(roots[0]), 'discharged')
    rule2 = 'no function reachable from here reads or writes a mutable global, a thread-local or an address'
    ok = True
    for x in par:
        i = p.inst[x]
        for k, what, flag, sp in g.at(x)[1]:
            if k == 'static' and is_local(i):
                if flag == 'cell':
                    ok = False
                    rep.add(key + '/globals', rule2, at(sp, i), 'violated', 'uses mutable static %s: %s' % (what, g.path(par, x)))
                elif flag == 'once':
                    ok = False; rep.add(key + '/globals', rule2, at(sp, i), 'undecided', 'lazily initialised static ' + what)
            elif k == 'tls' and is_local(i):
                ok = False; rep.add(key + '/globals', rule2, at(sp, i), 'violated', 'uses thread-local %s: %s' % (what, g.path(par, x)))
            elif k == 'address' and is_local(i):
                ok = False; rep.add(key + '/globals', rule2, at(sp, i), 'violated', 'turns an address into a number: ' + g.path(par, x))
            elif k in ('asm',) or (k == 'indirect' and is_local(i)):
                rep.add(key + '/unknown', 'every call is resolved', at(sp, i), 'undecided', k)
    if ok: rep.add(key + '/globals', rule2, A.span(roots[0]), 'discharged')
    if step:
        rule3 = 'no transcendental floating-point function, whose result may differ between runs and machines, is reachable from a coding or prediction step'
        hit = [(x, par[x]) for x in par if FLOATFN.search(p.inst[x]['path'])]
        for x, pr in hit:
            rep.add(key + '/float', rule3, at(pr[1] if pr else None, p.inst[x]), 'violated', g.path(par, x))
        if not hit: rep.add(key + '/float', rule3, A.span(roots[0]), 'discharged')
    rep.meas_add('functions_reached_' + key, n['local']); rep.meas_add('library_functions_reached_' + key, n['std'])

def deny(path):
    for w, r in DENY:
        if r.search(path): return w
    return None

def named(p, *pats):
    return [i for i in p.inst.values() if is_local(i) and i['body'] and any(re.search(r, i['path']) for r in pats)]

def effects(prog, rep, tier):
    A = An(prog, rep); p = prog; g = Graph(p)
    section(rep, 'tables', lambda: scan(A, g, rep, 'tables', named(p, r'^lut::LookUpTables::new$')))
    section(rep, 'predictor/new', lambda: scan(A, g, rep, 'predictor/new', named(p, r"^predictor::Predictor::<'a>::new$")))
    for op in ('start_new_byte', 'predict', 'update'):
        section(rep, 'predictor/' + op, lambda: scan(A, g, rep, 'predictor/' + op, named(p, r"^predictor::Predictor::<'a>::%s$" % op), True))
    section(rep, 'encoder', lambda: scan(A, g, rep, 'encoder', named(p, r"^coding::encoder::Encoder::<'a>::", r"^<coding::encoder::Encoder<'a> as .*Drop>"), True))
    section(rep, 'decoder', lambda: scan(A, g, rep, 'decoder', named(p, r"^coding::decoder::Decoder::<'a>::"), True))
    section(rep, 'sources', lambda: scan(A, g, rep, 'sources', named(p, r"^<history::(naive::Naive|tree::Tree)HistorySource<'a> as history::HistorySource<'a>>::"), True))
    section(rep, 'random', lambda: scan(A, g, rep, 'random', named(p, r'^random::')))

CELLS = re.compile(r'(^|::)(Cell|RefCell|UnsafeCell|SyncUnsafeCell|Atomic\w*|Mutex|RwLock)$')
ONCE = re.compile(r'(^|::)(OnceCell|OnceLock|LazyCell|LazyLock|Once)$')
def sharing(prog, rep, tier):
    """what is shared between predictors (the tables) is immutable by type; a predictor owns the rest"""
    A = An(prog, rep); p = prog
    def fields(T): return [f[1] for v in T.get('variants', ()) for f in v['fields']]
    def walk(t, trail, seen, hits):
        if t in seen: return
        seen.add(t); T = p.ty[t]
        if T['k'] == 'adt':
            if ONCE.search(T['path']): hits.append(('once', trail + [T['name']])); return
            if CELLS.search(T['path']): hits.append(('cell', trail + [T['name']])); return
            for x in T.get('targs', ()) or (): 
                if isinstance(x, int): walk(x, trail + [T['name']], seen, hits)
            if T.get('local') or T['path'].startswith(('lut', 'predictor', 'history', 'mixing', 'fixed_point', 'estimators', 'util', 'coding', 'bit')):
                for x in fields(T): walk(x, trail + [T['name']], seen, hits)
        elif T['k'] in ('ref', 'ptr', 'array', 'slice'):
            if T['k'] == 'ptr' and T.get('mut'): hits.append(('ptr', trail + [T['name']]))
            walk(T['of'], trail, seen, hits)
        elif T['k'] == 'tuple':
            for x in T['fields']: walk(x, trail, seen, hits)
        elif T['k'] == 'dyn': hits.append(('dyn', trail + [T['name']]))
    rule = 'the tables shared between predictors contain no interior mutability'
    ts = p.adt('lut::LookUpTables')
    if not ts: raise Missing('type lut::LookUpTables')
    hits = []; seen = set(); walk(ts[0]['id'], [], seen, hits)
    key = 'tables/immutable'
    rep.meas_add('shared_types', len(seen))
    if not hits: rep.add(key, rule, 'src/lut/mod.rs:1', 'discharged')
    for k, tr in hits: rep.add(key, rule, 'src/lut/mod.rs:1', 'violated' if k == 'cell' else 'undecided', ' > '.join(tr))
    ts = p.adt('predictor::Predictor')
    if not ts: raise Missing('type predictor::Predictor')
    hits = []; seen = set(); walk(ts[0]['id'], [], seen, hits)
    rule = 'a predictor holds no reference-counted, locked or atomic state and nothing mutable it does not own'
    for k, tr in hits:
        bad = k == 'cell' and re.search(r'Atomic|Mutex|RwLock', tr[-1])
        rep.add('predictor/owned', rule, 'src/predictor/mod.rs:1', 'violated' if bad else 'undecided', ' > '.join(tr))
    if not hits: rep.add('predictor/owned', rule, 'src/predictor/mod.rs:1', 'discharged')
