"""Abstract interpreter over the compiler's MIR (monomorphised, type-resolved), trace-partitioned.

Values are abstract: integers are terms over unknowns with interval ranges (terms.py); memory contents that the
analysis does not know are lazily expanded unknowns bounded by type and by declared field invariants.
Control-flow joins keep paths apart (trace partitioning); a comparison that the numeric domain cannot decide
partitions the state.  Nothing is executed: no concrete input exists, every function is analysed for the whole
range of its arguments.
"""
import os
import json, time
from terms import *
from state import State, Infeasible, xor1

class Fork(Exception):
    def __init__(s, alts): s.alts = alts
class Undecided(Exception): pass
class PanicExc(Exception):
    def __init__(s, kind, span=None, msg=''): s.kind = kind; s.span = span; s.msg = msg

# ---------------------------------------------------------------- values
class VAgg:
    __slots__ = ('ty', 'variant', 'fields')
    def __init__(s, ty, variant, fields): s.ty = ty; s.variant = variant; s.fields = tuple(fields)
    def __repr__(s): return 'v%d%r' % (s.variant, s.fields)
class VSeq:
    __slots__ = ('ety', 'len', 'base', 'stores')
    def __init__(s, ety, len, base, stores=()): s.ety = ety; s.len = len; s.base = base; s.stores = stores
    def __repr__(s): return 'seq(len=%s,%s,%r)' % (show(s.len), s.base if s.base[0] != 't' else list(s.base[1]), list(s.stores))
class VVec:
    __slots__ = ('seq', 'cap')
    def __init__(s, seq, cap): s.seq = seq; s.cap = cap
    def __repr__(s): return 'vec(%r)' % (s.seq,)
class VRef:
    __slots__ = ('cell', 'path', 'view')
    def __init__(s, cell, path=(), view=None): s.cell = cell; s.path = path; s.view = view
    def __repr__(s): return '&%r%r%s' % (s.cell, s.path, '' if s.view is None else '[%s;%s]' % (show(s.view[0]), show(s.view[1])))
class VFn:
    __slots__ = ('inst',)
    def __init__(s, inst): s.inst = inst
    def __repr__(s): return 'fn#%s' % s.inst
class VLazy:
    __slots__ = ('ty', 'name', 'idx', 'inv')
    def __init__(s, ty, name, idx=(), inv=None): s.ty = ty; s.name = name; s.idx = idx; s.inv = inv
    def __repr__(s): return '?%s%s' % (s.name, '' if not s.idx else '[%s]' % ','.join(show(i) for i in s.idx))
    def key(s): return (s.name,) + tuple(i.key() for i in s.idx)
class VEnum:
    """a fieldless enum value with symbolic discriminant"""
    __slots__ = ('ty', 'd')
    def __init__(s, ty, d): s.ty = ty; s.d = d
    def __repr__(s): return 'enum(%s)' % show(s.d)
class VFloat:
    __slots__ = ('e', 'lo', 'hi')
    def __init__(s, e, lo=float('-inf'), hi=float('inf')): s.e = e; s.lo = lo; s.hi = hi
    def __repr__(s): return 'float(%r)' % (s.e,)
class VStr:
    __slots__ = ('s',)
    def __init__(s, t): s.s = t
    def __repr__(s): return repr(s.s)
class VIter:
    """slice iterator: ref to a sequence, current and end index, by-value flag"""
    __slots__ = ('ref', 'cur', 'end', 'kind')
    def __init__(s, ref, cur, end, kind): s.ref = ref; s.cur = cur; s.end = end; s.kind = kind
    def __repr__(s): return 'iter(%r,%s..%s)' % (s.ref, show(s.cur), show(s.end))
class VOpaque:
    __slots__ = ('tag', 'data')
    def __init__(s, tag, data=None): s.tag = tag; s.data = data
    def __repr__(s): return '<%s %r>' % (s.tag, s.data)
class VUninit:
    def __repr__(s): return 'uninit'
UNINIT = VUninit()
UNIT = VAgg(None, 0, ())

class Frame:
    __slots__ = ('inst', 'body', 'bb', 'si', 'fid', 'dest', 'target', 'visits', 'model')
    def __init__(s, inst, body, bb, si, fid, dest, target, visits=None, model=None):
        s.inst = inst; s.body = body; s.bb = bb; s.si = si; s.fid = fid; s.dest = dest; s.target = target
        s.visits = visits; s.model = model
    def copy(s): return Frame(s.inst, s.body, s.bb, s.si, s.fid, s.dest, s.target, s.visits, s.model)

class Outcome:
    __slots__ = ('kind', 'value', 'st', 'info')
    def __init__(s, kind, value, st, info=None): s.kind = kind; s.value = value; s.st = st; s.info = info
    def __repr__(s): return 'Outcome(%s,%r,%r)' % (s.kind, s.value, s.info)

EVALOPS['and'] = lambda e, a, b: a & b
OPIV['and'] = lambda e, a, b: (0, min(a[1], b[1])) if a[0] >= 0 and b[0] >= 0 else \
    ((0, a[1]) if a[0] >= 0 else (0, b[1]) if b[0] >= 0 else (min(a[0], b[0]) * 2 - 1, max(a[1], b[1])))
def _tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
def _xorn(e, *xs):
    r = 0
    for x in xs: r ^= x
    return r
EVALOPS['xor1'] = _xorn
OPIV['xor1'] = lambda e, *xs: (0, 1)
EVALOPS['tdiv'] = lambda e, a, b: _tdiv(a, b) if b else 0
def _tdiviv(e, a, b):
    if b[0] > 0 or b[1] < 0:
        v = [_tdiv(x, y) for x in a for y in b]
        if a[0] < 0 < a[1]: v.append(0)
        return (min(v), max(v))
    m = max(abs(a[0]), abs(a[1]))
    return (-m, m)
OPIV['tdiv'] = _tdiviv
EVALOPS['lz'] = lambda e, a: e - a.bit_length()
OPIV['lz'] = lambda e, a: (e - a[1].bit_length(), e - max(a[0], 0).bit_length())
EVALOPS['popcount'] = lambda e, a: bin(a).count('1')
OPIV['popcount'] = lambda e, a: (0, a[1].bit_length())
EVALOPS['tab'] = lambda e, i: e[i] if 0 <= i < len(e) else 0
def _tabiv(e, i):
    x = e[max(0, i[0]):i[1] + 1]
    return (min(x), max(x)) if x else (0, 0)
OPIV['tab'] = _tabiv
def _hash(*a):
    import hashlib
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), 'little')
def _sel(e, *idx):
    name, lo, hi = e
    return lo + _hash(name, idx) % (hi - lo + 1)
EVALOPS['sel'] = _sel
OPIV['sel'] = lambda e, *idx: (e[1], e[2])
EVALOPS['f2i'] = lambda e, *a: e[1] + _hash(e, a) % (e[2] - e[1] + 1)
OPIV['f2i'] = lambda e, *a: (e[1], e[2])
EVALOPS['shl'] = lambda e, a, b: a << b if 0 <= b < 512 else 0
OPIV['shl'] = lambda e, a, b: (min(a[0] << max(b[0], 0), a[0] << max(b[1], 0)), max(a[1] << max(b[0], 0), a[1] << max(b[1], 0))) if b[1] < 512 else (-1 << 600, 1 << 600)
EVALOPS['shr'] = lambda e, a, b: a >> b if b >= 0 else 0
OPIV['shr'] = lambda e, a, b: (min(a[0] >> max(b[0], 0), a[0] >> max(b[1], 0)), max(a[1] >> max(b[0], 0), a[1] >> max(b[1], 0)))

class Program:
    """one compiled crate target"""
    def __init__(s, path):
        d = json.load(open(path))
        s.crate = d['crate']; s.d = d
        s.inst = {i['id']: i for i in d['instances']}
        s.ty = {t['id']: t for t in d['types2']}
        s.bypath = {}
        for i in d['instances']: s.bypath.setdefault(i['path'], []).append(i)
        s.impls = d['impls']; s.roots = d['roots']
    def find(s, path, name=None, self_=None):
        r = [i for i in s.bypath.get(path, []) if i['body'] and (name is None or name in i['name'])
             and (self_ is None or self_ == i.get('self'))]
        return r
    def adt(s, path):
        return [t for t in s.ty.values() if t['k'] == 'adt' and t['path'] == path]
    def tyname(s, t): return s.ty[t]['name']

class Ctx:
    def __init__(s, prog):
        s.p = prog; s.inv = {}; s.hooks = []; s.lens = {}
        s.max_states = 4000; s.max_steps = 400000; s.unroll = 300; s.deadline = None; s.maxdepth = 60
        s.max_values = 64; s.auto_havoc = True; s.seqinv = {}; s.models = None; s.seen = set(); s.splitwrap = 3
        s.no_inline = None; s.variant_ok = None; s.havocked = {}
    def inline_note(s, inst): s.seen.add(inst['id'])

# ---------------------------------------------------------------- decisions
def decide_ge0(st, p):
    n, z, g = st.sign(p)
    if not n: return True
    if not z and not g: return False
    p = st.norm(p)
    key = ('dec>=', p.key())
    if key in st.choice: return st.choice[key]
    raise Fork([('ge0', p, key, True), ('lt0', p, key, False)])
def decide_eq0(st, p):
    n, z, g = st.sign(p)
    if not z: return False
    if not n and not g: return True
    p = st.norm(p)
    x = next((m for m in p.t if m), None)
    if x is not None and len(x) == 1 and ATOMS[x[0]].name == 'xor1' and len(p.t) == 1 + (() in p.t):
        xs = ATOMS[x[0]].args; w = -p.const() * p.t[x]
        return decide_eq0(st, xs[0] - xor1(*xs[1:])) == (w == 0)
    key = ('dec==', p.key())
    if key in st.choice: return st.choice[key]
    if n and g:
        raise Fork([('eq0', p, key, True), ('ge0', p - 1, key, False), ('ge0', -p - 1, key, False)])
    raise Fork([('eq0', p, key, True), ('ne0', p, key, False)])
def decide_value(st, p, limit):
    c = st.cst(p)
    if c is not None: return c
    lo, hi = st.bound(p, 3)
    if hi - lo + 1 > limit: raise Undecided('too many values for %s: %d..%d' % (show(p), lo, hi))
    raise Fork([('eq0', p - v, None, None) for v in range(lo, hi + 1)])
def apply_alt(st, alt):
    k = alt[0]
    if k == 'choice':
        st.choice[alt[1]] = alt[2]; return True
    if k == 'ge0': ok = st.assume_ge0(alt[1])
    elif k == 'lt0': ok = st.assume_ge0(-alt[1] - 1)
    elif k == 'eq0': ok = st.assume_eq0(alt[1])
    elif k == 'ne0': ok = st.assume_ne0(alt[1])
    else: raise Exception(k)
    if ok and alt[2] is not None: st.choice[alt[2]] = alt[3]
    return ok

# ---------------------------------------------------------------- arithmetic
def int_range(t):
    if t['k'] == 'bool': return (0, 1)
    if t['k'] == 'char': return (0, 0x10ffff)
    if t['signed']: return (-(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1)
    return (0, (1 << t['bits']) - 1)
def roundform(st, p):
    """floor(A/c) - floor(A/2c) is floor((A+c)/2c): the two usual ways to round to nearest get one normal form"""
    for m, k in list(p.t.items()):
        if len(m) != 1: continue
        at = ATOMS[m[0]]
        if at.kind != 'div' or at.c % 2: continue
        A = at.args[0]; c = at.c // 2; d2 = Poly({m: 1})
        for A1, new in ((A, A + c), (A - c, A - c)):
            # D = floor(A/2c): floor(A/c) - D = floor((A+c)/2c), and D - floor((A-c)/c) = -floor((A-c)/2c)
            d1 = st.fdiv(A1, c)
            if not d1.t or any(p.t.get(x) != -k * y for x, y in d1.t.items()): continue
            p = p - (d2 - d1) * k - st.fdiv(new, 2 * c) * k
            break
    return p
def wrap(st, p, t, ctx=None):
    lo, hi = int_range(t)
    p = roundform(st, st.norm(p))
    for d in (0, 1, 2):
        b = st.bound(p, d)
        if lo <= b[0] and b[1] <= hi: return p
    n = hi - lo + 1
    q0, q1 = (b[0] - lo) // n, (b[1] - lo) // n
    if q0 == q1: return p - n * q0
    return p - st.fdiv(p - lo, n) * n
def in_range(st, p, t):
    lo, hi = int_range(t)
    for d in (0, 1, 2):
        b = st.bound(p, d)
        if lo <= b[0] and b[1] <= hi: return True
        if b[1] < lo or b[0] > hi: return False
    if not decide_ge0(st, p - lo): return False
    return decide_ge0(st, C(hi) - p)
def bit_runs(m):
    i = 0; out = []
    if m < 0: neg = True
    else: neg = False
    n = m.bit_length() + 1
    while i < n:
        if (m >> i) & 1:
            j = i
            while j < n and (m >> j) & 1: j += 1
            if neg and j >= n: out.append((i, None)); break
            out.append((i, j)); i = j
        else: i += 1
    return out
def band(st, a, b):
    a = st.simp(a); b = st.simp(b)
    if b.is_const() and not a.is_const(): a, b = b, a
    if a.is_const() and b.is_const(): return C(a.const() & b.const())
    if a == b: return a
    if a.is_const():
        r = ZERO; runs = bit_runs(a.const())
        if len(runs) > (3 if a.const() >> 40 else 12) and a.const() > 0 and digits(st, b) is None: return op_atom('and', [a, b])
        for lo, hi in runs:
            x = st.fdiv(b, 1 << lo)
            if hi is not None: x = x - st.fdiv(b, 1 << hi) * (1 << (hi - lo))
            r = r + x * (1 << lo)
        return r
    ab, bb = st.bound(a, 1), st.bound(b, 1)
    if ab == (0, 1) and bb == (0, 1): return _band01(st, a, b)
    da, db = digits(st, a), digits(st, b)
    if da is not None and db is not None:
        r = ZERO
        for k, x in da.items():
            if k in db: r = r + (x if x == db[k] else ZERO if x.is_const() and not x.const() else _band01(st, x, db[k])) * (1 << k)
        return r
    for x, y, yb in ((a, b, bb), (b, a, ab)):
        if yb[0] >= 0:
            k = yb[1].bit_length()
            m = st.mod(x, 1 << k)
            if m.is_const() and m.const() == 0: return ZERO
            if m.is_const() and m.const() == (1 << k) - 1: return y
    if b.key() < a.key(): a, b = b, a
    return op_atom('and', [a, b])
def digits(st, p):
    """exponent -> digit of a sum of powers of two times distinct binary digits, or None"""
    r = {}; c = 0
    for m, k in p.t.items():
        if not m: c = k; continue
        if k <= 0: return None
        x = Poly({m: 1})
        if st.bound(x, 1)[0] < 0 or st.bound(x, 1)[1] > 1: return None
        while k:
            e = (k & -k).bit_length() - 1; k &= k - 1
            if e in r: return None
            r[e] = x
    if c < 0: return None
    for e in range(c.bit_length()):
        if c >> e & 1:
            if e in r: return None
            r[e] = ONE
    return r
def _band01(st, a, b):
    if decide_eq0(st, a): return ZERO
    return b
def bor(st, a, b): return a + b - band(st, a, b)
def bxor(st, a, b):
    a = st.simp(a); b = st.simp(b)
    if not a.is_const() and not b.is_const():
        da, db = digits(st, a), digits(st, b)
        if da is not None and db is not None:
            r = ZERO
            for k in da.keys() | db.keys(): r = r + xor1(da.get(k, ZERO), db.get(k, ZERO)) * (1 << k)
            return r
    return a + b - band(st, a, b) * 2
def tdiv(st, a, b):
    a = st.simp(a); b = st.simp(b)
    if b.is_const():
        c = b.const()
        if c == 0: raise Undecided('division by zero')
        if c < 0: return -tdiv(st, a, C(-c))
        if c == 1: return a
        if a.is_const(): return C(_tdiv(a.const(), c))
        if decide_ge0(st, a): return st.fdiv(a, c)
        return -st.fdiv(-a, c)
    if a.is_const() and a.const() == 0: return ZERO
    if st.bound(b, 1)[0] > 0:
        if not decide_ge0(st, a): return -tdiv(st, -a, b)
        q = op_atom('tdiv', [a, b])
        if not (st.assume_ge0(a - q * b) and st.assume_ge0(b - 1 - a + q * b)): raise Infeasible()
        return q
    return op_atom('tdiv', [a, b])
def binop(st, ctx, op, a, b, t):
    if isinstance(a, VFloat) or isinstance(b, VFloat): return fbin(st, op, a, b)
    if not isinstance(a, Poly) or not isinstance(b, Poly):
        if op in ('Eq', 'Ne') and isinstance(a, VRef) and isinstance(b, VRef):
            same = a.cell == b.cell and a.path == b.path
            if same or a.cell != b.cell: return C(int(same == (op == 'Eq')))
        raise Undecided('binary %s on %r, %r' % (op, type(a).__name__, type(b).__name__))
    if op == 'Lt': return C(int(decide_ge0(st, b - a - 1)))
    if op == 'Le': return C(int(decide_ge0(st, b - a)))
    if op == 'Gt': return C(int(decide_ge0(st, a - b - 1)))
    if op == 'Ge': return C(int(decide_ge0(st, a - b)))
    if op == 'Eq': return C(int(decide_eq0(st, a - b)))
    if op == 'Ne': return C(int(not decide_eq0(st, a - b)))
    if op == 'Cmp':
        v = 1 if decide_eq0(st, a - b) else (2 if decide_ge0(st, a - b) else 0)
        return VAgg(None, v, ())
    if op in ('Add', 'AddUnchecked'): return wrap(st, a + b, t)
    if op in ('Sub', 'SubUnchecked'): return wrap(st, a - b, t)
    if op in ('Mul', 'MulUnchecked'): return wrap(st, a * b, t)
    if op == 'BitAnd': return band(st, a, b)
    if op == 'BitOr': return bor(st, a, b)
    if op == 'BitXor': return bxor(st, a, b)
    if op in ('Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked'):
        n = st.cst(b)
        if n is None:
            lo, hi = st.bound(b, 2)
            if hi - lo + 1 <= ctx.max_values: n = decide_value(st, b, ctx.max_values)
            elif lo >= 0 and hi < t['bits'] * 2:
                return wrap(st, op_atom('shl' if op[2] == 'l' else 'shr', [a, b]), t)
            else: raise Undecided('unbounded shift')
        n %= t['bits']
        if op.startswith('Shl'): return wrap(st, a * (1 << n), t)
        return st.fdiv(a, 1 << n)
    if op == 'Div': return wrap(st, tdiv(st, a, b), t)
    if op == 'Rem': return a - tdiv(st, a, b) * b
    raise Undecided('operator ' + op)
def fbin(st, op, a, b):
    if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
        d = fcmp(op, a, b)
        if d is not None: return C(int(d))
        key = ('fcmp', op, a.e, b.e)
        if key in st.choice: return C(st.choice[key])
        raise Fork([('choice', key, 1), ('choice', key, 0)])
    if a.lo == a.hi and b.lo == b.hi:
        try:
            r = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mul': lambda x, y: x * y,
                 'Div': lambda x, y: x / y}[op](a.lo, b.lo)
            return VFloat(('k', r), r, r)
        except (ZeroDivisionError, KeyError, OverflowError): pass
    lo, hi = float('-inf'), float('inf')
    inf = float('inf')
    def safe(vals):
        vals = [v for v in vals]
        if any(v != v for v in vals): return (-inf, inf)
        return (min(vals), max(vals))
    if op == 'Add': lo, hi = safe([a.lo + b.lo, a.hi + b.hi])
    elif op == 'Sub': lo, hi = safe([a.lo - b.hi, a.hi - b.lo])
    elif op == 'Mul': lo, hi = safe([x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)])
    elif op == 'Div' and (b.lo > 0 or b.hi < 0): lo, hi = safe([x / y for x in (a.lo, a.hi) for y in (b.lo, b.hi)])
    return VFloat((op, a.e, b.e), lo, hi)
def fcmp(op, a, b):
    if op in ('Gt', 'Ge'): return fcmp({'Gt': 'Lt', 'Ge': 'Le'}[op], b, a)
    if op == 'Lt':
        if a.hi < b.lo: return True
        if a.lo >= b.hi: return False
    if op == 'Le':
        if a.hi <= b.lo: return True
        if a.lo > b.hi: return False
    if op in ('Eq', 'Ne'):
        if a.hi < b.lo or b.hi < a.lo: return op == 'Ne'
        if a.lo == a.hi == b.lo == b.hi: return op == 'Eq'
    return None

# ---------------------------------------------------------------- lazies and memory
def lazy_child(ctx, lz, adt, variant, i, fname, fty):
    inv = lz.inv
    k = (adt['path'], fname)
    if k in ctx.inv and inv is None: inv = ctx.inv[k]
    nm = lz.name + ('.' + fname if adt['adt'] == 'struct' else '.v%d.%s' % (variant, fname))
    return VLazy(fty, nm, lz.idx, inv)
def expand(st, ctx, lz):
    """one level of a lazily known value"""
    t = ctx.p.ty[lz.ty]; k = t['k']
    if k in ('int', 'bool', 'char'):
        lo, hi = int_range(t)
        if lz.inv:
            iv = lz.inv(lz) if callable(lz.inv) else lz.inv
            lo, hi = max(lo, iv[0]), min(hi, iv[1])
        ix = [st.norm(i) for i in lz.idx] if st is not None else lz.idx
        if all(i.is_const() for i in ix):
            nm = lz.name
            for i in ix: nm = nm.replace('[]', '[%d]' % i.const(), 1)
            return Sym(nm, lo, hi)
        return op_atom('sel', ix, (lz.name, lo, hi))
    if k == 'adt':
        if t.get('box'):
            return lazy_ref(st, ctx, t['targs'][0], lz)
        if t['path'] in ('std::vec::Vec', 'alloc::vec::Vec'):
            ety = t['targs'][0]
            n = lazy_len(st, ctx, lz)
            return VVec(VSeq(ety, n, ('l', lz.name, lz.idx, lz.inv)), None)
        if t['adt'] == 'struct':
            v = t['variants'][0]
            return VAgg(lz.ty, 0, [lazy_child(ctx, lz, t, 0, i, f[0], f[1]) for i, f in enumerate(v['fields'])])
        if t['adt'] == 'enum':
            key = ('variant', lz.key())
            vi = st.choice.get(key)
            if vi is None:
                n = range(len(t['variants']))
                if ctx.variant_ok: n = [i for i in n if ctx.variant_ok(lz, t, i)]
                if len(n) == 1: vi = n[0]
                else: raise Fork([('choice', key, i) for i in n])
            v = t['variants'][vi]
            return VAgg(lz.ty, vi, [lazy_child(ctx, lz, t, vi, i, f[0], f[1]) for i, f in enumerate(v['fields'])])
    if k == 'tuple':
        return VAgg(lz.ty, 0, [VLazy(f, '%s.%d' % (lz.name, i), lz.idx, lz.inv) for i, f in enumerate(t['fields'])])
    if k == 'array':
        return VSeq(t['of'], C(t['len']), ('l', lz.name, lz.idx, lz.inv))
    if k == 'slice':
        return VSeq(t['of'], lazy_len(st, ctx, lz), ('l', lz.name, lz.idx, lz.inv))
    if k in ('ref', 'ptr'):
        return lazy_ref(st, ctx, t['of'], lz)
    if k == 'float': return VFloat(('sym', lz.key()))
    if k == 'closure':
        return VAgg(lz.ty, 0, [VLazy(f, '%s.%d' % (lz.name, i), lz.idx, lz.inv) for i, f in enumerate(t['fields'])])
    if k == 'dyn' or k == 'other' or k == 'fnptr' or k == 'str': return VOpaque(k, lz.name)
    if k == 'fndef': return VFn(t['inst'])
    if k == 'never': raise PanicExc('never')
    raise Undecided('expand %s %s' % (k, t['name']))
def lazy_len(st, ctx, lz):
    r = ctx.lens.get(lz.name, (0, (1 << 32)))
    if callable(r): r = r(lz)
    if isinstance(r, int): return C(r)
    nm = lz.name + '.len'
    ix = [st.norm(i) for i in lz.idx] if st is not None else lz.idx
    if all(i.is_const() for i in ix):
        for i in ix: nm = nm.replace('[]', '[%d]' % i.const(), 1)
        return Sym(nm, r[0], r[1])
    return op_atom('sel', ix, (nm, r[0], r[1]))
def lazy_ref(st, ctx, of, lz):
    cell = ('L', lz.name + '*', of, lz.idx, lz.inv)
    t = ctx.p.ty[of]
    if t['k'] == 'slice':
        return VRef(cell, (), (ZERO, lazy_len(st, ctx, VLazy(of, lz.name + '*', lz.idx))))
    return VRef(cell, ())
def load_cell(st, ctx, cell):
    v = st.mem.get(cell)
    if v is None:
        if cell[0] == 'L': return VLazy(cell[2], cell[1], cell[3], cell[4])
        raise Undecided('read of dead cell %r' % (cell,))
    return v
def same_idx(st, a, b):
    if a == b: return True
    return decide_eq0(st, a - b)
def seq_read(st, ctx, s, i):
    for j, v in reversed(s.stores):
        if same_idx(st, i, j): return v
    b = s.base
    if b[0] == 'l': return VLazy(s.ety, b[1] + '[]', b[2] + (i,), b[3])
    if b[0] == 'c': return b[1]
    items = b[1]
    c = st.cst(i)
    if c is not None:
        if not 0 <= c < len(items): raise Undecided('index %d outside %d items' % (c, len(items)))
        return items[c]
    lo, hi = st.bound(i, 2)
    if all(isinstance(v, Poly) and v.is_const() for v in items) and hi - lo >= 4:
        return op_atom('tab', [st.norm(i)], tuple(v.const() for v in items))
    lo, hi = max(lo, 0), min(hi, len(items) - 1)
    first = items[lo]
    if hi == lo + 1 and all(isinstance(v, Poly) and v.is_const() for v in items[lo:hi + 1]) and not (first.const() and items[hi].const()):
        return first + (items[hi] - first) * (st.norm(i) - lo)
    if all(items[k] is first for k in range(lo, hi + 1)): return first
    return items[decide_value(st, i, max(ctx.max_values, 64))]
def seq_write(st, ctx, s, i, v):
    b = s.base
    c = st.cst(i)
    if b[0] == 't' and c is not None and not s.stores:
        if not 0 <= c < len(b[1]): raise Undecided('store index %d outside %d items' % (c, len(b[1])))
        t = list(b[1]); t[c] = v
        return VSeq(s.ety, s.len, ('t', tuple(t)))
    stores = tuple((j, w) for j, w in s.stores if not j == i)
    return VSeq(s.ety, s.len, b, stores + ((i, v),))
def step_read(st, ctx, v, e):
    while isinstance(v, VLazy): v = expand(st, ctx, v)
    k = e[0]
    if k == 'f':
        if isinstance(v, VAgg):
            if e[1] >= len(v.fields): raise Undecided('field %d of %r' % (e[1], v))
            return v.fields[e[1]]
        if isinstance(v, (VRef, VOpaque, VFn, VVec, Poly)) and e[1] == 0: return v      # Box/Unique/NonNull/newtype wrappers
        raise Undecided('field of %s' % type(v).__name__)
    if k == 'i':
        if isinstance(v, VVec): v = v.seq
        if isinstance(v, VSeq): return seq_read(st, ctx, v, e[1])
        raise Undecided('index into %s' % type(v).__name__)
    if k == 'v':
        if isinstance(v, VVec): return v.seq
        raise Undecided('vec step into %s' % type(v).__name__)
    raise Exception(e)
def step_write(st, ctx, v, path, new):
    if not path: return new
    while isinstance(v, VLazy): v = expand(st, ctx, v)
    e = path[0]
    if e[0] == 'f':
        if isinstance(v, VAgg):
            f = list(v.fields)
            f[e[1]] = step_write(st, ctx, f[e[1]], path[1:], new)
            return VAgg(v.ty, v.variant, f)
        if v is UNINIT: return VAgg(None, 0, (UNINIT,) * e[1] + (step_write(st, ctx, UNINIT, path[1:], new),))
        raise Undecided('write field of %s' % type(v).__name__)
    if e[0] == 'i':
        if isinstance(v, VSeq):
            if len(path) > 1:
                old = seq_read(st, ctx, v, e[1])
                new = step_write(st, ctx, old, path[1:], new)
            return seq_write(st, ctx, v, e[1], new)
        raise Undecided('write index of %s' % type(v).__name__)
    if e[0] == 'v':
        return VVec(step_write(st, ctx, v.seq, path[1:], new), v.cap)
    raise Exception(e)
def load(st, ctx, cell, path, full=True):
    v = load_cell(st, ctx, cell)
    for e in path: v = step_read(st, ctx, v, e)
    if full:
        while isinstance(v, VLazy): v = expand(st, ctx, v)
    return v
def raw_load(st, ctx, cell, path): return load(st, ctx, cell, path, False)
def store(st, ctx, cell, path, val):
    if not path: st.mem[cell] = val; return
    v = load_cell(st, ctx, cell)
    st.mem[cell] = step_write(st, ctx, v, path, val)
def force(st, ctx, v):
    while isinstance(v, VLazy): v = expand(st, ctx, v)
    if isinstance(v, VEnum):
        d = decide_value(st, v.d, 16)
        for i, x in enumerate(ctx.p.ty[v.ty]['variants']):
            if int(x['discr']) == d: return VAgg(v.ty, i, ())
        raise Infeasible()
    return v

# ---------------------------------------------------------------- the interpreter
class Interp:
    def __init__(s, ctx):
        s.ctx = ctx; s.p = ctx.p; ctx.interp = s
        s.steps = 0; s.states = 0
    # -- constants
    def const(s, st, ty, val):
        k = val[0]; t = s.p.ty[ty]
        if k == 'int': return C(int(val[1]))
        if k == 'flt':
            f = float(val[1]); return VFloat(('k', f), f, f)
        if k == 'agg':
            if t['k'] == 'adt':
                if t['path'] == 'std::vec::Vec': return VVec(VSeq(t['targs'][0], ZERO, ('t', ())), None)
                fs = t['variants'][val[1]]['fields']
                return VAgg(ty, val[1], [s.const(st, f[1], x) for f, x in zip(fs, val[2])])
            if t['k'] in ('tuple', 'closure'):
                return VAgg(ty, 0, [s.const(st, f, x) for f, x in zip(t['fields'], val[2])])
            return VAgg(ty, val[1], [UNINIT for x in val[2]])
        if k == 'arr':
            return VSeq(t['of'], C(len(val[1])), ('t', tuple(s.const(st, t['of'], x) for x in val[1])))
        if k == 'ptr':
            of = t.get('of')
            if of is None: return VOpaque('ptrconst')
            v = s.const(st, of, val[1])
            n = ('K', json.dumps(val), of)
            st.mem[n] = v
            ot = s.p.ty[of]
            if ot['k'] == 'slice' and isinstance(v, VSeq): return VRef(n, (), (ZERO, v.len))
            if isinstance(v, VStr): return v
            return VRef(n, ())
        if k == 'str': return VStr(val[1])
        if k == 'fn': return VFn(val[1])
        if k == 'zst':
            if t['k'] == 'closure': return VAgg(ty, 0, ())
            if t['k'] == 'fndef': return VFn(t['inst'])
            if t['k'] == 'adt' and t['variants']:
                return VAgg(ty, 0, [s.const(st, f[1], ['zst']) for f in t['variants'][0]['fields']])
            if t['k'] == 'array': return VSeq(t['of'], C(t['len']), ('t', tuple(s.const(st, t['of'], ['zst']) for _ in range(t['len']))))
            return VAgg(ty, 0, ())
        st.nframe += 1
        st.taint = st.taint | {'unknown constant'}
        return VLazy(ty, 'unk%d' % st.nframe)
    # -- places
    def loc(s, st, fr, place):
        cell = (fr.fid, place[0]); path = (); view = None
        for e in place[1]:
            k = e[0]
            if k == '*':
                v = load(st, s.ctx, cell, path)
                if isinstance(v, VStr): return (('S', v.s), (), None)
                if not isinstance(v, VRef): raise Undecided('deref of %s' % type(v).__name__)
                cell, path, view = v.cell, v.path, v.view
            elif k == 'f': path = path + (('f', e[1]),)
            elif k == 'd' or k == 'oc': pass
            elif k == 'i':
                i = load(st, s.ctx, (fr.fid, e[1]), ())
                if view: i = i + view[0]; view = None
                path = path + (('i', st.norm(i)),)
            elif k == 'c':
                off, ml, fe = e[1], e[2], e[3]
                n = view[1] if view else None
                if fe:
                    if n is None: n = load(st, s.ctx, cell, path).len
                    i = n - off
                else: i = C(off)
                if view: i = i + view[0]; view = None
                path = path + (('i', st.norm(i)),)
            elif k == 'sub':
                frm, to, fe = e[1], e[2], e[3]
                if view is None:
                    view = (ZERO, load(st, s.ctx, cell, path).len)
                a = C(frm); b = (view[1] - to) if fe else C(to)
                view = (view[0] + a, b - a)
            else: raise Undecided('projection %s' % k)
        return cell, path, view
    def read(s, st, fr, place):
        cell, path, view = s.loc(st, fr, place)
        if cell[0] == 'S': return VStr(cell[1])
        if view is not None: raise Undecided('by-value slice')
        return load(st, s.ctx, cell, path, False)
    def operand(s, st, fr, o):
        if o[0] in ('cp', 'mv'): return s.read(st, fr, o[1])
        return s.const(st, o[1], o[2])
    def ival(s, st, fr, o): return force(st, s.ctx, s.operand(st, fr, o))
    def rvalue(s, st, fr, r):
        ctx = s.ctx; k = r[0]
        if k == 'use': return s.operand(st, fr, r[1])
        if k == 'ref' or k == 'addr':
            pl = r[2] if k == 'ref' else r[1]
            if len(pl[1]) == 1 and pl[1][0][0] == '*':       # reborrow
                v = load(st, ctx, (fr.fid, pl[0]), ())
                if isinstance(v, (VOpaque, VStr, VRef)): return v
            cell, path, view = s.loc(st, fr, pl)
            if cell[0] == 'S': return VStr(cell[1])
            return VRef(cell, path, view)
        if k == 'agg':
            ops = [s.operand(st, fr, o) for o in r[5]]
            kind = r[1]
            if kind == 'arr':
                t = s.p.ty[r[2]]
                return VSeq(t['of'] if t['k'] == 'array' else r[2], C(len(ops)), ('t', tuple(ops)))
            if kind == 'rawptr':
                v = force(st, ctx, ops[0])
                m = force(st, ctx, ops[1]) if len(ops) > 1 else None
                if isinstance(v, VRef) and isinstance(m, Poly):
                    if v.view is None and v.path and v.path[-1][0] == 'i':
                        return VRef(v.cell, v.path[:-1], (v.path[-1][1], m))
                    return VRef(v.cell, v.path, (v.view[0] if v.view else ZERO, m))
                return v
            if kind == 'adt':
                t = s.p.ty[r[2]]
                if r[4] is not None and t['k'] == 'adt' and t['adt'] == 'union':
                    return ops[0]
                return VAgg(r[2], r[3], ops)
            return VAgg(r[2], 0, ops)
        if k == 'bin':
            a = s.ival(st, fr, r[2]); b = s.ival(st, fr, r[3])
            return binop(st, ctx, r[1], a, b, s.p.ty[r[4]])
        if k == 'cbin':
            a = s.ival(st, fr, r[2]); b = s.ival(st, fr, r[3]); t = s.p.ty[r[4]]
            op = r[1]
            if not isinstance(a, Poly) or not isinstance(b, Poly): raise Undecided('checked op on non-int')
            if op in ('Shl', 'Shr'):
                raise Undecided('checked shift')
            e = {'Add': a + b, 'Sub': a - b}.get(op)
            if e is None: e = a * b
            if in_range(st, e, t): return VAgg(None, 0, (st.norm(e), ZERO))
            return VAgg(None, 0, (wrap(st, e, t), ONE))
        if k == 'un':
            v = s.ival(st, fr, r[2]); op = r[1]
            if op == 'PtrMetadata':
                if isinstance(v, VRef):
                    return v.view[1] if v.view else UNIT
                if isinstance(v, VStr): return C(len(v.s.encode()))
                raise Undecided('metadata of %s' % type(v).__name__)
            t = s.p.ty[r[3]]
            if op == 'Not':
                if t['k'] == 'bool': return ONE - v
                return (C(int_range(t)[1]) - v) if not t['signed'] else (-v - 1)
            if op == 'Neg':
                if isinstance(v, VFloat):
                    return VFloat(('Neg', v.e) if v.e[0] != 'k' else ('k', -v.e[1]), -v.hi, -v.lo)
                return wrap(st, -v, t)
        if k == 'cast': return s.cast(st, fr, r)
        if k == 'discr':
            if not r[1][1] and (fr.fid, r[1][0]) not in st.mem:     # a zero-sized local the optimiser never writes
                only = s.inhabited(s.place_ty(fr, r[1]))
                if only is not None: return C(only)
            v = s.read(st, fr, r[1])
            if isinstance(v, VEnum): return v.d
            v = force(st, ctx, v)
            if isinstance(v, VAgg):
                if v.ty is not None:
                    t = s.p.ty[v.ty]
                    if t['k'] == 'adt' and t['adt'] == 'enum': return C(int(t['variants'][v.variant]['discr']))
                    return C(v.variant)
                return C((-1, 0, 1)[v.variant])      # Ordering built by Cmp
            raise Undecided('discriminant of %s' % type(v).__name__)
        if k == 'repeat':
            v = s.operand(st, fr, r[1]); n = r[2]
            t = s.p.ty[r[3]]
            ety = t['of'] if t['k'] == 'array' else r[3]
            if n <= 4096: return VSeq(ety, C(n), ('t', (v,) * n))
            return VSeq(ety, C(n), ('c', v))
        raise Undecided('rvalue ' + k)
    def inhabited(s, ty):
        """discriminant of an enum with one inhabited variant"""
        t = s.p.ty[ty]
        if t['k'] != 'adt' or t['adt'] != 'enum': return None
        def empty(i):
            x = s.p.ty[i]; return x['k'] == 'never' or (x['k'] == 'adt' and x['adt'] == 'enum' and not x['variants'])
        l = [v for v in t['variants'] if not any(empty(f[1]) for f in v['fields'])]
        return int(l[0]['discr']) if len(l) == 1 else None
    def cast(s, st, fr, r):
        ctx = s.ctx; kind = r[1]; v = s.operand(st, fr, r[2]); to = s.p.ty[r[4]]; frm = s.p.ty[r[3]]
        if kind == 'IntToInt':
            v = v.d if isinstance(v, VEnum) else force(st, ctx, v)
            if isinstance(v, VAgg): # fieldless enum
                t = s.p.ty[v.ty]; v = C(int(t['variants'][v.variant]['discr']))
            return wrap(st, v, to)
        if kind == 'IntToFloat':
            v = force(st, ctx, v); b = st.bound(v, 1)
            if v.is_const(): return VFloat(('k', float(v.const())), float(v.const()), float(v.const()))
            return VFloat(('int', v.key()), float(b[0]), float(b[1]))
        if kind == 'FloatToFloat': return force(st, ctx, v)
        if kind == 'FloatToInt':
            v = force(st, ctx, v); lo, hi = int_range(to)
            if v.lo == v.hi: return C(max(lo, min(hi, int(v.lo))))
            l = lo if v.lo == float('-inf') else max(lo, min(hi, int(v.lo)))
            h = hi if v.hi == float('inf') else max(lo, min(hi, int(v.hi)))
            return op_atom('f2i', [], (v.e, l, h))
        if kind in ('Transmute', 'BoxDerefTransmute', 'PtrToPtr', 'FnPtrToPtr') or kind.startswith('PC_'):
            v = force(st, ctx, v)
            if kind == 'Transmute':
                if isinstance(v, Poly) and to['k'] == 'adt' and to['adt'] == 'struct':
                    return s.wrapnew(v, r[4])
                if isinstance(v, Poly) and to['k'] in ('int', 'bool', 'char'):
                    return wrap(st, v, to)
                if isinstance(v, VAgg) and to['k'] in ('int', 'bool', 'char'):
                    while isinstance(v, VAgg) and len(v.fields) == 1: v = force(st, ctx, v.fields[0])
                    if isinstance(v, Poly): return wrap(st, v, to)
                    raise Undecided('transmute')
            if kind == 'PC_Unsize' and isinstance(v, VRef):
                t = frm
                while t['k'] in ('ref', 'ptr') or (t['k'] == 'adt' and t.get('box')):
                    t = s.p.ty[t['of'] if t['k'] in ('ref', 'ptr') else t['targs'][0]]
                if t['k'] == 'array': return VRef(v.cell, v.path, (ZERO, C(t['len'])))
            return v
        raise Undecided('cast ' + kind)
    def wrapnew(s, v, ty):
        t = s.p.ty[ty]
        if t['k'] == 'adt' and t['adt'] == 'struct':
            fs = t['variants'][0]['fields']
            nz = [f for f in fs]
            return VAgg(ty, 0, [s.wrapnew(v, f[1]) for f in nz[:1]] + [UNIT for f in nz[1:]])
        return v
    # -- frames
    def enter(s, st, inst, args, dest, target):
        b = inst['body']
        s.ctx.inline_note(inst)
        if len(st.stack) > s.ctx.maxdepth: raise Undecided('call depth')
        st.nframe += 1; fid = st.nframe
        if len(args) != b['argc']:
            if len(args) == 2 and (inst['closure_of'] is not None or b['argc'] != 2):
                tup = force(st, s.ctx, args[1])
                args = [args[0]] + list(tup.fields)
            if b['spread'] is not None and len(args) != b['argc']:
                sp = b['spread'] - 1
                args = args[:sp] + [VAgg(None, 0, args[sp:])]
            if len(args) != b['argc']: raise Undecided('argument count %d vs %d in %s' % (len(args), b['argc'], inst['name']))
        elif inst['closure_of'] is not None and b['argc'] == 2 and inst['kind'] == 'item' and not isinstance(args[1], VEnum):
            tup = force(st, s.ctx, args[1])
            if isinstance(tup, VAgg) and tup.ty is not None and s.p.ty[tup.ty]['k'] == 'tuple' and len(tup.fields) == 1 and \
               s.p.ty[b['locals'][2]]['id'] != tup.ty:
                args = [args[0], tup.fields[0]]
        for i, a in enumerate(args): st.mem[(fid, i + 1)] = a
        st.stack = st.stack + (Frame(inst, b, 0, 0, fid, dest, target, {}),)
    def pop(s, st, val):
        fr = st.stack[-1]
        if fr.dest is not None and len(st.stack) > 1 and st.stack[-2].model is None:
            store(st, s.ctx, fr.dest[0], fr.dest[1], val)       # may fork: before anything else changes
        st.stack = st.stack[:-1]
        if fr.body is not None:
            for i in range(len(fr.body['locals'])): st.mem.pop((fr.fid, i), None)
        if not st.stack: return Outcome('ret', val, st)
        top = st.stack[-1]
        if top.model is not None:
            n = top.copy(); n.model = (top.model[0], top.model[1], top.model[2], val)
            st.stack = st.stack[:-1] + (n,)
            return None
        if fr.target is None: raise PanicExc('noreturn', None)
        s.goto(st, fr.target)
        return None
    def goto(s, st, bb):
        fr = st.stack[-1].copy(); fr.bb = bb; fr.si = 0
        v = dict(fr.visits); v[bb] = v.get(bb, 0) + 1; fr.visits = v
        if v[bb] > s.ctx.unroll: raise Undecided('loop limit in %s' % fr.inst['path'])
        st.stack = st.stack[:-1] + (fr,)
    def run(s, inst, args, st=None, keep=None):
        st = st or State(s.ctx)
        st.ctx = s.ctx
        s.enter(st, inst, args, None, None)
        return s.drive([st])
    def drive(s, work):
        out = []; ctx = s.ctx; n = 0
        while work:
            st = work.pop()
            try:
                while True:
                    s.steps += 1; n += 1
                    if n > ctx.max_steps: raise Undecided('step budget')
                    if ctx.deadline and n % 256 == 0 and time.time() > ctx.deadline: raise Undecided('time budget')
                    try: r = s.step(st)
                    except Fork as f:
                        nxt = []
                        for a in f.alts:
                            c = st.clone()
                            if apply_alt(c, a): nxt.append(c)
                        s.states += len(nxt)
                        if not nxt: st = None; break
                        if len(out) + len(work) + len(nxt) > ctx.max_states: raise Undecided('state budget')
                        work.extend(reversed(nxt[1:]))
                        st = nxt[0]
                        continue
                    if r is not None:
                        if isinstance(r, Outcome): out.append(r)
                        break
            except PanicExc as e:
                sp = e.span
                if sp is None and st.stack:
                    sp = s.cur_span(st)
                out.append(Outcome('panic', None, st, (e.kind, sp, e.msg, s.where(st))))
            except Infeasible: pass
            except Undecided as e:
                out.append(Outcome('cut', None, st, (str(e), s.cur_span(st), s.where(st))))
                if str(e) in ('step budget', 'time budget', 'state budget'):
                    return out
        return out
    def where(s, st): return ' > '.join(f.inst['path'] for f in st.stack if f.inst)
    def cur_span(s, st):
        for fr in reversed(st.stack):
            if fr.body is None or fr.inst is None or not fr.inst.get('local', True): continue
            b = fr.body['blocks'][fr.bb]
            if fr.si < len(b['s']):
                x = b['s'][fr.si]
                if x[0] == '=': return x[3]
            for x in reversed(b['t']):
                if isinstance(x, list) and len(x) == 3 and isinstance(x[0], str): return x
            return fr.inst['span']
        return None
    # -- steps
    def step(s, st):
        fr = st.stack[-1]
        if fr.model is not None: return s.model_step(st, fr)
        b = fr.body['blocks'][fr.bb]
        if fr.si < len(b['s']):
            x = b['s'][fr.si]
            if x[0] == '=':
                v = s.rvalue(st, fr, x[2])
                cell, path, view = s.loc(st, fr, x[1])
                store(st, s.ctx, cell, path, v)
            elif x[0] == 'discr':
                cell, path, view = s.loc(st, fr, x[1])
                v = load(st, s.ctx, cell, path)
                store(st, s.ctx, cell, path, VAgg(v.ty, x[2], v.fields))
            n = Frame(fr.inst, fr.body, fr.bb, fr.si + 1, fr.fid, fr.dest, fr.target, fr.visits)
            st.stack = st.stack[:-1] + (n,)
            return None
        t = b['t']; k = t[0]
        if k == 'goto': s.goto(st, t[1]); return None
        if k == 'switch':
            v = s.ival(st, fr, t[1])
            if not isinstance(v, Poly): raise Undecided('switch on %s' % type(v).__name__)
            ty = s.p.ty[t[2]]
            lo, hi = int_range(ty)
            n = hi - lo + 1
            for val, bb in t[3]:
                val = int(val)
                if val > hi: val -= n
                if decide_eq0(st, v - val):
                    s.goto(st, bb); return None
            s.goto(st, t[4]); return None
        if k == 'ret':
            v = st.mem.get((fr.fid, 0), UNIT)
            return s.pop(st, v)
        if k == 'assert':
            v = s.ival(st, fr, t[1])
            if decide_eq0(st, v - int(t[2])): s.goto(st, t[5]); return None
            raise PanicExc('assert:' + t[3], t[7] if len(t) > 7 else None)
        if k == 'drop':
            return s.do_drop(st, fr, t)
        if k == 'call': return s.do_call(st, fr, t)
        if k == 'unreachable': raise Infeasible()
        raise PanicExc(k)
    def do_drop(s, st, fr, t):
        inst = s.p.inst.get(t[3]) if t[3] is not None else None
        if inst is None or inst.get('empty_shim') or s.drop_trivial(t[4]):
            s.goto(st, t[2]); return None
        hook = s.ctx_drop(st, fr, t, inst)
        if hook: s.goto(st, t[2]); return None
        if inst['body'] is None or not s.drop_local(t[4]):
            s.goto(st, t[2]); return None
        cell, path, view = s.loc(st, fr, t[1])
        v = raw_load(st, s.ctx, cell, path)
        if v is UNINIT: s.goto(st, t[2]); return None
        s.enter(st, inst, [VRef(cell, path, view)], None, t[2])
        return None
    def ctx_drop(s, st, fr, t, inst): return False
    def drop_local(s, ty, seen=None):
        """does dropping this type run code of this repository"""
        return ty in s.local_drops()
    def local_drops(s):
        r = getattr(s.p, '_ldrops', None)
        if r is not None: return r
        base = set()
        for i in s.p.inst.values():
            if i['local'] and i.get('trait') == 'std::ops::Drop': base.add(i.get('self'))
        out = set()
        changed = True
        while changed:
            changed = False
            for t in s.p.ty.values():
                if t['id'] in out: continue
                k = t['k']; hit = False
                if k == 'adt':
                    hit = t['path'] in base or t['id'] in base or any(t['name'] == b or t['path'] == b for b in base)
                    if not hit and t['variants']:
                        hit = any(f[1] in out for v in t['variants'] for f in v['fields'])
                    if not hit and t.get('targs') and t['path'] in ('std::vec::Vec', 'std::boxed::Box'):
                        hit = any(x in out for x in t['targs'])
                elif k in ('tuple', 'closure'): hit = any(f in out for f in t['fields'])
                elif k in ('array', 'slice'): hit = t['of'] in out
                if hit: out.add(t['id']); changed = True
        s.p._ldrops = out
        return out
    def drop_trivial(s, ty): return not s.drop_local(ty)
    def do_call(s, st, fr, t):
        ctx = s.ctx
        inst = s.p.inst[t[1]] if t[1] is not None else None
        if inst is None:
            f = s.ival(st, fr, t[2])
            if isinstance(f, VFn): inst = s.p.inst[f.inst]
            else: raise Undecided('indirect call')
        args = [s.operand(st, fr, o) for o in t[3]]
        cell, path, view = s.loc(st, fr, t[4])
        dest = (cell, path); target = t[5]
        return s.call(st, inst, args, dest, target, s.place_ty(fr, t[4]), t[7] if len(t) > 7 else None)
    def place_ty(s, fr, pl):
        ty = fr.body['locals'][pl[0]]
        for e in pl[1]:
            t = s.p.ty[ty]
            if e[0] == '*': ty = t['of'] if 'of' in t else t['targs'][0]
            elif e[0] == 'f': ty = e[2]
            elif e[0] in ('i', 'c'): ty = t['of']
        return ty
    def call(s, st, inst, args, dest, target, rty, span=None):
        ctx = s.ctx
        st_ret = None
        for h in ctx.hooks:
            r = h(s, st, inst, args, rty, span)
            if r is NotImplemented: continue
            return s.finish_call(st, r, dest, target)
        import models
        m = models.lookup(inst)
        if m is not None:
            r = m(s, st, inst, args, rty, span)
            if r is not NotImplemented:
                if isinstance(r, models.PushModel):
                    st.nframe += 1
                    st.stack = st.stack + (Frame(None, None, 0, 0, st.nframe, dest, target, None, (r.fn, r.data, 0, None)),)
                    return None
                if isinstance(r, models.TailCall):
                    s.call(st, r.inst, r.args, dest, target, rty, span)
                    return None
                return s.finish_call(st, r, dest, target)
        if inst['body'] is not None:
            s.enter(st, inst, args, dest, target); return None
        if target is None: raise PanicExc('diverge', span, inst['path'])
        if ctx.auto_havoc:
            st.nframe += 1
            st.taint = st.taint | {'unmodelled ' + inst['path']}
            ctx.havocked[inst['path']] = ctx.havocked.get(inst['path'], 0) + 1
            return s.finish_call(st, VLazy(rty, 'havoc%d' % st.nframe), dest, target)
        raise Undecided('unmodelled ' + inst['path'])
    def finish_call(s, st, v, dest, target):
        if target is None: raise PanicExc('diverge')
        if dest is not None: store(st, s.ctx, dest[0], dest[1], v)
        if st.stack[-1].model is not None:
            top = st.stack[-1]; n = top.copy()
            n.model = (top.model[0], top.model[1], top.model[2], v)
            st.stack = st.stack[:-1] + (n,)
            return None
        s.goto(st, target)
        return None
    def model_step(s, st, fr):
        fn, data, phase, last = fr.model
        r = fn(s, st, data, phase, last)       # may raise Fork before mutating
        if r[0] == 'ret':
            if fr.dest is not None and len(st.stack) > 1 and st.stack[-2].model is None: store(st, s.ctx, fr.dest[0], fr.dest[1], r[1])
            st.stack = st.stack[:-1]
            if not st.stack: return Outcome('ret', r[1], st)
            top = st.stack[-1]
            if top.model is not None:
                n = top.copy(); n.model = (top.model[0], top.model[1], top.model[2], r[1])
                st.stack = st.stack[:-1] + (n,)
                return None
            s.goto(st, fr.target)
            return None
        if r[0] == 'call':
            _, inst, args, data, phase = r
            n = fr.copy(); n.model = (fn, data, phase, None)
            st.stack = st.stack[:-1] + (n,)
            rty = inst['body']['locals'][0] if inst['body'] else None
            s.call(st, inst, args, None, 0, rty)
            return None
        if r[0] == 'loop':
            n = fr.copy(); n.model = (fn, r[1], r[2], None)
            st.stack = st.stack[:-1] + (n,)
            return None
        raise Exception(r)
