"""Integer term domain of the abstract interpreter.

A term is a polynomial with integer coefficients over interned atoms.  Atoms are
  sym : an unknown with an interval (an input, a memory leaf at analysis entry, a havocked leaf)
  div : floor(P / c) for a polynomial P and constant c > 1 (shifts, masks, wrapping, division)
  op  : an uninterpreted operation over terms with an interval transfer function
Machine arithmetic is expressed exactly in that language (x mod c = x - c*floor(x/c), two's-complement
masks as sums of such slices), so syntactically different but equal computations get one normal form.
"""
from math import gcd

class Atom:
    __slots__ = ('id', 'kind', 'name', 'lo', 'hi', 'args', 'c', 'deps', 'tags')
    def __repr__(self): return show_atom(self.id)

ATOMS = []
_intern = {}

def _mk(kind, key, name, lo, hi, args, c, deps, tags=frozenset()):
    k = (kind, key)
    a = _intern.get(k)
    if a is not None:
        return a
    at = Atom()
    at.id = len(ATOMS); at.kind = kind; at.name = name; at.lo = lo; at.hi = hi
    at.args = args; at.c = c; at.tags = tags
    at.deps = frozenset([at.id]) if kind == 'sym' else deps | {at.id}
    ATOMS.append(at)
    _intern[k] = at.id
    return at.id

class Poly:
    __slots__ = ('t', '_k', '_d')
    def __init__(s, t):
        s.t = t; s._k = None; s._d = None
    def key(s):
        if s._k is None: s._k = tuple(sorted(s.t.items()))
        return s._k
    def __hash__(s): return hash(s.key())
    def __eq__(s, o): return isinstance(o, Poly) and s.t == o.t
    def __ne__(s, o): return not s == o
    def is_const(s): return not s.t or (len(s.t) == 1 and () in s.t)
    def const(s): return s.t.get((), 0)
    def deps(s):
        if s._d is None:
            d = set()
            for m in s.t:
                for a in m: d |= ATOMS[a].deps
            s._d = frozenset(d)
        return s._d
    def atoms(s):
        d = set()
        for m in s.t: d.update(m)
        return d
    def __add__(s, o):
        if isinstance(o, int):
            if o == 0: return s
            o = C(o)
        if len(s.t) < len(o.t): s, o = o, s
        t = dict(s.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v: t[m] = v
            else: t.pop(m, None)
        return Poly(t)
    __radd__ = __add__
    def __neg__(s): return Poly({m: -c for m, c in s.t.items()})
    def __sub__(s, o):
        if isinstance(o, int): return s + (-o)
        return s + (-o)
    def __rsub__(s, o): return (-s) + o
    def __mul__(s, o):
        if isinstance(o, int):
            if o == 0: return ZERO
            if o == 1: return s
            return Poly({m: c * o for m, c in s.t.items()})
        if o.is_const(): return s * o.const()
        if s.is_const(): return o * s.const()
        t = {}
        for m, c in s.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n))
                v = t.get(k, 0) + c * d
                if v: t[k] = v
                else: t.pop(k, None)
        return Poly(t)
    __rmul__ = __mul__
    def __repr__(s): return show(s)

def C(n): return Poly({(): n} if n else {})
ZERO = C(0); ONE = C(1)

def Sym(name, lo, hi, tags=frozenset()):
    return Poly({(_mk('sym', (name, lo, hi), name, lo, hi, None, None, None, tags),): 1})

def atom_poly(i): return Poly({(i,): 1})

def op_atom(name, args, extra=None):
    """uninterpreted operation; args are Polys; its interval transfer function is OPIV[name]"""
    deps = set()
    for a in args: deps |= a.deps()
    key = (name, tuple(a.key() for a in args), extra)
    return Poly({(_mk('op', key, name, None, None, tuple(args), extra, frozenset(deps)),): 1})

def fdiv(p, c):
    """floor(p/c) in canonical form (state independent part)"""
    assert c > 0
    while True:
        if c == 1: return p
        if p.is_const(): return C(p.const() // c)
        out = {}; rest = {}
        for m, k in p.t.items():
            if m == ():
                q, r = divmod(k, c)
                if q: out[m] = q
                if r: rest[m] = r
            elif k % c == 0: out[m] = k // c
            else: rest[m] = k
        rp = Poly(rest)
        if rp.is_const():
            return Poly(out)
        if out:
            return Poly(out) + fdiv(rp, c)
        g = c
        for m, k in rest.items():
            if m != (): g = gcd(g, k)
        if g > 1:
            p = Poly({m: (k // g) for m, k in rest.items() if k // g})
            c //= g
            continue
        # flatten a single nested floor with coefficient 1
        nest = None
        for m, k in rest.items():
            if len(m) == 1 and k == 1 and ATOMS[m[0]].kind == 'div':
                if nest is not None: nest = None; break
                nest = m
        if nest is not None:
            a = ATOMS[nest[0]]
            R = Poly({m: k for m, k in rest.items() if m != nest})
            p = R * a.c + a.args[0]
            c = c * a.c
            continue
        return Poly({(_mk('div', (rp.key(), c), None, None, None, (rp,), c, rp.deps()),): 1})

def show_atom(i):
    a = ATOMS[i]
    if a.kind == 'sym': return a.name
    if a.kind == 'div': return 'floor((%s)/%d)' % (show(a.args[0]), a.c)
    return '%s(%s)' % (a.name, ', '.join(show(x) for x in a.args))

def show(p):
    if not p.t: return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (len(x[0]), x[0])):
        body = '*'.join(show_atom(a) for a in m)
        if not m: s = str(c)
        elif c == 1: s = body
        elif c == -1: s = '-' + body
        else: s = '%d*%s' % (c, body)
        out.append(s)
    r = ' + '.join(out).replace('+ -', '- ')
    return r if len(r) < 400 else r[:400] + '...'

# ---- interval helpers -------------------------------------------------------------------------
def imul(a, b):
    v = (a[0]*b[0], a[0]*b[1], a[1]*b[0], a[1]*b[1])
    return (min(v), max(v))
def iscale(a, k): return (a[0]*k, a[1]*k) if k >= 0 else (a[1]*k, a[0]*k)
def iadd(a, b): return (a[0]+b[0], a[1]+b[1])
def imeet(a, b): return (max(a[0], b[0]), min(a[1], b[1]))

EVALOPS = {}   # name -> f(extra, *ints)
OPIV = {}      # name -> f(extra, *intervals) -> interval
def evalp(p, val, memo=None):
    """value of a term under a valuation {symbol id: int}"""
    if memo is None: memo = {}
    r = 0
    for m, c in p.t.items():
        v = c
        for a in m: v *= eval_atom(a, val, memo)
        r += v
    return r
def eval_atom(a, val, memo):
    v = memo.get(a)
    if v is None:
        at = ATOMS[a]
        if at.kind == 'sym': v = val[a]
        elif at.kind == 'div': v = evalp(at.args[0], val, memo) // at.c
        else: v = EVALOPS[at.name](at.c, *[evalp(x, val, memo) for x in at.args])
        memo[a] = v
    return v
