"""Abstract state: memory, interval refinements, relational facts, disequalities, substitutions, events."""
from terms import *
from terms import _mk
from math import gcd

class Infeasible(Exception): pass

def xor1(*xs):
    """exclusive or of binary digits, in a canonical form: x + 1 - 2x aside, a set of distinct digits and a parity"""
    par = 0; S = {}
    for x in xs:
        if x.is_const(): par ^= x.const(); continue
        c = x.const()
        if c == 1 and len(x.t) == 2: x = ONE - x; par ^= 1      # the opposite digit
        if len(x.t) == 1:
            (m, k), = x.t.items()
            if k == 1 and len(m) == 1 and ATOMS[m[0]].name == 'xor1':
                for y in ATOMS[m[0]].args:
                    if S.pop(y.key(), None) is None: S[y.key()] = y
                continue
        if S.pop(x.key(), None) is None: S[x.key()] = x
    if not S: return C(par)
    v = list(S.values())
    if len(v) == 1: r = v[0]
    else:
        for i, x in enumerate(v):                            # x and 1-x in unusual shapes
            for y in v[i + 1:]:
                if (x + y).is_const(): return xor1(*([C(par ^ 1)] + [z for z in v if z is not x and z is not y]))
        r = op_atom('xor1', sorted(v, key=lambda p: p.key()))
    return ONE - r if par else r

class State:
    __slots__ = ('mem', 'iv', 'facts', 'neq', 'sub', 'choice', 'events', 'taint', 'nframe', 'stack', 'notes', '_bm', 'ctx', 'trace')
    def __init__(s, ctx=None):
        s.mem = {}; s.iv = {}; s.facts = {}; s.neq = frozenset(); s.sub = {}; s.choice = {}
        s.events = (); s.taint = frozenset(); s.nframe = 0; s.stack = (); s.notes = (); s._bm = {}
        s.ctx = ctx; s.trace = ()
    def clone(s):
        n = State.__new__(State)
        n.mem = dict(s.mem); n.iv = dict(s.iv); n.facts = dict(s.facts); n.neq = s.neq; n.sub = dict(s.sub)
        n.choice = dict(s.choice); n.events = s.events; n.taint = s.taint; n.nframe = s.nframe; n.stack = s.stack
        n.notes = s.notes; n._bm = dict(s._bm); n.ctx = s.ctx; n.trace = s.trace
        return n

    # ---- normalisation under substitutions --------------------------------------------------
    def norm(s, p):
        if not s.sub or p.is_const(): return p
        if not (p.deps() & s.sub.keys()): return p
        r = ZERO
        for m, c in p.t.items():
            if not m: r = r + c; continue
            v = C(c)
            for a in m: v = v * s.norm_atom(a)
            r = r + v
        return r
    def norm_atom(s, a):
        at = ATOMS[a]
        if not (at.deps & s.sub.keys()): return atom_poly(a)
        x = s.sub.get(a)
        if x is not None: return s.norm(x)
        if at.kind == 'div': return s.fdiv(s.norm(at.args[0]), at.c)
        return s.mkop(at.name, [s.norm(x) for x in at.args], at.c)
    def mkop(s, name, args, extra=None):
        if all(a.is_const() for a in args):
            if name == 'sel':      # an unknown table entry whose index became known
                nm = extra[0]
                for a in args: nm = nm.replace('[]', '[%d]' % a.const(), 1)
                return Sym(nm, extra[1], extra[2])
            if name != 'f2i': return C(EVALOPS[name](extra, *[a.const() for a in args]))
        if name == 'xor1': return xor1(*args)
        return op_atom(name, args, extra)
    def fdiv(s, p, c):
        """floor(p/c), collapsed when the state confines p to one period"""
        p = s.norm(p)
        d = fdiv(p, c)
        if d.is_const(): return d
        for m, k in list(d.t.items()):
            if len(m) == 1 and ATOMS[m[0]].kind == 'div':
                b = s.atom_iv(m[0], 2)
                if b[0] == b[1]:
                    d = Poly({x: y for x, y in d.t.items() if x != m}) + k * b[0]
        # split off an aligned part: p = A + B with c | g*..., B confined below the alignment of A
        if not d.is_const():
            d = s._align(d)
        return d
    def _align(s, d):
        # floor((g*A + B)/c) with g | c and 0 <= B < g  ->  floor(A/(c/g))
        for m, k in list(d.t.items()):
            if len(m) == 1 and ATOMS[m[0]].kind == 'div':
                at = ATOMS[m[0]]
                inner, c = at.args[0], at.c
                gs = set()
                for mm, kk in inner.t.items():
                    if mm:
                        g = gcd(kk, c)
                        if g > 1: gs.add(g)
                for g in sorted(gs, reverse=True):
                    A = {}; B = {}
                    for mm, kk in inner.t.items():
                        if mm and kk % g == 0: A[mm] = kk // g
                        elif not mm:
                            q, r = divmod(kk, g)
                            if q: A[mm] = q
                            if r: B[mm] = r
                        else: B[mm] = kk
                    B = Poly(B)
                    b = s.bound(B, 2)
                    q0, q1 = b[0] // g, b[1] // g
                    if q0 == q1:
                        A = Poly(A) + q0
                        rest = Poly({x: y for x, y in d.t.items() if x != m})
                        return rest + s.fdiv(A, c // g) * k
        return d
    def mod(s, p, c):
        return p - s.fdiv(p, c) * c

    # ---- intervals -----------------------------------------------------------------------------
    def atom_iv(s, a, depth):
        at = ATOMS[a]
        r = s.iv.get(a)
        x = s.sub.get(a)
        if x is not None:
            b = s.bound(x, min(depth, 1))
            return imeet(b, r) if r else b
        if at.kind == 'sym':
            b = (at.lo, at.hi)
        elif at.kind == 'div':
            key = ('a', a, depth)
            b = s._bm.get(key)
            if b is None:
                x = s.bound(at.args[0], depth)
                b = (x[0] // at.c, x[1] // at.c)
                s._bm[key] = b
        else:
            b = OPIV[at.name](at.c, *[s.bound(x, depth) for x in at.args])
        return imeet(b, r) if r else b
    def naive(s, p, depth):
        lo = hi = 0
        for m, c in p.t.items():
            if not m: lo += c; hi += c; continue
            if len(m) == 1: b = s.atom_iv(m[0], depth)
            else:
                b = (1, 1); i = 0
                while i < len(m):
                    j = i
                    while j < len(m) and m[j] == m[i]: j += 1
                    a = s.atom_iv(m[i], depth); n = j - i
                    if n > 1:
                        x, y = a[0]**n, a[1]**n
                        if n % 2 == 0 and a[0] <= 0 <= a[1]: a = (0, max(x, y))
                        else: a = (min(x, y), max(x, y))
                    b = imul(b, a); i = j
            b = iscale(b, c)
            lo += b[0]; hi += b[1]
        return (lo, hi)
    def vertex(s, p, depth):
        """exact hull of a multilinear polynomial over the box of its non-linear atoms"""
        nl = set(); lin = {}; rest = {}
        for m, c in p.t.items():
            if len(m) > 1:
                if len(set(m)) != len(m): return None
                nl.update(m)
        if not nl or len(nl) > 6: return None
        for m, c in p.t.items():
            if len(m) == 1 and m[0] not in nl: lin[m] = c
            else: rest[m] = c
        base = s.naive(Poly(lin), depth)
        nl = sorted(nl); box = [s.atom_iv(a, depth) for a in nl]
        lo = hi = None
        for bits in range(1 << len(nl)):
            v = {a: box[i][(bits >> i) & 1] for i, a in enumerate(nl)}
            t = 0
            for m, c in rest.items():
                x = c
                for a in m: x *= v[a]
                t += x
            lo = t if lo is None else min(lo, t)
            hi = t if hi is None else max(hi, t)
        return iadd(base, (lo, hi))
    def bound(s, p, depth=2):
        if p.is_const():
            c = p.const(); return (c, c)
        p = s.norm(p)
        if p.is_const():
            c = p.const(); return (c, c)
        key = (p.key(), depth)
        r = s._bm.get(key)
        if r is not None: return r
        s._bm[key] = s.naive(p, 0)    # guards recursion
        r = s._bound(p, depth)
        g = 0
        for m, c in p.t.items():
            if m:
                g = gcd(g, c)
                if g == 1: break
        if g > 1:                     # only values congruent to the constant term are possible
            off = p.const()
            r = (-((off - r[0]) // g) * g + off, (r[1] - off) // g * g + off)
        s._bm[key] = r
        return r
    def _bound(s, p, depth):
        r = s.naive(p, depth)
        v = s.vertex(p, depth)
        if v is not None: r = imeet(r, v)
        if s.facts:
            f = s.lookup(p)
            if f: r = imeet(r, f)
        if depth <= 0 or r[0] >= r[1]: return r
        # relax floor atoms: D = (X - rem)/c, 0 <= rem < c
        divs = []
        for a in p.atoms():
            if ATOMS[a].kind == 'div': divs.append(a)
        if divs and len(p.t) > 1 or (divs and any(len(m) > 1 for m in p.t)):
            divs.sort(reverse=True)
            for D in divs[:6]:
                A = {}; B = {}
                ok = True
                for m, c in p.t.items():
                    n = m.count(D)
                    if n == 0: B[m] = c
                    elif n == 1:
                        l = list(m); l.remove(D); A[tuple(l)] = c
                    else: ok = False
                if not ok: continue
                A = Poly(A); B = Poly(B)
                X, c = ATOMS[D].args[0], ATOMS[D].c
                alts = [(X, c)]
                for E in divs:
                    if E != D and ATOMS[E].args[0] == X and c % ATOMS[E].c == 0:
                        alts.append((atom_poly(E), c // ATOMS[E].c))
                for X, c in alts:
                    ab = s.bound(A, depth - 1) if not A.is_const() else (A.const(), A.const())
                    w = iadd(s.bound(A * X + B * c, depth - 1), imul(ab, (-(c - 1), 0)))
                    r = imeet(r, (-((-w[0]) // c), w[1] // c))
                    if r[0] >= r[1]: return r
        # use stored facts: eliminate one monomial
        if s.facts:
            nf = 0
            mons = set(m for m in p.t if m)
            for k, (q, lo, hi) in s.facts.items():
                common = [m for m in q.t if m in mons]
                if not common: continue
                new = [m for m in q.t if m and m not in mons]
                if new and depth < 2: continue
                nf += 1
                if nf > 24: break
                tried = set()
                for m in common[:3]:
                    pc, qc = p.t[m], q.t[m]
                    g = gcd(pc, qc)
                    sp, sq = abs(qc) // g, (pc // g) * (1 if qc > 0 else -1)
                    if (sp, sq) in tried: continue
                    tried.add((sp, sq))
                    rest = p * sp - q * sq
                    rb = s.bound(rest, depth - 1)
                    w = iadd(rb, iscale((lo, hi), sq))
                    r = imeet(r, (-((-w[0]) // sp), w[1] // sp))
                    if r[0] >= r[1]: return r
        return r
    def lookup(s, p):
        f, k, sg, off = prim(p)
        e = s.facts.get(f.key())
        if e is None: return None
        b = iscale((e[1], e[2]), k * sg)
        return (b[0] + off, b[1] + off)
    def cst(s, p):
        """constant value of p if the state determines it"""
        p = s.norm(p)
        if p.is_const(): return p.const()
        b = s.bound(p, 1)
        if b[0] == b[1]: return b[0]
        return None
    def simp(s, p):
        p = s.norm(p)
        if p.is_const(): return p
        b = s.bound(p, 1)
        return C(b[0]) if b[0] == b[1] else p

    # ---- learning ---------------------------------------------------------------------------------
    def assume_ge0(s, p):
        p = s.norm(p)
        if p.is_const(): return p.const() >= 0
        for d in (0, 1, 2):
            b = s.bound(p, d)
            if b[0] >= 0: return True
            if b[1] < 0: return False
        if b[1] == 0: return s.assume_eq0(p)
        q, k, sg, off = prim(p)      # p = sg*k*q + off >= 0
        if sg > 0: lo, hi = -(off // k), None       # q >= ceil(-off/k)
        else: lo, hi = None, off // k
        return s._learn(q, lo, hi)
    def note_ge0(s, p):
        """record p >= 0 as a fact of its own even where it follows from others"""
        p = s.norm(p)
        if p.is_const(): return p.const() >= 0
        q, k, sg, off = prim(p)
        return s._learn(q, -(off // k), None) if sg > 0 else s._learn(q, None, off // k)
    def _learn(s, q, lo, hi):
        s._bm = {}
        if len(q.t) == 1:
            (m, c), = q.t.items()
            if len(m) == 1:
                return s._learn_atom(m[0], lo, hi)
        e = s.facts.get(q.key())
        if e:
            l0, h0 = e[1], e[2]
        else:
            l0, h0 = s.bound(q, 2)
        l1 = l0 if lo is None else max(l0, lo)
        h1 = h0 if hi is None else min(h0, hi)
        if l1 > h1: return False
        if l1 == h1:
            sol = s.solve(q - l1)
            if sol:
                s.facts.pop(q.key(), None)
                return s._subst(*sol)
        s.facts[q.key()] = (q, l1, h1)
        s._bm = {}
        # propagate into linear atoms
        for m, c in q.t.items():
            if len(m) == 1:
                rest = Poly({x: y for x, y in q.t.items() if x != m})
                rb = s.bound(rest, 1)
                # c*a in [l1 - rb.hi, h1 - rb.lo]
                L, H = l1 - rb[1], h1 - rb[0]
                if c > 0: nl, nh = -((-L) // c), H // c
                else: nl, nh = -(H // (-c)), (-L) // (-c)
                cur = s.atom_iv(m[0], 1)
                if nl > cur[0] or nh < cur[1]:
                    if not s._learn_atom(m[0], nl if nl > cur[0] else None, nh if nh < cur[1] else None): return False
        return True
    def _learn_atom(s, a, lo, hi):
        at = ATOMS[a]
        cur = s.atom_iv(a, 1)
        l1 = cur[0] if lo is None else max(cur[0], lo)
        h1 = cur[1] if hi is None else min(cur[1], hi)
        if l1 > h1: return False
        s.iv[a] = (l1, h1)
        s._bm = {}
        if at.kind == 'sym':
            # disequalities at the ends
            changed = True
            while changed:
                changed = False
                for v in (l1, h1):
                    if ((a, v)) in s.neq:
                        if v == l1: l1 += 1
                        else: h1 -= 1
                        if l1 > h1: return False
                        changed = True
            s.iv[a] = (l1, h1)
            if l1 == h1 and a not in s.sub:
                return s._subst(a, C(l1))
        elif at.kind == 'div':
            x = at.args[0]; c = at.c
            if lo is not None and not s.assume_ge0(x - c * l1): return False
            if hi is not None and not s.assume_ge0(C(c * h1 + c - 1) - x): return False
        if l1 == h1 and a not in s.sub and at.kind != 'sym':
            return s._subst(a, C(l1))
        return True
    def _subst(s, a, p):
        at = ATOMS[a]
        if at.kind == 'sym': b = s.iv.get(a) or (at.lo, at.hi)
        else: b = s.atom_iv(a, 1)
        s.sub[a] = p
        s._bm = {}
        if at.kind == 'div':
            x = s.norm(at.args[0])
            if not s.assume_ge0(x - p * at.c): return False
            if not s.assume_ge0(p * at.c + (at.c - 1) - x): return False
        if not s.assume_ge0(p - b[0]): return False
        if not s.assume_ge0(C(b[1]) - p): return False
        # re-express facts
        for k, (q, lo, hi) in list(s.facts.items()):
            if a in q.deps():
                s.facts.pop(k, None)
                s._bm = {}
                n = s.norm(q)
                if n.is_const():
                    if not (lo <= n.const() <= hi): return False
                    continue
                if not s.assume_ge0(n - lo): return False
                if not s.assume_ge0(C(hi) - n): return False
        for x, (lo, hi) in list(s.iv.items()):
            if ATOMS[x].kind != 'sym' and a in ATOMS[x].deps and x != a:
                n = s.norm_atom(x)
                s.iv.pop(x, None)
                s._bm = {}
                if n.is_const():
                    if not (lo <= n.const() <= hi): return False
                    continue
                if not s.assume_ge0(n - lo): return False
                if not s.assume_ge0(C(hi) - n): return False
        for k in s.neq:
            if k[0] == 'p' and a in k[1].deps():
                n = s.norm(k[1])
                if n.is_const():
                    if n.const() == 0: return False
                    s.neq = s.neq - {k}
                elif n != k[1]:
                    s.neq = s.neq - {k}
                    if not s.assume_ne0(n): return False
        return True
    def assume_eq0(s, p):
        p = s.norm(p)
        if p.is_const(): return p.const() == 0
        b = s.bound(p, 2)
        if b[0] > 0 or b[1] < 0: return False
        if s.known_ne0(p): return False
        # solve for a symbol occurring linearly with coefficient +-1 and nowhere else
        q, k, sg, off = prim(p)
        if off % k: return False
        v = (-off // k) if sg > 0 else off // k
        if s.solve(q - v): return s._subst(*s.solve(q - v))
        return s._learn(q, v, v)
    def solve(s, p):
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and c in (1, -1):
                a = m[0]
                rest = Poly({x: y for x, y in p.t.items() if x != m})
                if a in rest.deps(): continue
                sym = ATOMS[a].kind == 'sym'
                if best is None or (sym, a) > best[2]: best = (a, (rest * -1) if c == 1 else rest, (sym, a))
        return best[:2] if best else None
    def known_ne0(s, p):
        if s.neq:
            q = canon_sign(p)
            if ('p', q) in s.neq: return True
        return False
    def assume_ne0(s, p):
        p = s.norm(p)
        if p.is_const(): return p.const() != 0
        b = s.bound(p, 2)
        if b[0] > 0 or b[1] < 0: return True
        if b == (0, 0): return False
        if b[0] == 0: return s.assume_ge0(p - 1)
        if b[1] == 0: return s.assume_ge0(-p - 1)
        s.neq = s.neq | {('p', canon_sign(p))}
        if len(p.t) <= 2:
            (a, v) = single_root(p)
            if a is not None: s.neq = s.neq | {(a, v)}
        return True

    # ---- deciding comparisons --------------------------------------------------------------------
    def sign(s, p):
        """returns (can be <0, can be 0, can be >0)"""
        p = s.norm(p)
        if p.is_const():
            c = p.const(); return (c < 0, c == 0, c > 0)
        for d in (0, 1, 2, 3):
            b = s.bound(p, d)
            if b[0] > 0 or b[1] < 0 or b == (0, 0): break
        z = b[0] <= 0 <= b[1]
        if z and s.known_ne0(p): z = False
        if z and not (s.div_exact_ok(p)): z = False
        return (b[0] < 0, z, b[1] > 0)
    def div_exact_ok(s, p):
        g = 0
        for m, c in p.t.items():
            if m: g = gcd(g, c)
        return g <= 1 or p.const() % g == 0
    def prove_ge0(s, p, depth=3):
        p = s.norm(p)
        for d in range(depth + 1):
            b = s.bound(p, d)
            if b[0] >= 0: return True
            if b[1] < 0: return False
        return s.entails(p)
    def entails(s, p):
        import linrel
        key = ('lp', p.key())
        r = s._bm.get(key)
        if r is None:
            r = linrel.entails_ge0(s, p)
            if not r:
                q = s.tidy(p)
                if q != p: r = q.is_const() and q.const() >= 0 or s.bound(q, 2)[0] >= 0 or linrel.entails_ge0(s, q)
            s._bm[key] = r
        return r
    def tidy(s, p):
        """identify floors of one term by nested moduli that the state makes equal up to a factor"""
        p = s.norm(p)
        for a in sorted(x for m in p.t for x in m if ATOMS[x].kind == 'div'):
            r = s.align_fact(a)
            if r is not None:
                n = ZERO
                for m, k in p.t.items():
                    v = C(k)
                    for x in m: v = v * (r if x == a else atom_poly(x))
                    n = n + v
                p = n
        return p
    def align_fact(s, a):
        """floor(X/c) when a known relation lo <= X - c*Y <= hi confines X - c*Y to one period"""
        x, c = s.norm(ATOMS[a].args[0]), ATOMS[a].c
        cands = list(s.facts.values())
        for q, lo, hi in cands:
            for m in q.t:
                if m in x.t and x.t[m] % q.t[m] == 0:
                    k = x.t[m] // q.t[m]
                    d = x - q * k
                    if all(v % c == 0 for mm, v in d.t.items()):
                        l, h = (lo * k, hi * k) if k > 0 else (hi * k, lo * k)
                        if l // c == h // c and a not in d.deps():
                            return Poly({mm: v // c for mm, v in d.t.items()}) + l // c
                    break
        divs = set()
        for q, lo, hi in cands: divs |= {e for e in q.deps() if ATOMS[e].kind == 'div'}
        for e in divs:
            E = ATOMS[e]
            if E.c > c and E.c % c == 0 and E.args[0] == x and e != a:
                b = s.bound(x - atom_poly(e) * E.c, 2)
                if b[0] // c == b[1] // c: return atom_poly(e) * (E.c // c) + b[0] // c
        return None
    def prove_eq(s, a, b):
        p = s.norm(a - b)
        if p.is_const(): return p.const() == 0
        for d in range(4):
            x = s.bound(p, d)
            if x == (0, 0): return True
            if x[0] > 0 or x[1] < 0: return False
        q = s.tidy(p)
        if q != p:
            if q.is_const(): return q.const() == 0
            if s.bound(q, 2) == (0, 0): return True
            p = q
        g = 0
        for m, c in p.t.items():
            if m: g = gcd(g, c)
        if p.const() % g: return False
        # multiples of g only: |p| < g suffices
        return s.entails(p + (g - 1)) and s.entails(-p + (g - 1))

def canon_sign(p):
    k = p.key()
    for m, c in k:
        if m: return p if c > 0 else -p
    return p
def single_root(p):
    a = None
    for m, c in p.t.items():
        if m:
            if len(m) != 1: return (None, None)
            a = m[0]; k = c
    if a is None or ATOMS[a].kind != 'sym': return (None, None)
    c0 = p.const()
    if c0 % k: return (None, None)
    return (a, -c0 // k)
_prim = {}
def prim(p):
    """p = sg*k*q + off with q primitive, without constant, first coefficient positive"""
    r = _prim.get(p.key())
    if r: return r
    g = 0; first = None
    for m, c in p.key():
        if m:
            g = gcd(g, c)
            if first is None: first = c
    sg = 1 if first > 0 else -1
    q = Poly({m: c // g * sg for m, c in p.t.items() if m})
    r = (q, g, sg, p.const())
    if len(_prim) > 200000: _prim.clear()
    _prim[p.key()] = r
    return r
