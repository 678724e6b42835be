"""Linear-relation (convex polyhedra) entailment test of the numeric domain.

The relations an abstract state carries (ranges, learned linear facts, definitions of floor terms, product envelopes)
form a polyhedron over its monomials; `entails_ge0` decides whether p >= 0 on all of it, with exact rational
arithmetic (primal feasibility of the polyhedron cut with p <= -1)."""
from fractions import Fraction as Fr
from terms import *

def rows_for(st, p, maxrows=70, wide=False):
    rows = []; bounds = {}
    seen_m = set(); work = []; used_f = set(); defd = set()
    def need(q):
        for m in q.t:
            if m and m not in seen_m: seen_m.add(m); work.append(m)
    need(p)
    facts = [(k, st.norm(q), lo, hi) for k, (q, lo, hi) in st.facts.items()]
    while True:
        if not work and wide:      # floors with a learned range over terms already present
            wide = False
            for a in st.iv:
                if ATOMS[a].kind == 'div' and a not in defd and len(ATOMS[a].deps) <= 12:
                    need(atom_poly(a))
        if not work: break
        m = work.pop()
        for a in set(m):
            at = ATOMS[a]
            if at.kind == 'div' and a not in defd and len(rows) < maxrows:
                defd.add(a)
                x = st.norm(at.args[0])
                q = x - atom_poly(a) * at.c
                rows.append((q, 0, at.c - 1)); need(q)
        if len(m) == 2 and len(rows) < maxrows:
            a, b = m
            la, ha = st.atom_iv(a, 1); lb, hb = st.atom_iv(b, 1)
            A, B = atom_poly(a), atom_poly(b); AB = Poly({m: 1})
            rows.append((AB - A * lb - B * la, -la * lb, None))
            rows.append((AB - A * hb - B * ha, -ha * hb, None))
            rows.append((AB - A * hb - B * la, None, -la * hb))
            if a != b: rows.append((AB - A * lb - B * ha, None, -ha * lb))
            need(A); need(B)
        for f in facts:
            if f[0] in used_f: continue
            if m in f[1].t and len(rows) < maxrows:
                used_f.add(f[0])
                off = f[1].const()
                rows.append((f[1] - off, f[2] - off, f[3] - off)); need(f[1])
    for m in seen_m: bounds[m] = st.naive(Poly({m: 1}), 1)
    return rows, bounds

def infeasible(rows, bounds, depth=4):
    """True if no integer point satisfies all rows and bounds (rational relaxation, a few integrality splits)"""
    r = relax(rows, bounds)
    if r is True: return True
    if r is False or depth <= 0: return False
    frac = [m for m, v in r.items() if v.denominator != 1]
    if not frac: return False
    div = [m for m in frac if len(m) == 1 and ATOMS[m[0]].kind == 'div']
    m = min(div or frac, key=lambda m: bounds[m][1] - bounds[m][0])
    v = r[m]; f = v.numerator // v.denominator
    b1 = dict(bounds); b1[m] = (bounds[m][0], f)
    if not infeasible(rows, b1, depth - 1): return False
    b1[m] = (f + 1, bounds[m][1])
    return infeasible(rows, b1, depth - 1)

def relax(rows, bounds, maxpiv=400):
    """True if no rational point satisfies all rows and bounds, else a point (False when undetermined)"""
    vs = list(bounds); idx = {m: i for i, m in enumerate(vs)}; n = len(vs)
    lo = [Fr(bounds[m][0]) for m in vs]; hi = [Fr(bounds[m][1]) for m in vs]
    for i in range(n):
        if lo[i] > hi[i]: return True
    T = []; basic = []
    for q, l, h in rows:
        r = {}
        for m, c in q.t.items():
            if m: r[idx[m]] = Fr(c)
        k0 = q.const()
        lo.append(None if l is None else Fr(l - k0)); hi.append(None if h is None else Fr(h - k0))
        basic.append(len(lo) - 1); T.append(r)
    val = [lo[i] for i in range(n)] + [Fr(0)] * len(rows)
    def rowval(r): return sum((c * val[j] for j, c in r.items()), Fr(0))
    for i, b in enumerate(basic): val[b] = rowval(T[i])
    isb = {b: i for i, b in enumerate(basic)}
    for it in range(maxpiv):
        bad = None
        for b in sorted(isb):
            v = val[b]
            if (lo[b] is not None and v < lo[b]) or (hi[b] is not None and v > hi[b]): bad = b; break
        if bad is None: return {m: val[i] for m, i in idx.items()}
        i = isb[bad]; r = T[i]; low = lo[bad] is not None and val[bad] < lo[bad]
        piv = None
        for j in sorted(r):
            c = r[j]
            if low: ok = (c > 0 and (hi[j] is None or val[j] < hi[j])) or (c < 0 and (lo[j] is None or val[j] > lo[j]))
            else: ok = (c < 0 and (hi[j] is None or val[j] < hi[j])) or (c > 0 and (lo[j] is None or val[j] > lo[j]))
            if ok: piv = j; break
        if piv is None: return True
        target = lo[bad] if low else hi[bad]
        theta = (target - val[bad]) / r[piv]
        val[bad] = target; val[piv] += theta
        # pivot: bad leaves, piv enters
        c = r.pop(piv)
        nr = {j: -k / c for j, k in r.items()}; nr[bad] = 1 / c
        T[i] = nr; del isb[bad]; isb[piv] = i; basic[i] = piv
        for k, row in enumerate(T):
            if k == i: continue
            c2 = row.pop(piv, None)
            if c2 is not None:
                for j, x in nr.items():
                    y = row.get(j, 0) + c2 * x
                    if y: row[j] = y
                    else: row.pop(j, None)
                val[basic[k]] = rowval(row)
    return False

def entails_ge0(st, p):
    p = st.norm(p)
    if p.is_const(): return p.const() >= 0
    for wide in (False, True) if not any(ATOMS[a].kind == 'div' for m in p.t for a in m) and st.iv else (False,):
        rows, bounds = rows_for(st, p, 70, wide)
        if len(bounds) > 60: return False
        rows = rows + [(p - p.const(), None, -1 - p.const())]
        if infeasible(rows, bounds): return True
    return False
