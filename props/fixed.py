"""C14: fixed-point arithmetic is exact where it can be, rounds to nearest (halves away from zero) where it cannot, and never wraps."""
from harness import *
from interp import decide_ge0, decide_eq0, decide_value, int_range

FP = 'fixed_point::'
class TypeInfo: pass

class Fixed(An):
    def __init__(s, prog, rep):
        An.__init__(s, prog, rep); s.info = {}
    def types(s):
        for i in s.p.bypath.get(FP + 'FixedPoint::new', []):
            if i['body']: s.typeinfo(i)
        if not s.info: raise Missing('FixedPoint::new')
        return s.info
    def typeinfo(s, inst):
        b = inst['body']; rty = b['locals'][0]; raw_t = s.p.ty[b['locals'][1]]
        lo, hi = int_range(raw_t)
        raw = Sym('raw', lo, hi); fb = Sym('fb', 0, 255)
        outs = s.run(inst, [raw, fb])
        x = TypeInfo(); x.name = s.p.ty[rty]['name']; x.ty = rty; x.bits = raw_t['bits']; x.signed = raw_t['signed']
        x.rng = (lo, hi); x.fb = None; x.lo = None; x.hi = None; x.clamp = None
        for o in outs:
            if o.kind == 'cut': raise Undecided('constructor of ' + x.name)
            if o.kind != 'ret': continue
            f = o.st.cst(fb)
            if f is None or x.fb not in (None, f): raise Undecided('fraction size of ' + x.name)
            x.fb = f
            l, h = o.st.bound(raw, 2)
            x.lo = l if x.lo is None else min(l, x.lo); x.hi = h if x.hi is None else max(h, x.hi)
            got = s.leaf(o.st, o.value)
            if not o.st.prove_eq(got, raw):
                gl, gh = o.st.bound(got, 2)
                c = x.clamp or (gl, gh); x.clamp = (min(c[0], gl), max(c[1], gh))
        if x.fb is None: raise Undecided('no value of ' + x.name)
        if x.clamp:      # values between the clamps pass through, so the clamps are the hull of all results
            hull = None
            for o in outs:
                if o.kind == 'ret':
                    g = o.st.bound(s.leaf(o.st, o.value), 2)
                    hull = g if hull is None else (min(hull[0], g[0]), max(hull[1], g[1]))
            x.clamp = hull
        s.info[rty] = x
        return x
    def val(s, ty, raw): return s.it.wrapnew(raw, ty)
    def ref(s, st, ty, raw, tag):
        cell = ('x', tag); st.mem[cell] = s.val(ty, raw); return VRef(cell)
    def conform(s, key, inst, o, num, den, R, rule):
        """outcome o must be round(num/den) as a value of R, or a panic when that is not a value of R"""
        s.rep.meas_add('operations_paths')
        def sp(st):
            pos = decide_ge0(st, num)
            n = num if pos else -num
            if den == 1: return (pos, n)
            if den % 2 == 0:
                h = den // 2
                decide_value(st, st.mod(st.fdiv(n, h), 2), 2)
            return (pos, n)
        if o.kind == 'cut': s.rep.add(key, rule, s.span(inst), 'undecided', o.info[0]); return
        for st, (pos, n) in s.spec(o.st, sp):
            if o.kind == 'ret':
                got = s.leaf(st, o.value)
                if isinstance(R, TypeInfo) and R.clamp:
                    l, h = R.clamp
                    # clamped constructor: the result is the clamp of the rounded value
                    def cl(t):
                        if t.prove_eq(got, C(l)): return 'lo'
                        if t.prove_eq(got, C(h)): return 'hi'
                        return 'in'
                    w = cl(st)
                    if w == 'lo': s.ob_ge0(key, rule, inst, st, C((2 * l + 1) * den) - 1 - num * 2, key); continue
                    if w == 'hi': s.ob_ge0(key, rule, inst, st, num * 2 - (2 * h - 1) * den, key); continue
                g = got if pos else -got
                if den == 1: s.ob_eq(key, rule, inst, st, g, n, key); continue
                s.ob_ge0(key, rule, inst, st, n * 2 + den - g * (2 * den), key)
                s.ob_ge0(key, rule, inst, st, g * (2 * den) - n * 2 + den - 1, key)
            else:
                # rounded magnitude m = floor((2n+den)/(2den)); representable iff lo <= +-m <= hi
                m = st.fdiv(n * 2 + den, 2 * den)
                v = m if pos else -m
                ok = s.outside(st, v, R)
                if ok: s.rep.add(key + '/refusal', 'refuses only results that the target cannot hold', s.span(inst), 'discharged'); continue
                d = 'panic (%s %s) in %s' % (o.info[0], o.info[2] or '', o.info[3])
                if st.taint: s.rep.add(key + '/refusal', 'refuses only results that the target cannot hold', s.span(inst), 'undecided', d); continue
                w = witness(st, [v], lambda a: R.lo <= a <= R.hi)
                s.rep.add(key + '/refusal', 'refuses only results that the target cannot hold', s.span(inst),
                          'violated' if w is not None else 'undecided', d + (' e.g. ' + short(w) if w else ''))
    def outside(s, st, v, R):
        return st.prove_ge0(v - R.hi - 1) or st.prove_ge0(C(R.lo - 1) - v)

def mag(name, lo, hi, h):
    """all values of [lo,hi] by sign, written in units of 2h, one h digit and a remainder below h"""
    out = []
    for sg, top in ((1, hi), (-1, -lo)):
        if top < 0: continue
        Q = Sym(name + 'q', 0, top // (2 * h)); d = Sym(name + 'd', 0, 1)
        r = Sym(name + 'r', 0, h - 1) if h > 1 else ZERO
        out.append(((Q * (2 * h) + d * h + r) * sg, Q * (2 * h) + d * h + r, top))
    return out
def states(an, lo, hi, h, name='a'):
    for raw, m, top in mag(name, lo, hi, h):
        st = State(an.ctx)
        if st.assume_ge0(C(top) - m): yield st, raw

def short_inst(i): return i['name'].replace('demixer::', '').replace('fixed_point::', '').replace('types::', '')

def scaling(prog, rep, tier):
    an = Fixed(prog, rep)
    for bits in (16, 32, 64):
        for signed in (True, False):
            mod = FP + 'fix_%s%d::' % ('i' if signed else 'u', bits)
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
            R = TypeInfo(); R.lo, R.hi, R.clamp = lo, hi, None
            f = an.fn(mod + 'scaled_down', opt=True)
            if f is not None:
                for sh in range(1, bits):
                    for st, raw in states(an, lo, hi, 1 << (sh - 1)):
                        for o in an.run(f, [raw, C(sh)], st):
                            an.conform('%sscaled_down' % mod, f, o, raw, 1 << sh, R, 'dividing by a power of two rounds to nearest, halves away from zero, for every value and shift')
            f = an.fn(mod + 'div', opt=True)
            if f is not None:
                D = Sym('divisor', 1, hi); raw = Sym('raw', lo, hi)
                key = mod + 'div'
                for st in branches(an, raw):
                    for o in an.run(f, [raw, D], st):
                        div_ob(an, key, f, o, raw, D)
                for d in (1, 2, 3, 10, 1 << (bits - 2), hi - 1, hi):
                    for st in branches(an, raw):
                        for o in an.run(f, [raw, C(d)], st): div_ob(an, key, f, o, raw, C(d))
def branches(an, raw):
    for neg in (0, 1):
        st = State(an.ctx)
        if st.assume_ge0(-raw - 1 if neg else raw): yield st
def div_ob(an, key, f, o, raw, D):
    rule = 'dividing by a positive integer rounds to nearest, halves away from zero, for every value and divisor'
    if o.kind == 'cut': an.rep.add(key, rule, an.span(f), 'undecided', o.info[0]); return
    if o.kind == 'panic':
        w = witness(o.st, [raw, D], lambda a, b: True)
        an.rep.add(key, rule, an.span(f), 'violated' if w is not None and not o.st.taint else 'undecided', 'panic (%s) for admissible operands %s' % (o.info[0], w and short(w))); return
    for st, pos in an.spec(o.st, lambda st: decide_ge0(st, raw)):
        q = an.leaf(st, o.value)
        n = raw if pos else -raw; g = q if pos else -q
        an.ob_ge0(key, rule, f, st, n * 2 + D - g * D * 2)
        an.ob_ge0(key, rule, f, st, g * D * 2 - n * 2 + D - 1)

def conversions(prog, rep, tier):
    an = Fixed(prog, rep); T = an.types()
    n = 0
    for path, ins in sorted(prog.bypath.items()):
        if not path.startswith(FP + 'Fix') or '::to_fix_' not in path: continue
        for i in ins:
            if not i['body']: continue
            A = T.get(an.p.ty[i['body']['locals'][1]].get('of')); R = T.get(i['body']['locals'][0])
            if A is None or R is None: raise Undecided('operand types of ' + i['name'])
            n += 1
            s = A.fb - R.fb
            key = path.replace(FP, '')
            for st, raw in states(an, A.lo, A.hi, 1 << (s - 1) if s > 0 else 1):
                for o in an.run(i, [an.ref(st, A.ty, raw, 'a')], st):
                    if s > 0: an.conform(key, i, o, raw, 1 << s, R, 'changing precision keeps the value, rounded to nearest (halves away from zero)')
                    else: an.conform(key, i, o, raw * (1 << -s), 1, R, 'changing precision keeps the value, rounded to nearest (halves away from zero)')
    rep.meas_add('conversions', n)

def products(prog, rep, tier):
    an = Fixed(prog, rep); T = an.types(); n = 0
    for path in (FP + 'fix_i32::mul', FP + 'fix_i32::mul_wide', FP + 'fix_u32::mul', FP + 'fix_u32::mul_wide'):
        seen = set()
        for i in prog.bypath.get(path, []):
            if not i['body']: continue
            b = i['body']['locals']
            A, B, R = T.get(an.p.ty[b[1]].get('of')), T.get(an.p.ty[b[2]].get('of')), T.get(b[0])
            if A is None or B is None or R is None: raise Undecided('operand types of ' + i['name'])
            s = A.fb + B.fb - R.fb
            k = (s, A.lo, A.hi, B.lo, B.hi, R.lo, R.hi, R.clamp)
            if k in seen: continue
            seen.add(k); n += 1
            for sa in (1, -1):
                for sb in (1, -1):
                    if sa < 0 and A.lo >= 0 or sb < 0 and B.lo >= 0: continue
                    st = State(an.ctx)
                    a = Sym('a', A.lo, A.hi); c = Sym('b', B.lo, B.hi)
                    if not st.assume_ge0(a if sa > 0 else -a - 1) or not st.assume_ge0(c if sb > 0 else -c - 1): continue
                    for o in an.run(i, [an.ref(st, A.ty, a, 'a'), an.ref(st, B.ty, c, 'b')], st):
                        key = path.replace(FP, '')
                        rule = 'a product is the exact product rounded to nearest (halves away from zero)'
                        if s > 0: an.conform(key, i, o, a * c, 1 << s, R, rule)
                        else: an.conform(key, i, o, a * c * (1 << -s), 1, R, rule)
    rep.meas_add('products', n)

def sums(prog, rep, tier):
    an = Fixed(prog, rep); T = an.types(); n = 0
    for path, ins in sorted(prog.bypath.items()):
        if not path.startswith(FP): continue
        m = path.rsplit('::', 1)[1]; key = path.replace(FP, '')
        for i in ins:
            if not i['body']: continue
            b = i['body']['locals']
            if path.startswith(FP + 'Fix') and m == 'ulp':
                A = T.get(b[0])
                if A is None: continue
                for o in an.run(i, [], State(an.ctx)): an.conform(key, i, o, ONE, 1, A, 'the unit in the last place is the smallest positive value')
                n += 1; continue
            of = an.p.ty[b[1]].get('of') if len(b) > 1 else None
            A = T.get(of)
            if A is None or i['body']['argc'] < 1: continue
            a = Sym('a', A.lo, A.hi)
            if path.startswith(FP + 'Fix') and m in ('add', 'sub'):
                c = Sym('b', A.lo, A.hi); st = State(an.ctx)
                for o in an.run(i, [an.ref(st, A.ty, a, 'a'), an.ref(st, A.ty, c, 'b')], st):
                    an.conform(key, i, o, a + c if m == 'add' else a - c, 1, A, 'sums and differences are exact or refused')
            elif path.startswith(FP + 'Fix') and m == 'neg':
                st = State(an.ctx)
                for o in an.run(i, [an.ref(st, A.ty, a, 'a')], st): an.conform(key, i, o, -a, 1, A, 'negation is exact or refused')
            elif path.startswith(FP + 'Fix') and m == 'trunc':
                st = State(an.ctx)
                R = TypeInfo(); R.lo, R.hi, R.clamp = A.rng[0], A.rng[1], None
                for o in an.run(i, [an.ref(st, A.ty, a, 'a')], st): an.conform(key, i, o, o.st.fdiv(a, 1 << A.fb), 1, R, 'the integral part is the floor of the value')
            elif m == 'flip':
                st = State(an.ctx)
                for o in an.run(i, [an.ref(st, A.ty, a, 'a')], st): an.conform(key, i, o, C(1 << A.fb) - a, 1, A, 'flipping a fraction gives exactly one minus it, or is refused when that is not a fraction')
            elif m in ('to_signed', 'to_unsigned'):
                st = State(an.ctx); R = T.get(b[0])
                if R is None: continue
                for o in an.run(i, [an.ref(st, A.ty, a, 'a')], st): an.conform(key, i, o, a, 1, R, 'changing signedness keeps the value or is refused')
            elif path.startswith(FP + 'Fix') and m == 'div':
                if A.clamp: continue
                D = Sym('divisor', 1, A.rng[1])
                for st in branches(an, a):
                    for o in an.run(i, [an.ref(st, A.ty, a, 'a'), D], st):
                        div_ob(an, key, i, o, a, D)
            elif m == 'clamped': pass
            else: continue
            n += 1
    rep.meas_add('operations', n)
