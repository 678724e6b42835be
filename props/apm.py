"""C09: the adaptive probability map interpolates between the two bracketing entries and updates exactly those."""
from harness import *
from interp import decide_ge0, decide_eq0, decide_value
from mixing import rnd, H31

AP = 'mixing::apm::AdaptiveProbabilityMap'; LUT = 'lut::apm::ApmWeightingLut'; UNIT21 = 1 << 21

class Apm(An):
    def __init__(s, prog, rep, bits):
        An.__init__(s, prog, rep); s.bits = bits; s.n = 1 + (24 << bits); s.ctx.unroll = 400
        s.new = s.fn(AP + '::new'); s.refine = s.fn(AP + '::refine'); s.update = s.fn(AP + '::update_predictions')
        def squash(st, args, rty):
            x = st.cst(s.leaf(st, args[1]))
            if x is None: raise Undecided('squash of an unknown')
            return s.val(rty, s.squash(x))
        s.stops = [Sym('stop%d' % j, 1, H31 - 1) for j in range(s.n)]
        s.shifts = [Sym('shift%d' % j, 0, 30) for j in range(s.n - 1)]
        s.extra = [Sym('extra%d' % j, 0, H31 - 1) for j in range(s.n - 1)]
        s.fract = s.argty(s.refine, 2)
        def sl(vals, wrapv):
            def f(st, args, rty):
                st.nframe += 1; c = ('h', st.nframe); n = C(len(vals()))
                st.mem[c] = VSeq(None, n, ('t', tuple(wrapv(x) for x in vals())))
                return VRef(c, (), (ZERO, n))
            return f
        fr = lambda x: s.val(s.fract, x)
        s.summary({'lut::squash::SquashLut::squash': squash,
                   LUT + '::squashed_interval_stops': sl(lambda: s.stops, fr),
                   LUT + '::shifts_by_interval': sl(lambda: s.shifts, lambda x: x),
                   LUT + '::extra_factor_by_interval': sl(lambda: s.extra, fr),
                   LUT + '::stretched_fract_index_bits': lambda st, args, rty: C(s.lutbits)})
        s.lutbits = bits
    def squash(s, x):
        if x == 0: return C(1 << 30)
        return Sym('squash(%d)' % x, 1, (1 << 30) - 1) if x < 0 else C(H31) - s.squash(-x)
    def maps(s, contexts, key=None):
        """a map with that many contexts and arbitrary entries"""
        sl = s.obj(None, None, 'squash_lut', ty=s.argty(s.new, 2))
        for st, v in s.call(key, s.new, [C(contexts), C(s.bits), sl], State(s.ctx)):
            yield st, v
    def any(s, contexts, given={}, other=lambda q: Sym('entry%d' % q, 1, H31 - 1)):
        for st, v in s.maps(contexts):
            v = s.havoc(st, v, {'fixed_point::types::FractOnlyU32'}, lambda t, i: s.val(t['id'], given[i] if i in given else other(i)))
            yield st, s.cell(st, v)
    def rargs(s, ref, ctx, sq, sx):
        return [ref, ctx, s.val(s.fract, sq), s.val(s.argty(s.refine, 3), sx), s.obj(None, None, 'apm_lut', ty=s.argty(s.refine, 4))]
    def uargs(s, ref, ctx, bit, rate, fixed): return [ref, ctx, s.bit(bit), rate, C(fixed)]
    def stx(s, j): return (j - s.n // 2) << (21 - s.bits)        # stretched position of stop j
    def entry(s, st, ref, ctx, j):
        """entry j of a context, observed by refining exactly at its stop"""
        k = j if j < s.n - 1 else j
        d = st.clone()
        i = min(j, s.n - 2)
        for a, b in zip(range(max(0, j - 1), j + 1), range(max(0, j - 1) + 1, j + 2)):
            if b < s.n and not d.assume_ge0(s.stops[b] - s.stops[a] - 1): return None
        if j > 1 and not d.assume_ge0(s.stops[j] - s.stops[0] - 1): return None
        if j < s.n - 2 and not d.assume_ge0(s.stops[s.n - 1] - s.stops[j] - 1): return None
        if j == s.n - 1: raise Undecided('last stop')
        d.choice['peek'] = True
        outs = [o for o in s.run(s.refine, s.rargs(ref, C(ctx), s.stops[j], C(s.stx(j))), d)]
        r = [(o.st, s.leaf(o.st, o.value)) for o in outs if o.kind == 'ret']
        if not r: raise Undecided('entry %d not observable' % j)
        return r

def fresh(prog, rep, tier):
    for bits in (0, 1, 2):
        an = Apm(prog, rep, bits); k = 'bits%d' % bits
        an.shifts = [C(3)] * (an.n - 1)
        for st, v in an.maps(3, k + '/new'):
            ref = an.cell(st, v)
            for ctx in (0, 2):
                for j in range(an.n - 1) if tier == 'thorough' or ctx else (0, 1, an.n // 2, an.n - 2):
                    for t, e in an.entry(st, ref, ctx, j) or ():
                        an.ob_eq(k + '/identity', 'every context of a new map starts as the identity: each entry is the squash of its stop', an.new, t, e, an.squash(an.stx(j)))

def stretched(an, i, below=False):
    """stretched inputs that land in interval i (below: the squashed form lies below the stop the stretched form points at)"""
    w = 1 << (21 - an.bits)
    if below: return Sym('stretched', an.stx(i + 1), an.stx(i + 1) + w - 1)
    return Sym('stretched', an.stx(i) + (1 if i == 0 else 0), an.stx(i) + w - (1 if i + 1 < an.n - 1 else 2))

ENT = [1, 2, 12345, 1 << 30, H31 - 70001, H31 - 2, H31 - 1]
def modes(tier):
    """how the weight is described: (label, shift, extra factor or None, distance from the left stop or None)"""
    deep = tier == 'thorough'
    out = [('linear', sh, 0, None) for sh in ((0, 1, 7, 15, 29) if deep else (0, 7))]
    pts = [(0, 1 << 30, (1 << 30) - 1), (3, 77777, (1 << 27) + 12345), (7, 0, 0), (9, H31 - 2, (1 << 21) - 1), (20, 123456789, 1021), (0, 3, H31 - 5), (7, 1 << 29, 1)]
    return out + [('point', sh, e, x) for sh, e, x in (pts if deep else pts[:3])]

def setup(an, st, i, shift, extra, x, below=False):
    """consistent input forms and a normalised weighting table around interval i; the squashed input, the weight of the right entry"""
    S = an.stops; an.shifts[i] = C(shift)
    E = an.extra[i] = Sym('extra', 0, H31 - 1) if extra is None else C(extra)
    X = Sym('distance', 0, (H31 - 1) >> shift) if x is None else C(x)
    L = Sym('length', 1, (H31 - 1) >> shift)
    S[i] = Sym('left_stop', 1, H31 - 1)
    S[i + 1] = S[i] + L
    ok = st.assume_ge0(C(H31 - 1) - S[i + 1]) and st.assume_ge0(L - X - (1 if below else 0))
    if i > 0: ok = ok and st.assume_ge0(S[i] - S[0] - 1)
    if i + 1 < an.n - 1: ok = ok and st.assume_ge0(S[an.n - 1] - S[i + 1] - 1)
    P = X * (1 << shift)
    W = P + st.fdiv(P * E + (1 << 30), H31)
    return (S[i] + X, W) if ok and st.assume_ge0(C(H31 - 1) - W) else (None, None)

def refining(prog, rep, tier):
    for bits in (0, 1, 2):
        k = 'bits%d' % bits; n = 1 + (24 << bits); ctx = 1
        for i in sorted({0, 1, n // 2 - 1, n // 2, n - 2}) if tier != 'thorough' else range(n - 1):
            for below in (False, True):
                if below and i + 1 >= n - 1: continue
                ms = modes(tier) if i in (1, n - 2) else modes('quick')[:1]
                for mode, shift, extra, x in ms + [('table', 3, None, None)]:
                    an = Apm(prog, rep, bits)
                    pairs = [(None, None)] if mode != 'table' else [(12345, H31 - 1), (1, 1)] if i != 1 else [(a, b) for a in ENT[::3] for b in ENT[::3]]
                    for lc, rc in pairs:
                        l = Sym('left', 1, H31 - 1) if lc is None else C(lc); r = Sym('right', 1, H31 - 1) if rc is None else C(rc)
                        for st, ref in an.any(2, {ctx * n + i: l, ctx * n + i + 1: r}):
                            sq, w = setup(an, st, i, shift, extra, x, below)
                            if sq is None: continue
                            for t, v in an.call(k + '/refine', an.refine, an.rargs(ref, C(ctx), sq, stretched(an, i, below)), st, 'refining a consistent input never panics'):
                                def spec(u):
                                    m = rnd(u, r * w, 31) + rnd(u, l * (C(H31) - w), 31)
                                    return C(H31 - 1) if decide_ge0(u, m - (H31 - 1)) else m
                                for u, want in an.spec(t, spec):
                                    an.ob_ge0(k + '/inside', 'refined probabilities lie strictly between 0 and 1', an.refine, u, an.leaf(t, v) - 1)
                                    an.ob_ge0(k + '/inside', 'refined probabilities lie strictly between 0 and 1', an.refine, u, C(H31 - 1) - an.leaf(t, v))
                                    an.ob_eq(k + '/interpolation', 'the result is the mean of the two entries bracketing the input, weighted by how far it lies between their stops; the weights sum to one', an.refine, u, an.leaf(t, v), want)

def updating(prog, rep, tier):
    for bits in (0, 1, 2):
        k = 'bits%d' % bits; n = 1 + (24 << bits); NC = 3; deep = tier == 'thorough'
        for i, ctx in ((0, 0), (n // 2, 1), (n - 2, 2)):
            for fixed in (1, 0):
                for bit in (0, 1):
                    for rate in ((5, 1, 2, 29) if i == 0 else (5,)) if not deep else (1, 2, 5, 6, 17, 29):
                        for mode, shift, extra, x in (modes(tier)[:2] if deep else [modes(tier)[1]]) if not fixed else [('point', 3, 77777, (1 << 27) + 12345)]:
                            an = Apm(prog, rep, bits)
                            l = Sym('left', 1, H31 - 1); r = Sym('right', 1, H31 - 1); at = ctx * n + i
                            for st, ref in an.any(NC, {at: l, at + 1: r}, other=lambda q: C(1000 + q)):
                                sq, W = setup(an, st, i, shift, extra, x)
                                if sq is None: continue
                                args = an.rargs(ref, C(ctx), sq, stretched(an, i))
                                for t, v in an.call(None, an.refine, args, st):
                                    for u, _ in an.call(k + '/update', an.update, an.uargs(ref, C(ctx), bit, C(rate), fixed), t, 'updating after refining never panics'):
                                        e = entries(an, u, ref, NC * n)
                                        def spec(u2):
                                            w = C(1 << 30) if fixed else C(H31) - W
                                            out = []
                                            for x0, wt in ((l, w), (r, C(H31) - w)):
                                                d = u2.fdiv(x0 if bit else C(H31) - x0, 1 << rate)
                                                c = rnd(u2, wt * d, 31); out.append(x0 - c if bit else x0 + c)
                                            return out
                                        for u2, want in an.spec(u, spec):
                                            for q in (0, 1):
                                                an.ob_eq(k + '/step', 'each of the two entries used moves towards the observed bit by its weight times its distance over 2^rate', an.update, u2, e[at + q], want[q])
                                        for j in range(NC * n):
                                            if j in (at, at + 1) or (isinstance(e[j], Poly) and e[j] == C(1000 + j)): continue
                                            an.ob_eq(k + '/others', 'no other entry changes', an.update, u, e[j], C(1000 + j))
                                        rep.add(k + '/others', 'no other entry changes', an.span(an.update), 'discharged')
                                        o = an.run(an.refine, args, u.clone())
                                        an.ob_true(k + '/again', 'after an update the map can be used again', an.refine, u, any(z.kind != 'panic' for z in o), 'refine after update always panics')

def entries(an, st, ref, n):
    """the entries in memory order"""
    out = []
    def go(v):
        v = ip.force(st, an.ctx, v)
        if isinstance(v, VVec): v = v.seq
        if isinstance(v, VSeq):
            c = st.cst(v.len)
            if c == n: out.extend(an.leaf(st, ip.seq_read(st, an.ctx, v, C(i))) for i in range(c))
        elif isinstance(v, VAgg):
            for f in v.fields: go(f)
    go(ip.load(st, an.ctx, ref.cell, ref.path))
    if len(out) != n: raise Undecided('entries of the map')
    return out

def inside(prog, rep, tier):
    """entries stay strictly inside (0,1) whatever the weight"""
    n = 25; k = 'entries'; i = 5
    for fixed in (1, 0):
        for bit in (0, 1):
            for rate in range(1, 30):
                for shift in (0, 7):
                    if fixed and shift: continue
                    an = Apm(prog, rep, 0)
                    l = Sym('left', 1, H31 - 1); r = Sym('right', 1, H31 - 1)
                    for st, ref in an.any(1, {i: l, i + 1: r}):
                        sq, W = setup(an, st, i, shift, 0, 5 if fixed else None)
                        for t, v in an.call(None, an.refine, an.rargs(ref, C(0), sq, stretched(an, i)), st):
                            for u, _ in an.call(None, an.update, an.uargs(ref, C(0), bit, C(rate), fixed), t):
                                e = entries(an, u, ref, n)
                                for x0, j in ((l, i), (r, i + 1)):
                                    r0 = 'entries stay strictly between 0 and 1 and move only towards the observed bit'
                                    an.ob_ge0(k + '/inside', r0, an.update, u, e[j] - 1)
                                    an.ob_ge0(k + '/inside', r0, an.update, u, C(H31 - 1) - e[j])
                                    an.ob_ge0(k + '/direction', r0, an.update, u, (x0 - e[j]) if bit else e[j] - x0)

def pairing(prog, rep, tier):
    for bits in (0, 2):
        an = Apm(prog, rep, bits); k = 'bits%d' % bits; n = an.n; i = 7
        x = stretched(an, i)
        for st, ref in an.any(2):
            ua = lambda ctx, rate: an.uargs(ref, ctx, 0, rate, 1)
            an.ob_refuses(k + '/update-unpaired', 'an update without a preceding refinement is refused', an.update, an.run(an.update, ua(C(0), C(5)), st.clone()))
            sq, W = setup(an, st, i, 9, 0, None)
            if sq is None: continue
            an.lutbits = bits + 1
            an.ob_refuses(k + '/lut-mismatch', 'a weighting table of another resolution is refused', an.refine, an.run(an.refine, an.rargs(ref, C(0), sq, x), st.clone()))
            an.lutbits = bits
            an.ob_refuses(k + '/refine-range', 'a context beyond the last is refused', an.refine, an.run(an.refine, an.rargs(ref, C(2), sq, x), st.clone()))
            for t, v in an.call(k + '/refine', an.refine, an.rargs(ref, C(1), sq, x), st):
                an.ob_refuses(k + '/refine-twice', 'refining twice without an update is refused', an.refine, an.run(an.refine, an.rargs(ref, C(0), sq, x), t.clone()))
                an.ob_refuses(k + '/update-range', 'a context beyond the last is refused', an.update, an.run(an.update, ua(Sym('ctx', 2, 1 << 40), C(5)), t.clone()))
                an.ob_refuses(k + '/rate-0', 'an update rate of 2^0 or beyond 2^29 is refused', an.update, an.run(an.update, ua(C(1), C(0)), t.clone()))
                an.ob_refuses(k + '/rate-30', 'an update rate of 2^0 or beyond 2^29 is refused', an.update, an.run(an.update, ua(C(1), Sym('rate', 30, 255)), t.clone()))
                for u, _ in an.call(k + '/update', an.update, ua(C(1), C(5)), t):
                    an.ob_refuses(k + '/update-twice', 'updating twice is refused', an.update, an.run(an.update, ua(C(1), C(5)), u))
