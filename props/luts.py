"""C21: table lookups interpolate between the entries of the right grid points, symmetrically; the tables hold what their grid points say."""
from harness import *
from interp import decide_ge0, decide_eq0
import fixed
H31 = 1 << 31; H30 = 1 << 30; LIM = 12 << 21
SQ = 'lut::squash::SquashLut'; STR = 'lut::stretch::StretchLut'; LG = 'lut::log2::Log2Lut'; ALL = 'lut::LookUpTables'; APM = 'lut::apm::ApmWeightingLut'

class Luts(An):
    def raw(s, inst, i, x): return s.val(s.argty(inst, i), x)
    def rref(s, st, inst, i, x): return s.cell(st, s.raw(inst, i, x))

def between(an, key, f, st, got, L, R, w, one, what):
    """got is the weighted mean of L and R, w of `one` towards R, to within one unit, and exactly L without weight"""
    d = (got - L) * one - (R - L) * w
    rule = 'a lookup is the weighted mean of the entries of the two neighbouring grid points'
    an.ob_ge0(key, rule, f, st, C(one) - d, what); an.ob_ge0(key, rule, f, st, C(one) + d, what)

# ---------------------------------------------------------------- squash
def squash_points(): return 1 + 24 * 128
def squashing(prog, rep, tier):
    an = Luts(prog, rep); f = an.fn(SQ + '::squash'); step = 1 << 14; n = squash_points(); mid = n // 2
    def inv(lz): return (1, H31 - 1)
    def table(st): return an.obj(None, SQ, 'squash_table', inv=inv)
    def entry(st, t, i): return an.leaf(st, an.getf(st, ip.load(st, an.ctx, t.cell, t.path + (('f', 0),)), st.norm(i) if isinstance(i, Poly) else C(i)))
    st = State(an.ctx); t = table(st)
    # a point between two grid points
    i, w = Sym('i', 0, n - 2), Sym('w', 0, step - 1); x = (i - mid) * step + w
    for zero in (True, False):
        s0 = st.clone()
        if zero: s0.assume_eq0(w)
        else: s0.assume_ge0(w - 1)
        for u, v in an.call('squash', f, [t, an.raw(f, 1, x)], s0, 'every stretched probability can be squashed'):
            L, R = entry(u, t, i), entry(u, t, i + 1); g = an.leaf(u, v)
            if zero: an.ob_eq('squash/grid', 'at a grid point the lookup is its entry', f, u, g, L)
            else:
                between(an, 'squash/between', f, u, g, L, R, w, step, 'squash between two grid points')
    s0 = st.clone()
    for u, v in an.call('squash', f, [t, an.raw(f, 1, C(LIM))], s0, 'every stretched probability can be squashed'):
        an.ob_eq('squash/grid', 'at a grid point the lookup is its entry', f, u, an.leaf(u, v), entry(u, t, C(n - 1)))
    # symmetric entries give symmetric results
    L, R = Sym('L', 1, H31 - 1), Sym('R', 1, H31 - 1); w = Sym('w', 1, step - 1)
    for k in (0, 1, mid - 1, mid - 2, 700):
        c = State(an.ctx); cells = {k: L, k + 1: R, n - 1 - k: C(H31) - L, n - 2 - k: C(H31) - R}
        if k == mid - 1: cells = {k: L, mid: C(H30), mid + 1: C(H31) - L}
        fr = f['body']['locals'][0]
        tab = an.cell(c, VAgg(an.adt(SQ)['id'], 0, (VSeq(fr, C(n), ('t', tuple(an.val(fr, cells.get(j, C(1 + j))) for j in range(n)))),)))
        for z in (w, ZERO):
            x = C((k - mid) * step) + z
            for u, v in an.call('squash/symmetry', f, [tab, an.raw(f, 1, x)], c.clone(), 'every stretched probability can be squashed'):
                for u2, v2 in an.call('squash/symmetry', f, [tab, an.raw(f, 1, -x)], u, 'every stretched probability can be squashed'):
                    an.ob_eq('squash/symmetry', 'squashing the negated value gives the opposite probability', f, u2, an.leaf(u2, v2), C(H31) - an.leaf(u2, v))
    for bad in (C(LIM) + Sym('over', 1 << 14, LIM), C(-LIM) - Sym('under', 1, LIM)):
        an.ob_refuses('squash/outside', 'a value outside the table is refused', f, an.run(f, [t, an.raw(f, 1, bad)], State(an.ctx)))

def squash_table(prog, rep, tier):
    an = Luts(prog, rep); f = an.fn(SQ + '::new'); n = squash_points(); mid = n // 2; found = {}; an.ctx.unroll = 4000; an.ctx.max_steps = 4000000
    def find(st, a, rty):
        x = st.cst(an.leaf(st, a[0]))
        if x is None: raise Undecided('search for an unknown')
        if x not in found: found[x] = Sym('find(%d)' % x, 1, H31 - 1)
        return an.val(rty, found[x])
    def stretch(st, a, rty):
        x = st.cst(an.leaf(st, a[1]))
        if x is None: raise Undecided('stretch of an unknown')
        import math
        return an.val(rty, C(int(math.log(x / (H31 - x)) * (1 << 21))))
    an.fn(SQ + '::find_squashed_prob')
    an.summary({SQ + '::find_squashed_prob': find, STR + '::stretch': stretch})
    lut = an.obj(None, STR, 'stretch_table')
    for t, v in an.call('squash-table', f, [lut, ZERO], State(an.ctx), 'the table can be made'):
        tab = an.getf(t, v, 0)
        for i in range(n):
            x = (abs(i - mid)) << 14
            w = found.get(x) if i >= mid else (C(H31) - found[x] if x in found else None)
            if w is None: an.ob_true('squash-table', 'each entry is the squashed form of its grid point, or the opposite of that of the negated one', f, t, False, 'entry %d is not that of its grid point' % i); continue
            an.ob_eq('squash-table', 'each entry is the squashed form of its grid point, or the opposite of that of the negated one', f, t, an.leaf(t, an.getf(t, tab, i)), w, 'entry %d' % i)

# ---------------------------------------------------------------- stretch
def stretching(prog, rep, tier):
    an = Luts(prog, rep); f = an.fn(STR + '::stretch')
    B = LIM - 4096
    def inv(lz): return (-B, -1)
    t = an.obj(None, STR, 'stretch_table', inv=inv)
    def entry(st, level, i):
        v = ip.load(st, an.ctx, t.cell, t.path + (('f', 0),)); v = an.getf(st, v, C(level)); return an.leaf(st, an.getf(st, v, st.norm(i)))
    for level in range(8):
        bits = 20 - level if level < 7 else 14; step = 1 << bits; base = 1 << (29 - level) if level < 7 else 0
        for name, i in (('first', ZERO), ('last', C(511)), ('inner', Sym('i%d' % level, 1, 510))):
            w = Sym('w%d' % level, 1, step - 1)
            for ww in (w, ZERO):
                x = i * step + base + ww
                if level == 7 and name == 'first' and ww is ZERO: continue
                s0 = State(an.ctx)
                L = entry(s0, level, i) if not (level == 7 and name == 'first') else entry(s0, 7, ONE)
                R = entry(s0, level, i + 1) if name != 'last' else entry(s0, level - 1, ZERO) if level else ZERO
                s0.assume_ge0((L + B) * (step - ww) + (R + B) * ww) 
                s0.assume_ge0(-(L * (step - ww) + R * ww))              # a mean of two values in -B..0
                for u, v in an.call('stretch', f, [t, an.raw(f, 1, x)], s0, 'every probability can be stretched'):
                    g = an.leaf(u, v)
                    if ww is ZERO: an.ob_eq('stretch/grid', 'at a grid point the lookup is its entry', f, u, g, L, 'level %d, %s grid point' % (level, name))
                    else: between(an, 'stretch/between', f, u, g, L, R, ww, step, 'level %d, %s interval' % (level, name))
                    for u2, v2 in an.call('stretch', f, [t, an.raw(f, 1, C(H31) - x)], u, 'every probability can be stretched'):
                        an.ob_eq('stretch/symmetry', 'stretching the opposite probability gives the negated value', f, u2, an.leaf(u2, v2), -an.leaf(u2, v), 'level %d, %s' % (level, name))
    for u, v in an.call('stretch', f, [t, an.raw(f, 1, C(H30))], State(an.ctx), 'every probability can be stretched'):
        an.ob_eq('stretch/half', 'one half is stretched to zero', f, u, an.leaf(u, v), ZERO)
    an.ob_refuses('stretch/outside', 'probability zero is refused', f, an.run(f, [t, an.raw(f, 1, ZERO)], State(an.ctx)))

# ---------------------------------------------------------------- logarithm
def logarithm(prog, rep, tier):
    an = Luts(prog, rep); fx = fixed.Fixed(prog, rep); types = fx.types()
    def restricted(st, a, rty):
        x = st.norm(an.leaf(st, a[1])); k = ('log2', x.key())
        if k not in an.memo: an.memo[k] = Sym('log2#%d' % len(an.memo), 0, 2047)
        st.events = st.events + (('log2', x, an.memo[k]),); return an.memo[k]
    an.memo = {}; an.summary({LG + '::log2_restricted': restricted})
    fs = [i for i in prog.inst.values() if i['body'] and i['path'] in ('fixed_point::FixU32::log2', 'fixed_point::FixU64::log2')]
    if not fs: raise Missing('log2')
    for f in fs:
        ty = an.argty(f, 0); x = types.get(ty)
        if x is None: rep.add('log2/anchor', 'the analysed construct is present', an.span(f), 'undecided', 'constructor of the type'); continue
        lut = VLazy(an.argty(f, 1), 'log2_lut')
        lo, hi = x.clamp or (x.lo, x.hi)
        for e in range(x.bits):
            if (1 << e) > hi: break
            m = Sym('m%d' % e, 0, min((1 << e) - 1, hi - (1 << e))) if e else ZERO; q = m + (1 << e)
            st = State(an.ctx)
            for t, v in an.call('log2', f, [an.cell(st, an.val(ty, q)), an.cell(st, lut)], st, 'the logarithm of every positive number can be looked up'):
                asked = {a[1].key(): a for a in t.events if a[0] == 'log2'}
                if len(asked) != 1: rep.add('log2', 'the logarithm is exponent plus looked-up fraction', an.span(f), 'undecided', '%d lookups' % len(asked)); continue
                (_, y, l), = asked.values()
                an.ob_eq('log2/mantissa', 'the fraction looked up is that of the leading 12 bits', f, t, y, t.fdiv(q, 1 << (e - 11)) if e > 11 else q * (1 << (11 - e)), x.name + ' exponent %d' % (e - x.fb))
                an.ob_eq('log2', 'the logarithm is exponent plus looked-up fraction', f, t, an.leaf(t, v), C((e - x.fb) << 11) + l, x.name + ' exponent %d' % (e - x.fb))
        st = State(an.ctx)
        if lo <= 0: an.ob_refuses('log2/zero', 'the logarithm of zero is refused', f, an.run(f, [an.cell(st, an.val(ty, ZERO)), an.cell(st, lut)], st))
    # the table itself
    an = Luts(prog, rep); new, get = an.fn(LG + '::new'), an.fn(LG + '::log2_restricted'); asked = {}; an.ctx.unroll = 4000
    def one_plus(st, a, rty):
        x = st.cst(an.leaf(st, a[0]))
        if x is None: raise Undecided('logarithm of an unknown')
        i = (x >> 19) - 2048
        if x not in asked: asked[x] = Sym('log2(%d)' % x, i << 20, (i + 176) << 20) if 0 <= i < 2048 else Sym('log2(%d)' % x, 0, H31 - 1)
        return an.val(rty, asked[x])
    an.summary({'lut::log2::one_plus_log2_restricted': one_plus})
    for t, v in an.call('log2-table', new, [], State(an.ctx), 'the table can be made'):
        ref = an.cell(t, v)
        for i in range(2048):
            w = asked.get((2048 + i) << 19)
            for u, g in an.call('log2-table', get, [ref, C(2048 + i)], t, 'every mantissa can be looked up'):
                if w is None: an.ob_true('log2-table', 'each entry is the logarithm of its grid point, rounded', new, u, False, 'entry %d is not that of its grid point' % i); continue
                an.ob_eq('log2-table', 'each entry is the logarithm of its grid point, rounded', new, u, g, u.fdiv(w, 1 << 20) + u.fdiv(w, 1 << 19) - u.fdiv(w, 1 << 20) * 2, 'entry %d' % i)
        for bad in (Sym('small', 0, 2047), Sym('large', 4096, 1 << 31)):
            an.ob_refuses('log2-table/outside', 'what is not a normalised mantissa is refused', get, an.run(get, [ref, bad], t.clone()))

def wiring(prog, rep, tier):
    an = Luts(prog, rep); new = an.fn(ALL + '::new'); made = []; parts = {}
    for i in prog.inst.values():
        if i['body'] and i['path'].startswith('lut::') and i['path'].rsplit('::', 1)[1] in ('new', 'make_default') and i['path'] != ALL + '::new' and i['path'].count('::') == 3:
            parts[i['path']] = i
    def maker(path):
        def f(st, a, rty):
            k = [st.cst(x) if isinstance(x, Poly) else None for x in [models.F(an.it, st, y) for y in a]]
            v = VOpaque('table', (path, tuple(x for x in k if x is not None), tuple(models.F(an.it, st, ip.load(st, an.ctx, y.cell, y.path)).data[0] for y in a if isinstance(y, VRef) and isinstance(models.F(an.it, st, ip.load(st, an.ctx, y.cell, y.path)), VOpaque))))
            return v
        return f
    an.summary({p: maker(p) for p in parts})
    for st, v in an.call('tables', new, [], State(an.ctx), 'the tables can be made'):
        ref = an.cell(st, v)
        for name, want in (('log2_lut', LG), ('d_estimator_rates', 'lut::estimator::DeceleratingEstimatorRates'), ('d_estimator_cache', 'lut::estimator::DeceleratingEstimatorCache'),
                           ('direct_predictions', 'lut::estimator::DeceleratingEstimatorPredictions'), ('cost_trackers_lut', 'lut::cost::CostTrackersLut'), ('stretch_lut', STR), ('squash_lut', SQ)):
            g = an.fn(ALL + '::' + name)
            for t, r in an.call('tables/' + name, g, [ref], st.clone(), 'the table can be had'):
                x = ip.load(t, an.ctx, r.cell, r.path)
                if not isinstance(x, VOpaque): rep.add('tables/' + name, 'each table is the one it is asked for', an.span(g), 'undecided', 'table value'); continue
                an.ob_true('tables/' + name, 'each table is the one it is asked for', g, t, x.data[0].startswith(want + '::'), 'gives ' + x.data[0])
        g = an.fn(ALL + '::apm_lut')
        for k in (0, 1, 2):
            for t, r in an.call('tables/apm', g, [ref, C(k)], st.clone(), 'the table can be had'):
                x = ip.load(t, an.ctx, r.cell, r.path)
                if not isinstance(x, VOpaque): rep.add('tables/apm', 'the weighting table asked for is that of so many index bits', an.span(g), 'undecided', 'table value'); continue
                an.ob_true('tables/apm', 'the weighting table asked for is that of so many index bits', g, t, x.data[0] == APM + '::new' and x.data[1] == (k,), 'table of %s bits for %d' % (x.data[1], k))
        an.ob_refuses('tables/apm-limit', 'a weighting table of more index bits is refused', g, an.run(g, [ref, Sym('bits', 3, 255)], st.clone()))

# ---------------------------------------------------------------- weighting of the adaptive map
def weighting(prog, rep, tier):
    for bits in (0, 1, 2):
        an = Luts(prog, rep); f = an.fn(APM + '::new'); n = 1 + (24 << bits); mid = n // 2; an.ctx.unroll = 400
        stops = {}; lens = {}
        def stop(j):
            """stops given by interval lengths between powers of two, symmetric around one half"""
            if j == mid: return C(H30)
            if j > mid: return C(H31) - stop(2 * mid - j)
            if j not in stops: stops[j] = stop(j + 1) - length(j)
            return stops[j]
        def length(j):
            e = 26 - bits - ((mid - 1 - j) * 22) // mid      # short far from one half, as those of the sigmoid
            if j not in lens: lens[j] = Sym('len%d' % j, 1 << e, (2 << e) - 1)
            return lens[j]
        def squash(st, a, rty):
            x = st.cst(an.leaf(st, a[1]))
            if x is None or x % (1 << (21 - bits)): raise Undecided('squash of no stop')
            return an.val(rty, stop((x >> (21 - bits)) + mid))
        ex = {}
        def extra(st, a, rty):
            x = st.norm(an.leaf(st, a[0]))
            if x.key() not in ex: ex[x.key()] = Sym('extra#%d' % len(ex), 0, H31 - 1)
            return an.val(rty, ex[x.key()])
        an.fn(APM + '::extra_factor')
        an.summary({SQ + '::squash': squash, APM + '::extra_factor': extra})
        sq = an.obj(None, SQ, 'squash_table')
        outs = an.run(f, [C(bits), sq], State(an.ctx)); ok = 0
        for o in outs:
            if o.kind != 'ret': continue
            ok += 1; t = o.st; ref = an.cell(t, o.value); r = []
            for name in ('squashed_interval_stops', 'shifts_by_interval', 'extra_factor_by_interval', 'stretched_fract_index_bits'):
                g = an.fn(APM + '::' + name); t, v = an.call(None, g, [ref], t)[0]; r.append(v)
            def at(v, i): return an.leaf(t, models.F(an.it, t, ip.load(t, an.ctx, *(lambda e: (e.cell, e.path))(models.elem_ref(v, C(i))))))
            for v, k, what in ((r[0], n, 'stops'), (r[1], n - 1, 'shifts'), (r[2], n - 1, 'factors')):
                an.ob_eq('weights/size', 'there is one stop per grid point and one weight per interval', f, t, models.seq_len_of(an.it, t, v), C(k), what)
            an.ob_eq('weights/bits', 'the table tells its number of index bits', f, t, r[3], C(bits))
            for i in range(n):
                an.ob_eq('weights/stops', 'each stop is the squashed form of its grid point', f, t, at(r[0], i), stop(i), 'stop %d' % i)
                if i == n - 1: break
                d = stop(i + 1) - stop(i); s = t.cst(at(r[1], i))
                if s is None: rep.add('weights/shift', 'the shift of an interval normalises its length', an.span(f), 'undecided', 'shift not constant'); continue
                an.ob_ge0('weights/shift', 'the shift of an interval normalises its length', f, t, d * (1 << s) - H30, 'shift %d of interval %d' % (s, i))
                an.ob_ge0('weights/shift', 'the shift of an interval normalises its length', f, t, C(H31 - 1) - d * (1 << s), 'shift %d of interval %d' % (s, i))
                w = ex.get(t.norm(d * (1 << s)).key())
                if w is not None: an.ob_eq('weights/factor', 'the factor of an interval completes its normalised length', f, t, at(r[2], i), w, 'interval %d' % i)
                else: rep.add('weights/factor', 'the factor of an interval completes its normalised length', an.span(f), 'undecided', 'factor of another length')
        if not ok: rep.add('weights/analysis', 'the analysis of this group completes', an.span(f), 'undecided', 'no path completes')

def stretch_table(prog, rep, tier):
    an = Luts(prog, rep); f = an.fn(STR + '::new'); an.ctx.unroll = 6000; an.ctx.max_steps = 12000000
    seen = {}
    def one_plus(st, a, rty):
        x = st.cst(an.leaf(st, a[0]))
        if x is None: raise Undecided('logarithm of an unknown')
        if x not in seen:
            import math
            g = int((math.log2(x / H31) + 1) * H31)     # an unknown near the true value: the built-in checks of accuracy stay satisfied
            seen[x] = Sym('1+log2(%d)' % x, max(0, g - 64), min(H31 - 64, g + 64))
        return an.val(rty, seen[x])
    an.fn('lut::log2::one_plus_log2_restricted')
    an.summary({'lut::log2::one_plus_log2_restricted': one_plus})
    def log(t, x):
        """binary logarithm with 25 fraction bits, rounded from that of the normalised number"""
        e = x.bit_length()          # x in [2^(e-1), 2^e): log2(x/2^31) = log2(normalised) - (31 - e)
        s = seen.get(x << (31 - e))
        if s is None: return None
        return t.fdiv(s + 32, 64) - ((32 - e) << 25)
    LN2 = 1488522236
    for t, v in an.call('stretch-table', f, [ZERO], State(an.ctx), 'the table can be made'):
        tab = an.getf(t, v, 0)
        for level in range(8):
            row = an.getf(t, tab, level)
            for i in range(512):
                if level == 7 and i == 0: continue
                x = i << 14 if level == 7 else (1 << (29 - level)) + (i << (20 - level))
                a, b = log(t, x), log(t, H31 - x)
                if a is None or b is None: an.ob_true('stretch-table', 'each entry is the difference of the logarithms of its grid point and of the opposite one, times ln 2', f, t, False, 'entry %d,%d is not that of its grid point' % (level, i)); continue
                d = -(a - b) * LN2; sh = 25 + 31 - 21
                an.ob_eq('stretch-table', 'each entry is the difference of the logarithms of its grid point and of the opposite one, times ln 2', f, t, an.leaf(t, an.getf(t, row, i)), -t.fdiv(d + (1 << (sh - 1)), 1 << sh), 'entry %d,%d' % (level, i))
