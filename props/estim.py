"""C07: adaptive estimators stay inside (0,1), move toward the observed bit by the documented amount, and count honestly."""
from harness import *
from interp import decide_ge0, decide_eq0, decide_value

DE = 'estimators::decelerating::DeceleratingEstimator'; FS = 'estimators::fixed_speed::FixedSpeedEstimator'
RATES = 'lut::estimator::DeceleratingEstimatorRates'; CT = 'estimators::cost::CostTracker'
PB = 22; ONE22 = 1 << 22; SC = 1 << 9; MAXC = 1000; H31 = 1 << 31

class Estim(An):
    def rates(s, lo, hi):
        """a reference to the rate table, whose entry i is the documented 1/(i+2), for a count in [lo,hi]"""
        def inv(lz):
            i = lz.idx[-1] if lz.idx else None
            c = i.const() if i is not None and i.is_const() else None
            if c is not None: return (H31 // (c + 2),) * 2
            return (H31 // (hi + 2), H31 // (lo + 2))
        return s.obj(None, RATES, 'rates%d_%d' % (lo, hi), inv=inv)
    def rate_at(s, st, c, lo, hi):
        t = s.adt(RATES); r = s.rates(lo, hi)
        return s.leaf(st, s.getf(st, s.get(st, r, 0) if False else ip.load(st, s.ctx, r.cell, (('f', 0),)), c))
    def est(s, key, P, c, st):
        """estimators built by make from the P'th representable prediction and a usage count"""
        mk = s.fn(DE + '::make')
        fty = s.argty(mk, 0)
        return s.call(key, mk, [s.val(fty, P * SC), c], st)
    def pred(s, key, ref, st):
        f = s.fn(DE + '::prediction')
        return [(t, s.leaf(t, v)) for t, v in s.call(key, f, [ref], st)]
    def count(s, key, ref, st):
        f = s.fn(DE + '::usage_count')
        return [(t, s.leaf(t, v)) for t, v in s.call(key, f, [ref], st)]

def decelerating(prog, rep, tier):
    an = Estim(prog, rep); upd = an.fn(DE + '::update'); new = an.fn(DE + '::new')
    k = 'decelerating'
    # fresh
    for st, v in an.call(k + '/new', new, [], State(an.ctx)):
        r = an.cell(st, v)
        for st, p in an.pred(k + '/new', r, st): an.ob_eq(k + '/new', 'a fresh estimator predicts exactly one half', new, st, p, C(1 << 30))
        for st, c in an.count(k + '/new', r, st): an.ob_eq(k + '/new', 'a fresh estimator has been used zero times', new, st, c, C(0))
    # make / prediction / usage_count are faithful
    P = Sym('P', 1, ONE22 - 1); c = Sym('count', 0, MAXC); mk = an.fn(DE + '::make')
    for st, v in an.est(k + '/make', P, c, State(an.ctx)):
        r = an.cell(st, v)
        for st, p in an.pred(k + '/make', r, st): an.ob_eq(k + '/make', 'an estimator holds the prediction it was made with', mk, st, p, P * SC)
        for st, d in an.count(k + '/make', r, st): an.ob_eq(k + '/make', 'an estimator holds the usage count it was made with', mk, st, d, c)
    for edge, want in ((0, 1), (ONE22, ONE22 - 1)):
        for st, v in an.est(k + '/make', C(edge), c, State(an.ctx)):
            r = an.cell(st, v)
            for st, p in an.pred(k + '/make', r, st): an.ob_eq(k + '/make-ends', 'certain predictions are pulled strictly inside (0,1)', mk, st, p, C(want * SC))
    fine = C(SC) * Sym('P', 0, ONE22 - 1) + Sym('finer', 1, SC - 1); st = State(an.ctx)
    an.ob_refuses(k + '/make-finer', 'a prediction of more than 22 bits is refused', mk, an.run(mk, [an.val(an.argty(mk, 0), fine), c], st))
    an.ob_refuses(k + '/make-count', 'a usage count beyond 1000 is refused', mk, an.run(mk, [an.val(an.argty(mk, 0), P * SC), Sym('count', MAXC + 1, 65535)], State(an.ctx)))
    # update
    for lo, hi in ((0, 0), (1, 1), (2, 20), (21, 999), (1000, 1000)):
        rates = an.rates(lo, hi)
        for bit in (0, 1):
            st = State(an.ctx)
            c = Sym('count', lo, hi) if lo != hi else C(lo)
            P = Sym('P', 1, ONE22 - 1) if lo else C(ONE22 // 2)
            for st, v in an.est(None, P, c, st):
                ref = an.cell(st, v)
                for st, _ in an.call(k + '/update', upd, [ref, an.bit(bit), rates], st):
                    r = an.rate_at(st, c, lo, hi)
                    for st, p2 in an.pred(k + '/update', ref, st):
                        target = C(0) if bit else C(H31)
                        old = P * SC
                        err = target - old
                        an.ob_ge0(k + '/inside', 'the prediction stays strictly between 0 and 1', upd, st, p2 - 1)
                        an.ob_ge0(k + '/inside', 'the prediction stays strictly between 0 and 1', upd, st, C(H31 - 1) - p2)
                        s = -1 if bit else 1
                        an.ob_ge0(k + '/direction', 'a 0 never lowers and a 1 never raises the probability of 0', upd, st, (p2 - old) * s)
                        an.ob_ge0(k + '/no-overshoot', 'the prediction never passes the observed bit', upd, st, (target - p2) * s)
                        # the step is err*rate rounded to the estimator's 22 bits
                        d = p2 * H31 - old * H31 - err * r
                        an.ob_ge0(k + '/step', 'the step is the error times the rate of the current count, rounded to nearest', upd, st, d * 2 + SC * H31)
                        an.ob_ge0(k + '/step', 'the step is the error times the rate of the current count, rounded to nearest', upd, st, C(SC * H31) - d * 2)
                    for st, c2 in an.count(k + '/update', ref, st):
                        an.ob_eq(k + '/count', 'each update counts once, up to 1000', upd, st, c2, c + 1 if hi < MAXC else C(MAXC))

def rates(prog, rep, tier):
    an = Estim(prog, rep); an.ctx.unroll = 1200
    f = an.fn(RATES + '::make_default'); ix = [i for i in prog.inst.values() if i['path'].startswith('<' + RATES + ' as std::ops::Index') and i['body']]
    if not ix: raise Missing('index of the rate table')
    for st, v in an.call('rates/build', f, [], State(an.ctx)):
        ref = an.cell(st, v)
        for c in range(1024 if tier == 'thorough' else 1001):
            for t, e in an.call('rates/lookup', ix[0], [ref, C(c)], st.clone()):
                x = ip.load(t, an.ctx, e.cell, e.path)
                an.ob_eq('rates/value', 'the rate of count c is 1/(c+2), rounded down', f, t, an.leaf(t, x), C(H31 // (c + 2)))

def fixed_speed(prog, rep, tier):
    an = Estim(prog, rep); new = an.fn(FS + '::new'); upd = an.fn(FS + '::update'); pr = an.fn(FS + '::prediction')
    k = 'fixed-speed'
    df = an.fn('<' + FS + ' as std::default::Default>::default', opt=True)
    if df:
        for st, v in an.call(k + '/default', df, [], State(an.ctx)):
            for st, p in an.call(k + '/default', pr, [an.cell(st, v)], st):
                an.ob_eq(k + '/default', 'the default estimator predicts exactly one half', df, st, an.leaf(st, p), C(1 << 30))
    q = Sym('q', 0, 511); m = Sym('m', 0, 127)      # every 16-bit value in the digits of the shift
    for bit in (0, 1):
        st = State(an.ctx); x = q * 128 + m
        if not st.assume_ge0(x - 1): continue
        for st, v in an.call(k + '/new', new, [x], st):
            ref = an.cell(st, v)
            for st, p in an.call(k + '/prediction', pr, [ref], st):
                p = an.leaf(st, p)
                an.ob_eq(k + '/prediction', 'the prediction is the value the estimator was made with', pr, st, p, x * (1 << 15))
                for st, _ in an.call(k + '/update', upd, [ref, an.bit(bit)], st):
                    for st, p2 in an.call(k + '/prediction', pr, [ref], st):
                        p2 = an.leaf(st, p2)
                        an.ob_ge0(k + '/inside', 'the prediction stays strictly between 0 and 1', upd, st, p2 - 1)
                        an.ob_ge0(k + '/inside', 'the prediction stays strictly between 0 and 1', upd, st, C(H31 - 1) - p2)
                        an.ob_ge0(k + '/direction', 'a 0 never lowers and a 1 never raises the probability of 0', upd, st, (p2 - p) * (-1 if bit else 1))
                        for t, w in an.spec(st, lambda s: s.fdiv(C(65536) - x, 128) if not bit else -s.fdiv(x, 128)):
                            an.ob_eq(k + '/step', 'the step is a 128th of the distance to the observed bit, rounded down', upd, t, p2, p + w * (1 << 15))

def cost(prog, rep, tier):
    an = Estim(prog, rep); up = an.fn(CT + '::updated'); new = an.fn(CT + '::new'); raw = an.fn(CT + '::raw')
    k = 'cost-tracker'
    q = Sym('q', 0, 4095); d = Sym('d', 0, 1); m = Sym('m', 0, 7); x = q * 16 + d * 8 + m
    c = Sym('cost', 1, 65535)
    for st, v in an.call(k, new, [x], State(an.ctx)):
        for st, w in an.call(k, up, [an.cell(st, v), an.val(an.argty(up, 1), c)], st):
            for st, r in an.call(k, raw, [an.cell(st, w)], st):
                want = x - q - d + c
                for st, sat in an.spec(st, lambda s: decide_ge0(s, want - 65536)):
                    an.ob_eq(k + '/decay', 'an update forgets a 16th (rounded to nearest) and adds the new cost, saturating', up, st, an.leaf(st, r), C(65535) if sat else want)
    ub = an.fn(CT + '::updated_on_bit', opt=True)
    if ub is None: return
    # an observed bit is charged with the cost of that bit under the predicted probability
    log = []
    def est(st, args, rty):
        b = an.leaf(st, models.F(an.it, st, args[1])); p = ip.load(st, an.ctx, args[0].cell, args[0].path)
        st.events = st.events + (('cost', an.leaf(st, p), b),)
        return an.val(rty, Sym('cost', 1, 65535))
    an.summary({'coding::FinalProbability::estimate_cost': est})
    Q = Sym('Q', 0, (1 << 23) - 1); e = Sym('e', 0, 1); f = Sym('f', 0, 127); p = Q * 256 + e * 128 + f
    for bit in (0, 1):
        st = State(an.ctx)
        if not st.assume_ge0(p - 1): continue
        for st, v in an.call(k, new, [x], st):
            for st, w in an.call(k + '/on-bit', ub, [an.cell(st, v), an.val(an.argty(ub, 1), p), an.bit(bit), VLazy(ub['body']['locals'][4], 'luts')], st):
                ev = [z for z in st.events if z[0] == 'cost']
                an.ob_true(k + '/on-bit', 'the charged cost is that of the observed bit under the predicted probability', ub, st, len(ev) == 1, 'cost estimated %d times' % len(ev))
                if len(ev) != 1: continue
                an.ob_eq(k + '/on-bit-bit', 'the charged bit is the observed one', ub, st, ev[0][2], C(bit))
                for st2, (want) in an.spec(st, lambda s: clampp(s, Q + e)):
                    an.ob_eq(k + '/on-bit-probability', 'the charged probability is the prediction rounded to 23 bits', ub, st2, ev[0][1], want)
                for st2, r in an.call(k, raw, [an.cell(st, w)], st):
                    want = x - q - d + c
                    for st3, sat in an.spec(st2, lambda s: decide_ge0(s, want - 65536)):
                        an.ob_eq(k + '/on-bit-decay', 'an observed bit decays the tracker and adds its cost', ub, st3, an.leaf(st3, r), C(65535) if sat else want)
def clampp(s, v):
    if decide_ge0(s, v - (1 << 23)): return C((1 << 23) - 1)
    if decide_ge0(s, -v): return C(1)
    return v

class Chain:
    """estimators as abstract histories: update is an injective unknown step of (estimator, bit), so a table entry
    denotes the exact sequence of bits it was built from"""
    def __init__(s, an):
        s.an = an; s.memo = {}; s.inv = {}
        t = an.adt(DE)
        if len(t['variants'][0]['fields']) != 1: raise Undecided('estimator representation')
        an.summary({DE + '::update': s.update})
    def key(s, st, p): return st.norm(p).key()
    def step(s, st, raw, bit):
        k = (s.key(st, raw), bit)
        if k not in s.memo:
            m = (s.key(st, s.mirror(st, raw)), 1 - bit)      # the step commutes with mirroring (checked in symmetry())
            if m in s.memo: return s.mirror(st, s.memo[m])
            c = s.inv.get(s.key(st, raw), (None, None))[1]
            n = len(s.memo)
            if c is None: raise Undecided('estimator of unknown origin')
            c2 = min(c + 1, MAXC)
            v = Sym('est%d' % n, 1, ONE22 - 1) * 1024 + c2
            s.memo[k] = v; s.inv[v.key()] = (k, c2)
        return s.memo[k]
    def mirror(s, st, raw):
        q = st.fdiv(raw, 1024)
        v = (C(ONE22) - q) * 1024 + (raw - q * 1024)
        if s.key(st, raw) in s.inv: s.inv.setdefault(v.key(), s.inv[s.key(st, raw)])
        return v
    def update(s, st, args, rty):
        an = s.an; r = models.F(an.it, st, args[0]); e = ip.load(st, an.ctx, r.cell, r.path)
        raw = an.leaf(st, e); b = st.cst(an.leaf(st, args[1]))
        if b is None: raise Undecided('unknown bit')
        ip.store(st, an.ctx, r.cell, r.path, an.val(an.adt(DE)['id'], s.step(st, raw, b)))
        return UNIT
    def start(s, st, v):
        raw = s.an.leaf(st, v); c = st.cst(raw)
        if c is None: raise Undecided('initial estimator not constant')
        s.inv[C(c).key()] = (None, c % 1024)
        return C(c)

def symmetry(prog, rep, tier):
    an = Estim(prog, rep); upd = an.fn(DE + '::update')
    for lo, hi in ((1, 999),):
        rates = an.rates(lo, hi); c = Sym('count', lo, hi); P = Sym('P', 1, ONE22 - 1)
        for st, v in an.est(None, P, c, State(an.ctx)):
            for st, w in an.est(None, C(ONE22) - P, c, st):
                a, b = an.cell(st, v), an.cell(st, w)
                for st, _ in an.call(None, upd, [a, an.bit(0), rates], st):
                    for st, _ in an.call(None, upd, [b, an.bit(1), rates], st):
                        for st, p in an.pred(None, a, st):
                            for st, q in an.pred(None, b, st):
                                an.ob_eq('decelerating/symmetric', 'mirrored estimators fed mirrored bits stay mirrored', upd, st, p + q, C(H31))

def tables(prog, rep, tier):
    an = Estim(prog, rep); an.ctx.unroll = 1200; ch = Chain(an)
    C0 = 'lut::estimator::DeceleratingEstimatorCache'
    f = an.fn(C0 + '::new'); get = an.fn(C0 + '::for_new_node'); new = an.fn(DE + '::new')
    mk = an.fn(DE + '::make')
    for st, v in an.call(None, new, [], State(an.ctx)): e = ch.start(st, v)
    key = 'new-node-table'
    runs = range(MAXC + 1)
    for st, v in an.call(key + '/build', f, [an.obj(None, RATES, 'rates')], st):
        ref = an.cell(st, v); cur = e
        for run in runs:
            want = ch.step(st, cur, 1)
            for bit in (1, 0):
                for t, x in an.call(key + '/lookup', get, [ref, an.bit(bit), C(run)], st.clone()):
                    r = an.cell(t, x)
                    for t, p in an.pred(None, r, t):
                        wp = t.fdiv(want, 1024) * SC
                        an.ob_eq(key + '/history', 'the starting estimator of a node after a run of opposite bits is a fresh one fed that run and then the last bit (mirrored for bit 0)', get, t, p, wp if bit else C(H31) - wp)
                    for t, c in an.count(None, r, t):
                        an.ob_eq(key + '/count', 'it counts the run and the last bit, up to 1000', get, t, c, C(min(run + 1, MAXC)))
            cur = ch.step(st, cur, 0)
    C1 = 'lut::estimator::DeceleratingEstimatorPredictions'
    f = an.fn(C1 + '::new'); get = an.fn(C1 + '::for_0_bit_run'); key = 'run-prediction-table'
    sm = {}
    def stretch(st, args, rty):
        k = st.norm(an.leaf(st, args[1])).key()
        if k not in sm: sm[k] = Sym('stretched%d' % len(sm), -(12 << 21), 12 << 21)
        return an.val(rty, sm[k])
    an.summary({'lut::stretch::StretchLut::stretch': stretch})
    for st, v in an.call(None, mk, [an.val(an.argty(mk, 0), C(1 << 30)), C(1)], State(an.ctx)): e = ch.start(st, v)
    for st, v in an.call(key + '/build', f, [VLazy(f['body']['locals'][1], 'stretch'), an.obj(None, RATES, 'rates')], st):
        ref = an.cell(st, v); cur = e
        for run in runs:
            for t, x in an.call(key + '/lookup', get, [ref, C(run)], st.clone()):
                x = models.F(an.it, t, x)
                sq = t.fdiv(cur, 1024) * SC
                an.ob_eq(key + '/history', 'the prediction for a run of zeros is that of an estimator fed that run', get, t, an.leaf(t, x.fields[0]), sq)
                w = sm.get(t.norm(sq).key())
                an.ob_eq(key + '/stretched', 'its stretched form is the stretch of that same prediction', get, t, an.leaf(t, x.fields[1]), w) if w is not None else \
                    an.ob_true(key + '/stretched', 'its stretched form is the stretch of that same prediction', get, t, False, 'stretch of another value')
            cur = ch.step(st, cur, 0)
    C2 = 'lut::cost::CostTrackersLut'
    f = an.fn(C2 + '::new'); get = an.fn(C2 + '::for_new_node'); key = 'cost-table'; raw = an.fn(CT + '::raw')
    cm = {}; um = {}
    def cost_(st, p, b):
        k = (st.norm(p).key(), b)
        if k not in cm: cm[k] = Sym('cost%d' % len(cm), 1, 47104)
        return cm[k]
    def est(st, args, rty):
        b = st.cst(an.leaf(st, models.F(an.it, st, args[1]))); p = an.leaf(st, ip.load(st, an.ctx, args[0].cell, args[0].path))
        return an.val(rty, cost_(st, p, b))
    def upd_(st, x, c):
        k = (st.norm(x).key(), st.norm(c).key())
        if k not in um: um[k] = Sym('tracker%d' % len(um), 0, 65535)
        return um[k]
    def updated(st, args, rty):
        x = an.leaf(st, ip.load(st, an.ctx, args[0].cell, args[0].path))
        return an.val(rty, upd_(st, x, an.leaf(st, args[1])))
    an.summary({'coding::FinalProbability::estimate_cost': est, CT + '::updated': updated})
    for st, v in an.call(None, new, [], State(an.ctx)): e = ch.start(st, v)
    for st, v in an.call(key + '/build', f, [VLazy(f['body']['locals'][1], 'log2'), an.obj(None, RATES, 'rates')], st):
        ref = an.cell(st, v); cur = e; x = C(1 << 15)
        for run in runs:
            p = st.fdiv(cur, 1024) * 2
            want = upd_(st, x, cost_(st, p, 1))
            for t, y in an.call(key + '/lookup', get, [ref, C(run)], st.clone()):
                for t, z in an.call(None, raw, [an.cell(t, y)], t):
                    an.ob_eq(key + '/history', 'the starting tracker of a node is the initial one charged for that run and then for the opposite bit, under the estimator\'s predictions', get, t, an.leaf(t, z), want)
            x = upd_(st, x, cost_(st, p, 0)); cur = ch.step(st, cur, 0)
