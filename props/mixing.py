"""C08: the mixer is the documented weighted sum with the documented error-driven update."""
from harness import *
from interp import decide_ge0, decide_eq0, decide_value

MX = 'mixing::mixer::'; W1 = 1 << 21; WMAX = 8 << 21; SMAX = 12 << 21; H31 = 1 << 31; MAXI = 1000

def rnd(st, p, sh):
    """round(p / 2^sh), halves away from zero"""
    if decide_ge0(st, p): return st.fdiv(p + (1 << (sh - 1)), 1 << sh)
    return -st.fdiv(-p + (1 << (sh - 1)), 1 << sh)
def clamp(st, p, m):
    if decide_ge0(st, p - m): return C(m)
    if decide_ge0(st, -m - p): return C(-m)
    return p

class Mix(An):
    def __init__(s, prog, rep):
        An.__init__(s, prog, rep)
        s.sq = {}; s.selfs = {}
        def squash(st, args, rty):
            x = s.leaf(st, args[1]); k = st.norm(x).key()
            if k not in s.sq: s.sq[k] = Sym('squash%d' % len(s.sq), 1, H31 - 1)
            return s.val(rty, s.sq[k])
        s.summary({'lut::squash::SquashLut::squash': squash})
    def kinds(s):
        """(label, size, maker) of every mixer with a fixed or chosen size"""
        out = []
        for i in s.p.bypath.get(MX + 'FixedSizeMixer::new', []):
            if i['body']:
                label = s.p.ty[i['self']]['name'].rsplit('::', 1)[1]
                s.selfs[label] = i['self']; out.append((label, None, i))
        for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 30):
            f = s.fn(MX + 'MixerN::new', opt=True)
            if f: s.selfs['MixerN(%d)' % n] = f['self']; out.append(('MixerN(%d)' % n, n, f))
        if not out: raise Missing('mixer constructors')
        return out
    def mode(s, name):
        t = s.adt(MX + 'MixerInitializationMode')
        return VAgg(t['id'], models.variant_index(s.it, t['id'], name), ())
    def make(s, key, mk, n, idx, mode, st):
        return s.call(key, mk, ([C(n)] if n is not None else []) + [idx, s.mode(mode)], st)
    def m(s, label, name):
        """the mixer operation of a mixer type"""
        return s.meth(s.selfs[label], name)
    def size(s, label, n, ref, st):
        f = s.m(label, 'size')
        for t, v in s.call(None, f, [ref], st.clone()):
            c = t.cst(s.leaf(t, v))
            if c is None or (n is not None and c != n): raise Undecided('size of ' + label)
            return c
        raise Undecided('size of ' + label)
    def setin(s, key, label, ref, i, sq, sx, st):
        f = s.m(label, 'set_input')
        return s.call(key, f, [ref, C(i), s.val(s.argty(f, 2), sq), s.val(s.argty(f, 3), sx)], st)
    def weight(s, label, ref, i, st):
        f = s.m(label, 'weight')
        return [(t, s.leaf(t, v)) for t, v in s.call(None, f, [ref, C(i)], st)]
    def mixer(s, label, n, mk, idx, w):
        """a mixer of that kind ready for a step: weights w[i] (None: any admissible), learning index idx"""
        for st, v in s.make(None, mk, n, idx, 'AllZero', State(s.ctx)):
            def fresh(t, i):
                return s.val(t['id'], w[i] if w is not None and i < len(w) else Sym('w%d' % i, -WMAX, WMAX))
            v = s.havoc(st, v, {'fixed_point::types::MixerWeight'}, fresh)
            yield st, s.cell(st, v)
    def lut(s, label): return s.obj(None, None, 'squash_lut', ty=s.argty(s.m(label, 'mix_all'), 1))
    def rates(s, lo, hi):
        t = s.adt('lut::estimator::DeceleratingEstimatorRates')
        def inv(lz): return (H31 // (hi + 2), H31 // (lo + 2))
        return s.obj(None, None, 'rates%d_%d' % (lo, hi), inv=inv, ty=t['id'])
    def rate(s, st, r, i):
        c = st.cst(i); i = C(c) if c is not None else st.norm(i)
        return s.leaf(st, s.getf(st, ip.load(st, s.ctx, r.cell, (('f', 0),)), i))

CONST = [(1 << 20, 700001), (-3000001, 5 << 20), (4 << 21, -11 * W1 + 3), (-(1 << 21), -123457), (77777, 1 << 21)]
def const_in(i): return CONST[i % 5]

def initial(prog, rep, tier):
    an = Mix(prog, rep)
    for label, n, mk in an.kinds():
        k = label
        for mode in ('AllZero', 'DominantFirst', 'EqualSummingToOne'):
            for st, v in an.make(k + '/new', mk, n, Sym('index', 0, MAXI), mode, State(an.ctx)):
                ref = an.cell(st, v); N = an.size(label, n, ref, st)
                for i in range(N):
                    for t, w in an.weight(label, ref, i, st):
                        if mode == 'EqualSummingToOne':
                            d = w * N - W1
                            an.ob_ge0(k + '/equal-weights', 'equal initial weights sum to one up to one unit of precision each', mk, t, C(N - 1) - d if N > 1 else -d)
                            an.ob_ge0(k + '/equal-weights', 'equal initial weights sum to one up to one unit of precision each', mk, t, C(N - 1) + d if N > 1 else d)
                        else:
                            an.ob_eq(k + '/' + mode, 'initial weights are zero, or one for the dominant input', mk, t, w, C(W1 if mode == 'DominantFirst' and i == 0 else 0))
        an.ob_refuses(k + '/index-limit', 'a learning-rate index above 1000 is refused', mk, an.run(mk, ([C(n)] if n is not None else []) + [Sym('index', MAXI + 1, 65535), an.mode('AllZero')]))

def pairing(prog, rep, tier):
    an = Mix(prog, rep)
    for label, n, mk in an.kinds():
        if n not in (None, 1, 2, 9, 17, 30): continue
        k = label; seti = an.m(label, 'set_input'); mix = an.m(label, 'mix_all'); upd = an.m(label, 'update_and_reset')
        def up(ref, bit=0): return [ref, an.bit(bit), an.val(an.argty(upd, 2), C(1 << 30)), C(MAXI), an.rates(0, MAXI)]
        for st, ref in an.mixer(label, n, mk, Sym('index', 0, MAXI), None):
            N = an.size(label, n, ref, st)
            miss = range(N) if N <= 5 else (0, 1, N - 1)
            r1 = 'mixing is refused while an input has not been set'; r2 = 'updating is refused while an input has not been set'
            for missing in miss:
                s2 = st.clone(); cur = [s2]
                for i in range(N):
                    if i == missing: continue
                    cur = [t for c in cur for t, _ in an.setin(None, label, ref, i, C(1 << 30), C(0), c)]
                for c in cur:
                    an.ob_refuses(k + '/mix-missing', r1, mix, an.run(mix, [ref, an.lut(label)], c.clone()))
                    an.ob_refuses(k + '/update-missing', r2, upd, an.run(upd, up(ref), c.clone()))
                    for g in ('prediction_sq', 'prediction_st'):
                        f = an.m(label, g)
                        an.ob_refuses(k + '/read-missing', 'reading an input that has not been set is refused', f, an.run(f, [ref, C(missing)], c.clone()))
            an.ob_refuses(k + '/range', 'an input index beyond the size is refused', seti, an.run(seti, [ref, C(N), an.val(an.argty(seti, 2), C(1 << 30)), an.val(an.argty(seti, 3), C(0))], st.clone()))
            for i in miss:
                for t, _ in an.setin(k + '/set', label, ref, i, C(5), C(7), st.clone()):
                    an.ob_refuses(k + '/set-twice', 'setting an input twice in a step is refused', seti, an.run(seti, [ref, C(i), an.val(an.argty(seti, 2), C(1 << 30)), an.val(an.argty(seti, 3), C(0))], t.clone()))
            # a full step can be followed by another one
            cur = [st]
            for rnd_ in (0, 1):
                order = range(N) if not rnd_ else reversed(range(N))
                for i in order:
                    sq, sx = Sym('sq%d_%d' % (rnd_, i), 1, H31 - 1), Sym('st%d_%d' % (rnd_, i), -SMAX, SMAX)
                    cur = [t for c in cur for t, _ in an.setin(k + '/set', label, ref, i, sq, sx, c)]
                    for c in cur:
                        for g, want in (('prediction_sq', sq), ('prediction_st', sx)):
                            f = an.m(label, g)
                            for t, v in an.call(k + '/read', f, [ref, C(i)], c.clone()):
                                an.ob_eq(k + '/read', 'an input reads back as it was set', f, t, an.leaf(t, v), want)
                if not rnd_:
                    nxt = []
                    for c in cur[:1]:
                        for o in an.run(upd, [ref, an.bit(0), an.val(an.argty(upd, 2), C(H31 - 1)), C(MAXI), an.rates(0, MAXI)], c):
                            if o.kind == 'ret': nxt.append(o.st)
                    cur = nxt[:4]
            rep.add(k + '/again', 'after an update every input can be set again', an.span(upd), 'discharged' if cur else 'undecided', '' if cur else 'no completed step')
def mixing(prog, rep, tier):
    an = Mix(prog, rep)
    for label, n, mk in an.kinds():
        k = label; mix = an.m(label, 'mix_all')
        for st, ref in an.mixer(label, n, mk, Sym('index', 0, MAXI), []): N = an.size(label, n, ref, st)
        focus = [(i,) for i in range(N)] if N <= 5 else [(0,), (N - 2,), (N - 1,)]
        if tier == 'thorough' and N <= 3: focus.append(tuple(range(N)))
        for f in focus:
            ws = [Sym('w%d' % i, -WMAX, WMAX) if i in f else C(const_in(i)[0]) for i in range(N)]
            ss = [Sym('s%d' % i, -SMAX, SMAX) if i in f else C(const_in(i)[1]) for i in range(N)]
            for st, ref in an.mixer(label, n, mk, Sym('index', 0, MAXI), ws):
                cur = [st]
                for i in range(N):
                    cur = [t for c in cur for t, _ in an.setin(None, label, ref, i, Sym('q%d' % i, 1, H31 - 1), ss[i], c)]
                for c in cur:
                    for t, v in an.call(k + '/mix', mix, [ref, an.lut(label)], c):
                        v = models.F(an.it, t, v)
                        sx = an.leaf(t, v.fields[1]); sq = an.leaf(t, v.fields[0])
                        def spec(u):
                            q = ZERO
                            for i in range(N): q = q + rnd(u, ws[i] * ss[i], 2)
                            return rnd(u, clamp(u, q, 12 << 40), 19)
                        for u, want in an.spec(t, spec):
                            an.ob_eq(k + '/sum', 'the mixed stretched probability is the sum of weight times input, limited to +-12 and rounded', mix, u, sx, want)
                        w = an.sq.get(t.norm(sx).key())
                        if w is None: an.ob_true(k + '/squash', 'the mixed probability is the squash of the mixed stretched probability', mix, t, False, 'squash of another value')
                        else: an.ob_eq(k + '/squash', 'the mixed probability is the squash of the mixed stretched probability', mix, t, sq, w)
                        for i in range(N):
                            for t2, w2 in an.weight(label, ref, i, t.clone()):
                                an.ob_eq(k + '/pure', 'mixing does not change the weights', mix, t2, w2, ws[i])

def updating(prog, rep, tier):
    an = Mix(prog, rep)
    for label, n, mk in an.kinds():
        k = label; upd = an.m(label, 'update_and_reset')
        for st, ref in an.mixer(label, n, mk, C(0), []): N = an.size(label, n, ref, st)
        for f in range(N) if N <= 5 else (0, N - 2, N - 1):
            ws = [Sym('w%d' % i, -WMAX, WMAX) if i == f else C(const_in(i)[0]) for i in range(N)]
            ss = [Sym('s%d' % i, -SMAX, SMAX) if i == f else C(const_in(i)[1]) for i in range(N)]
            idx = Sym('index', 0, MAXI); P = Sym('result', 1, H31 - 1); rates = an.rates(0, MAXI)
            for bit in (0, 1):
                for st, ref in an.mixer(label, n, mk, idx, ws):
                    cur = [st]
                    for i in range(N):
                        cur = [t for c in cur for t, _ in an.setin(None, label, ref, i, C(1 << 30), ss[i], c)]
                    for c in cur:
                        for t, _ in an.call(k + '/update', upd, [ref, an.bit(bit), an.val(an.argty(upd, 2), P), C(MAXI), rates], c):
                            got = []
                            for i in range(N):
                                for t2, w in an.weight(label, ref, i, t): got.append(w)
                            def spec(u):
                                r = rnd(u, an.rate(u, rates, idx), 1)
                                e = (C(H31) - P) if not bit else P
                                g = rnd(u, e * r, 31)
                                out = []
                                for i in range(N):
                                    d = rnd(u, ss[i] * g, 31)
                                    out.append(clamp(u, ws[i] + (-d if bit else d), WMAX))
                                return out
                            for u, want in an.spec(t, spec):
                                for i in range(N):
                                    an.ob_eq(k + '/weights', 'each weight moves by its input times the error times half the current rate (each product rounded), towards the observed bit, limited to +-8', upd, u, got[i], want[i])
                                    an.ob_ge0(k + '/limits', 'weights stay within +-8', upd, u, C(WMAX) - got[i])
                                    an.ob_ge0(k + '/limits', 'weights stay within +-8', upd, u, got[i] + WMAX)

def learning_rate(prog, rep, tier):
    an = Mix(prog, rep)
    for label, n, mk in an.kinds():
        if n not in (None, 1, 2): continue
        k = label; upd = an.m(label, 'update_and_reset')
        for st, ref in an.mixer(label, n, mk, C(0), []): N = an.size(label, n, ref, st)
        for lo, hi, m in ((0, 8, 9), (0, 999, 1000), (3, 3, 3), (9, 9, 10), (1000, 1000, 1000), (0, 0, 0), (0, 254, 255)):
            idx = Sym('index', lo, hi) if lo != hi else C(lo); rates = an.rates(0, MAXI)
            for st, ref in an.mixer(label, n, mk, idx, [C(0)] * N):
                cur = [st]
                for step in (0, 1):
                    for i in range(N):
                        cur = [t for c in cur for t, _ in an.setin(None, label, ref, i, C(1 << 30), C(1 << 21 if i == 0 else 0), c)]
                    nxt = []
                    for c in cur:
                        w0 = [w for _, w in an.weight(label, ref, 0, c.clone())][0]
                        for t, _ in an.call(k + '/update', upd, [ref, an.bit(0), an.val(an.argty(upd, 2), C(1 << 30)), C(m), rates], c):
                            w1 = [w for _, w in an.weight(label, ref, 0, t.clone())][0]
                            def spec(u):
                                i = idx + step
                                if decide_ge0(u, i - m): i = C(m)
                                r = rnd(u, an.rate(u, rates, i), 1)
                                return clamp(u, w0 + rnd(u, rnd(u, r * (1 << 30), 31) * (1 << 21), 31), WMAX)
                            for u, want in an.spec(t, spec):
                                an.ob_eq(k + '/index', 'the learning rate index grows by one per update up to the given maximum', upd, u, w1, want)
                                nxt.append(u)
                    cur = nxt
            # index above the maximum given
        if True:
            for st, ref in an.mixer(label, n, mk, C(7), [C(0)] * N):
                cur = [st]
                for i in range(N): cur = [t for c in cur for t, _ in an.setin(None, label, ref, i, C(1 << 30), C(0), c)]
                for c in cur:
                    an.ob_refuses(k + '/limit', 'a maximum above 1000 is refused', upd, an.run(upd, [ref, an.bit(0), an.val(an.argty(upd, 2), C(1 << 30)), Sym('max', MAXI + 1, 65535), an.rates(0, MAXI)], c.clone()))
