"""C15: the random generator is MT19937-64, in range and never out of its words."""
from harness import *
from fractions import Fraction
from interp import VFloat, VSeq, VAgg, bxor, band
MT = 'random::MersenneTwister'; NN = 312; MM = 156; M64 = (1 << 64) - 1
A = 0xB5026F5AA96619E9

def word(name): return [Sym('%s.%d' % (name, k), 0, 1) for k in range(64)]
def num(ds):
    r = ZERO
    for k, d in enumerate(ds): r = r + d * (1 << k)
    return r
from state import xor1
def temper(d):
    """digits of the tempered word"""
    def shx(d, n, mask): return [xor1(d[k], d[k - n]) if 0 <= k - n < 64 and mask >> k & 1 else d[k] for k in range(64)]
    d = shx(d, -29, 0x5555555555555555); d = shx(d, 17, 0x71D67FFFEDA60000); d = shx(d, 37, 0xFFF7EEE000000000); return shx(d, -43, M64)
def twist(w):
    """digits of the next generation of words"""
    w = [list(x) for x in w]
    for i in range(NN):
        y = w[(i + 1) % NN][:31] + w[i][31:]; z = w[(i + MM) % NN]
        w[i] = [xor1(z[k], y[k + 1] if k < 63 else ZERO, y[0] if A >> k & 1 else ZERO) for k in range(64)]
    return w
class G:
    def __init__(s, prog, rep):
        s.an = An(prog, rep); s.t = s.an.adt(MT); s.p = prog
        s.wi = s.an.fieldidx(s.t, 'state'); s.xi = s.an.fieldidx(s.t, 'index')
    def gen(s, words, index, ety=None):
        f = [None, None]; wt = s.t['variants'][0]['fields'][s.wi][1]
        f[s.wi] = VSeq(s.p.ty[wt].get('of'), C(NN), ('t', tuple(words))); f[s.xi] = index
        return VAgg(s.t['id'], 0, tuple(f))
    def words(s, st, ref):
        v = s.an.get(st, ref, 'state')
        return [st.norm(s.an.leaf(st, s.an.getf(st, v, i))) for i in range(NN)]
    def index(s, st, ref): return s.an.leaf(st, s.an.get(st, ref, 'index'))

def drawing(prog, rep, tier):
    g = G(prog, rep); an = g.an; f = an.fn(MT + '::next_int64')
    rule = 'a number is the next word after tempering'
    W = [word('w%d' % i) for i in range(NN)]; nums = [num(w) for w in W]
    for i in (0, 1, 155, 156, 310, 311):
        st = State(an.ctx); ref = an.cell(st, g.gen(nums, C(i)))
        for t, v in an.call('draw', f, [ref], st):
            an.ob_eq('draw/tempered', rule, f, t, an.leaf(t, v), num(temper(W[i])))
            an.ob_eq('draw/next', 'the next draw takes the following word', f, t, g.index(t, ref), C(i + 1))
            for a, b in zip(g.words(t, ref), nums): an.ob_eq('draw/unchanged', 'drawing a word leaves the words alone', f, t, a, b)
    st = State(an.ctx); ref = an.cell(st, g.gen(nums, C(NN))); new = twist(W)
    for t, v in an.call('twist', f, [ref], st):
        for a, b in zip(g.words(t, ref), new): an.ob_eq('twist/words', 'after 312 draws all words are renewed by the recurrence of MT19937-64', f, t, a, num(b))
        an.ob_eq('twist/tempered', rule, f, t, an.leaf(t, v), num(temper(new[0])))
        an.ob_eq('twist/next', 'the next draw takes the following word', f, t, g.index(t, ref), ONE)
    st = State(an.ctx); i = Sym('index', NN + 1, (1 << 64) - 1); ref = an.cell(st, g.gen(nums, i))
    an.ob_refuses('draw/outside', 'an index beyond the words is refused', f, an.run(f, [ref], st))

def fev(e, val):
    """value of a float expression in exact arithmetic of the processor, leaves given by val"""
    k = e[0]
    if k == 'k': return float(e[1])
    if k == 'int': return float(val(e[1]))
    a = [fev(x, val) for x in e[1:]]
    if k == 'Neg': return -a[0]
    return {'Add': lambda: a[0] + a[1], 'Sub': lambda: a[0] - a[1], 'Mul': lambda: a[0] * a[1], 'Div': lambda: a[0] / a[1]}[k]()
def lin(e, key):
    """(a, b) with e = a * leaf + b over the reals"""
    k = e[0]
    if k == 'k': return Fraction(0), Fraction(e[1])
    if k == 'int': return (Fraction(1), Fraction(0)) if e[1] == key else None
    x = [lin(y, key) for y in e[1:]]
    if None in x: return None
    if k == 'Add': return x[0][0] + x[1][0], x[0][1] + x[1][1]
    if k == 'Sub': return x[0][0] - x[1][0], x[0][1] - x[1][1]
    if k == 'Mul' and not x[0][0]: return x[1][0] * x[0][1], x[1][1] * x[0][1]
    if k == 'Mul' and not x[1][0]: return x[0][0] * x[1][1], x[0][1] * x[1][1]
    if k == 'Div' and not x[1][0] and x[1][1]: return x[0][0] / x[1][1], x[0][1] / x[1][1]
    return None
def leaves(e):
    if e[0] == 'int': return [e[1]]
    return [y for x in e[1:] if isinstance(x, tuple) for y in leaves(x)]

def scaled(prog, rep, tier):
    g = G(prog, rep); an = g.an; an.fn(MT + '::next_int64')
    X = Sym('drawn', 0, M64); n = [0]
    def draw(st, a, rty):
        st.events = st.events + (('draw',),)
        return an.val(rty, X)
    an.summary({MT + '::next_int64': draw})
    f = an.fn(MT + '::next_int63'); st = State(an.ctx); ref = an.obj(st, MT, 'g')
    for t, v in an.call('int63', f, [ref], st):
        an.ob_eq('int63', 'a 63-bit number is the top 63 bits of one draw', f, t, an.leaf(t, v), t.fdiv(X, 2))
        an.ob_true('int63/draws', 'one number is drawn', f, t, t.events == (('draw',),))
    for name, sh, add, div, lo, hi, rng in (('next_real1', 11, 0, (1 << 53) - 1, 0.0, 1.0, '[0,1]'), ('next_real2', 11, 0, 1 << 53, 0.0, 1 - 2.0 ** -53, '[0,1)'), ('next_real3', 12, Fraction(1, 2), 1 << 52, 2.0 ** -53, 1 - 2.0 ** -53, '(0,1)')):
        f = an.fn(MT + '::' + name); k = name[5:]; st = State(an.ctx); ref = an.obj(st, MT, 'g')
        for t, v in an.call(k, f, [ref], st):
            an.ob_true(k + '/draws', 'one number is drawn', f, t, t.events == (('draw',),))
            if not isinstance(v, VFloat): raise Undecided('result of ' + name)
            e = v.e; want = t.fdiv(X, 1 << sh); ks = set(leaves(e))
            rule = 'the number lies in ' + rng
            if v.lo >= lo and v.hi <= hi: rep.add(k + '/range', rule, an.span(f), 'discharged')
            else:                                       # confirm at the ends: leaves are monotone in the draw
                bad = []
                for x in (0, M64, 1 << 63, (1 << 63) - 1, 1 << sh, M64 - (1 << sh)):
                    try:
                        r = fev(e, lambda key: evalp(next(Poly(dict(q)) if isinstance(q, tuple) else q for q in [key]), {X_atom(X): x}))
                        if not lo <= r <= hi: bad.append((x, r))
                    except (KeyError, TypeError, ValueError): pass
                rep.add(k + '/range', rule, an.span(f), 'violated' if bad and not t.taint else 'undecided', '%s gives %r from the draw %d' % ((name, bad[0][1], bad[0][0]) if bad else (name, (v.lo, v.hi), 0)))
            ok = ks == {t.norm(want).key()} and lin(e, t.norm(want).key())
            if not ok: rep.add(k + '/value', 'the number is the scaled draw', an.span(f), 'undecided', repr(e)[:200]); continue
            a, b = ok; wa, wb = Fraction(1, div), Fraction(add) / div
            an.ob_true(k + '/value', 'the number is the top bits of the draw, scaled to ' + rng, f, t, abs(a / wa - 1) < Fraction(1, 1 << 50) and (b == wb if not wb else abs(b / wb - 1) < Fraction(1, 1 << 50)))
def X_atom(X): return next(iter(X.t))[0]

def wrap64(st, p): return st.norm(p - st.fdiv(p, 1 << 64) * (1 << 64))
def cut_products(an):
    """each wrapping product becomes an unknown of its own, remembered with its factors, so that every step is judged by itself"""
    n = [0]
    def hook(it, st, inst, args, rty, span):
        if not (inst['path'].startswith('core::num::') and inst['path'].endswith('::wrapping_mul')): return NotImplemented
        x, y = (st.norm(an.leaf(st, a)) for a in args)
        if x.is_const() and y.is_const(): return C(x.const() * y.const() & M64)
        k = sum(1 for e in st.events if e[0] == 'mul')
        r = Sym('product%d' % k, 0, M64)
        st.events = st.events + (('mul', x, y, r),); return r
    an.ctx.hooks = [hook] + an.ctx.hooks
def stir(st, w): return bxor(st, w, st.fdiv(w, 1 << 62))
class Muls:
    """the products met so far, in any order of their factors"""
    def __init__(s, an, f, st): s.an = an; s.f = f; s.e = [e for e in st.events if e[0] == 'mul']; s.i = 0
    def take(s, key, rule, t, x, m):
        if s.i >= len(s.e): raise Undecided('number of products')
        _, a, b, r = s.e[s.i]; s.i += 1
        if a.is_const() and not b.is_const(): a, b = b, a
        s.an.ob_eq(key, rule, s.f, t, b, C(m)); s.an.ob_eq(key, rule, s.f, t, a, x)
        return r
def scalar(prog, rep, tier):
    g = G(prog, rep); an = g.an; f = an.fn(MT + '::new_by_scalar_seed'); cut_products(an); an.ctx.unroll = 1000; an.ctx.max_steps = 2000000
    s = Sym('seed', 0, M64); rule = 'each further word follows from the one before by the recurrence of the reference initialisation'
    for t, v in an.call('seed', f, [s], State(an.ctx)):
        ref = an.cell(t, v); got = g.words(t, ref); m = Muls(an, f, t)
        an.ob_eq('seed/first', 'the first word is the seed', f, t, got[0], s)
        for i in range(1, NN):
            x = m.take('seed/words', rule, t, stir(t, got[i - 1]), 6364136223846793005)
            an.ob_eq('seed/words', rule, f, t, got[i], wrap64(t, x + i))
        an.ob_eq('seed/index', 'the first draw renews all words', f, t, g.index(t, ref), C(NN))
    d = an.fn('<%s as std::default::Default>::default' % MT, opt=True)
    if d:
        s2 = C(5489)
        for t, v in an.call('default', d, [], State(an.ctx)):
            ref = an.cell(t, v); (u, w), = an.call(None, f, [s2], t); r2 = an.cell(u, w)
            for a, b in zip(g.words(u, ref), g.words(u, r2)): an.ob_eq('seed/default', 'the default generator is seeded with 5489', d, u, a, b)
            an.ob_eq('seed/default', 'the default generator is seeded with 5489', d, u, g.index(u, ref), g.index(u, r2))

def vector(prog, rep, tier):
    g = G(prog, rep); an = g.an; f = an.fn(MT + '::new_by_vector_seed'); base = an.fn(MT + '::new_by_scalar_seed'); cut_products(an); an.ctx.unroll = 1000; an.ctx.max_steps = 2000000
    (b, v), = an.call(None, base, [C(19650218)], State(an.ctx)); start = g.words(b, an.cell(b, v))
    rule = 'the words follow from the key by the recurrences of the reference initialisation'
    for n in (1, 2, 311, 312, 313, 400) if tier == 'thorough' else (1, 3, 313):
        key = [Sym('key%d' % i, 0, M64) for i in range(n)]
        st = State(an.ctx); ety = an.p.ty[an.argty(f, 0)].get('of') if an.p.ty[an.argty(f, 0)]['k'] == 'slice' else None
        c = an.cell(st, VSeq(ety, C(n), ('t', tuple(key)))); ref = VRef(c.cell, (), (ZERO, C(n)))
        for t, v in an.call('vector', f, [ref], st):
            r = an.cell(t, v); got = g.words(t, r); m = Muls(an, f, t); w = list(start); i, j = 1, 0
            def product(x, c):
                x = t.norm(stir(t, x))
                if x.is_const(): return C(x.const() * c & M64)
                return m.take('vector/words', rule, t, x, c)
            for _ in range(max(NN, n)):
                w[i] = wrap64(t, wrap64(t, bxor(t, w[i], product(w[i - 1], 3935559000370003845)) + key[j]) + j)
                i += 1; j += 1
                if i >= NN: w[0] = w[NN - 1]; i = 1
                if j >= n: j = 0
            for _ in range(NN - 1):
                w[i] = wrap64(t, bxor(t, w[i], product(w[i - 1], 2862933555777941757)) - i); i += 1
                if i >= NN: w[0] = w[NN - 1]; i = 1
            w[0] = C(1 << 63)
            an.ob_true('vector/steps', rule, f, t, m.i == len(m.e))
            for a, b in zip(got, w): an.ob_eq('vector/words', rule, f, t, a, b)
            an.ob_eq('vector/index', 'the first draw renews all words', f, t, g.index(t, r), C(NN))
