"""C16: the input window is a ring buffer."""
from harness import *
from interp import decide_ge0, decide_eq0
IW = 'history::window::InputWindow'; WI = 'history::window::WindowIndex'
BIG = 1 << 40

class Win(An):
    def __init__(s, prog, rep):
        An.__init__(s, prog, rep); s.ty = s.adt(IW)['id']; s.wi = s.adt(WI)['id']
    def f(s, n): return s.fn(IW + '::' + n)
    def ix(s, p): return s.val(s.wi, p)
    def look(s, st, ref):
        """start, cursor, size and maximum size"""
        out = [(st, [])]
        for n in ('start', 'cursor', 'size', 'max_size'):
            out = [(t, a + [s.leaf(t, v)]) for c, a in out for t, v in s.call(None, s.f(n), [ref], c)]
        return out
    def byte(s, st, ref, i):
        f = next(iter(s.p.bypath.get('<%s as std::ops::Index<%s>>::index' % (IW, WI), [])), None)
        if f is None: raise Missing('Index of the window')
        return [(t, s.leaf(t, ip.load(t, s.ctx, v.cell, v.path))) for t, v in s.call(None, f, [ref, s.ix(i)], st)]
    def fresh(s, mx, shift, st, key=None): 
        return [(t, s.cell(t, v)) for t, v in s.call(key, s.f('new'), [mx, shift], st)]

def norm_ring(st, p, mx):
    """p modulo the size of the ring, for -max <= p < 2*max"""
    if decide_ge0(st, p): return p - mx if decide_ge0(st, p - mx) else p
    return p + mx

def states(an, lo=0):
    """every reachable state: buffer full (any start and size) or still growing (nothing wrapped yet)"""
    t = an.adt(IW); fs = [f[0] for f in t['variants'][0]['fields']]
    vecs = [i for i, f in enumerate(t['variants'][0]['fields']) if 'Vec<' in an.p.ty[f[1]]['name']]
    if len(vecs) != 1: raise Missing('buffer of the window')
    for n in ('start', 'cursor', 'size', 'max_size'):
        if n not in fs: raise Missing('field %s of the window' % n)
    mx = Sym('max', 1, BIG); start = Sym('start', 0, BIG); size = Sym('size', lo, BIG)
    for full in (True, False):
        st = State(an.ctx)
        if not (st.assume_ge0(mx - 1 - start) and st.assume_ge0(mx - size)): continue
        if not full and not st.assume_ge0(mx - 1 - start - size): continue
        for u, cursor in an.spec(st, lambda x: norm_ring(x, start + size - 1, mx)):
            base = ip.force(u, an.ctx, an.lazy(t['id'], 'w')); f = list(base.fields)
            vt = ip.force(u, an.ctx, f[vecs[0]])
            f[vecs[0]] = VVec(VSeq(vt.seq.ety, mx if full else start + size, vt.seq.base, vt.seq.stores), mx)
            for n, v in (('start', an.ix(start)), ('cursor', an.ix(cursor)), ('size', size), ('max_size', mx)): f[fs.index(n)] = v
            yield ('full' if full else 'growing'), u, an.cell(u, VAgg(base.ty, base.variant, tuple(f))), start, size, cursor, mx

def check(an, key, rule, f, st, ref, want):
    for t, got in an.look(st, ref):
        for g, w, n in zip(got, want, ('start', 'cursor', 'size', 'maximum size')): an.ob_eq(key, rule, f, t, g, w, n)

def creation(prog, rep, tier):
    an = Win(prog, rep); mx = Sym('max', 1, BIG); sh = Sym('shift', 0, BIG); st = State(an.ctx); st.assume_ge0(mx - 1 - sh)
    new = an.f('new')
    for t, ref in an.fresh(mx, sh, st, 'new'):
        for u, c in an.spec(t, lambda u: norm_ring(u, sh - 1, mx)):
            check(an, 'new', 'a new window is empty, starts at the initial shift and its cursor is just before it', new, u, ref, [sh, c, ZERO, mx])
    an.ob_refuses('new/zero', 'a window of size zero is refused', new, an.run(new, [ZERO, ZERO]))

def moving(prog, rep, tier):
    an = Win(prog, rep); ac = an.f('advance_cursor'); as_ = an.f('advance_start')
    for label, st, ref, start, size, cursor, mx in states(an):
        i = Sym('other', 0, BIG)
        room = st.clone()
        if room.assume_ge0(mx - 1 - size):
            for t, _ in an.call('advance-cursor', ac, [ref], room.clone()):
                for u, c in an.spec(t, lambda x: norm_ring(x, start + size, mx)):
                    check(an, 'advance-cursor', 'advancing the cursor takes in the next byte of the ring', ac, u, ref, [start, c, size + 1, mx])
                    for z, b in an.byte(u.clone(), ref, c): an.ob_eq('advance-cursor/zero', 'the byte taken in is zero', ac, z, b, ZERO)
                    keep(an, 'advance-cursor/others', ac, st, u, ref, c, mx, start, size)
        if label == 'full':
            d = st.clone()
            if d.assume_ge0(size - mx): an.ob_refuses('advance-cursor/full', 'the cursor cannot run into the start', ac, an.run(ac, [ref], d))
        some = st.clone()
        if some.assume_ge0(size - 1):
            for t, _ in an.call('advance-start', as_, [ref], some.clone()):
                for u, c in an.spec(t, lambda x: norm_ring(x, start + 1, mx)):
                    check(an, 'advance-start', 'advancing the start drops the oldest byte', as_, u, ref, [c, cursor, size - 1, mx])
                    for z, b in an.byte(u.clone(), ref, start): an.ob_eq('advance-start/zero', 'the byte dropped is cleared', as_, z, b, ZERO)
                    keep(an, 'advance-start/others', as_, st, u, ref, start, mx, start, size)
        d = st.clone()
        if d.assume_eq0(size): an.ob_refuses('advance-start/empty', 'an empty window has nothing to drop', as_, an.run(as_, [ref], d))

def keep(an, key, f, before, after, ref, changed, mx, start, size):
    """a byte at any other index is unchanged"""
    i = Sym('index', 0, BIG)
    for side in (i - changed - 1, changed - 1 - i):
        u = after.clone()
        if not (u.assume_ge0(mx - 1 - i) and u.assume_ge0(side)): continue
        b = before.clone()
        if not (b.assume_ge0(mx - 1 - i)): continue
        o = ip.load(b, an.ctx, ref.cell, ()); old = None
        for n, x in enumerate(o.fields):
            if isinstance(x, VVec): lim = x.seq.len; old = x.seq
        if not u.assume_ge0(lim - 1 - i): continue
        for z, got in an.byte(u, ref, i):
            an.ob_eq(key, 'no other byte changes', f, z, got, an.leaf(z, ip.seq_read(z, an.ctx, old, i)))

def arithmetic(prog, rep, tier):
    an = Win(prog, rep)
    for label, st, ref, start, size, cursor, mx in states(an):
        if label != 'full': continue
        i = Sym('i', 0, BIG); j = Sym('j', 0, BIG); k = Sym('k', 0, BIG)
        if not (st.assume_ge0(mx - 1 - i) and st.assume_ge0(mx - 1 - j) and st.assume_ge0(mx - k)): continue
        def one(n, args, rule, spec):
            f = an.f(n)
            for t, v in an.call(n, f, args, st.clone()):
                for u, w in an.spec(t, spec): an.ob_eq(n, rule, f, u, an.leaf(u, v), w)
        r = 'index arithmetic is modulo the size of the ring'
        one('index_add', [ref, an.ix(i), k], r, lambda u: norm_ring(u, i + k, mx))
        one('index_subtract', [ref, an.ix(i), k], r, lambda u: norm_ring(u, i - k, mx))
        one('index_increment', [ref, an.ix(i)], r, lambda u: norm_ring(u, i + 1, mx))
        one('index_decrement', [ref, an.ix(i)], r, lambda u: norm_ring(u, i - 1, mx))
        one('index_diff', [ref, an.ix(i), an.ix(j)], r, lambda u: norm_ring(u, i - j, mx))
        r = 'indices are ordered by their distance from the start of the window'
        age = lambda u, x: norm_ring(u, x - start, mx)
        one('index_is_smaller', [ref, an.ix(i), an.ix(j)], r, lambda u: ONE if decide_ge0(u, age(u, j) - age(u, i) - 1) else ZERO)
        one('index_is_smaller_or_equal', [ref, an.ix(i), an.ix(j)], r, lambda u: ONE if decide_ge0(u, age(u, j) - age(u, i)) else ZERO)

def contents(prog, rep, tier):
    an = Win(prog, rep)
    for label, st, ref, start, size, cursor, mx in states(an, lo=1):
        v = Sym('byte', 0, 255); f = an.f('set_byte_at_cursor')
        for t, _ in an.call('set-byte', f, [ref, v], st.clone()):
            for z, b in an.byte(t.clone(), ref, cursor): an.ob_eq('set-byte', 'the byte at the cursor reads back as set', f, z, b, v)
            check(an, 'set-byte', 'setting a byte does not move the window', f, t, ref, [start, cursor, size, mx])
            keep(an, 'set-byte/others', f, st, t, ref, cursor, mx, start, size)
            g = an.f('set_bit_at_cursor')
            bits = [Sym('bit%d' % q, 0, 1) for q in range(8)]; val = ZERO
            for q in range(8): val = val + bits[q] * (1 << q)
            for t2, _ in an.call(None, f, [ref, val], st.clone()):
                for q in range(8):
                    nb = Sym('new', 0, 1)
                    for z, _ in an.call('set-bit', g, [ref, an.bit(nb), C(q)], t2.clone()):
                        for y, b in an.byte(z.clone(), ref, cursor): an.ob_eq('set-bit', 'exactly the given bit of the byte at the cursor is replaced', g, y, b, val + (nb - bits[q]) * (1 << q))
                        if q in (0, 7): keep(an, 'set-bit/others', g, st, z, ref, cursor, mx, start, size)
                    h = an.f('get_bit')
                    for z, b in an.call('get-bit', h, [ref, an.ix(cursor), C(q)], t2.clone()): an.ob_eq('get-bit', 'bits read back as stored', h, z, an.leaf(z, b), bits[q])

def comparing(prog, rep, tier):
    an = Win(prog, rep); f = an.f('compare_for_equal_prefix'); d = an.f('bytes_differ_on')
    def poke(u, ref, idx, val):
        o = ip.load(u, an.ctx, ref.cell, ())
        k = next(k for k, x in enumerate(o.fields) if isinstance(x, VVec))
        l = list(o.fields); l[k] = VVec(ip.seq_write(u, an.ctx, l[k].seq, idx, val), l[k].cap)
        ip.store(u, an.ctx, ref.cell, (), VAgg(o.ty, o.variant, tuple(l)))
    for label, st, ref, start, size, cursor, mx in states(an, lo=1):
        i = Sym('i', 0, BIG); j = Sym('j', 0, BIG)
        lim = next(x.seq.len for x in ip.load(st, an.ctx, ref.cell, ()).fields if isinstance(x, VVec))
        if not (st.assume_ge0(lim - 1 - i) and st.assume_ge0(lim - 1 - j)): continue
        def prepared(n):
            s2 = st.clone()
            if label != 'full' and not (s2.assume_ge0(lim - 1 - n - i) and s2.assume_ge0(lim - 1 - n - j)): return
            if not s2.assume_ge0(mx - n - 1): return
            def place(u): return tuple(norm_ring(u, p + x, mx) for p in (i, j) for x in range(n + 1))
            for u, at in an.spec(s2, place):
                bits = [[Sym('%s%d.%d' % (c, x, k), 0, 1) for k in range(8)] for c in 'fs' for x in range(n + 1)]
                for p, b in zip(at, bits): poke(u, ref, p, sum((b[k] * (1 << k) for k in range(8)), ZERO))
                yield u, at
        def bit(u, p, k): return u.mod(u.fdiv(an.leaf(u, ip.seq_read(u, an.ctx, next(x.seq for x in ip.load(u, an.ctx, ref.cell, ()).fields if isinstance(x, VVec)), p)), 1 << k), 2)
        for s2, at in prepared(0):
            for q in range(8):
                for t, v in an.call('differ', d, [ref, an.ix(i), an.ix(j), C(q)], s2.clone()):
                    for u, w in an.spec(t, lambda u: ZERO if decide_eq0(u, bit(u, i, q) - bit(u, j, q)) else ONE):
                        an.ob_eq('differ', 'two bytes differ on a bit exactly when that bit differs', d, u, an.leaf(u, v), w)
        for n in (0, 1, 2) if tier != 'thorough' else (0, 1, 2, 3, 4):
            for s2, at in prepared(n):
                for q in (7, 6, 3, 0) if n < 2 else (7, 5):
                    for t, v in an.call('prefix', f, [ref, an.ix(i), an.ix(j), C(q), C(n)], s2.clone()):
                        def spec(u):
                            for x in range(n + 1):
                                for k in range(7, -1 if x < n else q, -1):
                                    if not decide_eq0(u, bit(u, at[x], k) - bit(u, at[n + 1 + x], k)): return ZERO
                            return ONE
                        for u, w in an.spec(t, spec):
                            an.ob_eq('prefix', 'two prefixes are equal exactly when all full bytes and the leading bits of the next byte are', f, u, an.leaf(u, v), w)

def long_prefixes(prog, rep, tier):
    """long prefixes at chosen positions of a ring of 300 bytes, equal but for one byte or bit"""
    an = Win(prog, rep); f = an.f('compare_for_equal_prefix'); rl = 'two prefixes are equal exactly when all full bytes and the leading bits of the next byte are'
    for label, st, ref, start, size, cursor, mx in states(an, lo=1):
        if label != 'full' or not (st.assume_eq0(mx - 300) and st.assume_eq0(size - 300)): continue
        for n in (3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 65) if tier == 'quick' else tuple(range(3, 19)) + (31, 32, 33, 64, 65, 100):
            for i, j in ((1, 130), (295, 150), (40, 300 - n), (299, 130), (20, 301 - n)) if tier != 'quick' or n in (3, 8, 9) else ((1, 130), (295, 150), (40, 300 - n)):
                for d in sorted({0, 1, n // 2, 7, 8, 16, 32, 64, n - 2, n - 1, n} & set(range(n + 1))):
                    for q in (7, 4, 0) if d == n else (6,):
                        u0 = st.clone(); o = ip.load(u0, an.ctx, ref.cell, ()); l = list(o.fields); k = next(k for k, x in enumerate(l) if isinstance(x, VVec)); seq = l[k].seq
                        b = [Sym('common%d' % x, 0, 255) for x in range(n + 1)]
                        fb, sb = [[Sym('%s%d' % (c, x), 0, 1) if x in (1, 5) else Sym('cc%d' % x, 0, 1) for x in range(8)] for c in 'fs']
                        val = lambda bits: sum((x * (1 << y) for y, x in enumerate(bits)), ZERO)
                        for x in range(n + 1):
                            seq = ip.seq_write(u0, an.ctx, seq, C((i + x) % 300), val(fb) if x == d else b[x]); seq = ip.seq_write(u0, an.ctx, seq, C((j + x) % 300), val(sb) if x == d else b[x])
                        l[k] = VVec(seq, l[k].cap); ip.store(u0, an.ctx, ref.cell, (), VAgg(o.ty, o.variant, tuple(l)))
                        for t, v in an.call('prefix', f, [ref, an.ix(C(i)), an.ix(C(j)), C(q), C(n)], u0):
                            def spec(u):
                                for y in range(7, q if d == n else -1, -1):
                                    if not decide_eq0(u, fb[y] - sb[y]): return ZERO
                                return ONE
                            for u, w in an.spec(t, spec): an.ob_eq('prefix/long', rl, f, u, an.leaf(u, v), w, '%d bytes, different byte %d' % (n, d))

def suffixes(prog, rep, tier):
    """every position held is visited once, oldest first"""
    an = Win(prog, rep); fs = prog.find(IW + '::for_each_suffix')
    rl = 'visiting the suffixes calls the action once per byte held, from the oldest to the newest'
    for f in fs[:2]:
        ct = prog.inst[f['id']]['body']['locals'][2]; name = prog.ty[ct]['name']
        acts = [i for i in prog.inst.values() if i['body'] and i['body']['argc'] == 2 and '{closure#' in i['path'] and name in prog.ty[i['body']['locals'][1]]['name']]
        if not acts: raise Missing('action given to for_each_suffix')
        def seen(st, a, rty): st.events = st.events + (('visit', an.leaf(st, a[1])),); return UNIT
        an.summary({i['path']: seen for i in acts})
        for label, st, ref, start, size, cursor, mx in states(an):
            for n in range(4 if tier == 'quick' else 7):
                s = st.clone()
                if not (s.assume_ge0(size - n) and s.assume_ge0(n - size)): continue
                s.events = ()
                for t, _ in an.call('suffixes', f, [ref, an.lazy(ct, 'action')], s):
                    got = [e[1] for e in t.events if e[0] == 'visit']
                    if not an.ob_true('suffixes', rl, f, t, len(got) == n, '%d visits of %d bytes' % (len(got), n)): continue
                    for k, g in enumerate(got):
                        for u, w in an.spec(t, lambda x: norm_ring(x, start + k, mx)): an.ob_eq('suffixes', rl, f, u, g, w, 'visit %d' % k)
