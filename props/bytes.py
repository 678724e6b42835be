"""C11: the last-bytes cache reports exactly the last bits, bytes and their hashes."""
from harness import *
LB = 'util::last_bytes::LastBytesCache::'; FN = 'util::hash::Fnv1A::'
M64 = 1 << 64; PRIME = 0x100000001b3; BASIS = 0xcbf29ce484222325

class Bytes(An):
    def feed(s, key, ref, st, bits):
        """the states after feeding bits (a byte is started where needed)"""
        on = s.fn(LB + 'on_next_bit')
        cur = [st]
        for b in bits: cur = [t for c in cur for t, _ in s.call(key, on, [ref, s.bit(b)], c)]
        return cur
    def start(s, key, ref, st): return [t for t, _ in s.call(key, s.fn(LB + 'start_new_byte'), [ref], st)]
    def new(s):
        for st, v in s.call('new', s.fn(LB + 'new'), [], State(s.ctx)): return st, s.cell(st, v)

def num(bits):
    r = ZERO
    for b in bits: r = r * 2 + b
    return r

def contents(prog, rep, tier):
    an = Bytes(prog, rep)
    n = 6 if tier != 'thorough' else 9
    byts = [[Sym('b%d_%d' % (k, i), 0, 1) for i in range(8)] for k in range(n)]
    st, ref = an.new(); cur = [st]
    for k in range(n):
        cur = [t for c in cur for t in an.start('start', ref, c)]
        for j in range(8):
            for st in cur:
                part = byts[k][:j]; p1, p2, p3 = [num(byts[k - d]) if k >= d else ZERO for d in (1, 2, 3)]
                unf = num(part) + (1 << j)
                want = {'unfinished_byte': unf, 'previous_byte_1': p1, 'previous_byte_2': p2, 'previous_byte_3': p3,
                        'hash01_16': p1 * (1 << j) + num(part) + (1 << (8 + j))}
                rule = {'unfinished_byte': 'the unfinished byte is a leading one followed by the bits seen so far', 'hash01_16': 'the order-1 context is a leading one, the previous byte and the bits seen so far'}
                for g, w in want.items():
                    f = an.fn(LB + g)
                    for t, v in an.call(g, f, [ref], st.clone()):
                        an.ob_eq(g, rule.get(g, 'each previous byte is reported in order'), f, t, an.leaf(t, v), w)
                for g, bs in (('hash02_16', (p2, p1, unf)), ('hash03_16', (p3, p2, p1, unf))):
                    f = an.fn(LB + g)
                    if k in (0, 1, n - 1) or j in (0, 7):
                        for t, v in an.call(g, f, [ref], st.clone()):
                            an.ob_eq(g, 'the order-2 and order-3 contexts are the 16-bit hashes of the previous bytes, oldest first, and the unfinished byte', f, t, an.leaf(t, v), hashed(an, t, bs))
            cur = [t for c in cur for t in an.feed('feed', ref, c, [byts[k][j]])]

def hashed(an, st, bs):
    """the hash of a byte sequence, computed by the crate's own hasher"""
    cur = [(st, None)]
    (st2, h), = an.call(None, an.fn(FN + 'new'), [], st)
    ref = an.cell(st2, h)
    for b in bs: (st2, _), = an.call(None, an.fn(FN + 'mix_byte'), [ref, b], st2)
    (st2, v), = an.call(None, an.fn(FN + 'into_u16'), [ip.load(st2, an.ctx, ref.cell, ())], st2)
    return an.leaf(st2, v)

def order(prog, rep, tier):
    an = Bytes(prog, rep); sn = an.fn(LB + 'start_new_byte'); on = an.fn(LB + 'on_next_bit')
    getters = ['unfinished_byte', 'previous_byte_1', 'previous_byte_2', 'previous_byte_3', 'hash01_16', 'hash02_16', 'hash03_16']
    r1 = 'between bytes the cache refuses bits and queries'; r2 = 'a byte cannot be started before the previous one is complete'
    st, ref = an.new(); cur = [st]
    for k in range(2):
        for st in cur:
            an.ob_refuses('between/on_next_bit', r1, on, an.run(on, [ref, an.bit(1)], st.clone()))
            for g in getters:
                f = an.fn(LB + g); an.ob_refuses('between/' + g, r1, f, an.run(f, [ref], st.clone()))
        cur = [t for c in cur for t in an.start('start', ref, c)]
        for j in range(8):
            for st in cur: an.ob_refuses('within/start_new_byte', r2, sn, an.run(sn, [ref], st.clone()))
            cur = [t for c in cur for t in an.feed('feed', ref, c, [Sym('o%d_%d' % (k, j), 0, 1)])]

def hashing(prog, rep, tier):
    an = Bytes(prog, rep)
    mk = an.fn(FN + 'new'); mix = an.fn(FN + 'mix_byte')
    for st, v in an.call('hash/new', mk, [], State(an.ctx)):
        an.ob_eq('hash/basis', 'hashing starts from the FNV-1a offset basis', mk, st, an.leaf(st, v), C(BASIS))
    H = Sym('state', 0, M64 - 1); b = Sym('byte', 0, 255)
    t = an.adt('util::hash::Fnv1A')
    st = State(an.ctx); ref = an.cell(st, an.val(t['id'], H))
    for u, _ in an.call('hash/mix', mix, [ref, b], st):
        want = u.mod(ip.bxor(u, H, b) * PRIME, M64)
        an.ob_eq('hash/mix', 'each byte is xored in and the state multiplied by the FNV prime modulo 2^64', mix, u, an.leaf(u, ip.load(u, an.ctx, ref.cell, ())), want)
    rule = 'shorter hashes fold the upper half into the lower one'
    def fold(u, x, n): return u.mod(ip.bxor(u, x, u.fdiv(x, 1 << n)), 1 << n)
    for path, n in (('into_u64', 64), ('into_u32', 32), ('into_u16', 16)):
        f = an.fn(FN + path, opt=True)
        if f is None: continue
        for u, v in an.call('hash/fold', f, [an.val(t['id'], H)], State(an.ctx)):
            w = H
            if n < 64: w = fold(u, w, 32)
            if n < 32: w = fold(u, w, 16)
            an.ob_eq('hash/fold', rule, f, u, an.leaf(u, v), w)
