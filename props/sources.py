"""C22: every history source yields, for each order, the state made by all earlier occurrences of the context."""
from harness import *
from interp import decide_eq0
from states import *
import chain
from tree import slices
SRC = {'naive': 'history::naive::NaiveHistorySource', 'fat-map': 'history::fat_map::FatMapHistorySource', 'tree': 'history::tree::TreeHistorySource'}

class Run(Hist):
    def __init__(s, prog, rep, kind):
        Hist.__init__(s, prog, rep, True); p = SRC[kind]; s.kind = kind; s.ctx.unroll = 2000; s.ctx.max_steps = 4000000
        s.new, s.start, s.gather, s.bitin = [s.fn("<%s<'a> as history::HistorySource<'a>>::%s" % (p, n)) for n in ('new', 'start_new_byte', 'gather_history_states', 'process_input_bit')]
        s.special = s.integrity = None
        if kind == 'tree': s.special, s.integrity = s.fn(p + "::<'a>::new_special", opt=True), s.fn(p + "::<'a>::check_integrity_on_next_byte", opt=True)
        s.first, s.next = s.fn(CS + '::starting_state'), s.fn(CS + '::next_state')
        s.fcc, s.fitems, s.freset = [s.fn(CC + '::' + n) for n in ('new', 'items', 'reset')]
    def is_node(s, st, v):
        v = ip.force(st, s.ctx, v); return v.variant == s.variants['ForNode'][0]
    def wanted(s, st, hist, i, b, top, first=0):
        """the states that the occurrences of each context make, lowest order first (evaluated where the state decides equality of bits)"""
        out = []
        for o in range(min(top, i - first) + 1):
            cur = None
            for p in range(first, i - o):
                same = all(decide_eq0(st, hist[p + j][k] - hist[i - o + j][k]) for j in range(o) for k in range(8)) and all(decide_eq0(st, hist[p + o][k] - hist[i][k]) for k in range(7, b, -1))
                if same: cur = (cur or []) + [(C(i - o - p), hist[p + o][b], s.given(p + o, b, o))]
            if cur is None: break
            out.append(cur)
        return out
    def default(s, st):
        """neutral cost trackers, as neutralize_cost_trackers leaves them"""
        f = s.fn(CS + '::neutralize_cost_trackers'); c = s.cell(st, s.node(ONE, s.estimator('z'), s.recent('z'), s.runs('z'), s.trackers('z')))
        st, _ = s.one(f, [c], st); w = ip.load(st, s.ctx, c.cell, c.path)
        return [x for (n, _), x in zip(s.variants['ForNode'][1], w.fields) if n == 'cost_trackers'][0]
    def given(s, i, b, o):
        if s.kind == 'naive': return s.neutral
        return s.trackers('-%d.%d.%d' % (i, b, o))
    def fold(s, st, occ):
        v = None
        for d, bit, ct in occ:
            if v is None: st, v = s.one(s.first, [d, s.bit(bit)], st); continue
            opt = s.option(s.next, 3, ct if s.is_node(st, v) else None)
            st, v = s.one(s.next, [s.cell(st, v), d, s.bit(bit), opt, s.luts()], st)
        return st, v

def play(an, hist, window, top, key):
    """drive one source through a history of bytes (lists of bits, lowest first), comparing what it gathers before each bit"""
    rl = 'each order yields the state that the earlier occurrences of its context make, up to the first context not seen before'
    st = State(an.ctx); (st, v), = an.call(key, an.new, [C(window), C(top), an.luts()], st); me = an.cell(st, v)
    st, cc = an.one(an.fcc, [C(top)], st); col = an.cell(st, cc); an.neutral = an.default(st); states = [st]
    for i in range(len(hist)):
        states = [t for s in states for t, _ in an.call(key, an.start, [me], s, 'correct use never panics')]
        for b in range(7, -1, -1):
            nxt = []
            for s in states:
                s, _ = an.one(an.freset, [col], s)
                for t, _ in an.call(key, an.gather, [me, col], s, 'correct use never panics'):
                    for u, occ in an.spec(t, lambda q: an.wanted(q, hist, i, b, top)):
                        work = [(u, k) for k in (0,)]
                        u, items = an.one(an.fitems, [col], u); got = chain.listing(an, u, items)
                        if got is None: raise Undecided('gathered states')
                        if not an.ob_true(key + '/orders', rl, an.gather, u, len(got) == len(occ), 'byte %d, bit %d: %d contexts gathered, %d occurred before' % (i, b, len(got), len(occ))): continue
                        for g, c in zip(got, occ):
                            for w, x in forked(an, u, c): an.equal(key + '/states', rl, an.gather, w, g, x)
                        n = sum(an.is_node(u, g) for g in got)
                        nxt += [w for w, _ in an.call(key, an.bitin, [me, an.bit(hist[i][b]), slices(an, u, [an.given(i, b, o) for o in range(n)], an.bitin, 2)], u, 'correct use never panics')]
            states = nxt
            if any(s.taint for s in states): raise Undecided('tainted: ' + ', '.join(sorted(next(s for s in states if s.taint).taint)))
            if len(states) > 3000: raise Undecided('number of histories')
    return len(states)
def forked(an, st, occ):
    """the folded state in every partition its computation needs"""
    out = []; work = [st.clone()]
    while work:
        s = work.pop()
        try: out.append(an.fold(s.clone(), occ))
        except Fork as f:
            for a in f.alts:
                c = s.clone()
                if ip.apply_alt(c, a): work.append(c)
        except Infeasible: pass
    return out

def slide(an, hist, window, top, shift, key):
    """drive the tree through more bytes than its window holds: contexts are those that occurred inside the window"""
    rl = 'each order yields its last occurrence inside the window, with the bit that followed it when all bits seen there agree'
    ri = 'the integrity of the tree holds at the start of every byte'
    st = State(an.ctx); st, v = an.one(an.special, [C(window), C(top), C(shift), an.luts()], st); me = an.cell(st, v)
    st, cc = an.one(an.fcc, [C(top)], st); col = an.cell(st, cc); states = [st]
    for i in range(len(hist)):
        states = [t for s in states for t, _ in an.call(key, an.start, [me], s, 'correct use never panics')]
        if an.integrity: states = [t for s in states for t, _ in an.call(key + '/integrity', an.integrity, [me], s, ri)]
        for b in range(7, -1, -1):
            nxt = []
            for s in states:
                s, _ = an.one(an.freset, [col], s)
                for t, _ in an.call(key, an.gather, [me, col], s, 'correct use never panics'):
                    for u, occ in an.spec(t, lambda q: an.wanted(q, hist, i, b, top, max(0, i - window + 1))):
                        u, items = an.one(an.fitems, [col], u); got = chain.listing(an, u, items)
                        if got is None: raise Undecided('gathered states')
                        got = [ip.force(u, an.ctx, g) for g in got]
                        if not an.ob_true(key + '/orders', rl, an.gather, u, len(got) == len(occ), 'byte %d, bit %d: %d contexts gathered, %d occurred in the window' % (i, b, len(got), len(occ))): continue
                        for g, c in zip(got, occ):
                            f = {n: an.leaf(u, x) for (n, _), x in zip(an.p.ty[g.ty]['variants'][g.variant]['fields'], g.fields) if n in ('last_occurrence_distance', 'repeated_bit', 'occurrence_count')}
                            an.ob_eq(key + '/distance', rl, an.gather, u, f['last_occurrence_distance'], c[-1][0])
                            if 'repeated_bit' in f: an.ob_eq(key + '/bit', rl, an.gather, u, f['repeated_bit'], c[-1][1]); an.ob_ge0(key + '/count', rl, an.gather, u, f['occurrence_count'] - len(c), 'uses')
                            w = [ip.decide_eq0(u, x[1] - c[0][1]) for x in c]
                            an.ob_true(key + '/kind', rl, an.gather, u, an.is_node(u, g) == (not all(w)), 'kind')
                        n = sum(an.is_node(u, g) for g in got)
                        nxt += [w for w, _ in an.call(key, an.bitin, [me, an.bit(hist[i][b]), slices(an, u, [an.given(i, b, o) for o in range(n)], an.bitin, 2)], u, 'correct use never panics')]
            states = nxt
            if any(s.taint for s in states): raise Undecided('tainted: ' + ', '.join(sorted(next(s for s in states if s.taint).taint)))
            if len(states) > 3000: raise Undecided('number of histories')
    return len(states)
def byte(name, mask, base=0x61):
    """bits, lowest first: unknown where the mask has ones"""
    return [Sym('%s.%d' % (name, k), 0, 1) if mask >> k & 1 else C(base >> k & 1) for k in range(8)]
def run(prog, rep, kind, sets):
    for label, masks, window, top in sets:
        for how in ('each', 'last', 'same') if kind == 'fat-map' else ('',):
            an = Run(prog, rep, kind); an.ctx.hashing = how
            section(rep, '%s/%s%s' % (kind, label, '/' + how if how else ''), lambda: play(an, [byte('b%d' % i, m) for i, m in enumerate(masks)], window, top, kind))
BASIC = [('two-low-bits-short', [3] * 3, 3, 2), ('lowest-bit-short', [1] * 5, 6, 3), ('highest-bit-short', [128] * 4, 4, 1)]
EACH = [('bit-%d' % k, [1 << k, 0, 1 << k, 0], 5, 2) for k in range(8)]
SETS = [('two-low-bits', [3] * 4, 6, 3), ('lowest-bit', [1] * 6, 8, 3), ('highest-bit', [128] * 5, 5, 2), ('middle-bit', [16] * 6, 6, 4), ('spread', [0x11] * 4, 4, 4)]
LONG = [('lowest-bit-long', [1] * 7, 8, 3), ('middle-bit-long', [16] * 8, 8, 4), ('two-low-bits-long', [3] * 5, 6, 3), ('spread-long', [0x11] * 5, 5, 5), ('highest-bit-long', [128] * 7, 7, 2)]
def groups(tier):
    """(label, analysis) of every group of C22"""
    out = []
    for kind in ('tree', 'fat-map', 'naive'):
        sets = EACH + SETS + (LONG if tier == 'thorough' else [x for x in BASIC if kind != 'tree'])
        if kind == 'fat-map' and tier != 'thorough': sets = EACH + BASIC + SETS[:1]
        for x in sorted(sets, key=lambda x: -sum(bin(m).count('1') for m in x[1])): out.append(('%s/%s' % (kind, x[0]), lambda p, r, t, kind=kind, x=x: run(p, r, kind, [x])))
        if kind != 'tree':
            out.append((kind + '/full', lambda p, r, t, kind=kind: full(p, r, kind)))
            for a in FAR + (FARTHER if tier == 'thorough' else []): out.append(('%s/far/%s' % (kind, a[0]), lambda p, r, t, kind=kind, a=a: far(p, r, kind, *a)))
    return out
def slidings(tier):
    return [('sliding/' + x[0], lambda p, r, t, x=x: slide(Run(p, r, 'tree'), [byte('b%d' % i, m) for i, m in enumerate(x[1])], *x[2:], 'sliding')) for x in sorted(SLIDES + (LONGER if tier == 'thorough' else []), key=lambda x: -len(x[1]) * x[2] * x[3])]
def full(prog, rep, kind):
    an = Run(prog, rep, kind); an.ctx.hashing = 'each'; st = State(an.ctx); n = 2; hist = [byte('b%d' % i, 0) for i in range(n)]
    (st, v), = an.call(kind, an.new, [C(n), C(1), an.luts()], st); me = an.cell(st, v); an.neutral = an.default(st)
    st, cc = an.one(an.fcc, [C(1)], st); col = an.cell(st, cc)
    for i in range(n):
        st, _ = an.one(an.start, [me], st)
        for b in range(7, -1, -1): st, _ = an.one(an.bitin, [me, an.bit(hist[i][b]), slices(an, st, [], an.bitin, 2)], st)
    an.ob_refuses(kind + '/full', 'a byte more than the window holds is refused', an.start, an.run(an.start, [me], st))
SLIDES = [('bit-%d' % k, [1 << k, 0, 1 << k, 0, 1 << k, 0], 3, 1, k % 3) for k in range(8)] + [('lowest-bit', [1] * 8, 3, 2, 0), ('highest-bit', [128] * 7, 4, 2, 1), ('middle-bit', [16] * 7, 4, 3, 3), ('two-low-bits', [3] * 5, 3, 2, 1), ('tiny-window', [1] * 8, 2, 1, 1), ('one-byte-window', [1] * 4, 1, 0, 0), ('one-order', [4] * 6, 3, 0, 2), ('wide', [2] * 7, 5, 2, 3), ('wider', [1] * 8, 6, 5, 3), ('long', [1] * 10, 3, 2, 1), ('spread', [0x11] * 4, 2, 1, 1)]
LONGER = [('lowest-bit-long', [1] * 11, 5, 2, 1), ('second-bit-long', [2] * 10, 5, 4, 0), ('middle-bit-long', [16] * 10, 4, 2, 2), ('highest-bit-long', [128] * 9, 3, 2, 1), ('spread-long', [0x11] * 5, 3, 2, 0), ('wider-window', [1] * 10, 6, 5, 3), ('deep', [32] * 11, 7, 6, 4)]

IW = 'history::window::InputWindow'; RNG = 'std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next'
def far(prog, rep, kind, letters, k, top):
    """occurrences at unknown positions: what is gathered at each, whatever lies between"""
    rl = 'each order yields the state that the earlier occurrences of its context make, however far back they lie'
    an = Run(prog, rep, kind); an.ctx.hashing = 'same'; key = kind + '/far'; n = len(letters); q = [Sym('at%d' % j, 0, 1 << 28) for j in range(n)]; mx = Sym('max', 1, 1 << 29)
    st = State(an.ctx); st.assume_ge0(q[0] - top)
    for i in range(n):
        for b in q[i + 1:]: st.assume_ge0(b - q[i] - 1)
        st.assume_ge0(mx - q[i] - 1); st.assume_ge0(q[i] - top)
    now = [0]
    def letter(s, i, o):
        for j in range(n):
            if s.prove_eq(i, q[j] - o): return letters[j]
    def compare(s, a, rty):
        x, y, b, o = [an.leaf(s, v) for v in a[1:]]; o = s.cst(o)
        if o is not None and s.prove_eq(b, C(k)):
            l, m = letter(s, x, o), letter(s, y, o)
            if l is not None and m is not None: return C(int(l == m))
        return Sym('compared(%s,%s,%s,%s)' % (x.key(), y.key(), b.key(), o), 0, 1)
    an.summary({IW + '::compare_for_equal_prefix': compare})
    def step(it, s, inst, a, rty, span):
        """a scan of unknown length meets, in turn, the places of interest"""
        if inst['path'] != RNG: return NotImplemented
        r = ip.force(s, s.ctx, a[0]); v = ip.load(s, s.ctx, r.cell, r.path); lo, hi = [ip.force(s, s.ctx, x) for x in v.fields[:2]]
        if not isinstance(lo, Poly) or not isinstance(hi, Poly) or s.cst(hi) is not None: return NotImplemented
        o = next((o for o in range(top + 1) if s.prove_eq(hi, q[now[0]] - o)), None)
        at = None
        if o is not None: at = -1 if s.prove_eq(lo, ZERO) else next((j for j in range(now[0]) if s.prove_eq(lo, q[j] - o + 1)), None)
        if at is None:
            if o is None or s.cst(lo) is not None: raise Undecided('search in another order or by other numbers')
            s.events = s.events + (('scan', lo, hi, q[now[0]]),); nxt = hi
        else: nxt = q[at + 1] - o if at + 1 < now[0] else None
        fs = list(v.fields); t = it.p.ty[rty]['variants']
        none = [i for i, x in enumerate(t) if x['name'] == 'None'][0]
        if nxt is None or at is None:
            fs[0] = hi; ip.store(s, s.ctx, r.cell, r.path, VAgg(v.ty, v.variant, tuple(fs))); return VAgg(rty, none, ())
        fs[0] = nxt + 1; ip.store(s, s.ctx, r.cell, r.path, VAgg(v.ty, v.variant, tuple(fs))); return VAgg(rty, 1 - none, (nxt,))
    an.ctx.hooks = [step] + an.ctx.hooks
    w = an.adt(IW); names = [f[0] for f in w['variants'][0]['fields']]; wi = an.adt('history::window::WindowIndex')['id']
    vecs = [i for i, f in enumerate(w['variants'][0]['fields']) if 'Vec<' in an.p.ty[f[1]]['name']]
    if len(vecs) != 1: raise Missing('buffer of the window')
    def mkwin(s, size):
        v = ip.force(s, an.ctx, an.lazy(w['id'], 'w')); f = list(v.fields); b = ip.force(s, an.ctx, f[vecs[0]])
        f[vecs[0]] = VVec(VSeq(b.seq.ety, size, b.seq.base, b.seq.stores), mx)
        for m, x in (('start', an.val(wi, ZERO)), ('cursor', an.val(wi, size - 1)), ('size', size), ('max_size', mx)):
            if m not in names: raise Missing('field %s of the window' % m)
            f[names.index(m)] = x
        return VAgg(v.ty, v.variant, tuple(f))
    def put(v, name, x):
        fs = [f[0] for f in an.p.ty[v.ty]['variants'][v.variant]['fields']]
        if name not in fs: raise Missing('field %s of %s' % (name, an.p.ty[v.ty]['name']))
        g = list(v.fields); g[fs.index(name)] = x; return VAgg(v.ty, v.variant, tuple(g))
    st, v = an.one(an.new, [mx, C(top), an.luts()], st); me = an.cell(st, v); st, cc = an.one(an.fcc, [C(top)], st); col = an.cell(st, cc); an.neutral = an.default(st)
    states = [st]; bits = [Sym('bit%d' % j, 0, 1) for j in range(n)]; getbit = an.fn(IW + '::get_bit')
    def bit_of(s, j):
        if kind != 'naive': return s, bits[j]
        win = an.getf(s, ip.load(s, an.ctx, me.cell, me.path), 'input'); s, r = an.one(getbit, [an.cell(s, win), an.val(wi, q[j]), C(k)], s); return s, an.leaf(s, r)
    for j in range(n):
        now[0] = j; nxt = []
        for s in states:
            v = put(put(ip.load(s, an.ctx, me.cell, me.path), 'input', mkwin(s, q[j] + 1)), 'bit_index', C(k)); ip.store(s, an.ctx, me.cell, me.path, v)
            s, _ = an.one(an.freset, [col], s); s.events = ()
            for t, _ in an.call(key, an.gather, [me, col], s, 'correct use never panics'):
                for e in t.events:
                    if e[0] == 'scan': an.ob_true(key + '/scan', 'a search looks at every earlier place and at no other', an.gather, t, False, 'search from %s to %s with the cursor at %s' % (show(e[1]), show(e[2]), show(e[3])))
                if any(e[0] == 'scan' for e in t.events): continue
                t, items = an.one(an.fitems, [col], t); got = chain.listing(an, t, items)
                if got is None: raise Undecided('gathered states')
                old = [i for i in range(j) if letters[i] == letters[j]]; want = top + 1 if old else 0
                if not an.ob_true(key + '/orders', rl, an.gather, t, len(got) == want, '%d contexts gathered instead of %d' % (len(got), want)): continue
                vals = []
                for i in old: t, b = bit_of(t, i); vals.append(b)
                for o, g in enumerate(got):
                    for u, x in forked(an, t, [(q[j] - q[i], b, an.given(i, k, o)) for i, b in zip(old, vals)]): an.equal(key + '/states', rl, an.gather, u, g, x)
                m = sum(an.is_node(t, g) for g in got)
                nxt += [x for x, _ in an.call(key, an.bitin, [me, an.bit(bits[j]), slices(an, t, [an.given(j, k, o) for o in range(m)], an.bitin, 2)], t, 'correct use never panics')]
        states = nxt
FAR = [('AAA', 7, 1), ('ABAB', 3, 1), ('AABAA', 0, 0)]
FARTHER = [('ABCABC', 5, 2), ('AABBAB', 0, 1)]
