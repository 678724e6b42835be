"""C13: how the state of a context follows the bits seen in it; tree nodes and the other sources by the same rule."""
from harness import *
from chain import bare
import pool
CS = 'history::ContextState'; CC = 'history::CollectedContextStates'; DE = 'estimators::decelerating::DeceleratingEstimator'; NO = pool.NO
CTR = 'history::tree::node::CostTrackers'; MAXC = 1000
RBN, BRN = 'history::state::recent_bits::RecentBitsHistory', 'history::state::bits_runs::BitsRunsTracker'

class Hist(An):
    """estimator steps and table lookups are functions of their arguments, whatever they compute (decided by C07)"""
    def __init__(s, prog, rep, by_case=False):
        An.__init__(s, prog, rep); s.memo = {}; s.by_case = by_case
        def fun(st, name, args, lo, hi):
            if s.by_case: args = [C(0 if ip.decide_eq0(st, a) else 1) if st.prove_ge0(a) and st.prove_ge0(1 - a) else a for a in args]   # the same arguments always get the same name
            k = (name,) + tuple(st.norm(a).key() for a in args)
            if k not in s.memo: s.memo[k] = Sym('%s#%d' % (name, len(s.memo)), lo, hi)
            return s.memo[k]
        W = (1 << 32) - 1
        def raw(st, v): return s.leaf(st, v)
        def update(st, a, rty):
            r = a[0]; old = ip.load(st, s.ctx, r.cell, r.path)
            new = s.val(s.adt(DE)['id'], fun(st, 'estimator', [raw(st, old), raw(st, a[1])], 0, W))
            ip.store(st, s.ctx, r.cell, r.path, new); return VAgg(rty, 0, ())
        def capped(st, n):
            if not ip.decide_ge0(st, C(MAXC) - n): raise PanicExc('beyond the longest run')
            return n
        def cache(st, a, rty): return s.val(rty, fun(st, 'new-node', [raw(st, a[1]), capped(st, raw(st, a[2]))], 0, W))
        def cost(st, a, rty): return s.val(rty, fun(st, 'new-cost', [raw(st, a[1])], 0, W))
        def direct(st, a, rty):
            n = capped(st, raw(st, a[1])); t = s.p.ty[rty]['fields']
            return VAgg(rty, 0, (s.val(t[0], fun(st, 'direct', [n], 1, (1 << 31) - 1)), s.val(t[1], fun(st, 'direct_st', [n], -(12 << 21), 12 << 21))))
        def make(st, a, rty): return s.val(rty, fun(st, 'made', [raw(st, a[0]), raw(st, a[1])], 0, W))
        s.summary({DE + '::update': update, DE + '::make': make, 'lut::estimator::DeceleratingEstimatorCache::for_new_node': cache, 'lut::cost::CostTrackersLut::for_new_node': cost,
                   'lut::estimator::DeceleratingEstimatorPredictions::for_0_bit_run': direct})
        s.variants = {v['name']: (i, [(f[0], f[1]) for f in v['fields']]) for i, v in enumerate(s.adt(CS)['variants'])}
        for n in ('ForEdge', 'ForNode'):
            if n not in s.variants: raise Missing('variant ' + n)
    def luts(s): return VRef(('L', 'luts', s.adt('lut::LookUpTables')['id'], (), None))
    def trackers(s, tag):
        t = s.adt(CTR); return VAgg(t['id'], 0, tuple(s.val(f[1], Sym('cost%s.%s' % (tag, f[0]), 0, (1 << 16) - 1)) for f in t['variants'][0]['fields']))
    def recent(s, tag, k=None):
        """a recent history of any bits (or of k bits)"""
        return s.val(s.adt(RBN)['id'], Sym('recent%s' % tag, 1, (1 << 16) - 1))
    def runs(s, tag):
        l, a, b, c = Sym('last%s' % tag, 0, 1), Sym('run%s.1' % tag, 0, MAXC), Sym('run%s.2' % tag, 0, MAXC), Sym('run%s.3' % tag, 0, MAXC)
        return s.val(s.adt(BRN)['id'], l + a * 2 + b * (1 << 11) + c * (1 << 21))
    def estimator(s, tag, count=None):
        return s.val(s.adt(DE)['id'], Sym('p%s' % tag, 1, (1 << 22) - 1) * 1024 + (count if count is not None else Sym('uses%s' % tag, 0, MAXC)))
    def state(s, kind, d):
        i, fs = s.variants[kind]; t = s.adt(CS)['id']
        if set(n for n, _ in fs) != set(d): raise Missing('fields of ' + kind)
        return VAgg(t, i, tuple(d[n] for n, _ in fs))
    def edge(s, dist, count, bit): return s.state('ForEdge', {'last_occurrence_distance': dist, 'occurrence_count': count, 'repeated_bit': s.bit(bit)})
    def node(s, dist, est, rb, br, ct): return s.state('ForNode', {'last_occurrence_distance': dist, 'probability_estimator': est, 'recent_bits': rb, 'bits_runs': br, 'cost_trackers': ct})
    def equal(s, key, rule, f, st, got, want):
        """two values are the same, leaf by leaf"""
        got, want = s.whole(st, got), s.whole(st, want)
        def go(a, b, where):
            if isinstance(a, ip.VEnum) or isinstance(b, ip.VEnum): a, b = s.leaf(st, a), s.leaf(st, b)
            if isinstance(a, Poly) and isinstance(b, Poly): return s.ob_eq(key, rule, f, st, a, b, key + where)
            if isinstance(a, VLazy) and isinstance(b, VLazy) and a.key() == b.key(): return s.ob_true(key, rule, f, st, True)
            if isinstance(a, VLazy): a = ip.force(st, s.ctx, a)
            if isinstance(b, VLazy): b = ip.force(st, s.ctx, b)
            if isinstance(a, VAgg) and isinstance(b, VAgg):
                if a.variant != b.variant: return s.ob_true(key, rule, f, st, False, 'another kind of value' + where)
                names = s.p.ty[b.ty].get('variants'); names = [x[0] for x in names[b.variant]['fields']] if names else range(len(b.fields))
                for n, x, y in zip(names, a.fields, b.fields): go(x, y, '%s.%s' % (where, n))
                return
            if isinstance(a, VSeq) and isinstance(b, VSeq):
                n = st.cst(b.len); s.ob_eq(key, rule, f, st, a.len, b.len, key + where + '.len')
                if n is None: raise Undecided('comparing sequences of unknown length')
                for i in range(n): go(ip.seq_read(st, s.ctx, a, C(i)), ip.seq_read(st, s.ctx, b, C(i)), '%s[%d]' % (where, i))
                return
            if isinstance(a, Poly) or isinstance(b, Poly): return go(a, ip.force(st, s.ctx, b), where) if isinstance(b, VLazy) else s.ob_true(key, rule, f, st, False, 'another kind of value' + where)
            raise Undecided('comparing %s and %s' % (type(a).__name__, type(b).__name__))
        go(got, want, '')
    def whole(s, st, v): return v
    def one(s, f, args, st):
        """the single result of a function that neither forks nor panics here"""
        t = bare(st)
        for h in s.ctx.hooks:
            v = h(s.it, t, f, args, f['body']['locals'][0], None)
            if v is not NotImplemented: return t, v
        r = [(o.st, o.value) for o in s.it.run(f, args, t) if o.kind == 'ret']
        if len(r) != 1: raise Undecided('%d results of %s' % (len(r), f['path']))
        return r[0]
    def option(s, f, i, v):
        t = f['body']['locals'][i + 1]; vs = {x['name']: k for k, x in enumerate(s.p.ty[t]['variants'])}
        return VAgg(t, vs['Some'], (v,)) if v is not None else VAgg(t, vs['None'], ())
    def after(s, st, kind_count_bit, bit, key):
        """(state, recent bits, runs, estimator, trackers) of a node made from a run"""
        n, b = kind_count_bit
        st, rb = s.one(s.fn(RBN + '::for_new_node'), [s.bit(b), n], st); st, br = s.one(s.fn(BRN + '::for_new_node'), [s.bit(b), n], st)
        return st, rb, br

COUNTS = [(i, i) for i in range(1, 16)] + [(16, 999), (1000, 1000)]
def counts():
    for lo, hi in COUNTS: yield C(lo) if lo == hi else Sym('count', lo, hi)

def fresh_node(an, st, b, n):
    """what a node holds that is made when bit b first follows a run of n opposite bits"""
    cf, kf = an.fn('lut::estimator::DeceleratingEstimatorCache::for_new_node'), an.fn('lut::cost::CostTrackersLut::for_new_node')
    L = 'lut::LookUpTables::'
    st, c = an.one(an.fn(L + 'd_estimator_cache'), [an.luts()], st); st, k = an.one(an.fn(L + 'cost_trackers_lut'), [an.luts()], st)
    st, est = an.one(cf, [c, an.bit(b), n], st); st, cost = an.one(kf, [k, n], st)
    st, rb = an.one(an.fn(RBN + '::for_new_node'), [an.bit(b), n], st); st, br = an.one(an.fn(BRN + '::for_new_node'), [an.bit(b), n], st)
    st, ct = an.one(an.fn(CTR + '::new'), [cost, cost], st)
    return st, est, rb, br, ct

def stepped(an, st, b, est, rb, br):
    """what a node holds after one more bit, as lists of (state, estimator, recent bits, runs)"""
    cell = an.cell(st, est); L = 'lut::LookUpTables::'
    st, rates = an.one(an.fn(L + 'd_estimator_rates'), [an.luts()], st)
    st, _ = an.one(an.fn(DE + '::update'), [cell, an.bit(b), rates], st); e = ip.load(st, an.ctx, cell.cell, ())
    out = []
    for o in an.it.run(an.fn(RBN + '::updated'), [an.cell(st, rb), an.bit(b)], bare(st)):
        for p in an.it.run(an.fn(BRN + '::updated'), [an.cell(o.st, br), an.bit(b)], bare(o.st)):
            if o.kind == p.kind == 'ret': out.append((p.st, e, o.value, p.value))
    return out

def transitions(prog, rep, tier):
    an = Hist(prog, rep); f = an.fn(CS + '::next_state'); start = an.fn(CS + '::starting_state')
    d, dn = Sym('distance', 0, 1 << 40), Sym('new-distance', 0, 1 << 40); none, some = an.option(f, 3, None), an.option(f, 3, an.trackers(''))
    for b in (0, 1):
        for st, v in an.call('start', start, [dn, an.bit(b)], State(an.ctx)):
            an.equal('start', 'after one occurrence a context is an edge seen once, at its distance, repeating its bit', start, st, v, an.edge(dn, ONE, b))
        for n in counts():
            for r in (0, 1):
                st = State(an.ctx); me = an.cell(st, an.edge(d, n, r))
                an.ob_refuses('edge/trackers', 'an edge has no cost trackers to update', f, an.run(f, [me, dn, an.bit(b), some, an.luts()], st.clone()))
                for t, v in an.call('edge', f, [me, dn, an.bit(b), none, an.luts()], st.clone()):
                    if r == b: an.equal('edge/repeated', 'a repeated bit counts one more occurrence, up to 1000', f, t, v, an.edge(dn, n + 1 if n != C(MAXC) else n, b))
                    else:
                        t, est, rb, br, ct = fresh_node(an, t, b, n)
                        an.equal('edge/branch', 'the first different bit makes a node out of the run so far and that bit', f, t, v, an.node(dn, est, rb, br, ct))
        est, rb, br = an.estimator(''), an.recent(''), an.runs('')
        st = State(an.ctx); me = an.cell(st, an.node(d, est, rb, br, an.trackers('-old')))
        an.ob_refuses('node/no-trackers', 'a node needs its updated cost trackers', f, an.run(f, [me, dn, an.bit(b), none, an.luts()], st.clone()))
        for t, v in an.call('node', f, [me, dn, an.bit(b), some, an.luts()], st.clone()):
            for u, e, x, y in stepped(an, t, b, est, rb, br):
                an.equal('node', 'a node takes the bit into its estimator, its recent bits and its runs and the given cost trackers', f, u, v, an.node(dn, e, x, y, an.trackers('')))

def accessors(prog, rep, tier):
    an = Hist(prog, rep); g = {n: an.fn(CS + '::' + n) for n in ('is_for_node', 'probability_estimator', 'last_occurrence_distance', 'occurrence_count', 'recent_bits', 'neutralize_cost_trackers')}
    d = Sym('distance', 0, 1 << 40); rl = 'a context reports its own distance, count, estimator and recent bits'
    for n in counts():
        for r in (0, 1):
            st = State(an.ctx); me = an.cell(st, an.edge(d, n, r))
            def q(name, args, want):
                for t, v in an.call('view/edge', g[name], [me] + args, st.clone()): an.equal('view/edge/' + name, rl, g[name], t, v, want)
            st, rb = an.one(an.fn(RBN + '::for_bit_run'), [an.bit(r), n], st)
            q('is_for_node', [], ZERO); q('last_occurrence_distance', [], d); q('occurrence_count', [], n); q('recent_bits', [], rb)
            st, p = an.one(an.fn('lut::LookUpTables::direct_predictions'), [an.luts()], st); st, p = an.one(an.fn('lut::estimator::DeceleratingEstimatorPredictions::for_0_bit_run'), [p, n], st)
            st, e = an.one(an.fn(DE + '::make'), [ip.force(st, an.ctx, p).fields[0], n], st); q('probability_estimator', [an.luts()], e)
            for t, v in an.call('view/edge', g['neutralize_cost_trackers'], [me], st.clone()):
                an.equal('view/edge/neutral', 'making the cost trackers neutral changes nothing else', g['neutralize_cost_trackers'], t, ip.load(t, an.ctx, me.cell, ()), an.edge(d, n, r))
    c = Sym('uses', 0, MAXC); est, rb, br = an.estimator('', c), an.recent(''), an.runs('')
    st = State(an.ctx); me = an.cell(st, an.node(d, est, rb, br, an.trackers('')))
    for name, args, want in (('is_for_node', [], ONE), ('last_occurrence_distance', [], d), ('occurrence_count', [], c), ('recent_bits', [], rb), ('probability_estimator', [an.luts()], est)):
        for t, v in an.call('view/node', g[name], [me] + args, st.clone()): an.equal('view/node/' + name, rl, g[name], t, v, want)
    for t, v in an.call('view/node', g['neutralize_cost_trackers'], [me], st.clone()):
        got = ip.load(t, an.ctx, me.cell, ()); k = [x[0] for x in an.variants['ForNode'][1]].index('cost_trackers'); ct = ip.force(t, an.ctx, got).fields[k]
        an.equal('view/node/neutral', 'making the cost trackers neutral changes nothing else', g['neutralize_cost_trackers'], t, got, an.node(d, est, rb, br, ct))

def collection(prog, rep, tier):
    """the collection of contexts handed to the predictor"""
    an = Hist(prog, rep); new, push, items, reset = [an.fn(CC + '::' + n) for n in ('new', 'push', 'items', 'reset')]
    for order in range(3):
        for st, v in an.call('collection', new, [C(order)], State(an.ctx)):
            me = an.cell(st, v); given = []
            import chain
            for k in range(order + 1):
                x = an.edge(Sym('distance%d' % k, 0, 1 << 40), Sym('count%d' % k, 1, MAXC), 0); given.append(x)
                (st, _), = an.call('collection/push', push, [me, x], st, 'there is room for one context per order')
                for t, l in an.call('collection/items', items, [me], st.clone()):
                    l = chain.listing(an, t, l); an.ob_true('collection/items', 'the contexts are those added, in order', items, t, l is not None and len(l) == len(given))
                    for a, b in zip(l or [], given): an.equal('collection/items', 'the contexts are those added, in order', items, t, a, b)
            an.ob_refuses('collection/full', 'more contexts than orders are refused', push, an.run(push, [me, given[0]], st.clone()))
            for t, _ in an.call('collection/reset', reset, [me], st.clone()):
                for u, l in an.call('collection/reset', items, [me], t):
                    an.ob_true('collection/reset', 'a reset collection is empty', reset, u, chain.listing(an, u, l) == [])
                an.call('collection/reset', push, [me, given[0]], t.clone(), 'a reset collection has room')

GET = ['depth', 'left_count', 'right_count', 'probability_estimator', 'recent_bits', 'bits_runs', 'cost_trackers', 'text_start']
def nodes(prog, rep, tier):
    """a tree node keeps what it was made of and takes a bit exactly as the state of a context does"""
    an = Hist(prog, rep); t = an.adt(NO); wi = an.adt(pool.WI)['id']
    new, upd = an.fn(NO + '::new', opt=True), an.fn(NO + '::update_on_next_bit'); g = {n: an.fn(NO + '::' + n, opt=True) for n in GET}
    l, r = Sym('left', 0, MAXC), Sym('right', 0, MAXC); est, rb, br = an.estimator(''), an.recent(''), an.runs(''); ct = an.trackers('-old')
    start, depth = Sym('start', 0, (1 << 31) - 1), Sym('depth', 0, (1 << 16) - 1)
    st = State(an.ctx)
    f = an.fn('history::tree::node_child::NodeChildren::new'); nct = an.adt(pool.NC)['id']; kids = [an.val(nct, Sym('child%d' % k, -1 << 31, (1 << 31) - 1)) for k in (0, 1)]
    st, ch = an.one(f, [VSeq(nct, C(2), ('t', tuple(kids)))], st)
    def made(st, key='node/new', **kw):
        d = dict(start=start, depth=depth, l=l, r=r, rb=rb); d.update(kw)
        if new is None:
            return [(st, build(an, st, t, d, est, br, ct, ch))]
        return [(o.st, o.value) for o in an.run(new, [an.val(wi, d['start']), est, d['depth'], ct, br, d['l'], d['r'], d['rb'], ch], st)] if key is None else an.call(key, new, [an.val(wi, d['start']), est, d['depth'], ct, br, d['l'], d['r'], d['rb'], ch], st)
    want = dict(depth=depth, left_count=l, right_count=r, probability_estimator=est, recent_bits=rb, bits_runs=br, cost_trackers=ct, text_start=start)
    def look(key, rule, st, me, want):
        for n in GET:
            if g[n] is None: continue
            for u, v in an.call(key, g[n], [me], bare(st)): an.equal(key + '/' + n, rule, g[n], u, an.leaf(u, v) if n == 'text_start' else v, want[n])
    for st, v in made(st):
        me = an.cell(st, v); look('node/new', 'a node reports what it was made of', st, me, want)
        for b in (0, 1):
            rates = an.one(an.fn('lut::LookUpTables::d_estimator_rates'), [an.luts()], st)[1]
            for u, _ in an.call('node/step', upd, [me, an.bit(b), an.trackers(''), rates], st.clone()):
                for w, e, x, y in stepped(an, u, b, est, rb, br):
                    for z, c in an.spec(w, lambda q: ((l, r)[b] + 1) if ip.decide_ge0(q, C(MAXC - 1) - (l, r)[b]) else C(MAXC)):
                        d = dict(want); d.update(probability_estimator=e, recent_bits=x, bits_runs=y, cost_trackers=an.trackers('')); d[('left_count', 'right_count')[b]] = c
                        look('node/step', 'a bit is taken into the estimator, recent bits, runs and the count of its own direction (up to 1000), with the given cost trackers, and nothing else changes', z, me, d)
    if new is not None:
        for name, kw in (('depth', dict(depth=Sym('deep', 1 << 16, 1 << 40))), ('start', dict(start=Sym('far', 1 << 31, 1 << 40))), ('recent', dict(rb=an.val(an.adt(RBN)['id'], ZERO)))):
            st = State(an.ctx); d = dict(start=start, depth=depth, rb=rb); d.update(kw)
            an.ob_refuses('node/limits', 'what a node cannot hold is refused', new, an.run(new, [an.val(wi, d['start']), est, d['depth'], ct, br, l, r, d['rb'], ch], st))
