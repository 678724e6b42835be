"""C02/C05/C06: what is mixed; predictions and updates pair up, and learning touches exactly what predicted."""
from harness import *
from interp import decide_ge0, decide_eq0
import indexing
H31 = 1 << 31; MAXC = 1000
CH = "predictor::chain::ContextsChainPredictionMixer::<'a>"; CC = 'history::CollectedContextStates'; CS = 'history::ContextState'
MX = 'mixing::mixer::Mixer::'; DE = 'estimators::decelerating::DeceleratingEstimator'; CTS = 'history::tree::node::CostTrackers'

def refkey(st, r):
    """identity of the place a reference points to"""
    def el(e): return tuple(st.norm(x).key() if isinstance(x, Poly) else x for x in e) if isinstance(e, tuple) else e
    return (r.cell if not isinstance(r.cell, tuple) else tuple(x.key() if isinstance(x, VLazy) else repr(x) for x in r.cell), tuple(el(e) for e in r.path))

class Trace(An):
    """opaque learners that record what they are asked"""
    def __init__(s, prog, rep, apm=False):
        An.__init__(s, prog, rep); s.count = 0
        s.sqt = s.adt('fixed_point::types::FractOnlyU32')['id']; s.stt = s.adt('fixed_point::types::StretchedProbD')['id']
        s.table = {}
    def fresh(s, name, lo, hi):
        s.count += 1; return Sym('%s#%d' % (name, s.count), lo, hi)
    def ev(s, st, *e): st.events = st.events + (e,)
    def sq(s, p): return s.val(s.sqt, p)
    def stv(s, p): return s.val(s.stt, p)
    def pair(s, rty, a, b):
        return VAgg(rty, 0, (s.sq(a), s.stv(b)))
    def F(s, st, v): return s.leaf(st, models.F(s.it, st, v)) if isinstance(v, VLazy) else s.leaf(st, v)

def refuses(prog, who, tier='quick'):
    """whether a part refuses out-of-turn calls itself; asked only where the code in front of it does not"""
    import mixing, apm, pipeline
    memo = prog.__dict__.setdefault('_refuses', {})
    if who not in memo:
        f, pick = {'mixer': (mixing.pairing, ('/set-twice', '/update-missing')), 'map': (apm.pairing, ('-unpaired', '-twice')),
                   'chain': (chain, ('-twice', '-first')), 'finalizer': (pipeline.finalizer, ('-twice', '-first'))}[who]
        rep = Report(''); memo[who] = True
        try: f(prog, rep, tier)
        except Exception: pass
        memo[who] = not any(o.status == 'violated' and any(x in k for x in pick) for k, o in rep.obs.items())
    return memo[who]

def install(an):
    """summaries of the mixers, the estimators and the lookup tables"""
    memo = {}
    def fun(name, args, lo, hi):
        k = (name,) + tuple(a.key() for a in args)
        if k not in memo: memo[k] = an.fresh(name, lo, hi)
        return memo[k]
    an.fun = fun
    def isset(st, k, i):
        for e in reversed(st.events):
            if e[0] == 'learn' and refkey(st, e[1]) == k: return False
            if e[0] == 'set' and refkey(st, e[1]) == k and (i is None or st.prove_eq(e[2], i)): return True
        return False
    def set_input(st, a, rty):
        if isset(st, refkey(st, a[0]), an.leaf(st, a[1])) and refuses(an.p, 'mixer'): raise PanicExc('refused by a mixer')
        an.ev(st, 'set', a[0], an.leaf(st, a[1]), an.leaf(st, a[2]), an.leaf(st, a[3])); return VAgg(rty, 0, ())
    def mix_all(st, a, rty):
        x, y = an.fresh('mixed_sq', 1, H31 - 1), an.fresh('mixed_st', -(12 << 21), 12 << 21)
        an.ev(st, 'mix', a[0], x, y); return an.pair(rty, x, y)
    def upd(st, a, rty):
        if not isset(st, refkey(st, a[0]), None) and refuses(an.p, 'mixer'): raise PanicExc('refused by a mixer')
        an.ev(st, 'learn', a[0], an.leaf(st, a[1]), an.leaf(st, a[2]), an.leaf(st, a[3])); return VAgg(rty, 0, ())
    def prediction_sq(st, a, rty):
        i = an.leaf(st, a[1]); k = refkey(st, a[0])
        for e in reversed(st.events):
            if e[0] == 'set' and refkey(st, e[1]) == k and st.prove_eq(e[2], i): return an.sq(e[3])
        raise Undecided('input of a mixer which was not set')
    def estimate(st, a, rty):
        k = refkey(st, a[0]); x = None
        for e in reversed(st.events):
            if e[0] == 'adapt' and refkey(st, e[1]) == k: break
            if e[0] == 'estimate' and refkey(st, e[1]) == k: x = e[2]; break
        if x is None: x = an.fresh('estimate', 1, H31 - 1)
        an.ev(st, 'estimate', a[0], x, expand(an, st, ip.load(st, an.ctx, a[0].cell, a[0].path))); return an.sq(x)
    def adapt(st, a, rty): an.ev(st, 'adapt', a[0], an.leaf(st, a[1])); return VAgg(rty, 0, ())
    def stretch(st, a, rty):
        x = an.leaf(st, a[1]); return an.stv(fun('stretch', [st.norm(x)], -(12 << 21), 12 << 21))
    def squash(st, a, rty):
        x = an.leaf(st, a[1]); return an.sq(fun('squash', [st.norm(x)], 1, H31 - 1))
    def direct(st, a, rty):
        n = st.norm(an.leaf(st, a[1]))
        if not decide_ge0(st, C(MAXC) - n): raise PanicExc('beyond the longest run')
        return an.pair(rty, fun('direct', [n], 1, H31 - 1), fun('direct_st', [n], -(12 << 21), 12 << 21))
    def make(st, a, rty): 
        return an.val(rty, fun('made', [st.norm(an.leaf(st, a[0])), st.norm(an.leaf(st, a[1]))], 0, (1 << 32) - 1))
    def updated(st, a, rty):
        an.count += 1
        n = an.count; an.ev(st, 'cost', a[0], an.leaf(st, a[1]), an.leaf(st, a[2]), an.leaf(st, a[3]), n); return VLazy(rty, 'tracker#%d' % n)
    an.summary({MX + 'set_input': set_input, MX + 'mix_all': mix_all, MX + 'update_and_reset': upd, MX + 'prediction_sq': prediction_sq,
                DE + '::prediction': estimate, DE + '::update': adapt, DE + '::make': make, CTS + '::updated': updated,
                'lut::stretch::StretchLut::stretch': stretch, 'lut::squash::SquashLut::squash': squash,
                'lut::estimator::DeceleratingEstimatorPredictions::for_0_bit_run': direct})
    kits = {}
    def widen(it, st, inst, args, rty, span):
        """a set of mixers is built for the smallest indexer and then given the size and indexer asked for"""
        if not (inst['path'].startswith('predictor::kits::MixersWithIndexer') and inst['path'].endswith('::new')): return NotImplemented
        if st.choice.get('raw-kit'): return NotImplemented
        ix = ip.force(st, an.ctx, args[1]); t = ix.ty; n = [x for x in an.p.inst.values() if x.get('self') == t and x['path'].endswith('::new') and x['body']]
        size = an.meth(t, 'get_array_size')
        c = State(an.ctx); c.choice['raw-kit'] = True
        got = [an.leaf(o.st, o.value) for o in an.it.run(size, [an.cell(c, ix)], c) if o.kind == 'ret']
        if len(got) != 1 or not got[0].is_const(): raise Undecided('size of a set of mixers')
        if inst['id'] not in kits:
            for dims in range(1, 8):
                c = State(an.ctx)
                r = [o for o in an.it.run(n[0], [indexing.vec(an, [ONE] * dims)], c) if o.kind == 'ret']
                if r: break
            c = r[0].st; c.stack = (); c.choice['raw-kit'] = True
            outs = [o for o in an.it.run(inst, [args[0], r[0].value], c) if o.kind == 'ret']
            if len(outs) != 1: raise Undecided('building a set of mixers')
            kits[inst['id']] = (outs[0].st, outs[0].value)
        o, v = kits[inst['id']]
        def go(x):
            x = ip.force(o, an.ctx, x)
            if isinstance(x, VAgg) and x.ty == t: return ix
            if isinstance(x, VAgg): return VAgg(x.ty, x.variant, tuple(go(y) for y in x.fields))
            if isinstance(x, VVec) and x.seq.ety is not None and an.p.ty[x.seq.ety]['k'] == 'adt' and 'mixing::mixer' in an.p.ty[x.seq.ety]['path']:
                an.count += 1
                return VVec(VSeq(x.seq.ety, got[0], ('l', 'mixers#%d' % an.count, (), None)), got[0])
            return x
        return go(v)
    an.widen = widen
    an.ctx.hooks = [widen, joining(an)] + an.ctx.hooks

def joining(an):
    """a function of shared data that returns a number in several ways is replaced by one unknown number in the range of its results"""
    kind = {}; memo = {}
    def pure(inst):
        b = inst['body']
        if b is None or not inst.get('local') or inst['closure_of']: return False
        l = b['locals']; r = an.p.ty[l[0]]
        if r['k'] != 'int' or b['argc'] == 0: return False
        for i in range(b['argc']):
            t = an.p.ty[l[i + 1]]
            if t['k'] in ('int', 'bool'): continue
            if t['k'] == 'ref' and not t.get('mut'): continue
            if t['k'] == 'adt' and t['adt'] == 'enum' and not any(v['fields'] for v in t['variants']): continue
            return False
        return True
    def join(it, st, inst, args, rty, span):
        k = kind.get(inst['id'])
        if k is None: k = kind[inst['id']] = pure(inst)
        if not k: return NotImplemented
        key = None
        if all(isinstance(a, Poly) for a in args):
            key = (inst['id'],) + tuple(st.norm(a).key() for a in args)
            if key in memo: return memo[key]
        c = st.clone(); c.stack = ()
        outs = an.it.run(inst, args, c)
        if len(outs) < 2 or any(o.kind != 'ret' or o.st.taint != st.taint or len(o.st.events) != len(st.events) for o in outs): return NotImplemented
        bs = [o.st.bound(an.leaf(o.st, o.value)) for o in outs]
        v = an.fresh('join', min(b[0] for b in bs), max(b[1] for b in bs))
        if key: memo[key] = v
        return v
    return join

def items_of(an, kinds, st, suffix='', fixed=False, fix={}):
    """a collection of contexts of the given kinds, lowest order first, contents unknown"""
    t = an.adt(CS); vs = {v['name']: i for i, v in enumerate(t['variants'])}
    states = []
    for k, kind in enumerate(kinds):
        k = '%d%s' % (k, suffix)
        name = 'ForNode' if kind == 'N' else 'ForEdge'
        if name not in vs: raise Missing('variant ' + name)
        fs = []
        for n, ty in [(f[0], f[1]) for f in t['variants'][vs[name]]['fields']]:
            if fixed and n in ('occurrence_count', 'last_occurrence_distance', 'repeated_bit'):
                fs.append(an.bit(fix.get(n, len(states) & 1)) if n == 'repeated_bit' else C(fix.get(n, 17)))
            elif fixed and n == 'bits_runs': l, r1, r2 = fix.get('runs', (1, 2, 3)); fs.append(an.val(ty, C(l + (r1 << 1) + (r2 << 11) + (4 << 21))))
            elif n == 'occurrence_count': fs.append(Sym('count%s' % k, 1, MAXC))
            elif n == 'last_occurrence_distance': fs.append(Sym('distance%s' % k, 0, 1 << 40))
            elif n == 'repeated_bit': fs.append(an.bit(Sym('repeated%s' % k, 0, 1)))
            elif n == 'recent_bits' and fixed: fs.append(an.val(ty, C(1)))
            elif n == 'probability_estimator' and fixed:
                mk = an.fn('estimators::decelerating::DeceleratingEstimator::make'); i = len(states)
                (st, v), = an.call(None, mk, [an.val(an.argty(mk, 0), C((1 << 29) + (i << 20))), C(3 + i)], st); fs.append(v)
            elif n == 'bits_runs':
                l, r1, r2, r3 = Sym('last%s' % k, 0, 1), Sym('run%s.1' % k, 1, 1000), Sym('run%s.2' % k, 0, 1000), Sym('run%s.3' % k, 0, 1000)
                fs.append(an.val(ty, l + r1 * 2 + r2 * (1 << 11) + r3 * (1 << 21)))
            else: fs.append(VLazy(ty, 'ctx%s.%s' % (k, n)))
        states.append(VAgg(t['id'], vs[name], tuple(fs)))
    (st, v), = an.call(None, an.fn(CC + '::new'), [C(20)], st)
    ref = an.cell(st, v); push = an.fn(CC + '::push')
    for x in states: (st, _), = an.call(None, push, [ref, x], st)
    return st, ref, states

def chain(prog, rep, tier):
    an = Trace(prog, rep); install(an)
    new, pre, upd = an.fn(CH + '::new'), an.fn(CH + '::predict'), an.fn(CH + '::update')
    luts = an.obj(None, None, 'luts', ty=an.argty(new, 1))
    half, zero = C(1 << 30), ZERO
    def build(n):
        made = [(o.st, o.value) for o in an.run(new, [C(n), luts], State(an.ctx)) if o.kind == 'ret']
        if len(made) != 1: raise Undecided('construction of the chain')
        return made[0]
    built = {}
    patterns = ['', 'E', 'N', 'EE', 'NE', 'NN', 'NNE', 'NEE', 'NNN', 'EEE'] + ['NNNE', 'NNNN', 'EEEE', 'NNEE'] * (tier == 'thorough')
    patterns += ['N' * 21, 'E' * 21, 'N' * 9 + 'E' * 12] + ['N' * k + 'E' * (21 - k) for k in (1, 4, 14, 20)] * (tier == 'thorough')    # all orders, contexts of fixed contents
    byte = Sym('byte', 1, 255)
    for kinds in patterns:
        top = 3 if len(kinds) < 5 else 20
        if top not in built: built[top] = build(top)
        base, val = built[top]; far = top > 3
        st, ctxs, states = items_of(an, kinds, base.clone(), fixed=far)
        st, other, _ = items_of(an, kinds, st, "'", fixed=far)
        me = an.cell(st, val)
        twice = 2
        rule = 'predictions never panic for any contexts'
        for t, res in an.call('chain/predict', pre, [me, ctxs, byte], st.clone(), rule):
            ev = t.events; mixes = [e for e in ev if e[0] == 'mix']
            an.ob_true('chain/predict/one-mix', 'every context is mixed exactly once', pre, t, len(mixes) == len(kinds), '%d mixings for %d contexts' % (len(mixes), len(kinds)))
            if len(mixes) != len(kinds): continue
            last = (half, zero); keys = []; used = []
            ests = [e for e in ev if e[0] == 'estimate' and e[1].cell == me.cell]
            for i, m in enumerate(mixes):
                k = refkey(t, m[1]); keys.append(k)
                sets = [e for e in ev if e[0] == 'set' and refkey(t, e[1]) == k]
                z = [e for e in sets if t.prove_eq(e[3], last[0]) and t.prove_eq(e[4], last[1])] or [e for e in sets if t.prove_eq(e[2], ZERO)]
                an.ob_true('chain/predict/first-input', 'each context is mixed with the result of the next lower order', pre, t, len(z) >= 1)
                if z:
                    for a, b in ((z[0][3], last[0]), (z[0][4], last[1])): an.ob_eq('chain/predict/first-input', 'each context is mixed with the result of the next lower order', pre, t, a, b)
                last = (m[2], m[3])
            an.ob_true('chain/predict/own', 'every order has learners of its own', pre, t, len(set(keys)) == len(keys) and len({refkey(t, e[1]) for e in ests}) == len(ests) == len(kinds))
            r = ip.force(t, an.ctx, res)
            for f, w in zip(r.fields, last): an.ob_eq('chain/predict/result', 'the prediction is the result of the highest order', pre, t, an.leaf(t, f), w)
            if kinds: an.ob_refuses('chain/predict-twice', 'predicting again without an update is refused', pre, an.run(pre, [me, ctxs, byte], t.clone()))
            if kinds and twice: an.ob_refuses('chain/predict-twice', 'predicting again without an update is refused', pre, an.run(pre, [me, other, Sym('byte2', 1, 255)], t.clone())); twice -= 1
            for bit in (0, 1):
                u0 = t.clone(); n0 = len(u0.events)
                for u, out in an.call('chain/update', upd, [me, an.bit(bit), ctxs], u0, 'an update after a prediction never panics'):
                    ev = u.events[n0:]; rl = 'exactly the mixers used for the prediction learn, each once, from its own result and the coded bit'
                    learn = {}; dup = False
                    for e in ev:
                        if e[0] == 'learn':
                            dup |= refkey(u, e[1]) in learn; learn[refkey(u, e[1])] = e
                    an.ob_true('chain/update/mixers', rl, upd, u, not dup and set(learn) == set(keys), 'mixers updated differ from mixers used')
                    for k, m in zip(keys, mixes):
                        if k in learn:
                            an.ob_eq('chain/update/mixers', rl, upd, u, learn[k][2], C(bit)); an.ob_eq('chain/update/mixers', rl, upd, u, learn[k][3], m[2])
                    ad = [(refkey(u, e[1]), e) for e in ev if e[0] == 'adapt']; rl = 'exactly the adaptive estimators used for the prediction learn, each once, from the coded bit'
                    an.ob_true('chain/update/estimators', rl, upd, u, sorted(map(repr, (k for k, _ in ad))) == sorted(repr(refkey(t, e[1])) for e in ests), 'estimators updated differ from estimators used')
                    for _, e in ad: an.ob_eq('chain/update/estimators', rl, upd, u, e[2], C(bit))
                    costs = [e for e in ev if e[0] == 'cost']; rl = 'one new pair of cost trackers is returned per node context, in order, each following from that context and its own predictions'
                    an.ob_true('chain/update/costs', rl, upd, u, len(costs) == kinds.count('N'))
                    items = listing(an, u, out)
                    an.ob_true('chain/update/costs', rl, upd, u, items is not None and [x.name if isinstance(x, VLazy) else None for x in items] == ['tracker#%d' % e[5] for e in costs], 'returned trackers')
                    nodes = [i for i, x in enumerate(kinds) if x == 'N']
                    for i, e in zip(nodes, costs):
                        src = ip.load(u, an.ctx, e[1].cell, e[1].path)
                        an.ob_true('chain/update/costs', rl, upd, u, repr(expand(an, u, src)) == repr(expand(an, u, states[i].fields[field(an, states[i], 'cost_trackers')])), 'trackers of another context')
                        ins = {t.cst(x[2]): x[3] for x in mixes and t.events if x[0] == 'set' and refkey(t, x[1]) == keys[i]}
                        an.ob_eq('chain/update/costs', rl, upd, u, e[2], ins.get(1, ZERO)); an.ob_eq('chain/update/costs', rl, upd, u, e[3], ins.get(2, ZERO)); an.ob_eq('chain/update/costs', rl, upd, u, e[4], C(bit))
                    if kinds: an.ob_refuses('chain/update-twice', 'updating twice for one prediction is refused', upd, an.run(upd, [me, an.bit(bit), ctxs], u.clone()))
                    if bit: an.call('chain/again', pre, [me, ctxs, byte], u.clone(), 'after an update the chain can predict again')
        if kinds:
            for bit in (0, 1): an.ob_refuses('chain/update-first', 'an update without a prediction is refused', upd, an.run(upd, [me, an.bit(bit), ctxs], st.clone()))

def quantized(n): return n if n < 2 else 2 * n.bit_length() + (n >> (n.bit_length() - 2) & 1)

def evidence(prog, rep, tier):
    """C02: which inputs each context brings to its mixer, and which situations share a learner"""
    an = Trace(prog, rep); install(an)
    new, pre = an.fn(CH + '::new'), an.fn(CH + '::predict')
    luts = an.obj(None, None, 'luts', ty=an.argty(new, 1)); half = C(1 << 30)
    made = [(o.st, o.value) for o in an.run(new, [C(3), luts], State(an.ctx)) if o.kind == 'ret']
    if len(made) != 1: raise Undecided('construction of the chain')
    base, val = made[0]
    for kinds in ('E', 'N', 'NE', 'NN', 'EE') + (('NNE', 'NEE', 'NNN') if tier == 'thorough' else ()):
        st, ctxs, states = items_of(an, kinds, base.clone()); me = an.cell(st, val)
        for t, _ in an.call('evidence', pre, [me, ctxs, Sym('byte', 1, 255)], st, 'predictions never panic for any contexts'):
            ev = t.events; mixes = [e for e in ev if e[0] == 'mix']
            if len(mixes) != len(kinds): continue
            low = (half, ZERO); own = [e for e in ev if e[0] == 'estimate' and e[1].cell == me.cell]
            for i, m in enumerate(mixes):
                k = refkey(t, m[1]); sets = [(e[3], e[4]) for e in ev if e[0] == 'set' and refkey(t, e[1]) == k]
                stretched = lambda x: an.fun('stretch', [t.norm(x)], -(12 << 21), 12 << 21)
                want = [('the result of the next lower order', low)]
                here = [e for e in own if sum(1 for e2 in ev[:next(j for j, x in enumerate(ev) if x is e)] if e2[0] == 'mix') == i]
                if len(here) != 1:
                    an.ob_true('evidence/one-estimate', 'each context brings one adaptive estimate', pre, t, False, '%d adaptive estimates' % len(here)); continue
                x = here[0][2]; f = lambda n: states[i].fields[field(an, states[i], n)]
                want.append(('the adaptive estimate', (x, stretched(x))))
                if kinds[i] == 'E':
                    n = t.norm(an.leaf(t, f('occurrence_count'))); two = C(2 << 21)
                    want.append(('the table prediction for its own occurrence count', (an.fun('direct', [n], 1, H31 - 1), an.fun('direct_st', [n], -(12 << 21), 12 << 21))))
                    want.append(('the fixed prediction', (an.fun('squash', [two], 1, H31 - 1), two)))
                else:
                    e = [e for e in ev if e[0] == 'estimate' and e[1].cell != me.cell and e[3] == expand(an, t, f('probability_estimator'))]
                    an.ob_true('evidence/own-estimator', 'a context seen with both bits brings the prediction of its own estimator', pre, t, bool(e), 'the estimator of context %d is not asked' % i)
                    if e: want.append(('the prediction of its own estimator', (e[-1][2], stretched(e[-1][2]))))
                for name, w in want:
                    hit = [y for y in sets if t.prove_eq(y[0], w[0]) and t.prove_eq(y[1], w[1])]
                    if not hit:
                        near = [y for y in sets if t.prove_eq(y[0], w[0])] or [y for y in sets if t.prove_eq(y[1], w[1])]
                        y = near[0] if near else (ZERO, ZERO)
                        for a_, b_ in zip(y, w): an.ob_eq('evidence/inputs', 'each context brings ' + name + ', with its stretched value', pre, t, a_, b_)
                    else: an.ob_true('evidence/inputs', 'each context brings ' + name + ', with its stretched value', pre, t, True)
                an.ob_true('evidence/count', 'a context brings nothing else', pre, t, len(sets) == len(want), '%d inputs, %d due' % (len(sets), len(want)))
                low = (m[2], m[3])
    # which situations share an adaptive estimate or a mixer: contents fixed, one place varied at a time
    seen = {}
    def ask(kinds, byte, where, **w):
        st, ctxs, states = items_of(an, kinds, base.clone(), fixed=True, fix=w); me = an.cell(st, val); r = []
        for t, _ in an.call(None, pre, [me, ctxs, C(byte)], st):
            ev = t.events; es = [refkey(t, e[1]) for e in ev if e[0] == 'estimate' and e[1].cell == me.cell]; ms = [refkey(t, e[1]) for e in ev if e[0] == 'mix']
            if len(es) == len(ms) == len(kinds): r.append((es[where][1], ms[where][1], t))
        return r
    def same(key, rule, cls, got, t):
        """one class, one learner"""
        a = got if key.endswith('mixer') else seen.setdefault((key, 'c', cls), got)
        b = seen.setdefault((key, 'g', got), cls)
        an.ob_true(key, rule, pre, t, a == got and b == cls, 'situation %s shares with %s' % (cls, b) if b != cls else 'situation %s uses two learners' % (cls,))
    counts = [1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 100, 1000] + ([x for k in range(4, 10) for x in (1 << k, (1 << k) + (1 << k - 1) - 1, (1 << k) + (1 << k - 1))] if tier == 'thorough' else [])
    rl = 'the adaptive estimate is the one kept for the quantized count and the unfinished byte'
    for n in counts:
        for byte in (1, 2, 3, 16, 127, 128, 255):
            for bit in (0, 1):
                for a, b, t in ask('E', byte, 0, occurrence_count=n, repeated_bit=bit): same('evidence/edge-estimate', rl, (quantized(n), byte), a, t); same('evidence/mixer', 'edges with different repeated bits, and highest and lower orders, have mixers of their own', ('E', 1, bit), b, t)
    for bit in (0, 1):
        for a, b, t in ask('EE', 5, 0, repeated_bit=bit): same('evidence/mixer', 'edges with different repeated bits, and highest and lower orders, have mixers of their own', ('E', 0, bit), b, t)
    rl = 'the adaptive estimate is the one kept for the quantized length and the bit of the last run'
    for n in counts:
        for other in (0, 1, 700):
            for bit in (0, 1):
                for byte in (1, 200):
                    for a, b, t in ask('N', byte, 0, runs=(bit, n, other)): same('evidence/node-estimate', rl, (quantized(n), bit), a, t)
    for top, ks in ((1, 'N'), (0, 'NE')):
        for a, b, t in ask(ks, 5, 0, runs=(1, 3, 2)): same('evidence/mixer', 'edges with different repeated bits, and highest and lower orders, have mixers of their own', ('N', top), b, t)

def kits(prog, rep, tier):
    """a set of estimators or mixers on its own, whatever index it selects"""
    for kind, use, learn in (('Estimators', 'estimate', 'adapt'), ('Mixers', 'mix', 'learn')):
        base = 'predictor::kits::%sWithIndexer::' % kind
        insts = lambda n: [i for i in prog.inst.values() if i['body'] and i['path'].startswith(base) and i['path'].endswith('::' + n)]
        pres = insts('predict')
        if not pres: raise Missing(base + 'predict')
        for p in pres:
            an = Trace(prog, rep); install(an)
            kt = an.argty(p, 0)
            upd = [i for i in insts('update') if an.argty(i, 0) == kt]; new = [i for i in insts('new') if i['body']['locals'][0] == kt]; cur = [i for i in insts('current_mixer') if an.argty(i, 0) == kt]
            if not upd or not new: continue
            upd, new = upd[0], new[0]; label = 'kit/' + prog.ty[kt]['name'].replace('predictor::kits::', '').replace('util::indexer::', '').replace('mixing::mixer::', '')
            name = next(i for i in range(new['body']['argc']) if 'ndexer' in prog.ty[new['body']['locals'][i + 1]]['name'] and prog.ty[new['body']['locals'][i + 1]]['k'] == 'adt')
            ity = new['body']['locals'][name + 1]
            mk = next(i for i in prog.inst.values() if i.get('self') == ity and i['path'].endswith('::new') and i['body'])
            for dims in range(1, 8):
                r = [o for o in an.it.run(mk, [indexing.vec(an, [C(9)] * dims)], State(an.ctx)) if o.kind == 'ret']
                if r: break
            st = r[0].st; st.stack = ()
            args = [VLazy(new['body']['locals'][i + 1], 'maker', (), None) if i != name else r[0].value for i in range(new['body']['argc'])]
            w = an.widen(an.it, st, new, args, None, None)
            made = an.run(new, args, st) if w is NotImplemented else [Outcome('ret', w, st)]; an.last = [o.info for o in made if o.kind != 'ret'][:2]; made = [o for o in made if o.kind == 'ret']
            if len(made) != 1: raise Undecided('building %s %s' % (label, an.last))
            # some sub-indices are given in front, as the chain does
            sub = an.meth(ity, 'with_sub_index')
            closures = [i for i in range(1, p['body']['argc']) if prog.ty[p['body']['locals'][i + 1]]['k'] == 'closure']
            def args_of(ref, tag): return [ref] + [VLazy(p['body']['locals'][i + 1], 'arg%d%s' % (i, tag), (), None) for i in range(1, p['body']['argc'])]
            got = 0
            for front in range(dims):
                t0 = made[0].st.clone(); t0.stack = (); me = an.cell(t0, made[0].value); t0.events = ()
                ixf = next(i for i, f in enumerate(prog.ty[kt]['variants'][0]['fields']) if f[1] == ity)
                iref = VRef(me.cell, me.path + (('f', ixf),)); ok = [t0]
                for j in range(front): ok = [o.st for c in ok for o in an.it.run(sub, [iref, Sym('front%d' % j, 0, 8)], bare(c)) if o.kind == 'ret']
                for c in ok:
                    for o in an.run(p, args_of(me, ''), bare(c)):
                        if o.kind != 'ret': continue
                        t = o.st; got += 1; ev = t.events; us = [e for e in ev if e[0] == use]
                        rl = 'a prediction comes from one member of the set'
                        an.ob_true(label + '/predict', rl, p, t, len(us) == 1)
                        if len(us) != 1: continue
                        k = refkey(t, us[0][1])
                        if kind == 'Mixers':
                            an.ob_true(label + '/predict', 'the inputs are given to the member that is mixed', p, t, all(refkey(t, e[1]) == k for e in ev if e[0] == 'set'))
                            v = ip.force(t, an.ctx, o.value)
                            for x, w in zip(v.fields, us[0][2:4]): an.ob_eq(label + '/predict', 'the result of the set is the result of the member', p, t, an.leaf(t, x), w)
                            for f in cur:
                                for u, w in an.call(None, f, [me], t.clone()): an.ob_true(label + '/current', 'the current member is the one that predicted', f, u, refkey(u, ip.force(u, an.ctx, w)) == k)
                        an.ob_refuses(label + '/predict-twice', 'predicting again without an update is refused', p, an.run(p, args_of(me, "'"), bare(t)))
                        for bit in (0, 1):
                            n0 = len(t.events)
                            ua = [me, an.bit(bit)] + [VLazy(x, 'uarg%d' % i, (), None) for i, x in enumerate(upd['body']['locals'][3:upd['body']['argc'] + 1])]
                            for u, w in an.call(label + '/update', upd, ua, t.clone(), 'an update after a prediction never panics'):
                                le = [e for e in u.events[n0:] if e[0] == learn]; rl = 'exactly the member that predicted learns, once, from the coded bit and its own result'
                                an.ob_true(label + '/learns', rl, upd, u, len(le) == 1 and refkey(u, le[0][1]) == k, '%d learn' % len(le))
                                for e in le:
                                    an.ob_eq(label + '/learns', rl, upd, u, e[2], C(bit))
                                    if kind == 'Mixers': an.ob_eq(label + '/learns', rl, upd, u, e[3], us[0][2])
                                an.ob_refuses(label + '/update-twice', 'updating twice for one prediction is refused', upd, an.run(upd, ua, bare(u)))
            if not got: raise Undecided('no prediction of ' + label)
def bare(st):
    c = st.clone(); c.stack = (); return c
def expand(an, st, v):
    v = ip.force(st, an.ctx, v)
    if isinstance(v, VAgg): return (v.variant,) + tuple(expand(an, st, x) for x in v.fields)
    return st.norm(v).key() if isinstance(v, Poly) else v
def field(an, v, name):
    for i, f in enumerate(an.p.ty[v.ty]['variants'][v.variant]['fields']):
        if f[0] == name: return i
    raise Missing('field ' + name)
def listing(an, st, v):
    """elements of a vector, slice reference or array of known length"""
    v = ip.force(st, an.ctx, v)
    if isinstance(v, VRef):
        if v.view is not None:
            s = ip.load(st, an.ctx, v.cell, v.path); s = s.seq if isinstance(s, VVec) else s
            a, n = st.cst(v.view[0]), st.cst(v.view[1])
            return None if a is None or n is None else [ip.seq_read(st, an.ctx, s, C(a + i)) for i in range(n)]
        v = ip.load(st, an.ctx, v.cell, v.path)
    if isinstance(v, VVec): v = v.seq
    n = st.cst(v.len)
    return None if n is None else [ip.seq_read(st, an.ctx, v, C(i)) for i in range(n)]
