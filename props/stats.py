"""C19: what the statistics account for each bit and byte, and the estimated cost of a bit."""
from harness import *
from chain import bare
import states, bytes as lb
PS = "predictor::stats::PredictionStatistics::<'a>::"; PST = 'predictor::stats::PredictionStatistics'; FP = 'coding::FinalProbability'
ONE23 = 1 << 23
F = ['total_bytes', 'total_contexts_count', 'per_order_counts', 'per_order_costs', 'per_symbol_counts', 'per_symbol_costs', 'current_byte_cost', 'total_cost', 'per_order_occurrences_count']

class Stats(states.Hist):
    def __init__(s, prog, rep):
        states.Hist.__init__(s, prog, rep)
        t = s.adt(PST); names = [f[0] for f in t['variants'][0]['fields']]
        for n in F:
            if n not in names: raise Missing('field ' + n)
    def me(s, st, order, current=None):
        """statistics of any earlier history"""
        t = s.adt(PST); big = 1 << 50; lens = {'per_order_counts': 25, 'per_order_costs': 25, 'per_symbol_counts': 256, 'per_symbol_costs': 256, 'per_order_occurrences_count': 5 * (order + 1)}
        vs = []
        for n, ty in [(f[0], f[1]) for f in t['variants'][0]['fields']]:
            if n in lens:
                s.ctx.lens['stats.' + n] = lens[n]; vs.append(VLazy(ty, 'stats.' + n, (), lambda lz: (0, big)))
            elif n in F: vs.append(s.val(ty, Sym('stats.' + n, 0, big)) if s.p.ty[ty]['k'] == 'adt' else Sym('stats.' + n, 0, big))
            else: vs.append(VLazy(ty, 'stats.' + n))
        return s.cell(st, VAgg(t['id'], 0, vs))
    def fields(s, st, me):
        """every counter and cost, by name (and index)"""
        out = {}
        for n in F:
            v = s.get(st, me, n)
            if isinstance(v, VVec):
                k = st.cst(v.seq.len)
                if k is None: raise Undecided('length of ' + n)
                for i in range(k): out[n, i] = st.norm(s.leaf(st, s.getf(st, v, i)))
                out[n, 'len'] = C(k)
            else: out[n, None] = st.norm(s.leaf(st, v))
        return out
    def changed(s, key, rule, f, st, before, after, want):
        """exactly the wanted components changed, to the wanted values"""
        for k in before:
            w = before[k] + want[k] if k in want else before[k]
            s.ob_eq(key if k in want else key + '/rest', rule if k in want else 'nothing else is counted', f, st, after[k], w, '%s of %s[%s]' % (key, k[0], k[1]))

def collected(an, st, n, unary, contents='symbolic'):
    """a collection of n contexts of which the highest `unary` ones are edges"""
    items = []
    for i in range(n):
        if i < n - unary: items.append(an.node(Sym('d%d' % i, 1, 1 << 30), an.estimator(str(i)), an.recent(str(i)), an.runs(str(i)), an.trackers(str(i))))
        else: items.append(an.edge(Sym('d%d' % i, 1, 1 << 30), Sym('n%d' % i, 1, 1000), i % 2))
    new, push = an.fn(states.CC + '::new'), an.fn(states.CC + '::push')
    st, v = an.one(new, [C(20)], st); c = an.cell(st, v)
    for x in items: st, _ = an.one(push, [c, x], st)
    return st, c, items

def counting(prog, rep, tier):
    an = Stats(prog, rep); f = an.fn(PS + 'on_next_bit'); made = {}
    def estimate(st, a, rty):
        p = an.leaf(st, ip.load(st, an.ctx, a[0].cell, a[0].path)); k = (st.norm(p).key(), st.norm(an.leaf(st, a[1])).key())
        if k not in made: made[k] = Sym('cost#%d' % len(made), 1, 24 << 11)
        st.events = st.events + (('cost', k, made[k]),)
        return an.val(rty, made[k])
    an.summary({FP + '::estimate_cost': estimate})
    # how a cost is kept: the same number of bits, exactly
    unit = scale(an)
    orders = ((20, [(n, u) for n in (0, 1, 2, 3, 4, 5, 6, 20, 21) for u in sorted({0, 1, 2, 3, 4, 5, n - 1, n}) if 0 <= u <= n]), (1, [(1, 0), (2, 0), (2, 2)]), (0, [(1, 1), (1, 0)]))
    for order, shapes in orders:
        for n, unary in shapes:
            for bit in (Sym('bit', 0, 1),):
                st = State(an.ctx); st, c, items = collected(an, st, n, unary)
                me = an.me(st, order); p = Sym('p', 1, ONE23 - 1)
                before = an.fields(st, me)
                for t, _ in an.call('bit', f, [me, an.bit(bit), c, an.val(an.argty(f, 3), p)], st, 'counting a bit never panics'):
                    rule = 'a bit adds its cost once to the total and to the current byte, and counts once in the class of its contexts'
                    after = an.fields(t, me); cost = {e[1]: e[2] for e in t.events if e[0] == 'cost'}
                    right = (t.norm(p).key(), t.norm(bit).key()); x = cost.get(right); others = [v for k, v in cost.items() if k != right]
                    if x is None:
                        d = t.norm(after['total_cost', None] - before['total_cost', None])
                        if any(t.prove_eq(d, v * unit) for v in others + [ZERO]): an.ob_true('bit/cost', 'the cost counted is that of the coded bit under the prediction', f, t, False, 'the cost of the bit is not counted')
                        else: rep.add('bit/cost', 'the cost counted is that of the coded bit under the prediction', an.span(f), 'undecided', 'cost not looked up by the known function')
                        continue
                    an.ob_true('bit/cost', 'the cost counted is that of the coded bit under the prediction', f, t, True)
                    x = x * unit
                    want = {('total_cost', None): x, ('current_byte_cost', None): x, ('total_contexts_count', None): C(n)}
                    if n:
                        i = 5 * min(4, n - 1) + min(4, unary)
                        t2, occ = an.one(an.fn(states.CS + '::occurrence_count'), [an.cell(t, items[-1])], t)
                        want.update({('per_order_counts', i): ONE, ('per_order_costs', i): x, ('per_order_occurrences_count', i): an.leaf(t2, occ)})
                    an.changed('bit', rule, f, t, before, after, want)

def scale(an):
    """what a cost of one unit is when added up"""
    to = [i for i in an.p.inst.values() if i['path'].endswith('FixI32::to_fix_i64') and [an.p.ty[t].get('path') for t in i['targs']][-1:] == ['fixed_point::types::Log2Q'] and i['self'] == an.adt('fixed_point::types::Log2D')['id']]
    if not to: raise Missing('widening of costs')
    st = State(an.ctx); st, v = an.one(to[0], [an.cell(st, an.val(an.adt('fixed_point::types::Log2D')['id'], ONE))], st)
    k = st.cst(an.leaf(st, v))
    if not k: raise Undecided('scale of costs')
    return k

def byte_start(prog, rep, tier):
    an = Stats(prog, rep); f = an.fn(PS + 'start_new_byte'); by = lb.Bytes(prog, rep)
    new, sn, on = by.fn(lb.LB + 'new'), by.fn(lb.LB + 'start_new_byte'), by.fn(lb.LB + 'on_next_bit')
    for full in (0, 1, 2):
        st = State(an.ctx); st, v = an.one(new, [], st); lref = an.cell(st, v); last = None
        for k in range(full):
            bits = [Sym('b%d_%d' % (k, i), 0, 1) for i in range(8)]; st, _ = an.one(sn, [lref], st)
            for b in bits: st, _ = an.one(on, [lref, an.bit(b)], st)
            last = ZERO
            for b in bits: last = last * 2 + b
        st, _ = an.one(sn, [lref], st)
        # concrete symbols at the ends, any symbol by its digits otherwise
        for sym in ([None] if last is None else [0, 1, 127, 128, 200, 255]):
            c = st.clone()
            if sym is not None:
                for i, b in enumerate(bits): c.assume_eq0(b - ((sym >> (7 - i)) & 1))
            me = an.me(c, 20); tb = an.get(c, me, 'total_bytes')
            c.assume_eq0(an.leaf(c, tb)) if sym is None else c.assume_ge0(an.leaf(c, tb) - 1)
            before = an.fields(c, me); cur = before['current_byte_cost', None]
            for t, _ in an.call('byte', f, [me, lref], c, 'starting a byte never panics'):
                want = {('total_bytes', None): ONE, ('current_byte_cost', None): -cur}
                if sym is not None: want.update({('per_symbol_counts', sym): ONE, ('per_symbol_costs', sym): cur})
                an.changed('byte', 'starting a byte counts it and credits the finished byte and its cost to its symbol', f, t, before, an.fields(t, me), want)
        mid = st; mid, _ = an.one(on, [lref, an.bit(0)], mid); me = an.me(mid, 20)
        an.ob_refuses('byte/inside', 'starting a byte inside a byte is refused', f, an.run(f, [me, lref], mid.clone()))

def fresh(prog, rep, tier):
    an = Stats(prog, rep); f = an.fn(PS + 'new')
    luts = an.obj(None, None, 'luts', ty=an.argty(f, 1))
    for order in (0, 1, 4, 20):
        for t, v in an.call('new', f, [C(order), luts], State(an.ctx), 'statistics can be made'):
            me = an.cell(t, v)
            for k, x in an.fields(t, me).items():
                if k[1] == 'len' or k[0] == 'current_byte_cost': continue
                an.ob_eq('new', 'new statistics have counted nothing', f, t, x, ZERO, 'new %s[%s]' % k)

def cost_of_bit(prog, rep, tier):
    an = states.Hist(prog, rep); f = an.fn(FP + '::estimate_cost')
    L = [i for i in prog.inst.values() if i['path'] == 'fixed_point::FixU32::log2' and i['self'] == an.adt(FP)['id']] or [i for i in prog.inst.values() if i['path'].endswith('::log2') and i['local']]
    def restricted(st, a, rty):
        x = an.leaf(st, a[1]); memo = an.memo; k = ('log2', st.norm(x).key())
        if k not in memo: memo[k] = Sym('log2#%d' % len(memo), 0, 2047)
        st.events = st.events + (('log2', st.norm(x), memo[k]),); return memo[k]
    an.summary({'lut::log2::Log2Lut::log2_restricted': restricted})
    lut = VLazy(an.argty(f, 2), 'log2_lut')
    for bit in (0, 1):
        for e in range(23):
            # the probability of the coded bit has its leading one at bit e
            q = (1 << e) + (Sym('low%d' % e, 0, (1 << e) - 1) if e else ZERO); p = q if bit == 0 else C(ONE23) - q
            st = State(an.ctx)
            me = an.cell(st, an.val(an.adt(FP)['id'], p)); lref = an.cell(st, lut)
            for t, v in an.call('cost', f, [me, an.bit(bit), lref], st, 'the cost of a bit can be estimated for every probability'):
                asked = {e[1].key(): e for e in t.events if e[0] == 'log2'}
                if len(asked) != 1: rep.add('cost/lookup', 'one logarithm is looked up', an.span(f), 'undecided', '%d lookups' % len(asked)); continue
                (_, x, l), = asked.values()
                want = t.fdiv(q, 1 << (e - 11)) if e > 11 else q * (1 << (11 - e))
                an.ob_eq('cost/mantissa', 'the logarithm looked up is that of the leading 12 bits of the probability of the bit', f, t, x, want)
                an.ob_eq('cost', 'the cost of a bit is minus the binary logarithm of its probability: its exponent and the looked-up fraction', f, t, an.leaf(t, v), C((23 - e) << 11) - l)
                an.ob_ge0('cost/positive', 'every bit costs something', f, t, an.leaf(t, v) - 1)

def printing(prog, rep, tier):
    """what print_state shows of any statistics"""
    import driver
    an = Stats(prog, rep); f = an.fn(PS + 'print_state'); an.ctx.hooks = [driver.fmt_hook] + an.ctx.hooks
    kinds = an.adt('predictor::stats::PredictionStatisticsType'); bits = an.adt('fixed_point::types::Log2Q')
    frac = scale(an) << 11       # raw value of one bit
    def show(name):
        i = [k for k, v in enumerate(kinds['variants']) if v['name'] == name]
        if not i: raise Missing('statistics ' + name)
        st = State(an.ctx); me = an.me(st, 20); fs = an.fields(st, me)
        arr = an.cell(st, VSeq(kinds['id'], ONE, ('t', (VAgg(kinds['id'], i[0], ()),))))
        for t, _ in an.call('print', f, [me, VRef(arr.cell, arr.path, (ZERO, ONE))], st, 'statistics can be printed'):
            yield t, driver.Real(t), {k: t.norm(v) for k, v in fs.items()}, driver.lines(t.events)
    def same(R, t, key, v, w, what):
        rule = 'the figures printed are those counted'
        e = v.e if isinstance(v, VFloat) else ('int', t.norm(v).key()) if isinstance(v, Poly) else None
        r = R.same(e, w) if e is not None else None
        if r is None: rep.add(key, rule, an.span(f), 'undecided', what + ' not comparable')
        else: an.ob_true(key, rule, f, t, r, what + ' is not the value counted')
    def num(p): return ('int', p.key())
    def div(a, b): return ('Div', a, ('k', float(b)))
    for name, label, want in (('TotalCostUsingLuts', 'total cost', lambda b: div(num(b['total_cost', None]), frac * 8)),
                              ('AverageContextLength', 'average context length', lambda b: ('Div', num(b['total_contexts_count', None]), ('Mul', num(b['total_bytes', None]), ('k', 8.0))))):
        for t, R, b, ls in show(name):
            vs = driver.labelled(ls, label)
            if len(vs) != 1 or len(vs[0]) != 1: rep.add('print/' + label, 'the figures printed are those counted', an.span(f), 'undecided', 'line not found'); continue
            same(R, t, 'print/' + label, vs[0][0], want(b), label)
    for t, R, b, ls in show('CostsAndOccurrencesPerContextType'):
        seen = set()
        for vs in driver.labelled(ls, 'order '):
            if len(vs) != 5 or t.cst(vs[0]) is None or t.cst(vs[1]) is None: continue
            o, u = t.cst(vs[0]), t.cst(vs[1]); i = 5 * o + u
            if not (0 <= o <= 4 and 0 <= u <= 4): an.ob_true('print/classes', 'every class of contexts is printed once', f, t, False, 'order %d, unary %d printed' % (o, u)); continue
            seen.add((o, u))
            same(R, t, 'print/class', vs[2], div(num(b['per_order_counts', i]), 8), 'count of class %d,%d' % (o, u))
            same(R, t, 'print/class', vs[3], div(num(b['per_order_costs', i]), frac * 8), 'cost of class %d,%d' % (o, u))
            same(R, t, 'print/class', vs[4], ('Div', num(b['per_order_occurrences_count', i]), num(b['per_order_counts', i])), 'average occurrence count of class %d,%d' % (o, u))
        if seen: an.ob_true('print/classes', 'every class of contexts is printed once', f, t, len(seen) == 25, '%d of 25 classes printed' % len(seen))
        else: rep.add('print/classes', 'every class of contexts is printed once', an.span(f), 'undecided', 'lines not found')
    for t, R, b, ls in show('CostsAndOccurrencesPerSymbolValue'):
        seen = set()
        for l in ls:
            vs = [x[1][1] for x in l if not isinstance(x, str)]
            if len(vs) % 4: continue
            for k in range(0, len(vs), 4):
                c = t.cst(vs[k]) if isinstance(vs[k], Poly) else None
                if c is None or not 0 <= c < 256: continue
                seen.add(c)
                same(R, t, 'print/symbol', vs[k + 2], num(b['per_symbol_counts', c]), 'count of symbol %d' % c)
                same(R, t, 'print/symbol', vs[k + 3], div(num(b['per_symbol_costs', c]), frac * 8), 'cost of symbol %d' % c)
        if not seen: rep.add('print/symbol', 'the figures printed are those counted', an.span(f), 'undecided', 'lines not found')
