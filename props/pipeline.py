"""C05/C06: the predictor and the finalizer: what is asked of their parts, when, and with which data."""
from harness import *
import chain as ch, bytes as lb
PR = "predictor::Predictor::<'a>::"; FZ = "predictor::post_process::PredictionFinalizer::<'a>::"; AP = 'mixing::apm::AdaptiveProbabilityMap::'
H31 = 1 << 31

def snap(an, st, ref):
    """the value behind a reference"""
    v = ip.force(st, an.ctx, ref)
    if isinstance(v, VRef): v = ip.load(st, an.ctx, v.cell, v.path) if v.view is None else ('slice', tuple(map(repr, ch.listing(an, st, v) or ['?'])))
    return deep(an, st, v)
def deep(an, st, v):
    if isinstance(v, VLazy): return ('lazy',) + v.key()
    if isinstance(v, VEnum): return st.norm(v.d).key()
    if isinstance(v, VAgg): return (v.ty, v.variant) + tuple(deep(an, st, x) for x in v.fields)
    if isinstance(v, VVec):
        n = st.cst(v.seq.len)
        return ('vec', st.norm(v.seq.len).key()) + (tuple(deep(an, st, ip.seq_read(st, an.ctx, v.seq, C(i))) for i in range(n)) if n is not None and n <= 64 else (repr(v.seq.base), repr(v.seq.stores)))
    if isinstance(v, Poly): return st.norm(v).key()
    if isinstance(v, VRef): return ('ref',) + ch.refkey(st, v)
    return repr(v)

LBF = ['unfinished_byte', 'previous_byte_1', 'previous_byte_2', 'previous_byte_3', 'hash01_16', 'hash02_16', 'hash03_16']
def view(an, st, ref):
    """everything a cache of last bytes reports"""
    out = []
    for g in LBF:
        f = an.fn(lb.LB + g, opt=True)
        if f is None: continue
        r = [an.leaf(o.st, o.value) for o in an.it.run(f, [ref], bare(st)) if o.kind == 'ret']
        out.append(st.norm(r[0]) if len(r) == 1 else None)
    return out
def bare(st):
    c = st.clone(); c.stack = (); return c

class Pipe(ch.Trace):
    def parts(s):
        """the parts of the predictor, opaque, recording what they are asked"""
        cht = s.p
        def lazy_new(st, a, rty):
            s.count += 1; s.made.append(s.p.ty[rty]['name']); return VLazy(rty, 'part#%d' % s.count)
        s.made = []
        pair = lambda st, rty: s.pair(rty, s.fresh('mixed', 1, H31 - 1), s.fresh('mixed_st', -(12 << 21), 12 << 21))
        def gather(st, a, rty):
            r = ip.force(st, s.ctx, a[1]); items, = ch.listing(s, st, VRef(r.cell, r.path + (('f', 0),))),
            s.ev(st, 'gather', len(items) if items is not None else None)
            if items == []:
                t = s.p.ty[s.p.ty[s.adt(ch.CC)['id']]['variants'][0]['fields'][0][1]]['targs'][0]
                push = s.fn(ch.CC + '::push')
                for x in s.items:
                    o, = [o for o in s.it.run(push, [a[1], x], bare(st)) if o.kind == 'ret']
                    st.mem[r.cell] = o.st.mem[r.cell]
            return VAgg(rty, 0, ())
        def turn(st, who, on):
            if (st.choice.get(('turn', who)) or False) == on and ch.refuses(s.p, who): raise PanicExc('refused by ' + who)
            st.choice[('turn', who)] = on
        def some(st, r): return snap(s, st, r) != s.none
        def cpredict(st, a, rty):
            if some(st, a[1]): turn(st, 'chain', True)
            v = pair(st, rty); s.ev(st, 'predict', snap(s, st, a[1]), s.leaf(st, a[2]), v); return v
        def cupdate(st, a, rty):
            if some(st, a[2]): turn(st, 'chain', False)
            s.count += 1; v = VLazy(rty, 'trackers#%d' % s.count); s.ctx.lens[v.name] = 3
            s.ev(st, 'update', s.leaf(st, a[1]), snap(s, st, a[2]), v.name); return v
        def trackers(st, r):
            l = ch.listing(s, st, r); return None if l is None else tuple(x.name if isinstance(x, VLazy) else None for x in l)
        def process(st, a, rty): s.ev(st, 'process', s.leaf(st, a[1]), trackers(st, a[2]), None); return VAgg(rty, 0, ())
        def extend(st, a, rty): s.ev(st, 'process', s.leaf(st, a[3]), trackers(st, a[2]), s.leaf(st, a[4])); return VAgg(rty, 0, ())
        def collect(st, a, rty):
            gather(st, [a[0], a[2]], rty); st.events = st.events[:-1] + (st.events[-1] + (s.leaf(st, a[3]),),); return VAgg(rty, 0, ())
        def refine(st, a, rty):
            turn(st, 'finalizer', True)
            v = s.val(rty, s.fresh('final', 1, (1 << 23) - 1)); s.ev(st, 'refine', s.leaf(st, a[1]), s.leaf(st, a[2]), s.leaf(st, a[3]), view(s, st, a[4]), s.leaf(st, v)); return v
        def fupdate(st, a, rty):
            turn(st, 'finalizer', False)
            s.ev(st, 'finalize', s.leaf(st, a[1]), s.leaf(st, a[2]), view(s, st, a[3])); return VAgg(rty, 0, ())
        def stat(st, a, rty):
            s.ev(st, 'stat', s.leaf(st, a[1]), snap(s, st, a[2]), s.leaf(st, a[3])); return VAgg(rty, 0, ())
        def mark(name):
            def f(st, a, rty): s.ev(st, name); return VAgg(rty, 0, ())
            return f
        tree = '<history::tree::TreeHistorySource'
        table = {ch.CH + '::new': lazy_new, ch.CH + '::predict': cpredict, ch.CH + '::update': cupdate, FZ + 'new': lazy_new, FZ + 'refine': refine, FZ + 'update': fupdate,
                 "predictor::stats::PredictionStatistics::<'a>::new": lazy_new, "predictor::stats::PredictionStatistics::<'a>::start_new_byte": mark('stat-byte'),
                 "predictor::stats::PredictionStatistics::<'a>::on_next_bit": stat}
        T = "history::tree::Tree::<'a>::"; A = 'history::tree::context::ActiveContexts::'
        inner = {T + 'new': lazy_new, T + 'start_new_byte': mark('tree-byte'), T + 'gather_states': collect, T + 'extend': extend, A + 'new': lazy_new, A + 'shift': mark('shift'), A + 'max_order': lambda st, a, rty: Sym('max_order', 0, 1000),
                 'history::tree::nodes::Nodes::new': lazy_new}
        s.inner = all(s.fn(k, opt=True) for k in inner)
        if s.inner: table.update({k: v for k, v in inner.items() if v})
        else:
          for i in s.p.inst.values():
            if i['path'].startswith(tree):
                n = i['path'].rsplit('::', 1)[1]
                f = {'new': lazy_new, 'gather_history_states': gather, 'process_input_bit': process, 'start_new_byte': mark('tree-byte')}.get(n)
                if f: table[i['path']] = f
        s.summary(table)

def predictor(prog, rep, tier):
    an = Pipe(prog, rep); an.parts()
    new, snb, pre, upd = [an.fn(PR + n) for n in ('new', 'start_new_byte', 'predict', 'update')]
    luts = an.obj(None, None, 'luts', ty=an.argty(new, 0))
    made = [(o.st, o.value) for o in an.run(new, [luts], State(an.ctx)) if o.kind == 'ret']
    if len(made) != 1: raise Undecided('construction of the predictor')
    for kinds in ('', 'NE', 'N' * 8 + 'E' * 13) + (('NNN', 'E', 'N' * 20, 'E' * 21, 'NNNN', 'EEEEE') if tier == 'thorough' else ()):
        base, val = made[0]; base = base.clone(); base.events = ()
        tmp, cref, an.items = ch.items_of(an, '', base.clone()); an.none = snap(an, tmp, cref)
        tmp, cref, an.items = ch.items_of(an, kinds, base.clone())
        st = base; me = an.cell(st, val)
        def at_rest(st): return an.run(upd, [me, an.bit(0)], st.clone())
        an.ob_refuses('predictor/update-first', 'an update without a prediction is refused', upd, at_rest(st))
        an.ob_refuses('predictor/outside', 'a prediction outside a byte is refused', pre, an.run(pre, [me], st.clone()))
        cur = [st]; hist = []
        for byte in range(2):
            nxt = []
            for c in cur:
                n0 = len(c.events)
                for t, _ in an.call('predictor/start', snb, [me], c, 'a byte can be started after a complete one'):
                    ev = [e[0] for e in t.events[n0:]]
                    an.ob_true('predictor/start', 'starting a byte starts it in the history and the statistics once', snb, t, ev.count('tree-byte') == 1 and ev.count('stat-byte') == 1 and (not an.inner or ev.count('shift') == 1 and ev.index('tree-byte') < ev.index('shift')))
                    an.ob_refuses('predictor/start-twice', 'starting a byte inside a byte is refused', snb, an.run(snb, [me], t.clone()))
                    nxt.append(t)
            cur = nxt; seen = []
            for k in range(8):
                nxt = []
                bit = Sym('bit%d_%d' % (byte, k), 0, 1)
                for c in cur:
                    an.ob_refuses('predictor/update-first', 'an update without a prediction is refused', upd, at_rest(c))
                    c.events = ()
                    want = ONE
                    for b in seen: want = want * 2 + b
                    for t, v in an.call('predictor/predict', pre, [me], c, 'a prediction inside a byte never panics'):
                        ev = t.events; one = lambda name: [e for e in ev if e[0] == name]
                        g, p, r = one('gather'), one('predict'), one('refine')
                        ok = len(g) == len(p) == len(r) == 1 and [e[0] for e in ev if e[0] in ('gather', 'predict', 'refine')] == ['gather', 'predict', 'refine'] and not one('update') + one('process') + one('finalize') + one('stat')
                        an.ob_true('predictor/predict/steps', 'a prediction gathers the contexts, mixes them and refines the result, once each, and learns nothing', pre, t, ok, str([e[0] for e in ev]))
                        if not ok: continue
                        g, p, r = g[0], p[0], r[0]
                        an.ob_true('predictor/predict/fresh', 'the contexts are gathered into an empty collection', pre, t, g[1] == 0, '%s left over' % g[1])
                        if an.inner: an.ob_eq('predictor/predict/position', 'the history is asked for the contexts at the position of the next bit', pre, t, g[2], C(7 - k))
                        an.ob_eq('predictor/predict/byte', 'the mixing sees the bits of the unfinished byte', pre, t, p[2], want)
                        mixed = ip.force(t, an.ctx, p[3])
                        for f, w in ((r[1], mixed.fields[0]), (r[2], mixed.fields[1])): an.ob_eq('predictor/predict/refine', 'the result of the mixing is what is refined', pre, t, f, an.leaf(t, w))
                        an.ob_eq('predictor/predict/refine', 'the result of the mixing is what is refined', pre, t, r[3], C(len(kinds)))
                        an.ob_eq('predictor/predict/result', 'the refined probability is the prediction', pre, t, an.leaf(t, v), r[5])
                        an.ob_refuses('predictor/predict-twice', 'predicting again without an update is refused', pre, an.run(pre, [me], t.clone()))
                        an.ob_refuses('predictor/start-pending', 'starting a byte between a prediction and its update is refused', snb, an.run(snb, [me], t.clone()))
                        t.events = ()
                        for u, _ in an.call('predictor/update', upd, [me, an.bit(bit)], t, 'an update after a prediction never panics'):
                            ev = u.events; one = lambda name: [e for e in ev if e[0] == name]
                            lists = [one(x) for x in ('update', 'process', 'finalize', 'stat')]
                            ok = all(len(x) == 1 for x in lists) and not one('gather') + one('predict') + one('refine')
                            an.ob_true('predictor/update/steps', 'an update teaches the mixing, the history, the finalizer and the statistics, once each', upd, u, ok, str([e[0] for e in ev]))
                            if not ok: continue
                            cu, po, fi, sa = [x[0] for x in lists]; rl = 'every part learns the coded bit'
                            for e in (cu, po, fi, sa): an.ob_eq('predictor/update/bit', rl, upd, u, e[1], bit)
                            rl = 'every part learns with the contexts of the prediction'
                            an.ob_true('predictor/update/contexts', rl, upd, u, cu[2] == p[1] and sa[2] == p[1], 'contexts differ from the predicted ones')
                            an.ob_eq('predictor/update/contexts', rl, upd, u, fi[2], r[3])
                            for a, b in zip(fi[3], r[4]):
                                if a is not None and b is not None: an.ob_eq('predictor/update/contexts', rl, upd, u, a, b)
                                else: an.ob_true('predictor/update/contexts', rl, upd, u, (a is None) == (b is None), 'last bytes already advanced')
                            an.ob_true('predictor/update/trackers', 'the history receives the cost trackers which the mixing returned', upd, u, po[2] is not None and list(po[2]) == ['%s[]' % cu[3]] * 3 or po[2] is not None and all(x is not None and x.startswith(cu[3]) for x in po[2]) and len(po[2]) == 3, str(po[2]))
                            if an.inner: an.ob_eq('predictor/update/position', 'the history is given the bit at its position', upd, u, po[3], C(7 - k))
                            an.ob_eq('predictor/update/statistics', 'the statistics receive the probability that was predicted', upd, u, sa[3], r[5])
                            an.ob_refuses('predictor/update-twice', 'updating twice for one prediction is refused', upd, an.run(upd, [me, an.bit(0)], u.clone()))
                            nxt.append(u)
                cur = nxt; seen.append(bit)
                if not cur: return
            for c in cur: an.ob_refuses('predictor/outside', 'a prediction outside a byte is refused', pre, an.run(pre, [me], c.clone()))

def finalizer(prog, rep, tier):
    an = ch.Trace(prog, rep); new, ref_, upd = [an.fn(FZ + n) for n in ('new', 'refine', 'update')]
    by = lb.Bytes(prog, rep)
    def anew(st, a, rty):
        an.count += 1; v = VLazy(rty, 'map#%d' % an.count); an.maps[v.name] = an.leaf(st, a[0]); return v
    an.maps = {}; an.env = None
    def ident(st, r):
        v = ip.raw_load(st, an.ctx, r.cell, r.path); return v.name if isinstance(v, VLazy) else None
    def refine(st, a, rty):
        once(st, ident(st, a[0]), 'refine'); x = an.fresh('refined', 1, H31 - 1)
        if an.env: st.assume_ge0(x - an.env[0]); st.assume_ge0(an.env[1] - x)
        an.ev(st, 'refine', ident(st, a[0]), *[an.leaf(st, y) for y in a[1:4]] + [x]); return an.val(rty, x)
    def update(st, a, rty):
        once(st, ident(st, a[0]), 'update'); an.ev(st, 'update', ident(st, a[0]), an.leaf(st, a[1]), an.leaf(st, a[2])); return VAgg(rty, 0, ())
    ch.install(an)
    an.summary({AP + 'new': anew, AP + 'refine': refine, AP + 'update_predictions': update})
    luts = an.obj(None, None, 'luts', ty=an.argty(new, 0))
    made = [(o.st, o.value) for o in an.run(new, [luts], State(an.ctx)) if o.kind == 'ret']
    if len(made) != 1: raise Undecided('construction of the finalizer')
    base, val = made[0]
    def once(st, n, kind):
        l = [e[0] for e in st.events if e[0] in ('refine', 'update') and e[1] == n]
        if (bool(l) and l[-1] == 'refine') == (kind == 'refine') and ch.refuses(prog, 'map'): raise PanicExc('refused by a map')
    # a cache inside a byte, with symbolic bits
    (st, lv), = [(o.st, o.value) for o in an.run(by.fn(lb.LB + 'new'), [], base.clone())]
    lref = an.cell(st, lv); sn, on = an.fn(lb.LB + 'start_new_byte'), an.fn(lb.LB + 'on_next_bit')
    def go(f, args, st): o, = [o for o in an.it.run(f, args, bare(st)) if o.kind == 'ret']; return o.st
    bits = [Sym('p%d' % i, 0, 1) for i in range(16)]
    st = go(sn, [lref], st)
    for b in bits[:8]: st = go(on, [lref, an.bit(b)], st)
    st = go(sn, [lref], st)
    for k in range(8):
        me = an.cell(st, val); st.events = ()
        for n in (0, 1, 2, 3, 20):
            an.ob_refuses('finalizer/update-first', 'an update without a refinement is refused', upd, an.run(upd, [me, an.bit(0), C(n), lref], st.clone()))
            isq, ist = Sym('input_sq', 1, H31 - 1), Sym('input_st', -(12 << 21) + 1, (12 << 21) - 1)
            for t, v in an.call('finalizer/refine', ref_, [me, an.sq(isq), an.stv(ist), C(n), lref], st.clone(), 'a refinement inside a byte never panics'):
                rf = [e for e in t.events if e[0] == 'refine']; names = [e[1] for e in rf]; rl = 'each adaptive map refines at most once, in a context it has'
                an.ob_true('finalizer/refine/once', rl, ref_, t, len(set(names)) == len(names) and None not in names)
                for e in rf: an.ob_ge0('finalizer/refine/context', rl, ref_, t, an.maps[e[1]] - 1 - e[2]); an.ob_ge0('finalizer/refine/context', rl, ref_, t, e[2])
                for e in rf:
                    same = t.prove_eq(e[3], isq)
                    w = ist if same else an.fun('stretch', [t.norm(e[3])], -(12 << 21), 12 << 21)
                    an.ob_eq('finalizer/refine/stretched', 'a map is given a probability together with its stretched form', ref_, t, e[4], w)
                an.ob_refuses('finalizer/refine-twice', 'refining again without an update is refused', ref_, an.run(ref_, [me, an.sq(isq), an.stv(ist), C(n), lref], t.clone()))
                p = an.leaf(t, v)
                an.ob_ge0('finalizer/result', 'the final probability is strictly between zero and one', ref_, t, p - 1); an.ob_ge0('finalizer/result', 'the final probability is strictly between zero and one', ref_, t, (1 << 23) - 1 - p)
                for bit in (0, 1):
                    n0 = len(t.events)
                    for u, _ in an.call('finalizer/update', upd, [me, an.bit(bit), C(n), lref], t.clone(), 'an update after a refinement never panics'):
                        up = [e for e in u.events[n0:] if e[0] == 'update']; rl = 'exactly the maps that refined learn, each once, in the same context, from the coded bit'
                        an.ob_true('finalizer/update/once', rl, upd, u, sorted(map(str, (e[1] for e in up))) == sorted(map(str, names)), 'refined by %s, updated %s' % (names, [e[1] for e in up]))
                        ctxs = {e[1]: e[2] for e in rf}
                        an.ob_refuses('finalizer/update-twice', 'updating twice for one refinement is refused', upd, an.run(upd, [me, an.bit(bit), C(n), lref], u.clone()))
                        for e in up:
                            if e[1] in ctxs: an.ob_eq('finalizer/update/context', rl, upd, u, e[2], ctxs[e[1]])
                            an.ob_eq('finalizer/update/bit', rl, upd, u, e[3], C(bit))
        if k in (0, 5):
            me = an.cell(st, val); c = st.clone(); an.env = (Sym('lowest', 1, H31 - 1), Sym('highest', 1, H31 - 1)); isq = Sym('input_sq', 1, H31 - 1)
            c.assume_ge0(isq - an.env[0]); c.assume_ge0(an.env[1] - isq)
            rm = 'every value given to a map lies between the lowest and the highest of the mixed and the refined ones, up to rounding'
            rl = 'the final probability lies between the lowest and the highest of the mixed and the refined ones, up to rounding'
            for t, v in an.call('finalizer/refine', ref_, [me, an.sq(isq), an.stv(Sym('input_st', -(12 << 21) + 1, (12 << 21) - 1)), C(4), lref], c, 'a refinement inside a byte never panics'):
                p = an.leaf(t, v) * 256
                an.ob_ge0('finalizer/between', rl, ref_, t, p - an.env[0] + 256); an.ob_ge0('finalizer/between', rl, ref_, t, an.env[1] + 256 - p)
                for e in t.events:
                    if e[0] == 'refine': an.ob_ge0('finalizer/refine/between', rm, ref_, t, e[3] - an.env[0] + 1); an.ob_ge0('finalizer/refine/between', rm, ref_, t, an.env[1] + 1 - e[3])
            an.env = None
        st = go(on, [lref, an.bit(bits[8 + k])], st)
