"""C18: one step of the history tree."""
from harness import *
from interp import decide_ge0, decide_eq0
from states import *
import states, pool, window, chain
from window import norm_ring
HS = 'history::tree::TreeHistorySource'; AC = 'history::tree::context::ActiveContexts'; CX = 'history::tree::context::Context'; ST = 'history::tree::TreeState'
M31 = (1 << 31) - 1

class Tree(Hist):
    plain = False; number = 0      # plain: nodes hold numbers of their own instead of symbols (for trees of many nodes)
    def __init__(s, prog, rep):
        Hist.__init__(s, prog, rep); s.win = window.Win(prog, rep); s.win.ctx = s.ctx; s.win.it = s.it
        s.wi = s.adt(pool.WI)['id']; s.ni = s.adt(pool.NI)['id']; s.nc = s.adt(pool.NC)['id']
        s.fnew = s.fn(HS + "::<'a>::new_special"); s.fstart, s.fgather, s.fbit = [s.fn("<%s<'a> as history::HistorySource<'a>>::%s" % (HS, n)) for n in ('start_new_byte', 'gather_history_states', 'process_input_bit')]
        s.mkchildren = s.fn('history::tree::node_child::NodeChildren::new'); s.fchild = s.fn(NO + '::child')
        s.tow, s.ton = pool.conv(s, pool.WI, pool.NC), pool.conv(s, pool.NI, pool.NC)
        s.index = [i for i in prog.inst.values() if i['body'] and i['path'].startswith('<%s as std::ops::Index<' % pool.ND)][0]
        s.dirs = {}
        for b in (0, 1): s.dirs[b] = s.one(pool.conv(s, 'bit::Bit', pool.DI), [s.bit(b)], State(s.ctx))[1]
    def leafref(s, st, p): return s.one(s.tow, [s.val(s.wi, p)], st)
    def noderef(s, st, i): return s.one(s.ton, [s.val(s.ni, C(i))], st)
    def mknode(s, st, tag, depth, kids, start=None):
        """(state, node, what it holds); kids: an int is a node, anything else a window position"""
        d = dict(depth=depth, left_count=Sym('left' + tag, 0, MAXC), right_count=Sym('right' + tag, 0, MAXC), probability_estimator=s.estimator(tag), recent_bits=s.recent(tag), bits_runs=s.runs(tag),
                 cost_trackers=s.trackers(tag), text_start=start if start is not None else Sym('text' + tag, 0, M31), kids=list(kids))
        if s.plain: s.number += 1; q = s.number; d.update(left_count=C(100 + q), right_count=C(300 + q), recent_bits=s.val(s.adt(RBN)['id'], C(64 + q)), bits_runs=s.val(s.adt(BRN)['id'], C(q % 2 + (20 + q) * 2 + q * (1 << 11))))
        refs = []
        for k in kids:
            st, r = s.noderef(st, k) if isinstance(k, int) else s.leafref(st, k); refs.append(r)
        st, ch = s.one(s.mkchildren, [VSeq(s.nc, C(2), ('t', tuple(refs)))], st)
        new = s.fn(NO + '::new')
        st, v = s.one(new, [s.val(s.wi, d['text_start']), d['probability_estimator'], depth, d['cost_trackers'], d['bits_runs'], d['left_count'], d['right_count'], d['recent_bits'], ch], st)
        return st, v, d
    def put(s, v, path, x):
        if not path: return x
        v = ip.force(None, s.ctx, v) if isinstance(v, VLazy) else v
        t = s.p.ty[v.ty]; names = [f[0] for f in t['variants'][v.variant]['fields']]
        if path[0] not in names: raise Missing('field %s of %s' % (path[0], t['name']))
        i = names.index(path[0]); fs = list(v.fields); fs[i] = s.put(fs[i], path[1:], x)
        return VAgg(v.ty, v.variant, tuple(fs))
    def context(s, st, suffix, node, visits, in_leaf, direction):
        t = s.adt(CX); d = {'suffix_index': s.val(s.wi, suffix), 'node_index': s.val(s.ni, C(node)), 'incoming_edge_visits_count': visits, 'in_leaf': C(in_leaf)}
        fs = []
        for n, ty in [(f[0], f[1]) for f in t['variants'][0]['fields']]:
            if n == 'direction_from_parent':
                vs = {x['name']: k for k, x in enumerate(s.p.ty[ty]['variants'])}
                fs.append(VAgg(ty, vs['None'], ()) if direction is None else VAgg(ty, vs['Some'], (s.dirs[direction],)))
            elif n in d: fs.append(d[n])
            else: raise Missing('field of a context')
        return VAgg(t['id'], 0, tuple(fs))
    def source(s, st, wref, mx, nodes, proper, order, ctxs, bit_index):
        """a history source in the given state"""
        st, v = s.one(s.fnew, [mx, C(order), ZERO, s.luts()], st)
        nn, add, upd = [s.fn(pool.ND + '::' + n) for n in ('new', 'add_node', 'update_node')]
        if nodes:
            pr = s.cell(st, s.getf(st, s.getf(st, v, 'tree'), 'nodes'))
            for i, n in enumerate(nodes):
                if i == 0: st, _ = s.one(upd, [pr, s.val(s.ni, ZERO), n], st)
                else: st, _ = s.one(add, [pr, n], st)
            v = s.put(v, ['tree', 'nodes'], st.mem[pr.cell])
        v = s.put(v, ['tree', 'window'], ip.load(st, s.ctx, wref.cell, wref.path))
        states_ = {x['name']: k for k, x in enumerate(s.adt(ST)['variants'])}
        v = s.put(v, ['tree', 'tree_state'], VAgg(s.adt(ST)['id'], states_['Proper' if proper else 'Degenerate'], ()))
        items = ip.force(st, s.ctx, s.getf(st, s.getf(st, v, 'active_contexts'), 'items'))
        v = s.put(v, ['active_contexts', 'items'], VVec(VSeq(items.seq.ety, C(len(ctxs)), ('t', tuple(ctxs))), items.cap))
        v = s.put(v, ['bit_index'], C(bit_index))
        return st, s.cell(st, v)
    # -- looking at the result
    def sub(s, st, me, *names):
        v = ip.load(st, s.ctx, me.cell, me.path); path = list(me.path)
        for n in names:
            v = ip.force(st, s.ctx, v); k = [f[0] for f in s.p.ty[v.ty]['variants'][0]['fields']].index(n); path.append(('f', k)); v = v.fields[k]
        return VRef(me.cell, tuple(path))
    def sub_value(s, st, me, *names): r = s.sub(st, me, *names); return ip.load(st, s.ctx, r.cell, r.path)
    def contexts(s, st, me): return chain.listing(s, st, s.sub(st, me, 'active_contexts', 'items'))
    def slot(s, st, me, i):
        st, r = s.one(s.index, [s.sub(st, me, 'tree', 'nodes'), s.val(s.ni, C(i))], st); return st, r
    def check_node(s, key, rule, f, st, me, i, d):
        """the node in slot i holds d; returns the slots its node children are in"""
        outs = s.it.run(s.index, [s.sub(st, me, 'tree', 'nodes'), s.val(s.ni, C(i))], bare(st))
        if outs and all(o.kind == 'panic' for o in outs): s.ob_true(key, rule, f, st, False, 'there is no node where one belongs')
        st, r = s.slot(st, me, i); below = []
        for n in GET:
            g = s.fn(NO + '::' + n, opt=True)
            if g is None: 
                v = s.get(st, r, n)
            else: st, v = s.one(g, [r], st)
            if n == 'text_start': v = s.leaf(st, v)
            s.equal(key + '/' + n, rule, f, st, v, d[n])
        for b in (0, 1):
            st, c = s.one(s.fchild, [r, s.dirs[b]], st); below.append(s.check_ref(key + '/children', rule, f, st, c, d['kids'][b]))
        return below
    def check_ref(s, key, rule, f, st, c, want):
        """a child reference: an int names a slot, None any node slot (returned), anything else a window position"""
        if want is None:
            st, k = s.one(s.fn(pool.NC + '::is_node_index'), [s.cell(st, c)], st)
            if not s.ob_eq(key, rule, f, st, s.leaf(st, k), ONE): return None
            st, i = s.one(s.fn(pool.NC + '::to_node_index'), [s.cell(st, c)], st); return st.cst(s.leaf(st, i))
        st, w = s.noderef(st, want) if isinstance(want, int) else s.leafref(st, want)
        s.equal(key, rule, f, st, c, w)
    def check_context(s, key, rule, f, st, got, want):
        s.equal(key, rule, f, st, got, want)
    def ring(s, lo=1, flat=False):
        """windows with at least lo bytes: (state, reference, start, size, cursor, maximum)"""
        for label, st, ref, start, size, cursor, mx in window.states(s.win, lo):
            if label != 'full': continue
            if not (st.assume_ge0(C(1 << 28) - mx) and st.note_ge0(C(1 << 28) - start) and st.note_ge0(C(1 << 28) - size) and st.assume_ge0(mx - max(12, lo * 2))): continue
            if flat and not st.assume_eq0(start): continue
            yield st, ref, start, size, cursor, mx
    def at(s, st, start, mx, age):
        """(state, position of the byte of that age)"""
        return s.spec(st, lambda u: norm_ring(u, start + age, mx))
    def poke(s, st, wref, idx, digits):
        """the byte at that position consists of the given bits"""
        o = ip.load(st, s.ctx, wref.cell, wref.path); k = next(k for k, x in enumerate(o.fields) if isinstance(x, VVec)); l = list(o.fields)
        l[k] = VVec(ip.seq_write(st, s.ctx, l[k].seq, idx, sum((d * (1 << q) for q, d in enumerate(digits)), ZERO)), l[k].cap)
        ip.store(st, s.ctx, wref.cell, wref.path, VAgg(o.ty, o.variant, tuple(l)))
    def bit_at(s, st, wref, p, k):
        seq = next(x.seq for x in ip.load(st, s.ctx, wref.cell, wref.path).fields if isinstance(x, VVec))
        return st, s.bit(st.mod(st.fdiv(s.leaf(st, ip.seq_read(st, s.ctx, seq, p)), 1 << k), 2))

def gathering(prog, rep, tier, bits=None):
    an = Tree(prog, rep); f = an.fgather; rl_n = 'at a node the context is the node: its distance, estimator, recent bits, runs and cost trackers'
    rl_e = 'inside an edge the context is the number of passages over the edge, its distance and the bit which followed'
    new = an.fn(CC + '::new')
    for bi in bits or range(8):
        for kinds in ('', 'N', 'E', '0', 'NN', 'NE', 'EE') + (('N' * 60 + 'E' * 4,) if bi == 4 else ()) + (('NNE', 'NEE', 'NNN', 'EEE', 'N' * 64, 'N' * 33 + 'E' * 31) if tier == 'thorough' else ()):
            for st, w, start, size, cursor, mx in an.ring(len(kinds) + 2, len(kinds) > 3):
                cur = [(st, [], [], [])]
                for o, k in enumerate(kinds):
                    nxt = []
                    age = Sym('age%d' % o, 0, 1 << 40); visits = ZERO if k == '0' else Sym('visits%d' % o, 1, MAXC)
                    for s, nodes, ctxs, want in cur:
                        if not s.assume_ge0(size - 2 - o - age): continue
                        for t, p in an.at(s, start, mx, age):
                            depth = C(o * 8 + 7 - bi)
                            if k != 'N': depth = depth - 1 - Sym('gap%d' % o, 0, 6) if o * 8 + 7 - bi > 7 else depth + 1 + Sym('gap%d' % o, 0, 600)
                            t, n, d = an.mknode(t, str(o), depth, [Sym('kid%d.0' % o, 0, M31), Sym('kid%d.1' % o, 0, M31)])
                            c = an.context(t, p, o, visits, 0, None)
                            nxt.append((t, nodes + [n], ctxs + [c], want + [(k, o, age, visits, d)]))
                    cur = nxt
                for s, nodes, ctxs, want in cur:
                    if not nodes: s, n, _ = an.mknode(s, 'root', C(20), [Sym('kid.0', 0, M31), Sym('kid.1', 0, M31)]); nodes = [n]
                    s, me = an.source(s, w, mx, nodes, True, max(5, len(kinds)), ctxs, bi); s, cv = an.one(new, [C(max(5, len(kinds)))], s); out = an.cell(s, cv)
                    for t, _ in an.call('gather', f, [me, out], s.clone(), 'gathering the contexts never panics'):
                        got = chain.listing(an, t, VRef(out.cell, (('f', 0),)))
                        exp = [x for x in want if x[0] != '0']
                        an.ob_true('gather/count', 'one state is gathered per active context, lowest order first', f, t, got is not None and len(got) == len(exp), 'contexts %s' % kinds)
                        for g, (k, o, age, visits, d) in zip(got or [], exp):
                            dist = size - 1 - o - age
                            if k == 'N': an.equal('gather/node', rl_n, f, t, g, an.node(dist, d['probability_estimator'], d['recent_bits'], d['bits_runs'], d['cost_trackers']))
                            else:
                                for u, q in an.at(t, start, mx, age + o):
                                    u, b = an.bit_at(u, w, q, bi)
                                    an.equal('gather/edge', rl_e, f, u, g, an.state('ForEdge', {'last_occurrence_distance': dist, 'occurrence_count': visits, 'repeated_bit': b}))
        for order in (0, 1, 2) + ((63,) if bi == 4 else ()):
            for st, w, start, size, cursor, mx in an.ring(1, True) if order == 63 else an.ring(1):
                st, me = an.source(st, w, mx, [], False, order, [], bi); st, cv = an.one(new, [C(max(5, order))], st); out = an.cell(st, cv)
                for t, _ in an.call('gather/degenerate', f, [me, out], st.clone(), 'gathering the contexts never panics'):
                    got = chain.listing(an, t, VRef(out.cell, (('f', 0),))); rl = 'while all bytes agree every order that fits is an edge repeating the same byte at distance one'
                    for u, n in an.spec(t, lambda u: C(order + 1) if decide_ge0(u, size - 1 - order - 1) else size - 1):
                        an.ob_eq('gather/degenerate', rl, f, u, C(len(got)), n)
                        for o, g in enumerate(got):
                            for x, c in an.spec(u, lambda q: C(MAXC) if decide_ge0(q, size - o - 1 - MAXC) else size - o - 1):
                                x, b = an.bit_at(x, w, start, bi)
                                an.equal('gather/degenerate', rl, f, x, g, an.state('ForEdge', {'last_occurrence_distance': ONE, 'occurrence_count': c, 'repeated_bit': b}))
    for st, w, start, size, cursor, mx in an.ring(1):
        st, me = an.source(st, w, mx, [], False, 1, [], -1); st, cv = an.one(new, [C(5)], st)
        an.ob_refuses('gather/outside', 'contexts cannot be gathered between bytes', f, an.run(f, [me, an.cell(st, cv)], st)); break

# ---------------------------------------------------------------- a reference model over the same terms
class Model:
    """slots hold records (see mknode), contexts are dicts; new slots are labelled ('new', k)"""
    def __init__(m, recs, ctxs): m.recs = {i: dict(r, kids=list(r['kids'])) for i, r in recs.items()}; m.ctxs = [dict(c) for c in ctxs]; m.fresh = 0; m.gone = set(); m.proper = True
    def clone(m): c = Model(m.recs, m.ctxs); c.fresh = m.fresh; c.gone = set(m.gone); c.proper = m.proper; return c
    def new(m, rec): m.fresh += 1; k = ('new', m.fresh); m.recs[k] = rec; return k
def isnode(k): return isinstance(k, (int, tuple))
def ctx(suffix, node, visits, in_leaf, direction): return dict(suffix=suffix, node=node, visits=visits, in_leaf=in_leaf, direction=direction)

def branch(an, st, b, visits, depth, start, same, other):
    """(state, record) of a node made when bit b first follows `visits` passages"""
    st, est, rb, br, ct = fresh_node(an, st, b, visits)
    kids = [None, None]; kids[b] = same; kids[1 - b] = other
    d = dict(depth=depth, probability_estimator=est, recent_bits=rb, bits_runs=br, cost_trackers=ct, text_start=start, kids=kids)
    d['left_count'], d['right_count'] = (ONE, visits) if b == 0 else (visits, ONE)
    return st, d

def extended(an, st, m, b, bi, trackers, here, differs):
    """the model after bit b; here(o): position of the current suffix of order o. Returns (state, model) pairs"""
    cur = [(st, m)]
    for o in reversed(range(len(m.ctxs))):
        nxt = []
        for s, m in cur:
            m = m.clone(); c = m.ctxs[o]
            if c['in_leaf']:
                k = m.recs[c['node']]['kids'][c['direction']]
                if isnode(k): c['in_leaf'] = 0; c['node'] = k
            r = m.recs[c['node']]; depth = C(o * 8 + 7 - bi)
            if s.prove_eq(r['depth'], depth):
                old = r['kids'][b]; c['visits'] = (r['left_count'], r['right_count'])[b]; c['direction'] = b
                if isnode(old): c['node'] = old; c['suffix'] = m.recs[old]['text_start']; m.recs[old]['text_start'] = here(o)
                else: c['in_leaf'] = 1; c['suffix'] = old; r['kids'][b] = here(o)
                name = ('left_count', 'right_count')[b]; n = r[name]; r['cost_trackers'] = trackers[o]
                for u, e, x, y in stepped(an, s, b, r['probability_estimator'], r['recent_bits'], r['bits_runs']):
                    for z, k in an.spec(u, lambda q: n + 1 if decide_ge0(q, C(MAXC - 1) - n) else C(MAXC)):
                        w = m.clone(); slot = next(i for i, q in m.recs.items() if q is r); w.recs[slot].update(probability_estimator=e, recent_bits=x, bits_runs=y); w.recs[slot][name] = k; nxt.append((z, w))
            elif differs[o]:
                if c['in_leaf']:
                    leaf = r['kids'][c['direction']]; s, d = branch(an, s, b, c['visits'], depth, leaf, here(o), c['suffix'])
                    r['kids'][c['direction']] = m.new(d)
                else:
                    low = dict(r, kids=list(r['kids']), text_start=c['suffix']); k = m.new(low)
                    s, d = branch(an, s, b, c['visits'], depth, r['text_start'], here(o), k); m.recs[c['node']] = d
                m.ctxs = m.ctxs[:o]; nxt.append((s, m))
            else: nxt.append((s, m))
        cur = nxt
    return cur

def conform(an, key, rule, f, st, me, m):
    """the tree and the contexts in the abstract state are those of the model"""
    slot = {i: i for i in m.recs if isinstance(i, int)}; todo = sorted(slot); done = set()
    while todo:
        i = todo.pop(0)
        if i in done or i in m.gone: continue
        done.add(i); r = m.recs[i]
        want = dict(r, kids=[None if isinstance(k, tuple) and k not in slot else slot.get(k, k) if isnode(k) else k for k in r['kids']])
        got = an.check_node(key, rule, f, st, me, slot[i], want)
        for k, g in zip(r['kids'], got):
            if isinstance(k, tuple):
                if g is None and k not in slot: return
                if k not in slot:
                    an.ob_true(key + '/slots', 'a new node takes a slot of its own', f, st, g not in slot.values(), 'slot %s is in use' % g); slot[k] = g
                todo.append(k)
    items = an.contexts(st, me); rl = 'the active contexts are those whose history goes on, lowest order first'
    an.ob_true(key + '/active', rl, f, st, items is not None and len(items) == len(m.ctxs), '%s contexts, %d expected' % (items and len(items), len(m.ctxs)))
    for g, c in zip(items or [], m.ctxs):
        n = slot.get(c['node'])
        if n is None: raise Undecided('slot of a context')
        an.equal(key + '/context', rule, f, st, g, an.context(st, c['suffix'], n, c['visits'], c['in_leaf'], c['direction']))
    st, live = an.one(an.fn(pool.ND + '::live_nodes_count'), [an.sub(st, me, 'tree', 'nodes')], st)
    an.ob_eq(key + '/live', 'the number of nodes is that of the tree', f, st, an.leaf(st, live), C(len(set(m.recs) - m.gone) if m.proper else 0))

def slices(an, st, vals, f, i):
    t = f['body']['locals'][i + 1]; e = an.p.ty[an.p.ty[t]['of']]['of']
    return VRef(an.cell(st, VSeq(e, C(len(vals)), ('t', tuple(vals)))).cell, (), (ZERO, C(len(vals))))

def patterns(an, st, kinds, bi, ages, place, tier):
    """records and contexts for a pattern: N at a node with leaf children, M at a node with node children, I in an inner edge, L in a leaf edge, C in what was a leaf edge, S in the leaf edge of the root"""
    recs = {}; ctxs = []; extra = len(kinds)
    for o, k in enumerate(kinds):
        depth = C(o * 8 + 7 - bi); leaf = lambda j: Sym('leaf%d.%d' % (o, j), 0, M31); p = place[o]; d0 = o % 2
        visits = Sym('visits%d' % o, 16, 999)
        if k == 'N': recs[o] = dict(depth=depth, kids=[leaf(0), leaf(1)]); ctxs.append(ctx(p, o, visits, 0, None))
        elif k == 'M':
            recs[o] = dict(depth=depth, kids=[extra, extra + 1]); ctxs.append(ctx(p, o, visits, 0, 1 - d0))
            for j in (0, 1): recs[extra + j] = dict(depth=depth + 1 + Sym('below%d.%d' % (o, j), 0, 500), kids=[Sym('leaf%d.%d.%d' % (o, j, q), 0, M31) for q in (0, 1)])
            extra += 2
        elif k == 'I': recs[o] = dict(depth=depth + 1 + Sym('gap%d' % o, 0, 500), kids=[leaf(0), leaf(1)]); ctxs.append(ctx(p, o, visits, 0, d0))
        elif k == 'L': recs[o] = dict(depth=depth - 1 - Sym('gap%d' % o, 0, min(6, o * 8 + 7 - bi - 1)), kids=[leaf(0), leaf(1)]); ctxs.append(ctx(p, o, visits, 1, d0))
        elif k == 'C':
            kids = [leaf(0), leaf(1)]; kids[d0] = extra
            recs[o] = dict(depth=depth - 1 - Sym('gap%d' % o, 0, min(6, o * 8 + 7 - bi - 1)), kids=kids); ctxs.append(ctx(p, o, visits, 1, d0))
            recs[extra] = dict(depth=depth if bi % 2 else depth + 1 + Sym('below%d' % o, 0, 500), kids=[Sym('leaf%d.0.%d' % (o, q), 0, M31) for q in (0, 1)]); extra += 1
        elif k == 'S': ctxs.append(ctx(p, 0, visits, 1, 0))
    return recs, ctxs

def build(an, st, recs):
    """(state, nodes, full records)"""
    nodes = {}; out = {}
    for i in sorted(recs):
        st, n, d = an.mknode(st, str(i), recs[i]['depth'], recs[i]['kids']); nodes[i] = n; out[i] = d
    return st, [nodes[i] for i in sorted(nodes)], out

def extending(prog, rep, tier, bits=None):
    an = Tree(prog, rep); f = an.fbit; rl = 'a bit is recorded in exactly the contexts it occurred in'
    pats = ['N', 'M', 'I', 'L', 'C', 'NL', 'IL', 'LS'] + ['NM', 'MI', 'LL', 'NN', 'SS', 'IC'] * (tier == 'thorough')
    long = ['N' * 64, 'N' * 34 + 'I' * 3, 'N' * 34 + 'L' * 2, 'N' * 3 + 'I' * 2] + ['N' * 20 + 'I' * 20] * (tier == 'thorough')
    for bi in bits or ((6, 1, 0) if tier != 'thorough' else (6, 5, 3, 1, 0)):
        for kinds in pats + (long if bi == 1 else []):
            if kinds == 'LS': kinds = 'SS'
            if kinds == 'IC' and bi % 2: continue     # a context is at a node only if all shorter ones are
            for wst, w, start, size, cursor, mx in an.ring(len(kinds) + 2 if len(kinds) <= 3 else 3 * len(kinds) + 9, len(kinds) > 3):
                an.plain = len(kinds) > 3
                edges = [o for o, k in enumerate(kinds) if k not in 'NM' and not (k == 'C' and bi % 2)]
                for b in (0, 1):
                    for nd in range(len(edges) + 1):
                        st = wst.clone(); place = []; ok = True
                        ages = [Sym('age%d' % o, 0, 1 << 40) for o in range(len(kinds))]
                        if an.plain:
                            ages = [ZERO] * len(kinds)
                            for o in reversed(range(1, len(kinds))): ages[o - 1] = ages[o] + (1 if o in edges and o - 1 in edges and (o in edges[len(edges) - nd:]) == (o - 1 in edges[len(edges) - nd:]) else 2)
                        for o in range(len(kinds)): ok = ok and st.assume_ge0(size - 2 - o - ages[o])
                        if not ok: continue
                        differs = {o: o in edges[len(edges) - nd:] for o in range(len(kinds))}
                        follows = {}            # edges followed by the same bit share the place they were last seen at, others are older the longer the context
                        for o in range(1, len(kinds)):
                            same = o in edges and o - 1 in edges and differs[o] == differs[o - 1]
                            ok = ok and (st.assume_eq0(ages[o] + 1 - ages[o - 1]) if same else st.assume_ge0(ages[o - 1] - 2 - ages[o]))
                            follows[o] = follows.get(o - 1, o - 1) if same else o
                        if not ok: continue
                        def where(u): return [norm_ring(u, start + a, mx) for a in ages], [norm_ring(u, start + a + o, mx) for o, a in enumerate(ages)], [norm_ring(u, start + size - 1 - o, mx) for o in range(len(kinds))]
                        for s, (place, follow, now) in an.spec(st, where):
                            ok = all(s.note_ge0(p) for p in place + follow + now)
                            if not ok: continue
                            for o in range(len(kinds)):
                                if o in follows and follows[o] != o: continue
                                dg = [Sym('f%d.%d' % (o, k), 0, 1) for k in range(8)]
                                if o in edges: dg[bi] = C(1 - b if differs[o] else b)
                                an.poke(s, w, follow[o], dg)
                            dg = [Sym('c.%d' % k, 0, 1) for k in range(8)]; an.poke(s, w, cursor, dg); dg[bi] = C(b)
                            recs, ctxs = patterns(an, s, kinds, bi, ages, place, tier)
                            if kinds == 'SS': recs = {0: dict(depth=C(7 - bi - 1), kids=[Sym('leaf.0', 0, M31), Sym('leaf.1', 0, M31)])}
                            s, nodes, recs = build(an, s, recs)
                            cv = [an.context(s, c['suffix'], c['node'], c['visits'], c['in_leaf'], c['direction']) for c in ctxs]
                            s, me = an.source(s, w, mx, nodes, True, max(5, len(kinds)), cv, bi)
                            trackers = [an.trackers('-new%d' % o) for o in range(len(kinds) - len(edges))]
                            key = 'extend/' + {'N': 'node', 'M': 'node', 'I': 'inner-edge', 'L': 'leaf-edge', 'C': 'split-leaf', 'S': 'shared-edge'}[kinds[-1]]
                            for t, _ in an.call(key, f, [me, an.bit(b), slices(an, s, trackers, f, 2)], s, 'recording a bit never panics'):
                                for u, m in extended(an, t, Model(recs, ctxs), b, bi, trackers, lambda o: now[o], differs):
                                    conform(an, key, rl, f, u, me, m)
                                wr = an.sub(t, me, 'tree', 'window')
                                window.check(an.win, 'extend/window', 'recording a bit does not move the window', f, t.clone(), wr, [start, cursor, size, mx])
                                for z, y in an.win.byte(bareof(t), wr, cursor):
                                    an.ob_eq('extend/window', 'the bit is set in the byte at the cursor', f, z, y, sum((d * (1 << k) for k, d in enumerate(dg)), ZERO))
                                an.ob_eq('extend/position', 'the next bit is the next lower one', f, t, an.leaf(t, an.sub_value(t, me, 'bit_index')), C(bi - 1))
def bareof(st):
    c = st.clone(); c.stack = (); return c

def branching(prog, rep, tier, bits=None):
    """the first byte that differs from all others"""
    an = Tree(prog, rep); f = an.fbit
    sizes = [1, 2, 3, 5] if tier != 'thorough' else [1, 2, 3, 4, 5, 9, 15, 16]
    for bi in bits or ((7, 2, 0) if tier != 'thorough' else range(8)):
        for order in ((0, 1, 3) if tier != 'thorough' else (0, 1, 2, 3)) + ((63,) if bi == 2 else ()):
            for wst, w, start, size, cursor, mx in an.ring(1, True) if order == 63 else an.ring(1):
                for sz in sizes + [(20, 900), (1100, 100000)] if order != 63 else [2, (200, 900), (1100, 100000)]:
                    base = wst.clone()
                    if isinstance(sz, tuple): ok = base.assume_ge0(size - sz[0]) and base.assume_ge0(C(sz[1]) - size)
                    else: ok = base.assume_eq0(size - sz)
                    if not ok: continue
                    small = sz if not isinstance(sz, tuple) else 99
                    top = min(order, small - 2)
                    def where(u): return [norm_ring(u, start + size - 1 - o, mx) for o in range(min(top + 2, small))]
                    for s0, now in an.spec(base, where):
                        if not all(s0.note_ge0(p) for p in now): continue
                        for b in (0, 1):
                            for differs in (0, 1):
                                s = s0.clone(); an.poke(s, w, cursor, [Sym('c.%d' % k, 0, 1) for k in range(8)])
                                if small > 1:
                                    dg = [Sym('f.%d' % k, 0, 1) for k in range(8)]; dg[bi] = C(1 - b if differs else b); an.poke(s, w, now[1], dg)
                                elif differs: continue
                                s, me = an.source(s, w, mx, [], False, order, [], bi)
                                for t, _ in an.call('branch', f, [me, an.bit(b), slices(an, s, [], f, 2)], s, 'recording a bit never panics'):
                                    m = Model({}, [])
                                    key = 'branch'
                                    rl = 'the first bit to differ makes one node per order that fits, each branching between the repeated suffix and the new one, counting the repetitions (up to 1000)'
                                    an.ob_eq('branch/position', 'the next bit is the next lower one', f, t, an.leaf(t, an.sub_value(t, me, 'bit_index')), C(bi - 1))
                                    if not differs:
                                        an.ob_true('branch/repeated', 'while all bytes agree nothing is added to the tree', f, t, not deg(an, t, me) is False and an.contexts(t, me) == []); continue
                                    an.ob_true('branch/proper', 'the first bit to differ makes the tree proper', f, t, deg(an, t, me) is False)
                                    cur = [(t, below_none())]
                                    nxt = []
                                    def chain_(u, o):
                                        """model records for orders top..o"""
                                        out = [(u, {}, None)]
                                        for q in range(top, o - 1, -1):
                                            step = []
                                            for v, recs, below in out:
                                                for x, n in an.spec(v, lambda z: size - 1 - q if decide_ge0(z, C(MAXC) - (size - 1 - q)) else C(MAXC)):
                                                    x, d = branch(an, x, b, n, C(q * 8 + 7 - bi), now[q], now[q], now[q + 1] if below is None else below)
                                                    r = dict(recs); k = 0 if q == 0 else ('new', q); r[k] = d; step.append((x, r, k))
                                            out = step
                                        return out
                                    for u, recs, _ in chain_(t, 0):
                                        m = Model(recs, []); conform(an, key, rl, f, u, me, m)
def below_none(): return None
def deg(an, st, me):
    v = ip.force(st, an.ctx, an.sub_value(st, me, 'tree', 'tree_state')); t = an.adt(ST)
    d = an.leaf(st, v); c = st.cst(d); k = next(int(x['discr']) for x in t['variants'] if x['name'] == 'Degenerate')
    return None if c is None else c == k

def removed(an, st, m, path, oldest):
    """the model after the oldest suffix is removed; path: the directions its bytes take from the root"""
    m = m.clone(); node = 0; parent = None; k = 0
    while isnode(m.recs[node]['kids'][path[k]]): parent = (node, path[k]); node = m.recs[node]['kids'][path[k]]; k += 1
    d = path[k]; leaf, sib = m.recs[node]['kids'][d], m.recs[node]['kids'][1 - d]
    if not st.prove_eq(leaf, oldest):
        while m.ctxs and st.prove_eq(m.ctxs[-1]['suffix'], oldest): m.ctxs.pop()
        return m
    if node == 0:
        if isnode(sib):
            for c in m.ctxs:
                if c['node'] == sib: c['node'] = 0
            m.recs[0] = dict(m.recs[sib], text_start=m.recs[0]['text_start']); m.gone.add(sib); del m.recs[sib]
        else: m.proper = False; m.ctxs = []
        return m
    active = [c for c in m.ctxs if c['node'] == node]; up = m.recs[parent[0]]
    if active:
        if isnode(sib):
            for c in active: c.update(node=sib, direction=parent[1], in_leaf=0)
            m.recs[sib] = dict(m.recs[sib], text_start=m.recs[node]['text_start']); up['kids'][parent[1]] = sib
        else:
            for c in active: c.update(node=parent[0], direction=parent[1], in_leaf=1)
            up['kids'][parent[1]] = m.recs[node]['text_start']
    else: up['kids'][parent[1]] = sib
    del m.recs[node]
    return m

def bytes_(prog, rep, tier):
    """starting a byte: room for it, and the contexts of all orders one longer"""
    an = Tree(prog, rep); f = an.fstart; L = lambda n: Sym('leaf' + n, 0, M31); OLD = 'old'
    # shapes: slot -> (depth, kids); OLD is the position of the oldest byte
    shapes = {
     'pair': {0: (2, [OLD, L('a')])},
     'pair-under-root': {0: (2, [OLD, 1]), 1: (5, [L('a'), L('b')])},
     'below': {0: (2, [1, L('z')]), 1: (5, [OLD, L('a')])},
     'below-node': {0: (2, [1, L('z')]), 1: (5, [OLD, 2]), 2: (9, [L('a'), L('b')])},
     'repeated': {0: (2, [1, L('z')]), 1: (5, [L('x'), L('a')])},
     'long': {0: (2, [1, L('z')]), 1: (261, [2, L('b')]), 2: (510, [OLD, L('a')])},
     'far': {0: (2, [1, L('z')]), 1: (8 * 300 + 5, [2, L('b')]), 2: (8 * 700 + 3, [3, L('c')]), 3: (8 * 8000 + 6, [OLD, L('a')])},
    }
    if tier == 'thorough':
        shapes['deep'] = {0: (2, [L('z'), 1]), 1: (11, [2, L('y')]), 2: (13, [OLD, L('a')])}
        shapes['chain'] = {0: (0, [1, L('z')]), 1: (7, [2, L('y')]), 2: (8, [OLD, 3]), 3: (20, [L('a'), L('b')])}
    # contexts: (suffix, node, in_leaf, direction); OLD as suffix: last seen at the oldest byte
    users = {'pair': [[], [('s0', 0, 0, 1)], [('s0', 0, 1, 1), (OLD, 0, 1, 0)]], 'pair-under-root': [[], [('s0', 1, 0, 1)], [('s0', 0, 0, None), ('s1', 1, 1, 1)]], 'below': [[], [('s0', 1, 0, 0)], [('s0', 0, 1, 1), ('s1', 1, 0, 0)], [('s0', 1, 1, 1)]],
             'below-node': [[], [('s0', 1, 0, 0)], [('s0', 2, 0, 1)]], 'repeated': [[], [('s0', 1, 0, 0), (OLD, 1, 1, 0)], [('s0', 1, 1, 1)], [(OLD, 1, 1, 0)]], 'far': [[], [('s0', 2, 0, 0)]], 'long': [[], [('s0', 2, 0, 0)], [('s%d' % k, 1, k % 2, 1) for k in range(64)]], 'deep': [[], [('s0', 2, 0, 0)]], 'chain': [[], [('s0', 2, 0, 0), ('s1', 3, 0, 1)]]}
    # which bits of the oldest bytes lead to the leaf
    for name, shape in shapes.items():
        for flip in (0, 1):
            for wst, w, start, size, cursor, mx in an.ring({'long': 70, 'far': 8010}.get(name, 5), name in ('long', 'far')):
                st = wst.clone()
                if not st.assume_eq0(size - mx): continue
                path = []; node = 0
                while True:
                    d = next(k for k, x in enumerate(shape[node][1]) if x is OLD or isinstance(x, int) or (name == 'repeated' and node == 1 and k == 0)); path.append(d ^ flip); x = shape[node][1][d]
                    if not isinstance(x, int): break
                    node = x
                depths = []; node = 0
                for d in path: depths.append(shape[node][0]); node = shape[node][1][d ^ flip]
                used = sorted({dp // 8 for dp in depths})
                def where(u): return [norm_ring(u, start + k, mx) for k in used], norm_ring(u, start + size, mx), norm_ring(u, start + size - 1, mx)
                for s0, (firsts, cnext, cold) in an.spec(st, where):
                    if not all(s0.note_ge0(p) for p in firsts + [cnext, cold]): continue
                    for k, at in zip(used, firsts):
                        dg = [Sym('o%d.%d' % (k, q), 0, 1) for q in range(8)]
                        for dp, d in zip(depths, path):
                            if dp // 8 == k: dg[7 - dp % 8] = C(d)
                        an.poke(s0, w, at, dg)
                    for us in users[name]:
                        s = s0.clone(); pos = lambda x: start if x is OLD else x
                        recs = {i: dict(depth=C(dp), kids=[pos(x) for x in (kids if not flip else kids[::-1])]) for i, (dp, kids) in shape.items()}
                        ok = True
                        for i in recs:
                            for x in recs[i]['kids']:
                                if not isnode(x) and x is not start:      # every other leaf is a younger suffix
                                    ok = ok and s.assume_ge0(mx - 1 - x) and s.assume_ge0(x - start - 1 if ok is True else x)
                        if not ok: continue
                        ctxs = []
                        for o, (sfx, node, il, d) in enumerate(us):
                            p = Sym(sfx, 0, 1 << 27) if sfx is not OLD else start
                            if sfx is not OLD: ok = ok and s.assume_ge0(mx - 1 - p) and s.assume_ge0(p - start - 1)
                            ctxs.append(ctx(p, node, Sym('visits%d' % o, 1, MAXC), il, None if d is None else d ^ flip))
                        if not ok: continue
                        s, nodes, recs = build(an, s, recs)
                        cv = [an.context(s, c['suffix'], c['node'], c['visits'], c['in_leaf'], c['direction']) for c in ctxs]
                        top = 63 if name == 'long' else 3; s, me = an.source(s, w, mx, nodes, True, top, cv, -1)
                        key = 'slide/' + name
                        for t, _ in an.call(key, f, [me], s, 'starting a byte never panics'):
                            m = removed(an, t, Model(recs, ctxs), path, start)
                            shifted(an, key, f, t, me, m, top, cnext, cold, w, [norm1(t, start, mx), cnext, mx, mx])
    growing(an, f)
    # out of turn
    for wst, w, start, size, cursor, mx in an.ring(3):
        for bi in (-1, 0, 7):
            st = wst.clone(); st, nodes, recs = build(an, st, {0: dict(depth=C(3), kids=[L('a'), L('b')])}); st, me = an.source(st, w, mx, nodes, True, 2, [], bi)
            if bi >= 0: an.ob_refuses('turn/start', 'starting a byte inside a byte is refused', f, an.run(f, [me], st.clone()))
            else: an.ob_refuses('turn/bit', 'recording a bit outside a byte is refused', an.fbit, an.run(an.fbit, [me, an.bit(0), slices(an, st, [], an.fbit, 2)], st.clone()))
        break
    new = an.fn("<%s<'a> as history::HistorySource<'a>>::new" % HS); mx = Sym('max', 12, 1 << 28)
    for st, v in an.call('new', new, [mx, C(3), an.luts()], State(an.ctx)):
        me = an.cell(st, v); an.ob_true('new', 'a new history has no contexts', new, st, an.contexts(st, me) == [] and deg(an, st, me) is True)
        window.check(an.win, 'new', 'a new history starts with an empty window', new, st, an.sub(st, me, 'tree', 'window'), [ZERO, mx - 1, ZERO, mx])
        an.ob_refuses('turn/bit', 'recording a bit outside a byte is refused', an.fbit, an.run(an.fbit, [me, an.bit(0), slices(an, st, [], an.fbit, 2)], st.clone()))
        an.call('new/start', f, [me], st.clone(), 'a new history can start a byte')
def norm1(st, start, mx): return norm_ring(st, start + 1, mx)

def shifted(an, key, f, t, me, m, order, cnext, cold, w, win):
    """the outcome of starting a byte once there is room: every context is one order longer, the root is the context of order zero"""
    rl = 'starting a byte makes room by forgetting the oldest suffix, and makes every active context one order longer, with the root as the shortest'
    if m.proper:
        r = m.recs[0]; total = r['left_count'] + r['right_count']
        r['text_start'] = cnext
        kept = m.ctxs[:order]
        for u, n in an.spec(t, lambda q: total if decide_ge0(q, C(MAXC) - total) else C(MAXC)):
            x = m.clone(); x.ctxs = [ctx(cold, 0, n, 0, None)] + [dict(c) for c in kept]
            conform(an, key, rl, f, u, me, x)
    else:
        an.ob_true(key + '/degenerate', 'without two different suffixes the tree is empty and no context is active', f, t, deg(an, t, me) is True and an.contexts(t, me) == [])
        st, live = an.one(an.fn(pool.ND + '::live_nodes_count'), [an.sub(t, me, 'tree', 'nodes')], t)
        an.ob_eq(key + '/live', 'the number of nodes is that of the tree', f, st, an.leaf(st, live), ZERO)
    window.check(an.win, key + '/window', 'the window moves on by one byte', f, t.clone(), an.sub(t, me, 'tree', 'window'), win)
    an.ob_eq(key + '/position', 'the next bit is the highest of the byte', f, t, an.leaf(t, an.sub_value(t, me, 'bit_index')), C(7))

def growing(an, f):
    L = lambda n: Sym('leaf' + n, 0, M31)
    for k in range(4):
        for wst, w, start, size, cursor, mx in an.ring(2):
            for full in (0, 1):
                st = wst.clone()
                if not st.assume_ge0(mx - 1 - size) if not full else full: continue
                for s, (cnext, cold) in an.spec(st, lambda u: (norm_ring(u, start + size, mx), norm_ring(u, start + size - 1, mx))):
                    s, nodes, recs = build(an, s, {i: dict(depth=C(3 + 9 * i), kids=[L('%da' % i), i + 1 if i < k else L('%db' % i)]) for i in range(k + 1)})
                    ctxs = [ctx(Sym('s%d' % o, 0, 1 << 27), o, Sym('visits%d' % o, 1, MAXC), o % 2, o % 2) for o in range(k)]
                    cv = [an.context(s, c['suffix'], c['node'], c['visits'], c['in_leaf'], c['direction']) for c in ctxs]
                    s, me = an.source(s, w, mx, nodes, True, 2, cv, -1)
                    for t, _ in an.call('start', f, [me], s, 'starting a byte never panics'):
                        shifted(an, 'start', f, t, me, Model(recs, ctxs), 2, cnext, cold, w, [start, cnext, size + 1, mx])
    for wst, w, start, size, cursor, mx in an.ring(1):
        for full in (0, 1):
            st = wst.clone()
            if not (st.assume_eq0(mx - size) if full else st.assume_ge0(mx - 1 - size)): continue
            for s, (cnext, snext) in an.spec(st, lambda u: (norm_ring(u, start + size, mx), norm_ring(u, start + 1, mx))):
                s, me = an.source(s, w, mx, [], False, 2, [], -1)
                for t, _ in an.call('start/degenerate', f, [me], s, 'starting a byte never panics'):
                    m = Model({}, []); m.proper = False
                    shifted(an, 'start/degenerate', f, t, me, m, 2, cnext, None, w, [snext if full else start, cnext, mx if full else size + 1, mx])
