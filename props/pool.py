"""C17: the pool of tree nodes and the references stored in it."""
import itertools
from harness import *
from chain import bare
import pipeline
ND = 'history::tree::nodes::Nodes'; NI = 'history::tree::nodes::NodeIndex'; NC = 'history::tree::node_child::NodeChild'; WI = 'history::window::WindowIndex'; NO = 'history::tree::node::Node'
DI = 'history::tree::direction::Direction'; M31 = (1 << 31) - 1

def conv(an, src, dst):
    """the conversion between two types of the crate"""
    r = an.p.bypath.get('<%s as std::convert::From<%s>>::from' % (dst, src), []) or an.p.bypath.get('<%s as std::convert::Into<%s>>::into' % (src, dst), [])
    if not r: raise Missing('conversion of %s to %s' % (src, dst))
    return r[0]

def references(prog, rep, tier):
    """window positions and node numbers share one reference"""
    an = An(prog, rep); kinds = {}
    q = {n: an.fn(NC + '::' + n) for n in ('is_valid', 'is_window_index', 'is_node_index', 'to_window_index', 'to_node_index')}
    for src, lo, own, other in ((WI, 0, 'window', 'node'), (NI, 1, 'node', 'window')):
        f = conv(an, src, NC); ty = an.adt(src)['id']; i = Sym('i', lo, M31)
        for st, v in an.call('reference/' + own, f, [an.val(ty, i)], State(an.ctx)):
            ref = an.cell(st, v)
            for n, want in (('is_valid', ONE), ('is_%s_index' % own, ONE), ('is_%s_index' % other, ZERO), ('to_%s_index' % own, i)):
                for t, w in an.call('reference/' + own, q[n], [ref], st.clone()): an.ob_eq('reference/' + own, 'a stored reference is read back as what was stored', q[n], t, an.leaf(t, w), want)
            an.ob_refuses('reference/%s-as-%s' % (own, other), 'a reference of the other kind is refused', q['to_%s_index' % other], an.run(q['to_%s_index' % other], [ref], st.clone()))
        rl = 'what a reference cannot hold is refused'
        an.ob_refuses('reference/too-large', rl, f, an.run(f, [an.val(ty, Sym('large', M31 + 1, (1 << 64) - 1))]))
        if lo: an.ob_refuses('reference/root', 'the root cannot be a child', f, an.run(f, [an.val(ty, ZERO)]))
    an.ob_true('reference/analysed', 'references analysed', f, None, True)

def directions(prog, rep, tier):
    """bits, directions and the children they select"""
    an = An(prog, rep); f = conv(an, 'bit::Bit', DI); no = next((i for i in prog.inst.values() if i['path'].startswith('<' + DI) and i['path'].endswith('::not')), None)
    CH = 'history::tree::node_child::NodeChildren'; mk = an.fn(CH + '::new'); ct = an.adt(NC)['id']
    ix = [i for i in prog.inst.values() if i['body'] and i['path'].startswith('<%s as std::ops::Index' % CH)]
    child = an.fn(NO + '::child', opt=True)
    if no is None or len(ix) < 1: raise Missing('operators of directions')
    dirs = {}
    for b in (0, 1):
        for st, d in an.call('direction', f, [an.bit(b)], State(an.ctx)): dirs[b] = d
    for b in (0, 1):
        for st, d in an.call('direction', no, [dirs[b]], State(an.ctx)): an.ob_eq('direction/not', 'the opposite of a direction is the other one', no, st, an.leaf(st, d), an.leaf(st, dirs[1 - b]))
        vals = [an.val(ct, Sym('left', -1 << 31, M31)), an.val(ct, Sym('right', -1 << 31, M31))]
        st = State(an.ctx); arr = VSeq(ct, C(2), ('t', tuple(vals)))
        for st, c in an.call('direction/children', mk, [arr], st):
            ref = an.cell(st, c)
            for g in ix:
                for t, v in an.call('direction/children', g, [ref, dirs[b]], st.clone()):
                    an.ob_eq('direction/children', 'bit 0 selects the first child, bit 1 the second', g, t, an.leaf(t, ip.load(t, an.ctx, v.cell, v.path)), an.leaf(t, vals[b]))

def valid_node(an, st, name):
    """a node with two valid children, otherwise unknown"""
    t = an.adt(NO); v = ip.force(st, an.ctx, an.lazy(t['id'], name)); fs = list(v.fields)
    ix = an.fieldidx(t, 'children'); ct = an.adt(NC)['id']
    f = an.fn('history::tree::node_child::NodeChildren::new')
    (st, c), = an.call(None, f, [VSeq(ct, C(2), ('t', tuple(an.val(ct, Sym('%s.%d' % (name, k), 0, M31)) for k in (0, 1))))], st)
    fs[ix] = c
    return st, VAgg(v.ty, v.variant, tuple(fs))

def slots(prog, rep, tier):
    """sequences of additions and deletions"""
    an = An(prog, rep); new, add, upd, dele, live = [an.fn(ND + '::' + n) for n in ('new', 'add_node', 'update_node', 'delete_node', 'live_nodes_count')]
    nt = an.adt(NI)['id']; back = an.fn(NC + '::to_node_index'); idx = [i for i in prog.inst.values() if i['body'] and i['path'].startswith('<%s as std::ops::Index<' % ND)]
    if not idx: raise Missing('Index of the node pool')
    node = lambda i: an.val(nt, i)
    limit = Sym('limit', 1, 1 << 31)
    an.ob_refuses('pool/no-room-for-root', 'a pool without room for the root is refused', new, an.run(new, [ZERO]))
    deep = lambda st, ref: pipeline.deep(an, st, ip.load(st, an.ctx, ref.cell, ref.path))
    class W: pass
    made = {}
    def fresh(st, name):
        return valid_node(an, st, name)
    def contents(st, me, used, f):
        """every slot in use still holds its node"""
        for i, want in used.items():
            for t, v in an.call('pool/contents', idx[0], [me, node(C(i))], bare(st)):
                an.ob_true('pool/contents', 'a slot in use keeps its node', f, t, deep(t, v) == want, 'slot %d holds another node' % i)
        for t, v in an.call('pool/live', live, [me], bare(st)): an.ob_eq('pool/live', 'the live nodes are those added and not deleted', f, t, an.leaf(t, v), C(len(used)))
    def do_add(st, me, used, free, nxt, tag):
        st, n = fresh(st, tag); out = []
        for t, r in an.call('pool/add', add, [me, n], st, 'a node can be added while there is room'):
            for u, i in an.call('pool/add', back, [an.cell(t, r)], t):
                i = u.cst(an.leaf(u, i)); rl = 'a new node gets a slot that is not in use; deleted slots are used again before the pool grows'
                an.ob_true('pool/add', rl, add, u, i is not None and i not in used and (i in free if free else i == nxt), 'slot %s, in use %s, deleted %s' % (i, sorted(used), sorted(free)))
                if i is None or i in used: continue
                us = dict(used); us[i] = pipeline.deep(an, u, n); fr = set(free) - {i}; contents(u, me, us, add); out.append((u, us, fr, nxt + (i == nxt)))
        return out
    depth = 4 if tier == 'thorough' else 3
    for st, v in an.call('pool/new', new, [limit], State(an.ctx)):
        me = an.cell(st, v)
        for t, w in an.call('pool/live', live, [me], st.clone()): an.ob_eq('pool/live', 'a new pool has no live nodes', live, t, an.leaf(t, w), ZERO)
        st, root = fresh(st, 'root')
        for st, _ in an.call('pool/root', upd, [me, node(ZERO), root], st):
            if not st.assume_ge0(limit - 1 - depth): continue
            used = {0: pipeline.deep(an, st, root)}; cur = [(st, used, set(), 1)]
            for k in range(depth): cur = [r for s, u, f, n in cur for r in do_add(s, me, u, f, n, 'n%d' % k)]
            for s0, used, free, nxt in cur:
                one, r1 = fresh(s0.clone(), 'changed')
                for t, _ in an.call('pool/update', upd, [me, node(ONE), r1], one):
                    us = dict(used); us[1] = pipeline.deep(an, t, r1); contents(t, me, us, upd)
                full = s0.clone()
                if full.assume_eq0(limit - 1 - depth):
                    full, n = fresh(full, 'extra'); an.ob_refuses('pool/full', 'adding to a full pool is refused', add, an.run(add, [me, n], full))
                for order in [p for k in range(1, depth + 1) for p in itertools.permutations(range(1, depth + 1), k)]:
                    cur2 = [(s0.clone(), used, set(), nxt)]
                    for d in order:
                        nx = []
                        for s, u, f, n in cur2:
                            for t, _ in an.call('pool/delete', dele, [me, node(C(d))], s, 'a node in use can be deleted'):
                                us = {a: b for a, b in u.items() if a != d}; contents(t, me, us, dele); nx.append((t, us, f | {d}, n))
                        cur2 = nx
                    for k in range(len(order)): cur2 = [r for s, u, f, n in cur2 for r in do_add(s, me, u, f, n, 'again%d' % k)]
                    for s, u, f, n in cur2:
                        g = s.clone()
                        if g.assume_eq0(limit - 1 - depth):
                            g, x = fresh(g, 'extra'); an.ob_refuses('pool/full', 'adding to a full pool is refused', add, an.run(add, [me, x], g))
                        g = s.clone()
                        if g.assume_ge0(limit - 2 - depth): do_add(g, me, u, f, n, 'beyond')

def any_size(prog, rep, tier):
    """a pool of any size in which any two slots are given back"""
    an = An(prog, rep); add, dele = [an.fn(ND + '::' + n) for n in ('add_node', 'delete_node')]; back = an.fn(NC + '::to_node_index')
    t = an.adt(ND); nt = an.adt(NI)['id']; idx = [i for i in prog.inst.values() if i['body'] and i['path'].startswith('<%s as std::ops::Index<' % ND)]
    new = an.fn(ND + '::new'); n = Sym('slots', 4, M31); limit = Sym('limit', 4, 1 << 32); node = lambda i: an.val(nt, i)
    vec = [i for i, f in enumerate(t['variants'][0]['fields']) if 'Vec<' in prog.ty[f[1]]['name']]
    if len(vec) != 1 or not idx: raise Missing('slots of the pool')
    for st, v in an.call(None, new, [limit], State(an.ctx)):
        # a fresh pool whose slots have all been added already: the same bookkeeping, any number of slots
        if not st.assume_ge0(limit - n): continue
        fs = list(v.fields); old = ip.force(st, an.ctx, fs[vec[0]])
        cell = ('L', 'pool', t['id'], (), None); base = ip.force(st, an.ctx, ip.force(st, an.ctx, an.lazy(t['id'], 'pool')).fields[vec[0]])
        fs[vec[0]] = VVec(VSeq(old.seq.ety, n, base.seq.base, base.seq.stores), limit)
        val = VAgg(v.ty, v.variant, tuple(fs)); i, j, k = Sym('i', 1, M31), Sym('j', 1, M31), Sym('other', 1, M31)
        for far in (i - j - 1, j - i - 1):
            s = st.clone()
            if not (s.assume_ge0(n - 1 - i) and s.assume_ge0(n - 1 - j) and s.assume_ge0(far)): continue
            me = an.cell(s, val)
            def read(s, x):
                (u, r), = an.call(None, idx[0], [me, node(x)], bare(s)); return pipeline.deep(an, u, ip.load(u, an.ctx, r.cell, r.path))
            def added(s, tag):
                s, x = valid_node(an, s, tag); out = []
                for u, r in an.call('pool/any-size', add, [me, x], s, 'a node can be added while there is room'):
                    for w, r in an.call('pool/any-size', back, [an.cell(u, r)], u): out.append((w, an.leaf(w, r), pipeline.deep(an, w, x)))
                return out
            rl = 'a new node gets a slot that is not in use; deleted slots are used again before the pool grows'
            room = s.clone()
            if room.assume_ge0(limit - n - 1):
                for u, r, x in added(room, 'next'): an.ob_eq('pool/any-size/grow', rl, add, u, r, n)
            full = s.clone()
            if full.assume_eq0(limit - n):
                full, x = valid_node(an, full, 'extra'); an.ob_refuses('pool/any-size/full', 'adding to a full pool is refused', add, an.run(add, [me, x], full))
            if not s.assume_ge0(n - 1 - k): continue
            for side1 in (k - i - 1, i - k - 1):
              for side2 in (k - j - 1, j - k - 1):
                c = s.clone()
                if not (c.assume_ge0(side1) and c.assume_ge0(side2)): continue
                was = read(c, k)
                for u, _ in an.call('pool/any-size', dele, [me, node(i)], c, 'a node in use can be deleted'):
                  for u, _ in an.call('pool/any-size', dele, [me, node(j)], u, 'a node in use can be deleted'):
                    an.ob_true('pool/any-size/others', 'no other slot changes', dele, u, read(u, k) == was, 'a slot in use changed')
                    for w, a, x in added(u, 'first'):
                        for z, b, y in added(w, 'second'):
                            ok = (z.prove_eq(a, i) and z.prove_eq(b, j)) or (z.prove_eq(a, j) and z.prove_eq(b, i))
                            an.ob_true('pool/any-size/again', rl, add, z, ok, 'slots %s and %s for the deleted i and j' % (show(a), show(b)))
                            if ok: an.ob_true('pool/any-size/others', 'no other slot changes', add, z, read(z, k) == was and read(z, a) == x and read(z, b) == y, 'a slot in use changed')
                            if z.assume_ge0(limit - n - 1):
                                for q, r, _ in added(z, 'third'): an.ob_eq('pool/any-size/grow', rl, add, q, r, n)


def any_deleted(prog, rep, tier):
    """any number of slots deleted before: two more are deleted and used again"""
    an = An(prog, rep); new, add, dele, live = [an.fn(ND + '::' + n) for n in ('new', 'add_node', 'delete_node', 'live_nodes_count')]; back = an.fn(NC + '::to_node_index')
    t = an.adt(ND); nt = an.adt(NI)['id']; idx = [i for i in prog.inst.values() if i['body'] and i['path'].startswith('<%s as std::ops::Index<' % ND)]; node = lambda i: an.val(nt, i)
    fields = t['variants'][0]['fields']; vec = [i for i, f in enumerate(fields) if 'Vec<' in prog.ty[f[1]]['name']]; num = [i for i, f in enumerate(fields) if prog.ty[f[1]]['name'] == 'usize']
    if len(vec) != 1 or len(num) != 1 or not idx: raise Missing('slots and count of the pool')
    n, r, z, i, j = Sym('slots', 5, M31), Sym('deleted', 1, M31), Sym('z', 1, M31), Sym('i', 1, M31), Sym('j', 1, M31); limit = Sym('limit', 4, 1 << 32)
    for st, v in an.call(None, new, [limit], State(an.ctx)):
        fs = list(v.fields); old = ip.force(st, an.ctx, fs[vec[0]])
        base = ip.force(st, an.ctx, ip.force(st, an.ctx, an.lazy(t['id'], 'pool')).fields[vec[0]])
        st, root = valid_node(an, st, 'root')
        fs[vec[0]] = VVec(ip.seq_write(st, an.ctx, VSeq(old.seq.ety, n, base.seq.base, base.seq.stores), ZERO, root), limit)
        if not (st.assume_ge0(limit - n) and all(st.assume_ge0(n - 1 - x) for x in (z, i, j)) and st.assume_ge0(n - 3 - r)): continue
        # one deletion brings the pool into the form it has with deleted slots; then their number is any
        for order in ((z, i, j), (j, i, z), (i, z, j)):
            s = st.clone(); a, b, c = order
            if not (s.assume_ge0(b - a - 1) and s.assume_ge0(c - b - 1)): continue
            me = an.cell(s, VAgg(v.ty, v.variant, tuple(fs)))
            for s, _ in an.call('pool/any-deleted', dele, [me, node(z)], s, 'a node in use can be deleted'):
                o = ip.load(s, an.ctx, me.cell, ()); l = list(o.fields)
                if s.cst(an.leaf(s, l[num[0]])) != 1: raise Missing('count of deleted slots')
                l[num[0]] = r; ip.store(s, an.ctx, me.cell, (), VAgg(o.ty, o.variant, tuple(l)))
                def lives(u, want, f):
                    for w, x in an.call('pool/any-deleted/live', live, [me], bare(u)): an.ob_eq('pool/any-deleted/live', 'the live nodes are those added and not deleted', f, w, an.leaf(w, x), want)
                for u, _ in an.call('pool/any-deleted', dele, [me, node(i)], s, 'a node in use can be deleted'):
                    lives(u, n - r - 1, dele)
                    for u, _ in an.call('pool/any-deleted', dele, [me, node(j)], u, 'a node in use can be deleted'):
                        lives(u, n - r - 2, dele); left = {0: i, 1: j}; cur = [(u, [i, j])]
                        for k in range(2):
                            nx = []
                            for w, free in cur:
                                w, x = valid_node(an, w, 'again%d' % k)
                                for q, ref in an.call('pool/any-deleted', add, [me, x], w, 'a node can be added while there is room'):
                                    for q, got in an.call('pool/any-deleted', back, [an.cell(q, ref)], q):
                                        got = an.leaf(q, got); hit = [y for y in free if q.prove_eq(got, y)]
                                        an.ob_true('pool/any-deleted/again', 'a new node gets a slot that is not in use; deleted slots are used again before the pool grows', add, q, len(hit) == 1, 'slot %s for the deleted ones' % show(got))
                                        if hit: lives(q, n - r - 1 + k, add); nx.append((q, [y for y in free if y is not hit[0]]))
                            cur = nx
