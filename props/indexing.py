"""C12: quantizers and indexers map every input into range without collisions between sub-indices."""
from harness import *
QU = 'util::quantizers::OccurrenceCountQuantizer::'; IX = 'util::indexer::Indexer'

def quantizer(prog, rep, tier):
    an = An(prog, rep); q = an.fn(QU + 'quantize'); mx = an.fn(QU + 'max_output')
    got = []
    rule = 'a count is reduced to its bit length and its second highest bit: small counts map to themselves, equal leading bits share an output, outputs grow with the count'
    for k in range(17):
        lo, hi = (1 << k) >> 1, (1 << k) - 1
        for a, b in ((lo, lo + (hi - lo) // 2), (lo + (hi - lo) // 2 + 1, hi)):
            if a > b: continue
            x = Sym('count', a, b) if a != b else C(a)
            for st, v in an.call('quantize', q, [x], State(an.ctx)):
                w = a if k < 2 else 2 * (k - 2) + (a >> (k - 2))
                got.append(w); an.ob_eq('quantize', rule, q, st, an.leaf(st, v), C(w))
    for st, v in an.call('max_output', mx, [], State(an.ctx)):
        an.ob_eq('max_output', 'the reported maximum is the largest output', mx, st, an.leaf(st, v), C(max(got)))

def indexers(prog, rep, tier):
    an = An(prog, rep)
    kinds = sorted({i['self'] for i in prog.bypath.get(IX + '::new', []) if i['body']} | {i['self'] for i in prog.inst.values() if i['body'] and i.get('self') and i['path'].endswith('::get_array_index_and_reset')})
    if not kinds: raise Missing('indexers')
    for ty in kinds:
        label = prog.ty[ty]['name'].rsplit('::', 1)[1]
        new = next((i for i in prog.bypath.get(IX + '::new', []) if i['self'] == ty and i['body']), None)
        if new is None: continue
        size = an.meth(ty, 'get_array_size', opt=True); sub = an.meth(ty, 'with_sub_index', opt=True); idx = an.meth(ty, 'get_array_index_and_reset', opt=True)
        n = None
        for cand in range(1, 8):
            vs = [Sym('v%d' % i, 0, 200) for i in range(cand)]; ss = [Sym('slack%d' % i, 0, 200) for i in range(cand)]; ls = [v + s + 1 for v, s in zip(vs, ss)]
            outs = an.run(new, [vec(an, ls)], State(an.ctx))
            rets = [(o.st, o.value) for o in outs if o.kind == 'ret']
            if rets: n = cand; break
        if n is None: raise Undecided('dimensions of ' + label)
        an.ob_refuses(label + '/dimensions', 'another number of dimensions is refused', new, an.run(new, [vec(an, ls + [ONE])], State(an.ctx)))
        if size and n > 1:
            big = [C(1 << 40), C(1 << 30)] + [ONE] * (n - 2)
            for o in an.run(new, [vec(an, big)], State(an.ctx)):
                if o.kind == 'ret': an.ob_refuses(label + '/overflow', 'a size beyond the machine word is refused', size, an.run(size, [an.cell(o.st, o.value)], o.st))
        for st, v in rets:
            ref = an.cell(st, v); prod = ONE
            for l in ls: prod = prod * l
            cur = [st]
            for again in (0, 1):
                nxt = []
                for c in cur:
                    if size:
                        for t, w in an.call(label + '/size', size, [ref], c): an.ob_eq(label + '/size', 'the array size is the product of the dimensions', size, t, an.leaf(t, w), prod); nxt.append(t)
                    else: nxt.append(c)
                cur = nxt
                if sub is None: break
                for k in range(n):
                    for c in cur:
                        bad = Sym('bad', 0, 5000) + ls[k]
                        an.ob_refuses(label + '/limit', 'a sub-index not below its dimension is refused', sub, an.run(sub, [ref, bad], c.clone()))
                        if idx: an.ob_refuses(label + '/early', 'the index cannot be taken before every sub-index is given', idx, an.run(idx, [ref], c.clone()))
                        if size and k: an.ob_refuses(label + '/mid-size', 'the size cannot be asked for in the middle of a round', size, an.run(size, [ref], c.clone()))
                    cur = [t for c in cur for t, _ in an.call(label + '/sub', sub, [ref, vs[k]], c)]
                for c in cur: an.ob_refuses(label + '/many', 'a superfluous sub-index is refused', sub, an.run(sub, [ref, ZERO], c.clone()))
                if idx is None: break
                want = ZERO
                for v_, l in zip(vs, ls): want = want * l + v_
                nxt = []
                for c in cur:
                    for t, w in an.call(label + '/index', idx, [ref], c):
                        an.ob_eq(label + '/index', 'the index is the mixed-radix number of the sub-indices, the last one varying fastest', idx, t, an.leaf(t, w), want)
                        an.ob_ge0(label + '/inside', 'the index is below the array size', idx, t, prod - 1 - an.leaf(t, w)); nxt.append(t)
                cur = nxt

def vec(an, items):
    return VVec(VSeq(an.usize() if hasattr(an, 'usize') else None, C(len(items)), ('t', tuple(items))), C(len(items)))
