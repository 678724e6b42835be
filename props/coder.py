"""C01/C02: the two halves of the entropy coder stay in lock step and never lose a byte or a carry."""
from harness import *

ENC = "coding::encoder::Encoder::<'a>::"; DEC = "coding::decoder::Decoder::<'a>::"
ENCT = 'coding::encoder::Encoder'; DECT = 'coding::decoder::Decoder'
TOP = 1 << 31; THR = 1 << 23

def put(it, st, r, i, b):
    """stores byte i of a slice, which may be a single byte seen as a slice"""
    e = models.elem_ref(r, C(i))
    if i == 0 and isinstance(models.F(it, st, ip.load(st, it.ctx, r.cell, r.path)), Poly): ip.store(st, it.ctx, r.cell, r.path, b)
    else: ip.store(st, it.ctx, e.cell, e.path, b)

def io_hook(it, st, inst, args, rty, span):
    """the only I/O primitives: both are event sources; failure is an outcome of its own"""
    p = inst['path']
    if p.startswith('std::io::Write::'):
        n = p.rsplit('::', 1)[1]
        if n == 'write_all':
            r = models.F(it, st, args[1])
            cnt = st.cst(r.view[1]) if r.view else None
            if cnt is None or cnt > 64: raise Undecided('write of unknown length')
            bs = []
            for i in range(cnt):
                e = models.elem_ref(r, C(i)); bs.append(models.F(it, st, ip.raw_load(st, it.ctx, e.cell, e.path)))
            if len(st.events) > 400: raise PanicExc('runaway output', span)
            key = ('io', len(st.events))
            ok = st.choice.get(key)
            if ok is None:
                if it.ctx.io_fail: raise Fork([('choice', key, 1), ('choice', key, 0)])
                ok = 1
            if not ok:
                st.events = st.events + (('werr', tuple(bs)),)
                return VAgg(rty, models.variant_index(it, rty, 'Err'), (VOpaque('ioerror'),))
            st.events = st.events + (('w', tuple(bs)),)
            return VAgg(rty, models.variant_index(it, rty, 'Ok'), (UNIT,))
        if n == 'write':
            # takes all, some or none of the bytes, or fails; short writes are few
            r = models.F(it, st, args[1]); cnt = st.cst(models.seq_len_of(it, st, r))
            if cnt is None or cnt > 64: raise Undecided('write of unknown length')
            if len(st.events) > 400: raise PanicExc('runaway output', span)
            bs = []
            for i in range(cnt):
                e = models.elem_ref(r, C(i)); bs.append(models.F(it, st, ip.raw_load(st, it.ctx, e.cell, e.path)))
            key = ('io', len(st.events)); k = st.choice.get(key)
            short = sum(1 for e in st.events if e[0] == 'short')
            if k is None:
                if it.ctx.io_fail: raise Fork([('choice', key, x) for x in ([cnt, -1] + (list(range(cnt)) if short < 2 else []))])
                k = cnt
            if k < 0:
                st.events = st.events + (('werr', tuple(bs)),)
                return VAgg(rty, models.variant_index(it, rty, 'Err'), (VOpaque('ioerror'),))
            st.events = st.events + ((('w', tuple(bs[:k])),) if k else ()) + ((('short', cnt - k),) if k < cnt else ())
            return VAgg(rty, models.variant_index(it, rty, 'Ok'), (C(k),))
        if n in ('flush',):
            return VAgg(rty, models.variant_index(it, rty, 'Ok'), (UNIT,))
        st.taint = st.taint | {'io ' + n}
        return NotImplemented
    if p.startswith('std::io::Read::'):
        n = p.rsplit('::', 1)[1]
        if n == 'read_exact':
            r = models.F(it, st, args[1])
            cnt = st.cst(models.seq_len_of(it, st, r))
            if cnt is None or cnt > 64: raise Undecided('read of unknown length')
            if len(st.events) > 24: raise PanicExc('runaway input', span)
            key = ('io', len(st.events))
            ok = st.choice.get(key)
            if ok is None:
                if it.ctx.io_fail: raise Fork([('choice', key, 1), ('choice', key, 0)])
                ok = 1
            if not ok:
                st.events = st.events + (('rerr', cnt),)
                return VAgg(rty, models.variant_index(it, rty, 'Err'), (VOpaque('ioerror'),))
            k = sum(len(e[1]) for e in st.events if e[0] == 'r')
            bs = tuple(Sym('in%d' % (k + i), 0, 255) for i in range(cnt))
            for i in range(cnt):
                put(it, st, r, i, bs[i])
            st.events = st.events + (('r', bs),)
            return VAgg(rty, models.variant_index(it, rty, 'Ok'), (UNIT,))
        if n == 'read':
            r = models.F(it, st, args[1]); cnt = st.cst(models.seq_len_of(it, st, r))
            if cnt is None or cnt > 64: raise Undecided('read of unknown length')
            if len(st.events) > 24: raise PanicExc('runaway input', span)
            key = ('io', len(st.events)); k = st.choice.get(key)
            ended = any(e[0] == 'eof' for e in st.events)
            if k is None:
                if it.ctx.io_fail and cnt: raise Fork([('choice', key, x) for x in ((0, -1) if ended else (cnt, -1) + tuple(range(cnt)))])
                k = cnt
            if k < 0:
                st.events = st.events + (('rerr', cnt),)
                return VAgg(rty, models.variant_index(it, rty, 'Err'), (VOpaque('ioerror'),))
            m = sum(len(e[1]) for e in st.events if e[0] == 'r'); bs = tuple(Sym('in%d' % (m + i), 0, 255) for i in range(k))
            for i in range(k):
                put(it, st, r, i, bs[i])
            st.events = st.events + (('r', bs) if k else ('eof', cnt),)
            return VAgg(rty, models.variant_index(it, rty, 'Ok'), (C(k),))
        st.taint = st.taint | {'io ' + n}
        return NotImplemented
    return NotImplemented

class Coder(An):
    def __init__(s, prog, rep):
        An.__init__(s, prog, rep)
        s.ctx.hooks = [io_hook]; s.ctx.io_fail = False
    def bit(s, st, ty, v):
        """a Bit value; the enum has one variant per value"""
        t = s.p.ty[ty]
        for i, x in enumerate(t['variants']):
            if int(x['discr']) == v: return VAgg(ty, i, ())
        raise Missing('Bit value %d' % v)
    def enc_state(s, tag, rng, delay, carry, run, last=None):
        st = State(s.ctx)
        t = s.adt(ENCT)
        ref = s.obj(st, ENCT, 'enc' + tag)
        fs = {f[0]: i for i, f in enumerate(t['variants'][0]['fields'])}
        for f in ('rc_buffer', 'rc_range', 'run_length_0xff', 'last_output_byte', 'delay', 'carry'):
            if f not in fs: raise Undecided('encoder state field ' + f)
        # every 31-bit value, written in the digits renormalisation shifts out
        low = Sym('low0', 0, 255) * (1 << 23) + Sym('low1', 0, 255) * (1 << 15) + Sym('low2', 0, 255) * 128 + Sym('low3', 0, 127); R = Sym('range' + tag, rng[0], rng[1])
        last = Sym('last', 0, 255) if last is None else C(last)
        vals = {'rc_buffer': low, 'rc_range': R, 'run_length_0xff': run, 'last_output_byte': last,
                'delay': C(delay), 'carry': C(carry)}
        for k, v in vals.items(): ip.store(st, s.ctx, ref.cell, (('f', fs[k]),), v)
        # state invariants (each one is re-established below): the coded interval, carry included, stays inside the
        # window the pending digit can still absorb
        ok = True
        if not delay: ok = st.assume_ge0(C(TOP - 1) - low - R)
        elif carry: ok = st.assume_ge0(C(TOP - 1) - low - R)        # a carry happened: no second one fits
        else:
            ok = st.assume_ge0(C(2 * TOP - 1) - low - R)
        return st, ref, low, R, last, ok
    def inv_pending(s, st, low, R, last):
        """a pending 0xff cannot take a carry"""
        return st
    def pend(s, st, ref):
        g = lambda n: s.leaf(st, s.get(st, ref, n))
        return g('rc_buffer'), g('rc_range'), g('run_length_0xff'), g('last_output_byte'), g('delay'), g('carry')
    def number(s, st, delay, carry, run, last):
        """value of the pending digits (most significant first), carry included, and how many there are"""
        d = st.cst(delay); r = st.cst(run)
        if d is None: d = decide_value(st, delay, 2)
        if r is None: r = decide_value(st, run, 512)
        n = ZERO; k = 0
        if d: n = last; k = 1
        for _ in range(r): n = n * 256 + 255; k += 1
        if k: n = n + carry
        return n, k
    def written(s, st):
        out = []
        for e in st.events:
            if e[0] == 'w': out.extend(e[1])
        return out
    def bitraw(s, inst, i): return inst['body']['locals'][i]

def shapes(maxrun):
    for delay in (0, 1):
        for carry in (0, 1):
            if not delay and not carry: continue     # sentinel: nothing pending yet is marked by carry
            for run in ((0,) + tuple(x for x in maxrun if x) if delay else (0,)):
                yield delay, carry, run
RANGES = [('3', (1, (1 << 7) - 1), 3), ('2', (1 << 7, (1 << 15) - 1), 2), ('1', (1 << 15, THR - 1), 1), ('0', (THR, TOP - 1), 0)]

# lengths of a delayed run of 0xff digits analysed, by renormalisation count; the emitting loop is unrolled for these
RUNS = [{0: (1,), 1: (1, 2, 5, 37, 255, 257), 2: (1, 2), 3: (1,)}, {0: (1, 2, 300), 1: (1, 2, 3, 4, 5, 8, 16, 17, 37, 64, 129, 257), 2: (1, 2, 3, 9), 3: (1, 2, 3)}]
def encoder_step(prog, rep, tier):
    an = Coder(prog, rep)
    enc = an.fn(ENC + 'encode_bit'); rare = an.fn(ENC + 'encode_rare_event')
    for tag, rng, n in RANGES:
        for delay, carry, run in shapes(RUNS[tier == 'thorough'][n]):
            for lastff in ((0, 1) if delay else (0,)):
                for op in ('bit', 'rare'):
                    for v in (0, 1):
                        st, ref, low, R, last, ok = an.enc_state(tag, rng, delay, carry, C(run), 255 if lastff else None)
                        if not ok: continue
                        if delay and not lastff: ok = st.assume_ge0(C(254) - last)
                        if lastff:
                            # a pending 0xff arises only when a carry was just absorbed: no further carry fits above it
                            if run: continue
                            if carry: continue
                            ok = st.assume_ge0(C(TOP - 1) - low - R)
                            if not ok: continue
                        else:
                            pass
                        if run and carry == 0:
                            pass
                        inst = enc if op == 'bit' else rare
                        if op == 'bit':
                            p = Sym('p', 1, THR - 1)
                            ty = inst['body']['locals'][2]
                            args = [ref, an.it.wrapnew(p, ty), an.bit(st, inst['body']['locals'][3], v)]
                        else: args = [ref, C(v)]
                        outs = an.run(inst, args, st)
                        base = 'encode_%s' % op
                        an.ob_nopanic('%s/no-panic' % base, 'no panic from any admissible encoder state', inst, outs)
                        for o in outs:
                            if o.kind != 'ret': continue
                            check_step(an, rep, inst, base, o, ref, low, R, last, delay, carry, run, n, op, v, p if op == 'bit' else None)

def check_step(an, rep, inst, base, o, ref, low, R, last, delay, carry, run, n, op, v, p):
    s = o.st
    Rn = R * (1 << (8 * n))
    d = s.fdiv(Rn * p, 1 << 23) if op == 'bit' else Rn - 1
    X, k0 = an.number(s, C(delay), C(carry), C(run), last)
    X = (X * TOP + low) * (1 << (8 * n)) + (d if v else ZERO)
    low2, R2, run2, last2, delay2, carry2 = an.pend(s, ref)
    for s2, (A2, k2) in an.spec(s, lambda st: an.number(st, delay2, carry2, run2, last2)):
        w = an.written(s2)
        for b in w:
            an.ob_ge0(base + '/byte-range', 'written digits are octets', inst, s2, b)
            an.ob_ge0(base + '/byte-range', 'written digits are octets', inst, s2, 255 - b)
        N = ZERO
        for b in w: N = N * 256 + b
        total = N * (256 ** k2) + A2
        an.ob_eq(base + '/code-value', 'digits written plus digits pending (carry included) plus interval base equal the '
                 'previous code value scaled by the bytes shifted out, plus the split when the bit is 1', inst, s2, total * TOP + low2, X,
                 'code value after %s(%d), %d renormalisation bytes' % (base, v, n))
        an.ob_true(base + '/digit-count', 'one digit enters the output pipeline per renormalisation byte', inst, s2,
                   len(w) + k2 == k0 + n, 'digits %d+%d after, %d+%d before' % (len(w), k2, k0, n))
        an.ob_eq(base + '/range', 'interval width after the step is the split for 0 and the remainder for 1', inst, s2, R2,
                 (Rn - d) if v else d)
        an.ob_ge0(base + '/nonempty', 'both sub-intervals are non-empty', inst, s2, R2 - 1)
        an.ob_ge0(base + '/invariant', 'interval base stays within 31 bits', inst, s2, low2)
        an.ob_ge0(base + '/invariant', 'interval base stays within 31 bits', inst, s2, C(TOP - 1) - low2)
        dl = s2.cst(delay2); cr = s2.cst(carry2)
        if dl is None or cr is None: continue
        lim = 2 * TOP - 1
        if not dl or cr: lim = TOP - 1
        an.ob_ge0(base + '/carry-room', 'at most one carry can reach the pending digit', inst, s2, C(lim) - low2 - R2)
        if dl and not cr:
            for s3, _ in [(c, 0) for c in branch(s2, last2 - 255)]:
                an.ob_ge0(base + '/carry-room-ff', 'no carry can reach a pending 0xff', inst, s3, C(TOP - 1) - low2 - R2)
        elif dl and cr:
            an.ob_ge0(base + '/carry-ff', 'a carry never hits a pending 0xff', inst, s2, 254 - last2)

def branch(st, p):
    c = st.clone()
    return [c] if c.assume_eq0(p) else []

def encoder_ends(prog, rep, tier):
    an = Coder(prog, rep)
    new = an.fn(ENC + 'new'); drop = [i for i in prog.inst.values() if i['path'].startswith('<coding::encoder::Encoder') and i['path'].endswith('Drop>::drop') and i['body']]
    st = State(an.ctx)
    outs = an.run(new, [VLazy(new['body']['locals'][1], 'writer')], st)
    an.ob_nopanic('encoder-new/no-panic', 'construction succeeds', new, outs)
    for o in outs:
        if o.kind != 'ret': continue
        o.st.mem[('x', 0)] = o.value; ref = VRef(('x', 0))
        low, R, run, last, delay, carry = an.pend(o.st, ref)
        an.ob_eq('encoder-new/low', 'initial interval base is 0', new, o.st, low, C(0))
        an.ob_eq('encoder-new/range', 'initial interval width is 2^31-1', new, o.st, R, C(TOP - 1))
        an.ob_eq('encoder-new/pending', 'nothing pending initially', new, o.st, run, C(0))
        an.ob_eq('encoder-new/pending', 'nothing pending initially', new, o.st, delay, C(0))
        an.ob_true('encoder-new/pending', 'nothing written on construction', new, o.st, not an.written(o.st))
    if not drop:
        rep.add('encoder-drop/exists', 'the encoder flushes when it goes out of scope', new['span'][0], 'violated',
                'Encoder has no Drop implementation: the final bytes are never written'); return
    drop = drop[0]
    maxrun = (1, 2, 5, 37, 255, 257) if tier == 'quick' else (1, 2, 3, 4, 8, 16, 37, 64, 129, 257)
    for delay, carry, run in shapes(maxrun):
        for lastff in ((0, 1) if delay else (0,)):
            st, ref, low, R, last, ok = an.enc_state('d', (1, TOP - 1), delay, carry, C(run), 255 if lastff else None)
            if delay and not lastff: ok = ok and st.assume_ge0(C(254) - last)
            if lastff:
                if run or carry: continue
                ok = ok and st.assume_ge0(C(TOP - 1) - low - R)
            if not ok: continue
            outs = an.run(drop, [ref], st)
            an.ob_nopanic('encoder-drop/no-panic', 'flushing never panics', drop, outs)
            for o in outs:
                if o.kind != 'ret': continue
                s = o.st
                X, k0 = an.number(s, C(delay), C(carry), C(run), last)
                w = an.written(s); N = ZERO
                for b in w: N = N * 256 + b
                for b in w:
                    an.ob_ge0('encoder-drop/byte-range', 'written digits are octets', drop, s, b)
                    an.ob_ge0('encoder-drop/byte-range', 'written digits are octets', drop, s, 255 - b)
                if not an.ob_true('encoder-drop/flush', 'all pending digits and exactly four octets of the interval base are written (the decoder reads four ahead)', drop, s,
                                  len(w) == k0 + 4, '%d digits flushed of %d pending + 4' % (len(w), k0)): continue
                extra = len(w) - k0 - 4
                # any value in [low, low+range) identifies the interval; the written digits must lie in it
                V = N; base = (X * TOP + low) * 2 * (256 ** extra)
                an.ob_ge0('encoder-drop/value', 'flushed digits denote a value not below the final interval', drop, s, V - base)
                an.ob_ge0('encoder-drop/value', 'flushed digits denote a value inside the final interval', drop, s,
                          base + R * 2 * (256 ** extra) - 1 - V)

def decoder(prog, rep, tier):
    an = Coder(prog, rep)
    new = an.fn(DEC + 'new'); dec = an.fn(DEC + 'decode_bit'); rare = an.fn(DEC + 'decode_rare_event')
    st = State(an.ctx)
    outs = an.run(new, [VLazy(new['body']['locals'][1], 'reader')], st)
    an.ob_nopanic('decoder-new/no-panic', 'construction succeeds when four bytes are available', new, outs)
    def read(st):
        r = []
        for e in st.events:
            if e[0] == 'r': r.extend(e[1])
        return r
    def flds(st, ref):
        g = lambda n: an.leaf(st, an.get(st, ref, n))
        return g('rc_buffer'), g('rc_range'), g('next_high_bit')
    t = an.adt(DECT); fs = {f[0]: i for i, f in enumerate(t['variants'][0]['fields'])}
    for f in ('rc_buffer', 'rc_range', 'next_high_bit'):
        if f not in fs: raise Undecided('decoder state field ' + f)
    for o in outs:
        if o.kind != 'ret': continue
        o.st.mem[('x', 0)] = o.value; ref = VRef(('x', 0))
        b, R, h = flds(o.st, ref); r = read(o.st)
        an.ob_true('decoder-new/reads', 'construction consumes exactly four bytes', new, o.st, len(r) == 4, '%d bytes read' % len(r))
        N = ZERO
        for x in r: N = N * 256 + x
        an.ob_eq('decoder-new/window', 'the window holds the first 32 code bits, big endian', new, o.st, b * 2 + h, N)
        an.ob_eq('decoder-new/range', 'initial interval width is 2^31-1', new, o.st, R, C(TOP - 1))
    for tag, rng, n in RANGES:
        for op in ('bit', 'rare'):
            st = State(an.ctx); inst = dec if op == 'bit' else rare
            ref = an.obj(st, DECT, 'dec' + tag)
            R = Sym('range' + tag, rng[0], rng[1]); buf = Sym('buf', 0, TOP - 1); h = Sym('nexthigh', 0, 1)
            for k, x in (('rc_buffer', buf), ('rc_range', R), ('next_high_bit', h)): ip.store(st, an.ctx, ref.cell, (('f', fs[k]),), x)
            if not st.assume_ge0(R - buf - 1): continue
            # the code value lies inside the interval also after the bytes still to be read
            p = Sym('p', 1, THR - 1)
            args = [ref] + ([an.it.wrapnew(p, inst['body']['locals'][2])] if op == 'bit' else [])
            outs = an.run(inst, args, st)
            base = 'decode_' + op
            an.ob_nopanic(base + '/no-panic', 'no panic from any admissible decoder state when input is available', inst, outs)
            for o in outs:
                if o.kind != 'ret': continue
                s = o.st; r = read(s)
                an.ob_true(base + '/reads', 'one byte read per renormalisation byte', inst, s, len(r) == n, '%d read, %d due' % (len(r), n))
                W = (buf * 2 + h) * (256 ** n); 
                for i, x in enumerate(r): W = W + x * (256 ** (len(r) - 1 - i))
                Rn = R * (1 << (8 * n))
                d = s.fdiv(Rn * p, 1 << 23) if op == 'bit' else Rn - 1
                v = an.leaf(s, o.value)
                b2, R2, h2 = flds(s, ref)
                vb = s.cst(v)
                if vb is None: rep.add(base + '/result', 'decoded value is decided per path', an.span(inst), 'undecided'); continue
                # decision: value >= split  <=> bit 1, on the normalised window
                low = s.fdiv(W, 2) - d
                an.ob_ge0(base + '/decision', 'decoded 1 exactly when the window is at or above the split', inst, s, low if vb else -low - 1)
                an.ob_eq(base + '/range', 'interval width after the step equals the encoder\'s', inst, s, R2, (Rn - d) if vb else d)
                an.ob_eq(base + '/window', 'window minus the split for 1, unchanged for 0', inst, s, b2 * 2 + h2, W - (d * 2 if vb else 0))
                an.ob_ge0(base + '/invariant', 'window stays inside the interval', inst, s, R2 - 1 - b2)
                an.ob_ge0(base + '/invariant', 'window stays inside the interval', inst, s, b2)

