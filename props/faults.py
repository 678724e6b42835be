"""C03: a fault of the reader or the writer stops the coder; nothing is dropped or invented on a path that returns."""
from harness import *
from coder import *

BAD = ('werr', 'rerr', 'eof')
def verdicts(an, base, inst, outs, what):
    """no path returns after a fault, every panicking path follows one and does nothing behind it"""
    seen = set()
    for o in outs:
        ev = o.st.events; bad = [i for i, e in enumerate(ev) if e[0] in BAD]
        if any(e[0] in ('werr', 'rerr') for e in ev): seen.add('err')
        if o.kind == 'ret':
            an.ob_true(base + '/stops', 'no operation returns after the %s failed it' % what, inst, o.st, not bad,
                       'returns although the %s reported %s' % (what, ev[bad[0]][0] if bad else ''))
        elif o.kind == 'panic':
            an.ob_true(base + '/only-faults', 'an operation panics only after the %s failed it' % what, inst, o.st, bool(bad) or any(e[0] == 'short' for e in ev), 'panics without a fault: %s' % (getattr(o, 'value', None),))
            if bad: an.ob_true(base + '/at-once', 'no input or output behind the failed one', inst, o.st,
                       bad[0] == len(ev) - 1 or ev[bad[0]][0] == 'eof', 'input or output continues behind a failure')
    return seen

def encoder_faults(prog, rep, tier):
    an = Coder(prog, rep); an.ctx.io_fail = True
    enc = an.fn(ENC + 'encode_bit'); rare = an.fn(ENC + 'encode_rare_event')
    drop = [i for i in prog.inst.values() if i['path'].startswith('<coding::encoder::Encoder') and i['path'].endswith('Drop>::drop') and i['body']]
    if not drop: rep.add('encoder-drop/anchor', 'the encoder flushes when dropped', '', 'undecided')
    runs = {0: (1, 2, 5), 1: (1, 2), 2: (1,), 3: (1,)} if tier == 'quick' else {0: (1, 2, 5, 17, 37), 1: (1, 2, 5, 17), 2: (1, 2, 5), 3: (1, 2)}
    for tag, rng, n in RANGES + [('d', (1, TOP - 1), 0)]:
        for delay, carry, run in shapes(runs[n]):
            for lastff in ((0, 1) if delay else (0,)):
                for op, v in ((('bit', 0), ('bit', 1), ('rare', 0), ('rare', 1)) if tag != 'd' else (('drop', 0),)):
                    if lastff and (run or carry): continue
                    st, ref, low, R, last, ok = an.enc_state(tag, rng, delay, carry, C(run), 255 if lastff else None)
                    if ok and delay and not lastff: ok = st.assume_ge0(C(254) - last)
                    if ok and lastff: ok = st.assume_ge0(C(TOP - 1) - low - R)
                    if not ok: continue
                    p = Sym('p', 1, THR - 1)
                    if op == 'bit':
                        inst = enc; args = [ref, an.it.wrapnew(p, enc['body']['locals'][2]), an.bit(st, enc['body']['locals'][3], v)]
                    elif op == 'rare': inst = rare; args = [ref, C(v)]
                    elif not drop: continue
                    else: inst = drop[0]; args = [ref]
                    outs = an.run(inst, args, st); base = 'encoder-drop' if op == 'drop' else 'encode_' + op
                    verdicts(an, base, inst, outs, 'writer')
                    # every digit shifted out is written or still pending, also when the writer takes fewer bytes than offered
                    for o in outs:
                        if o.kind != 'ret': continue
                        low2, R2, run2, last2, delay2, carry2 = an.pend(o.st, ref)
                        k0 = (run + 1) if delay else 0
                        for s2, (A2, k2) in an.spec(o.st, lambda st: an.number(st, delay2, carry2, run2, last2)):
                            w = an.written(s2)
                            if op == 'drop': an.ob_true(base + '/none-lost', 'every pending digit and the four of the interval base are written once finishing returns', inst, s2, len(w) == k0 + 4,
                                                        '%d digits written, %d due' % (len(w), k0 + 4))
                            else: an.ob_true(base + '/none-lost', 'every digit is written once or still pending when the operation returns', inst, s2, len(w) + k2 == k0 + n,
                                             '%d digits written and %d pending, %d due' % (len(w), k2, k0 + n))

def decoder_faults(prog, rep, tier):
    an = Coder(prog, rep); an.ctx.io_fail = True
    new = an.fn(DEC + 'new'); dec = an.fn(DEC + 'decode_bit'); rare = an.fn(DEC + 'decode_rare_event')
    def nread(st): return sum(len(e[1]) for e in st.events if e[0] == 'r')
    outs = an.run(new, [VLazy(new['body']['locals'][1], 'reader')], State(an.ctx))
    seen = verdicts(an, 'decoder-new', new, outs, 'reader')
    for o in outs:
        if o.kind == 'ret': an.ob_true('decoder-new/none-invented', 'a decoder is created from four bytes read', new, o.st, nread(o.st) == 4, '%d bytes read' % nread(o.st))
    t = an.adt(DECT); fs = {f[0]: i for i, f in enumerate(t['variants'][0]['fields'])}
    for f in ('rc_buffer', 'rc_range', 'next_high_bit'):
        if f not in fs: raise Undecided('decoder state field ' + f)
    for tag, rng, n in RANGES:
        for op in ('bit', 'rare'):
            st = State(an.ctx); inst = dec if op == 'bit' else rare
            ref = an.obj(st, DECT, 'dec' + tag)
            R = Sym('range' + tag, rng[0], rng[1]); buf = Sym('buf', 0, TOP - 1); h = Sym('nexthigh', 0, 1)
            for k, x in (('rc_buffer', buf), ('rc_range', R), ('next_high_bit', h)): ip.store(st, an.ctx, ref.cell, (('f', fs[k]),), x)
            if not st.assume_ge0(R - buf - 1): continue
            p = Sym('p', 1, THR - 1)
            outs = an.run(inst, [ref] + ([an.it.wrapnew(p, inst['body']['locals'][2])] if op == 'bit' else []), st)
            base = 'decode_' + op
            verdicts(an, base, inst, outs, 'reader')
            for o in outs:
                if o.kind == 'ret':
                    an.ob_true(base + '/none-invented', 'each code byte shifted in was read', inst, o.st, nread(o.st) == n, '%d bytes read, %d shifted in' % (nread(o.st), n))
