"""C10: packed bit histories keep exactly the recent bits / the last three run lengths."""
from harness import *
RB = 'history::state::recent_bits::RecentBitsHistory'; BR = 'history::state::bits_runs::BitsRunsTracker'; CAP = 15; MAXRUN = 1000

def pack(bits):
    r = ONE
    for b in bits: r = r * 2 + b
    return r

def recent(prog, rep, tier):
    an = An(prog, rep); t = an.adt(RB)['id']
    raw = an.fn(RB + '::new_unchecked'); upd = an.fn(RB + '::updated'); run = an.fn(RB + '::for_bit_run'); node = an.fn(RB + '::for_new_node'); last7 = an.fn(RB + '::last_7_bits')
    val = an.fn(RB + '::is_valid'); hist = an.fn(RB + '::histogram')
    def mk(st, bits):
        (s2, v), = an.call(None, raw, [pack(bits)], st); return s2, v
    def same(key, rule, f, st, v, bits):
        s2, w = mk(st, bits)
        an.ob_eq(key, rule, f, s2, an.leaf(s2, v), an.leaf(s2, w))
    for n in range(CAP + 1):
        bits = [Sym('b%d' % i, 0, 1) for i in range(n)]; b = Sym('next', 0, 1)
        st, v = mk(State(an.ctx), bits); ref = an.cell(st, v)
        for u, w in an.call('recent/updated', upd, [ref, an.bit(b)], st.clone()):
            same('recent/updated', 'a new bit is appended; once 15 bits are held the oldest is dropped', upd, u, w, (bits + [b])[-CAP:])
        for u, w in an.call('recent/last7', last7, [ref], st.clone()):
            def spec(x):
                if n < 7: return pack(bits)
                return C(128) + pack(bits[-7:]) - 128
            an.ob_eq('recent/last7', 'the last seven bits follow a leading one, which marks where a shorter history begins', last7, u, an.leaf(u, w), spec(u))
        for u, w in an.call('recent/valid', val, [ref], st.clone()):
            an.ob_eq('recent/valid', 'every history is valid', val, u, an.leaf(u, w), ONE)
        if n <= 15:
            cnt = ZERO
            for x in bits: cnt = cnt + x
            for u, w in an.call('recent/histogram', hist, [ref], st.clone()):
                an.ob_eq('recent/histogram', 'the histogram holds the number of ones and of zeros', hist, u, an.leaf(u, w), cnt * 16 + (C(n) - cnt))
    for bit in (0, 1):
        for lo, hi in [(i, i) for i in range(CAP + 1)] + [(CAP + 1, 65535)]:
            n = C(lo) if lo == hi else Sym('run', lo, hi); k = min(lo, CAP)
            for u, w in an.call('recent/for_bit_run', run, [an.bit(bit), n], State(an.ctx)):
                same('recent/for_bit_run', 'a run of equal bits is that many copies of the bit, at most 15', run, u, w, [C(bit)] * k)
            for u, w in an.call('recent/for_new_node', node, [an.bit(bit), n], State(an.ctx)):
                same('recent/for_new_node', 'a new node holds the run of the opposite bit followed by the new bit', node, u, w, ([C(1 - bit)] * k + [C(bit)])[-CAP:])
    # the reserved value
    (st, v), = an.call(None, raw, [ZERO], State(an.ctx)); ref = an.cell(st, v)
    for u, w in an.call('recent/invalid', val, [ref], st.clone()): an.ob_eq('recent/invalid', 'the reserved value is not valid', val, u, an.leaf(u, w), ZERO)

GET = ('last_bit', 'last_bit_run_length', 'opposite_bit_run_length', 'last_bit_previous_run_length')
def runs(prog, rep, tier):
    an = An(prog, rep); g = [an.fn(BR + '::' + x) for x in GET]
    upd = an.fn(BR + '::updated'); single = an.fn(BR + '::is_single_bit_run')
    def view(st, v):
        """(state, what the getters report) for a tracker value"""
        ref = an.cell(st, v); cur = [(st, [])]
        for f in g: cur = [(t, out + [an.leaf(t, w)]) for s, out in cur for t, w in an.call(None, f, [ref], s)]
        return cur
    def same(key, rule, f, st, v, want):
        for t, got in view(st.clone(), v):
            for a, b, n in zip(got, want, GET): an.ob_eq(key, rule, f, t, a, b, n)
    make = an.fn(BR + '::for_bit_run')            # through the public operations alone
    for b in (0, 1):
        for n in (Sym('run', 1, MAXRUN - 1), C(MAXRUN)):
            want = [C(b), n, ZERO, ZERO]; cur = [(st, v) for st, v in an.call('runs/sequence', make, [an.bit(b), n], State(an.ctx))]
            for x in (1 - b, 1 - b, b, b, 1 - b):
                cur = [r for st, v in cur for r in an.call('runs/sequence', upd, [an.cell(st, v), an.bit(x)], st)]
                want = [want[0], want[1] + 1, want[2], want[3]] if want[0] == C(x) else [C(x), ONE, want[1], want[2]]
                for st, v in cur: same('runs/sequence', 'after a run and further bits the tracker reports exactly the last three runs', upd, st, v, want)
    l1, l2, l3 = [Sym('run%d' % i, 0, MAXRUN) for i in (1, 2, 3)]
    for lb in (0, 1):
      anyv = an.val(an.adt(BR)['id'], C(lb) + l1 * 2 + l2 * (1 << 11) + l3 * (1 << 21))
      for st, got in view(State(an.ctx), anyv):
        last, r1, r2, r3 = C(lb), l1, l2, l3; ref = an.cell(st, anyv)
        for a, b in zip(got, (last, r1, r2, r3)):
            if not st.prove_eq(a, b): raise Undecided('layout of the packed run lengths')
        for b in (0, 1):
            for t, v in an.call('runs/updated', upd, [ref, an.bit(b)], st.clone()):
                if b == lb:
                    for u, w in an.spec(t, lambda u: C(MAXRUN) if ip.decide_ge0(u, r1 - MAXRUN) else r1 + 1):
                        same('runs/same-bit', 'a repeated bit lengthens the last run, up to 1000, and changes nothing else', upd, u, v, [last, w, r2, r3])
                else: same('runs/other-bit', 'an opposite bit starts a run of one and shifts the older run lengths back', upd, t, v, [C(b), ONE, r1, r2])
        for t, v in an.call('runs/single', single, [ref], st.clone()):
            def spec(u): return ONE if ip.decide_eq0(u, r2) and ip.decide_eq0(u, r3) else ZERO
            for u, w in an.spec(t, spec): an.ob_eq('runs/single', 'a history is a single run exactly when no older run is recorded', single, u, an.leaf(u, v), w)
    new = an.fn(BR + '::new')
    for st, v in an.call('runs/new', new, [], State(an.ctx)): same('runs/new', 'a new tracker has no runs', new, st, v, [ZERO] * 4)
    for bit in (0, 1):
        for lo, hi in ((0, 0), (1, MAXRUN - 1), (MAXRUN, 65535)):
            n = Sym('run', lo, hi) if lo != hi else C(lo); capped = n if hi < MAXRUN else C(MAXRUN)
            f = an.fn(BR + '::for_bit_run')
            for st, v in an.call('runs/for_bit_run', f, [an.bit(bit), n], State(an.ctx)):
                same('runs/for_bit_run', 'a run of equal bits has that length, at most 1000', f, st, v, [C(bit), capped, ZERO, ZERO])
            if not lo: continue
            f = an.fn(BR + '::for_new_node')
            for st, v in an.call('runs/for_new_node', f, [an.bit(bit), n], State(an.ctx)):
                same('runs/for_new_node', 'a new node has a run of one after the run of the opposite bit', f, st, v, [C(bit), ONE, capped, ZERO])
