"""C20: the driver codes every byte of its input once and reports the cost of exactly these predictions."""
from harness import *
from fractions import Fraction as Fr
import math
PR = "demixer::predictor::Predictor::<'a>::"; ONE23 = 1 << 23

# ---------------------------------------------------------------- real value of a floating-point expression: quotient of polynomials over atoms
LIM = 4000
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pmul(a, b):
    r = {}
    if len(a) * len(b) > LIM: raise Undecided('large real expression')
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)); v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r
def K(x): return {(): Fr(x)} if x else {}
class Real:
    """atoms get an identity by their canonical form; val gives them a number for confirming a difference"""
    def __init__(s, st): s.st = st; s.memo = {}; s.names = {}
    def atom(s, *k):
        if k not in s.names: s.names[k] = len(s.names)
        return {(s.names[k],): Fr(1)}
    def frac(s, n, d):
        """the quotient, with a constant denominator divided out"""
        if not d: raise Undecided('division by zero')
        if len(d) == 1 and () in d: return {m: c / d[()] for m, c in n.items()}, K(1)
        return n, d
    def key(s, q):
        n, d = q
        if d == K(1): return tuple(sorted(n.items())), ()
        # a common factor: normalised by the leading coefficient of the denominator
        l = d[max(d)]
        return tuple(sorted((m, c / l) for m, c in n.items())), tuple(sorted((m, c / l) for m, c in d.items()))
    def of(s, e):
        if e in s.memo: return s.memo[e]
        r = s.memo[e] = s.of_(e)
        return r
    def of_(s, e):
        k = e[0]
        if k == 'k':
            if e[1] != e[1] or e[1] in (float('inf'), float('-inf')): return s.atom('k', str(e[1])), K(1)
            return K(Fr(e[1])), K(1)
        if k == 'int':
            p = s.st.norm(Poly(dict(e[1]))); r = {}
            for m, c in p.t.items():
                t = K(c)
                for a in m: t = pmul(t, s.atom('t', a))
                r = padd(r, t)
            return r, K(1)
        if k in ('Add', 'Sub'):
            (a, b), (c, d) = s.of(e[1]), s.of(e[2]); sg = 1 if k == 'Add' else -1
            if b == d: return s.frac(padd(a, c, sg), b)
            return s.frac(padd(pmul(a, d), pmul(c, b), sg), pmul(b, d))
        if k == 'Mul':
            (a, b), (c, d) = s.of(e[1]), s.of(e[2]); return s.frac(pmul(a, c), pmul(b, d))
        if k == 'Div':
            (a, b), (c, d) = s.of(e[1]), s.of(e[2]); return s.frac(pmul(a, d), pmul(b, c))
        if k == 'Neg':
            a, b = s.of(e[1]); return padd({}, a, -1), b
        if k in ('log2', 'ln', 'log10'):
            q = s.of(e[1]); r = s.atom('log2', s.key(q))
            f = {'log2': Fr(1), 'ln': Fr(math.log(2)), 'log10': Fr(math.log10(2))}[k]
            return {m: c * f for m, c in r.items()}, K(1)
        return s.atom('e', e), K(1)
    def same(s, a, b):
        """equal as real numbers (coefficients up to the precision of f64); False only when clearly different; None when unclear"""
        (n1, d1), (n2, d2) = s.of(a), s.of(b)
        x, y = pmul(n1, d2), pmul(n2, d1); ks = set(x) | set(y)
        if all(abs(x.get(k, 0) - y.get(k, 0)) <= Fr(1, 10**12) * max(abs(x.get(k, 0)), abs(y.get(k, 0))) for k in ks): return True
        for s.point in range(12):
            v = [s.val(a), s.val(b)]
            if None in v or not s.admissible(): continue
            if abs(v[0] - v[1]) > 1e-6 * max(1.0, abs(v[0]), abs(v[1])): return False
        return None
    def admissible(s):
        """the comparisons of floats decided on this path hold at this point, and so do the facts about integers"""
        for k, c in s.st.choice.items():
            if not (isinstance(k, tuple) and k and k[0] == 'fcmp'): continue
            x, y = s.val(k[2]), s.val(k[3])
            if x is None or y is None: return False
            if {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y, 'Eq': x == y, 'Ne': x != y}[k[1]] != bool(c): return False
        for q, lo, hi in s.st.facts.values():
            x = s.val(('int', q.key()))
            if x is None or x < lo or x > hi: return False
        return True
    def share(s, a):
        if s.point < 3: return (0.5, 0.0, 1.0)[s.point]
        return (((a + 7 * s.point) * 2654435761) % 1000003) / 1000003.0
    def val(s, e):
        try:
            k = e[0]
            if k == 'k': return e[1]
            if k == 'int':
                p = s.st.norm(Poly(dict(e[1]))); r = 0.0
                for m, c in p.t.items():
                    t = float(c)
                    for a in m:
                        lo, hi = s.st.atom_iv(a, 2); t *= int(lo + (hi - lo) * s.share(a))
                    r += t
                return r
            if k in ('Add', 'Sub', 'Mul', 'Div'):
                a, b = s.val(e[1]), s.val(e[2])
                if a is None or b is None: return None
                return {'Add': a + b, 'Sub': a - b, 'Mul': a * b, 'Div': a / b if b else None}[k]
            a = s.val(e[1])
            if a is None: return None
            if k in ('max', 'min'):
                b = s.val(e[2]); return None if b is None else max(a, b) if k == 'max' else min(a, b)
            return {'Neg': lambda: -a, 'log2': lambda: math.log2(a), 'ln': lambda: math.log(a), 'log10': lambda: math.log10(a), 'abs': lambda: abs(a)}[k]()
        except (ValueError, KeyError, ZeroDivisionError, IndexError, TypeError, OverflowError): return None

# ---------------------------------------------------------------- what is printed
def text(it, st, v):
    v = models.F(it, st, v)
    if isinstance(v, VRef): v = ip.load(st, it.ctx, v.cell, v.path) if v.view is None else ip.load(st, it.ctx, v.cell, v.path)
    if isinstance(v, VStr): return v.s
    raise Undecided('text %s' % type(v).__name__)
def octets(it, st, r):
    v = models.F(it, st, r)
    if isinstance(v, VRef): v = ip.load(st, it.ctx, v.cell, v.path)
    if not isinstance(v, VSeq): raise Undecided('template')
    n = st.cst(v.len); return bytes(st.cst(models.F(it, st, ip.seq_read(st, it.ctx, v, C(i)))) for i in range(n))
def pieces(b, args):
    """literal texts and (options, value) pairs of a formatting template"""
    out = []; i = 0; k = 0
    while i < len(b):
        n = b[i]; i += 1
        if n == 0: break
        if n < 0x80: out.append(b[i:i + n].decode('utf8', 'replace')); i += n; continue
        if n == 0x80:
            l = b[i] | b[i + 1] << 8; i += 2; out.append(b[i:i + l].decode('utf8', 'replace')); i += l; continue
        if n < 0xc0: raise Undecided('template')
        o = {}
        for bit, nm, w in ((1, 'flags', 4), (2, 'width', 2), (4, 'precision', 2), (8, 'arg', 2)):
            if n & bit: o[nm] = int.from_bytes(b[i:i + w], 'little'); i += w
        if n & 48: raise Undecided('dynamic width')
        if 'arg' in o: k = o['arg']
        out.append((o, args[k])); k += 1
    return tuple(out)
def fmt_hook(it, st, inst, a, rty, span):
    """formatting is followed into what is printed: texts and values"""
    p = inst['path']
    if p.startswith('core::fmt::rt::Argument') and '::new_' in p:
        r = models.F(it, st, a[0]); v = r
        while isinstance(v, VRef): v = models.F(it, st, ip.load(st, it.ctx, v.cell, v.path))
        return VOpaque('fmtarg', (p.rsplit('::new_', 1)[1], v))
    if p.startswith('std::fmt::Arguments') or p.startswith('core::fmt::Arguments'):
        n = p.rsplit('::', 1)[1]
        if n in ('from_str', 'from_str_nonconst', 'new_const'): return VOpaque('fmtargs', (text(it, st, a[0]),))
        if n == 'new':
            r = models.F(it, st, a[1]); k = st.cst(models.seq_len_of(it, st, r)); vs = []
            for i in range(k):
                e = models.elem_ref(r, C(i)); v = models.F(it, st, ip.raw_load(st, it.ctx, e.cell, e.path))
                vs.append(v.data if isinstance(v, VOpaque) and v.tag == 'fmtarg' else ('?', v))
            return VOpaque('fmtargs', pieces(octets(it, st, a[0]), vs))
    if p in ('std::io::_print', 'std::io::_eprint'):
        v = models.F(it, st, a[0])
        if p.endswith('_print') and not p.endswith('_eprint'): st.events = st.events + (('print', v.data if isinstance(v, VOpaque) and v.tag == 'fmtargs' else (('?', None),)),)
        return UNIT
    return NotImplemented
def lines(events):
    """what is printed, by line: list of pieces each"""
    out = [[]]
    for e in events:
        if e[0] != 'print': continue
        for x in e[1]:
            if not isinstance(x, str): out[-1].append(x); continue
            for i, t in enumerate(x.split('\n')):
                if i: out.append([])
                if t: out[-1].append(t)
    return [l for l in out if l]
def labelled(ls, label):
    """the printed value of the line whose text starts with the label"""
    r = []
    for l in ls:
        if isinstance(l[0], str) and l[0].lower().startswith(label): r.append([x[1][1] for x in l if not isinstance(x, str)])
    return r

class Driver(An):
    def __init__(s, prog, rep, nargs, files):
        An.__init__(s, prog, rep)
        s.nargs = nargs; s.files = files; s.ctx.hooks = [s.outside, fmt_hook]; s.ctx.io_fail = True
    def ev(s, st, *e): st.events = st.events + (e,)
    def ok(s, rty, v): return VAgg(rty, models.variant_index(s.it, rty, 'Ok'), (v,))
    def err(s, rty): return VAgg(rty, models.variant_index(s.it, rty, 'Err'), (VOpaque('ioerror'),))
    def choose(s, st, n):
        key = ('io', len(st.events)); k = st.choice.get(key)
        if k is None: raise Fork([('choice', key, i) for i in range(n)])
        return k
    def nread(s, st): return sum(1 for e in st.events if e[0] == 'byte')
    def read(s, st):
        """what reading the next byte gives: a byte, the end, an error (None/'end'/Poly)"""
        n = s.nread(st)
        if any(e[0] == 'end' for e in st.events): return 'end'
        if s.choose(st, 2) == 1: s.ev(st, 'ioerr'); return 'err'
        if n >= len(s.files): s.ev(st, 'end'); return 'end'
        b = s.files[n]; s.ev(st, 'byte', b); return b
    def outside(s, it, st, inst, a, rty, span):
        p = inst['path']; n = p.rsplit('::', 1)[-1]
        if p.startswith('demixer::predictor::Predictor::') and n in ('new', 'start_new_byte', 'predict', 'update', 'print_state'):
            if n == 'new': s.ev(st, 'new'); return VOpaque('predictor', len(st.events))
            r = models.F(it, st, a[0]); v = ip.load(st, it.ctx, r.cell, r.path)
            who = v.data if isinstance(v, VOpaque) else None
            if n == 'predict':
                k = sum(1 for e in st.events if e[0] == 'predict'); x = Sym('p%d' % k, 1, ONE23 - 1); s.ev(st, 'predict', who, x); return s.val(rty, x)
            if n == 'update':
                b = s.leaf(st, models.F(it, st, a[1])); s.ev(st, 'update', who, b); return UNIT
            s.ev(st, n, who); return UNIT
        if p == 'demixer::lut::LookUpTables::new': return VOpaque('luts')
        if p == 'std::env::args': return VOpaque('args')
        if p.endswith('::collect') and isinstance(models.F(it, st, a[0]), VOpaque) and models.F(it, st, a[0]).tag == 'args':
            e = s.p.ty[rty]['targs'][0]; v = tuple(VOpaque('arg', i) for i in range(s.nargs))
            return VVec(VSeq(e, C(s.nargs), ('t', v)), C(max(s.nargs, 4)))
        if p == '<std::env::Args as std::iter::Iterator>::nth' or p == '<std::env::Args as std::iter::Iterator>::next' or p == 'std::iter::Iterator::nth':
            raise Undecided('argument iteration')
        if p == 'std::fs::File::open' or p == 'std::fs::read':
            v = models.F(it, st, a[0])
            while isinstance(v, VRef): v = models.F(it, st, ip.load(st, it.ctx, v.cell, v.path))
            if s.choose(st, 2) == 1: s.ev(st, 'noopen'); return s.err(rty)
            s.ev(st, 'open', v.data if isinstance(v, VOpaque) and v.tag == 'arg' else None)
            if p == 'std::fs::read': return s.whole(st, rty)
            return s.ok(rty, VOpaque('file'))
        if p.startswith('std::io::BufReader::<R>::') and n in ('new', 'with_capacity'): return VOpaque('file')
        if p == 'std::io::Read::bytes': return VOpaque('bytes')
        if p == '<std::io::Bytes<R> as std::iter::Iterator>::next':
            x = s.read(st)
            if x == 'end': return models.mk_none(it, rty)
            t = s.p.ty[rty]['targs'][0]
            return models.mk_some(it, rty, s.err(t) if x == 'err' else s.ok(t, x))
        if p.startswith('std::time::'):
            if n == 'now': return VOpaque('time')
            if n == 'duration_since': return s.ok(rty, VOpaque('duration'))
            if n == 'elapsed': return s.ok(rty, VOpaque('duration')) if s.p.ty[rty]['path'].endswith('Result') else VOpaque('duration')
            if n in ('as_secs', 'subsec_nanos', 'subsec_micros', 'subsec_millis', 'as_millis', 'as_micros', 'as_nanos'):
                t = s.p.ty[rty]; k = len(st.events); s.ev(st, 'clock'); return Sym('clock%d' % k, 0, 999999999)
            if n in ('as_secs_f64', 'as_secs_f32'): k = len(st.events); s.ev(st, 'clock'); return VFloat(('sym', ('clock', k)))
        return NotImplemented
    def whole(s, st, rty):
        """a whole file read at once"""
        vs = []
        while True:
            x = s.read(st)
            if x == 'err': return s.err(rty)
            if x == 'end': break
            vs.append(x)
        t = s.p.ty[rty]['targs'][0]
        return s.ok(rty, VVec(VSeq(s.p.ty[t]['targs'][0], C(len(vs)), ('t', tuple(vs))), C(max(8, len(vs)))))

def digits(tag): return sum((Sym('%s_%d' % (tag, i), 0, 1) * (1 << i) for i in range(8)), ZERO)

def driver(prog, rep, tier):
    two = Sym('q_1', 0, 1) * 2 + Sym('q_6', 0, 1) * 64
    inputs = [[], [digits('b')], [C(0xff), C(0), C(0xa5)], [C(0x3c) , two + 1]] + ([[digits('b'), two]] if tier == 'thorough' else [])
    for inp in inputs:
        an = Driver(prog, rep, 2, inp); f = an.fn('main'); done = 0
        for o in an.run(f, [], State(an.ctx)):
            st = o.st; ev = st.events; failed = any(e[0] in ('noopen', 'ioerr') for e in ev)
            if o.kind == 'cut': rep.add('driver/steps', 'the driver can be followed', an.span(f), 'undecided', str(o.info[:1])); continue
            if failed:
                what = 'a file which cannot be opened' if ev[-1][0] == 'noopen' or any(e[0] == 'noopen' for e in ev) else 'a read error'
                shown = [l for l in lines(ev)]
                an.ob_true('errors/reported', 'an input which cannot be read ends the program with an error', f, st, o.kind == 'panic', what + ' is not reported')
                an.ob_true('errors/silent', 'no result is printed for an input which could not be read', f, st, not shown, what + ' prints results')
                continue
            if o.kind == 'panic':
                an.ob_nopanic('driver/no-panic', 'a readable input is processed', f, [o]); continue
            an.ob_nopanic('driver/no-panic', 'a readable input is processed', f, [])
            done += 1
            opened = [e[1] for e in ev if e[0] == 'open']
            an.ob_true('driver/file', 'the file named by the first argument is read', f, st, opened == [1] or None in opened, 'opens argument %s' % opened)
            steps = [e for e in ev if e[0] in ('new', 'start_new_byte', 'predict', 'update')]
            got = [e for e in ev if e[0] == 'byte']
            an.ob_true('driver/all-bytes', 'every byte of the input is read', f, st, len(got) == len(inp), '%d of %d bytes read' % (len(got), len(inp)))
            if len(got) != len(inp): continue
            want = []
            for b in inp:
                want.append(('start_new_byte',))
                for i in range(7, -1, -1): want += [('predict',), ('update', st.fdiv(st.norm(b), 1 << i) - st.fdiv(st.norm(b), 2 << i) * 2)]
            mk = [e for e in steps if e[0] == 'new']; real = [e for e in steps if e[0] != 'new']
            an.ob_true('driver/one-predictor', 'one predictor sees the whole input', f, st, len(mk) == 1 or not real, '%d predictors' % len(mk))
            shape = [e[0] for e in real]
            if not an.ob_true('driver/order', 'each byte is started once and each of its eight bits predicted once and then learned', f, st, shape == [w[0] for w in want], 'steps ' + ' '.join(shape[:20])): continue
            for e, w in zip(real, want):
                if e[0] == 'update': an.ob_eq('driver/bits', 'the bits of each byte are learned highest first', f, st, e[2], w[1], 'bit learned')
            ps = [e[2] for e in real if e[0] == 'predict']; bs = [e[2] for e in real if e[0] == 'update']
            cost = ('k', 0.0)
            for p, b in zip(ps, bs):
                c = st.cst(b)
                if c is None: cost = None; break
                cost = ('Sub', cost, ('log2', ('Div', ('int', (p if c == 0 else C(ONE23) - p).key()), ('k', float(ONE23)))))
            if cost is None: rep.add('report', 'the costs reported are those of the predictions', an.span(f), 'undecided', 'bits not decided on this path'); continue
            n = ('k', float(len(inp))); R = Real(st); ls = lines(ev)
            for label, w in (('total cost in bits', cost), ('total cost in bytes', ('Div', cost, ('k', 8.0))), ('input length', n), ('average cost', ('Div', cost, n)), ('compression ratio', ('Div', ('Mul', n, ('k', 8.0)), cost))):
                if not inp and label in ('average cost', 'compression ratio'): continue
                vs = labelled(ls, label)
                if len(vs) != 1 or len(vs[0]) != 1: rep.add('report/' + label, 'the figures reported are those of the predictions made', an.span(f), 'undecided', 'line not found'); continue
                v = vs[0][0]
                e = v.e if isinstance(v, VFloat) else ('int', v.key()) if isinstance(v, Poly) else None
                if e is None: rep.add('report/' + label, 'the figures reported are those of the predictions made', an.span(f), 'undecided', 'value %r' % (v,)); continue
                r = R.same(e, w)
                if r is None: rep.add('report/' + label, 'the figures reported are those of the predictions made', an.span(f), 'undecided', 'expressions not comparable')
                else: an.ob_true('report/' + label, 'the figures reported are those of the predictions made', f, st, r, 'the value of "%s" is not that of the predictions' % label)
        if not done: rep.add('driver/steps', 'the driver can be followed to its end', an.span(f), 'undecided', 'no complete path')
    an = Driver(prog, rep, 1, [C(65)]); f = an.fn('main')
    an.ob_refuses('errors/arguments', 'a missing file name is refused', f, an.run(f, [], State(an.ctx)))
