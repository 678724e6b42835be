"""Obligation bookkeeping, analysis entry points, and the check driver shared by all properties."""
import os, sys, json, time, random, subprocess, tempfile, shutil
from terms import *
from state import State, Infeasible
from interp import *
import interp as ip, models

class Missing(Exception): pass
DEADLINE = None
class TimeUp(Undecided): pass
def watchdog(limit):
    """end whatever group of obligations is being analysed when the time is up"""
    import signal
    def ring(sig, frame): raise TimeUp('time budget')
    signal.signal(signal.SIGALRM, ring); signal.setitimer(signal.ITIMER_REAL, limit, 3)
def unwatch():
    import signal
    signal.setitimer(signal.ITIMER_REAL, 0)
def section(rep, key, f):
    """run one group of obligations; whatever cannot be analysed is recorded as undecided, never as a violation"""
    if DEADLINE and time.time() > DEADLINE: rep.add(key + '/analysis', 'the analysis of this group completes', '-', 'undecided', 'time budget'); return
    try: f()
    except Missing as e: rep.add(key + '/anchor', 'the analysed construct is present', '-', 'undecided', 'missing ' + str(e))
    except (Undecided, Infeasible) as e: rep.add(key + '/analysis', 'the analysis of this group completes', '-', 'undecided', str(e))
    except Fork: rep.add(key + '/analysis', 'the analysis of this group completes', '-', 'undecided', 'undecided comparison in the specification')
    except PanicExc as e: rep.add(key + '/analysis', 'the analysis of this group completes', '-', 'undecided', 'specification read ' + e.kind)
    except RecursionError: rep.add(key + '/analysis', 'the analysis of this group completes', '-', 'undecided', 'term too deep')
    except Exception as e:
        import traceback
        rep.add(key + '/analysis', 'the analysis of this group completes', '-', 'undecided', 'internal: ' + traceback.format_exc()[-500:])


class Ob:
    __slots__ = ('key', 'rule', 'where', 'status', 'detail', 'n')
    def __init__(s, key, rule, where, status, detail): s.key = key; s.rule = rule; s.where = where; s.status = status; s.detail = detail; s.n = 1

class Report:
    """obligations of one property"""
    def __init__(s, prop): s.prop = prop; s.obs = {}; s.funcs = set(); s.paths = 0; s.notes = []; s.meas = {}
    def add(s, key, rule, where, status, detail=''):
        o = s.obs.get(key)
        rank = {'discharged': 0, 'undecided': 1, 'violated': 2}
        if o is None: s.obs[key] = Ob(key, rule, where, status, detail)
        else:
            o.n += 1
            if rank[status] > rank[o.status]: o.status = status; o.detail = detail; o.where = where
    def count(s, st): return sum(1 for o in s.obs.values() if o.status == st)
    def meas_add(s, k, n=1): s.meas[k] = s.meas.get(k, 0) + n

class Part:
    """a report that keeps the obligations of one property of an analysis shared by several"""
    def __init__(s, rep, keep): s.rep = rep; s.keep = keep
    def add(s, key, rule, where, status, detail=''):
        if s.keep(key): s.rep.add(key, rule, where, status, detail)
    def __getattr__(s, n): return getattr(s.rep, n)
    def __setattr__(s, n, v):
        if n in ('rep', 'keep'): object.__setattr__(s, n, v)
        else: setattr(s.rep, n, v)

# ---------------------------------------------------------------- witnesses: admissible valuations of the unknowns
def free_syms(st, polys):
    out = set()
    for p in polys:
        for a in p.deps(): out.add(a)
    return out
def witness(st, polys, bad, tries=400, seed=1):
    """An admissible valuation of the unknowns of an abstract state (within the state's ranges, facts, disequalities)
    for which bad(values of polys) holds.  Used only to confirm that an abstract counterexample is not an artefact
    of imprecision; returns None if none was found."""
    rnd = random.Random(seed)
    polys = [st.norm(p) for p in polys]
    need = free_syms(st, polys)
    for k, (q, lo, hi) in st.facts.items(): need |= st.norm(q).deps()
    for a in list(st.iv): need |= ATOMS[a].deps
    for k in st.neq:
        if k[0] == 'p': need |= st.norm(k[1]).deps()
    work = list(need)
    while work:
        a = work.pop()
        if a in st.sub:
            for d in st.sub[a].deps():
                if d not in need: need.add(d); work.append(d)
    base = sorted(a for a in need if a not in st.sub and ATOMS[a].kind == 'sym')
    rng = {a: st.atom_iv(a, 2) for a in base}
    for a in base:
        if rng[a][0] > rng[a][1]: return None
    facts = [(st.norm(q), lo, hi) for q, lo, hi in st.facts.values()]
    ivs = [(a, iv) for a, iv in st.iv.items() if ATOMS[a].kind != 'sym']
    neqs = [st.norm(k[1]) for k in st.neq if k[0] == 'p']
    subs = [a for a in need if a in st.sub and ATOMS[a].kind == 'sym']
    osubs = [(a, st.sub[a]) for a in need if a in st.sub and ATOMS[a].kind != 'sym']
    def pick(a, mode):
        lo, hi = rng[a]
        r = rnd.random()
        if r < 0.2: return lo
        if r < 0.4: return hi
        if r < 0.5: return min(hi, lo + rnd.randrange(0, 4))
        if r < 0.6: return max(lo, hi - rnd.randrange(0, 4))
        if r < 0.75 and hi > lo:
            b = rnd.randrange(0, (hi - lo).bit_length() + 1)
            return min(hi, lo + rnd.randrange(0, 1 << b) if b else lo)
        return rnd.randint(lo, hi)
    def check(val):
        memo = {}
        full = dict(val)
        for _ in range(4):
            for a in subs:
                if a in full: continue
                p = st.sub[a]
                if all(d in full for d in p.deps() if ATOMS[d].kind == 'sym'): full[a] = evalp(p, full)
        if any(a not in full for a in subs): return None, 1 << 200, full, memo
        for a in subs:
            if not ATOMS[a].lo <= full[a] <= ATOMS[a].hi: return None, 1, full, memo
        pen = 0
        for q, lo, hi in facts:
            v = evalp(q, full, memo)
            if v < lo: pen += lo - v
            if v > hi: pen += v - hi
        for a, (lo, hi) in ivs:
            v = eval_atom(a, full, memo)
            if v < lo: pen += lo - v
            if v > hi: pen += v - hi
        for a, p in osubs:
            pen += abs(eval_atom(a, full, memo) - evalp(p, full, memo))
        for q in neqs:
            if evalp(q, full, memo) == 0: pen += 1
        return pen == 0, pen, full, memo
    cur = None; curpen = None
    for t in range(tries):
        if cur is None or t % 40 == 0:
            cand = {a: pick(a, t) for a in base}; cur = None
        else:
            cand = dict(cur)
            for a in rnd.sample(base, min(len(base), rnd.choice((1, 1, 2)))): 
                if rnd.random() < 0.5: cand[a] = pick(a, t)
                else:
                    lo, hi = rng[a]; w = max(1, hi - lo); k = rnd.randrange(0, w.bit_length() + 1)
                    cand[a] = max(lo, min(hi, cand[a] + rnd.choice((-1, 1)) * rnd.randrange(0, (1 << k) + 1)))
        ok, pen, full, memo = check(cand)
        if ok:
            v = [evalp(p, full, memo) for p in polys]
            if bad(*v):
                return {ATOMS[a].name: full[a] for a in sorted(need) if a in full and ATOMS[a].kind == 'sym'}
            pen = -1
        if cur is None or pen <= curpen or pen == -1: cur = cand; curpen = max(pen, 0)
        if not base: break
    return None

def forks(st, fn, limit=2000):
    """all (state, value) pairs of a specification function evaluated on a state, partitioning where it must"""
    out = []; work = [st.clone()]; n = 0
    while work:
        s = work.pop(); n += 1
        if n > limit: raise Undecided('specification partition budget')
        try:
            c = s.clone()
            v = fn(c); out.append((c, v))
        except Fork as f:
            for a in f.alts:
                c = s.clone()
                if apply_alt(c, a): work.append(c)
        except Infeasible: pass
    return out

# ---------------------------------------------------------------- analysis of one function
class An:
    """analysis session over one program"""
    def __init__(s, prog, rep):
        s.p = prog; s.rep = rep
        s.ctx = Ctx(prog); s.it = Interp(s.ctx); s.n = 0; s.ctx.deadline = DEADLINE
    def fn(s, path, name=None, self_=None, opt=False):
        r = s.p.find(path, name, self_)
        if not r:
            if opt: return None
            raise Missing('function %s%s' % (path, ' of ' + name if name else ''))
        return r[0]
    def adt(s, path, opt=False):
        r = s.p.adt(path)
        if not r:
            if opt: return None
            raise Missing('type ' + path)
        return r[0]
    def lazy(s, ty, name, inv=None):
        return VLazy(ty, name, (), inv)
    def obj(s, st, path, name, inv=None, ty=None):
        """a by-reference receiver of the named type, contents unknown"""
        t = ty if ty is not None else s.adt(path)['id']
        cell = ('L', name, t, (), inv)
        return VRef(cell)
    def args(s, inst, names=None):
        b = inst['body']; out = []
        for i in range(b['argc']):
            nm = (names[i] if names and i < len(names) else 'arg%d' % i)
            out.append(VLazy(b['locals'][i + 1], nm))
        return out
    def run(s, inst, args, st=None, deadline=None):
        st = st or State(s.ctx)
        if deadline: s.ctx.deadline = time.time() + deadline
        s.ctx.seen = set()
        o = s.it.run(inst, args, st)
        s.rep.paths += len(o)
        s.rep.funcs |= {s.p.inst[i]['path'] for i in s.ctx.seen if s.p.inst[i]['local'] or s.p.inst[i]['crate'] == 'demixer'}
        return o
    def get(s, st, ref, *names):
        """read a field path by names; ints index; '*' derefs"""
        cell, path = ref.cell, ref.path
        v = ip.load(st, s.ctx, cell, path)
        for n in names:
            v = s.getf(st, v, n)
        return v
    def getf(s, st, v, n):
        v = ip.force(st, s.ctx, v)
        if n == '*':
            if not isinstance(v, VRef): raise Undecided('deref')
            return ip.load(st, s.ctx, v.cell, v.path)
        if isinstance(n, int):
            if isinstance(v, VAgg): return ip.force(st, s.ctx, v.fields[n])
            if isinstance(v, VVec): v = v.seq
            return ip.force(st, s.ctx, ip.seq_read(st, s.ctx, v, C(n)))
        if isinstance(n, Poly):
            if isinstance(v, VVec): v = v.seq
            return ip.force(st, s.ctx, ip.seq_read(st, s.ctx, v, n))
        if not isinstance(v, VAgg): raise Undecided('field %s of %s' % (n, type(v).__name__))
        t = s.p.ty[v.ty]
        fs = t['variants'][v.variant]['fields']
        for i, f in enumerate(fs):
            if f[0] == n: return ip.force(st, s.ctx, v.fields[i])
        raise Missing('field %s of %s' % (n, t['name']))
    def leaf(s, st, v):
        """the integer inside nested single-field wrappers"""
        if isinstance(v, ip.VEnum): return v.d
        v = ip.force(st, s.ctx, v)
        while isinstance(v, VAgg) and len(v.fields) >= 1 and not (v.ty is not None and s.p.ty[v.ty].get('adt') == 'enum'):
            v = ip.force(st, s.ctx, v.fields[0])
        if isinstance(v, VAgg):      # fieldless enum: discriminant
            return C(int(s.p.ty[v.ty]['variants'][v.variant]['discr']))
        return v
    def fieldidx(s, adt, name):
        for i, f in enumerate(adt['variants'][0]['fields']):
            if f[0] == name: return i
        raise Missing('field %s of %s' % (name, adt['path']))
    # -- obligations -------------------------------------------------------------------------------
    def span(s, inst, sp=None):
        sp = sp or inst['span']
        return '%s:%d' % (sp[0], sp[1])
    def ob_eq(s, key, rule, inst, st, got, want, detail=''):
        if isinstance(got, Poly) and isinstance(want, Poly):
            if st.prove_eq(got, want): s.rep.add(key, rule, s.span(inst), 'discharged'); return True
            if st.taint: s.rep.add(key, rule, s.span(inst), 'undecided', 'tainted: ' + ', '.join(sorted(st.taint))); return False
            w = witness(st, [got, want], lambda a, b: a != b)
            d = '%s in %s: computed %s, required %s' % (detail or key, inst['path'], show(st.norm(got)), show(st.norm(want)))
            if w is not None: s.rep.add(key, rule, s.span(inst), 'violated', d + ' e.g. ' + short(w)); return False
            s.rep.add(key, rule, s.span(inst), 'undecided', d); return False
        if got is want: s.rep.add(key, rule, s.span(inst), 'discharged'); return True
        s.rep.add(key, rule, s.span(inst), 'undecided', 'value shapes %s / %s' % (type(got).__name__, type(want).__name__))
        return False
    def ob_ge0(s, key, rule, inst, st, p, detail=''):
        if st.prove_ge0(p): s.rep.add(key, rule, s.span(inst), 'discharged'); return True
        if st.taint: s.rep.add(key, rule, s.span(inst), 'undecided', 'tainted: ' + ', '.join(sorted(st.taint))); return False
        w = witness(st, [p], lambda a: a < 0)
        d = '%s in %s: %s >= 0 not guaranteed' % (detail or key, inst['path'], show(st.norm(p)))
        if w is not None: s.rep.add(key, rule, s.span(inst), 'violated', d + ' e.g. ' + short(w)); return False
        s.rep.add(key, rule, s.span(inst), 'undecided', d); return False
    def ob_true(s, key, rule, inst, st, cond, detail=''):
        """a fact about which path was taken (events, constants): cond is a Python bool decided on this abstract path"""
        if cond: s.rep.add(key, rule, s.span(inst), 'discharged'); return True
        if st is not None and st.taint: s.rep.add(key, rule, s.span(inst), 'undecided', 'tainted: ' + ', '.join(sorted(st.taint))); return False
        if st is not None and witness(st, [], lambda: True) is None:
            s.rep.add(key, rule, s.span(inst), 'undecided', (detail or key) + ' (path not confirmed feasible)'); return False
        s.rep.add(key, rule, s.span(inst), 'violated', '%s in %s' % (detail or key, inst['path'])); return False
    def ob_nopanic(s, key, rule, inst, outs, allow=None):
        """no abstract path from admissible arguments reaches a panic"""
        ok = True
        for o in outs:
            if o.kind == 'panic':
                if allow and allow(o): continue
                ok = False
                sp = o.info[1]; at = '%s:%d' % (sp[0], sp[1]) if sp else s.span(inst)
                d = 'panic (%s) reachable at %s via %s' % (o.info[0] + (' ' + o.info[2] if o.info[2] else ''), at, o.info[3])
                if o.st.taint: s.rep.add(key, rule, at, 'undecided', d + ' tainted ' + ', '.join(sorted(o.st.taint))); continue
                w = witness(o.st, [], lambda: True)
                if w is not None: s.rep.add(key, rule, at, 'violated', d + ' e.g. ' + short(w))
                else: s.rep.add(key, rule, at, 'undecided', d)
            elif o.kind == 'cut':
                ok = False
                s.rep.add(key, rule, s.span(inst), 'undecided', '%s at %s' % (o.info[0], o.info[2]))
        if ok: s.rep.add(key, rule, s.span(inst), 'discharged')
        return ok
    def spec(s, st, fn): return forks(st, fn)
    # -- composition of calls ----------------------------------------------------------------------
    def cell(s, st, v):
        """a reference to a fresh cell holding v"""
        st.nframe += 1; c = ('h', st.nframe); st.mem[c] = v; return VRef(c)
    def val(s, ty, v): return s.it.wrapnew(v, ty)
    def argty(s, inst, i):
        t = inst['body']['locals'][i + 1]
        while s.p.ty[t]['k'] in ('ref', 'ptr'): t = s.p.ty[t]['of']
        return t
    def bit(s, v):
        if isinstance(v, Poly): return ip.VEnum(s.adt('bit::Bit')['id'], v)
        for t in s.adt('bit::Bit')['variants'] and [s.adt('bit::Bit')]:
            for i, x in enumerate(t['variants']):
                if int(x['discr']) == v: return VAgg(t['id'], i, ())
        raise Missing('Bit value %d' % v)
    def call(s, key, inst, args, st, rule='no panic for admissible inputs', allow=None):
        """the returning (state, value) pairs of a call; panics are violations of key/no-panic"""
        outs = s.run(inst, args, st)
        if key is not None: s.ob_nopanic(key + '/no-panic', rule, inst, outs, allow)
        return [(o.st, o.value) for o in outs if o.kind == 'ret']
    def method(s, path, name, self_=None, opt=False):
        """inherent or trait method of a type, wherever it is defined"""
        return s.fn(path + '::' + name, opt=opt)
    def meth(s, ty, name, opt=False):
        """the operation of that name whose receiver type is ty (an inherent, trait or provided method)"""
        r = [i for i in s.p.inst.values() if i.get('self') == ty and i['body'] and i['path'].endswith('::' + name)]
        r.sort(key=lambda i: (i['crate'] != s.p.crate, i['path']))
        if r: return r[0]
        if opt: return None
        raise Missing('%s of %s' % (name, s.p.ty[ty]['name']))
    def summary(s, table):
        """replace calls by specification functions: path -> f(st, args, rty) -> value | NotImplemented"""
        def h(it, st, inst, args, rty, span):
            f = table.get(inst['path'])
            if f is None: return NotImplemented
            return f(st, args, rty)
        s.ctx.hooks = [h] + s.ctx.hooks
    def havoc(s, st, v, adts, fresh):
        """v with every component whose type is one of the named ADTs replaced by fresh(path, i)"""
        n = [0]
        def go(v):
            v = ip.force(st, s.ctx, v)
            if isinstance(v, VAgg):
                t = s.p.ty[v.ty] if v.ty is not None else None
                if t is not None and t['k'] == 'adt' and t['path'] in adts:
                    n[0] += 1; return fresh(t, n[0] - 1)
                return VAgg(v.ty, v.variant, tuple(go(x) for x in v.fields))
            if isinstance(v, VSeq):
                c = st.cst(v.len)
                if c is None or c > 4096: raise Undecided('havoc of a sequence of unknown length')
                return VSeq(v.ety, v.len, ('t', tuple(go(ip.seq_read(st, s.ctx, v, C(i))) for i in range(c))))
            if isinstance(v, VVec): return VVec(go(v.seq), v.cap)
            if isinstance(v, VRef) and v.cell[0] == 'h' and not v.path:
                st.mem[v.cell] = go(st.mem[v.cell]); return v
            return v
        return go(v)
    def ob_refuses(s, key, rule, inst, outs):
        """every abstract path panics"""
        ok = True
        for o in outs:
            if o.kind == 'panic': continue
            ok = False
            if o.kind == 'cut': s.rep.add(key, rule, s.span(inst), 'undecided', str(o.info[0])); continue
            s.ob_true(key, rule, inst, o.st, False, 'returns normally')
        if ok: s.rep.add(key, rule, s.span(inst), 'discharged')
        return ok

def short(w):
    t = ', '.join('%s=%d' % (k, v) for k, v in list(w.items())[:8])
    return '{' + t + (', ...' if len(w) > 8 else '') + '}'
