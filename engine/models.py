"""Models of the standard-library functions the analysed code reaches (Vec, slices, iterators, intrinsics).

Every model states the documented behaviour over abstract values.  What is not modelled and has no MIR body is
havocked and taints the state: a tainted state never produces a violation.
"""
from terms import *
from interp import *
import interp as ip

M = {}
class PushModel:
    def __init__(s, fn, data): s.fn = fn; s.data = data
class TailCall:
    def __init__(s, inst, args): s.inst = inst; s.args = args
def model(*paths):
    def d(f):
        for p in paths: M[p] = f
        return f
    return d
def lookup(inst):
    m = M.get(inst['path'])
    if m is not None: return m
    p = inst['path']
    if p.startswith('core::num::<impl ') or p.startswith('std::num::<impl '):
        return M.get('num::' + p.rsplit('::', 1)[1])
    if p.startswith('std::intrinsics::') or p.startswith('core::intrinsics::'):
        return M.get('intr::' + p.rsplit('::', 1)[1])
    if p.startswith('std::cmp::impls::<impl std::cmp::Ord for '):
        return M.get('ord::' + p.rsplit('::', 1)[1])
    if p.startswith('std::cmp::impls::<impl std::cmp::PartialOrd for '):
        return None
    if p.startswith('core::fmt::') or p.startswith('std::fmt::') or p.startswith('core::panicking::panic') or p in (
            'std::io::_print', 'std::io::_eprint', 'core::panicking::assert_failed', 'std::rt::begin_panic', 'std::rt::panic_fmt',
            'core::panicking::panic_fmt', 'std::option::expect_failed', 'std::option::unwrap_failed', 'std::str::<impl str>::repeat'):
        return fmtmodel
    return None

def fmtmodel(it, st, inst, args, rty, span):
    p = inst['path']
    if 'panic' in p or p.endswith('assert_failed') or p.endswith('_failed'):
        raise PanicExc('panic', span, p.rsplit('::', 1)[1])
    if it.p.ty[rty]['name'] == '()': return UNIT
    if p.startswith('std::io::'): return UNIT
    return VOpaque('fmt')

# ---------------------------------------------------------------- helpers
def F(it, st, v): return ip.force(st, it.ctx, v)
def retty(it, inst, rty):
    return rty
def variant_index(it, ty, name):
    for i, v in enumerate(it.p.ty[ty]['variants']):
        if v['name'] == name: return i
    raise Undecided('variant ' + name)
def mk_some(it, ty, v): return VAgg(ty, variant_index(it, ty, 'Some'), (v,))
def mk_none(it, ty): return VAgg(ty, variant_index(it, ty, 'None'), ())
def vec_at(it, st, ref):
    r = F(it, st, ref)
    if not isinstance(r, VRef): raise Undecided('vec receiver %s' % type(r).__name__)
    v = ip.load(st, it.ctx, r.cell, r.path)
    if isinstance(v, VVec): return r, v
    raise Undecided('not a vec: %s' % type(v).__name__)
def seq_len_of(it, st, r):
    """length of the sequence a slice/array reference denotes"""
    if r.view is not None: return r.view[1]
    v = ip.load(st, it.ctx, r.cell, r.path)
    if isinstance(v, VSeq): return v.len
    if isinstance(v, VVec): return v.seq.len
    raise Undecided('length of %s' % type(v).__name__)
def elem_ref(r, i):
    off = r.view[0] if r.view is not None else ZERO
    return VRef(r.cell, r.path + (('i', off + i),))
def ensure(st, cond_ge0, kind, span):
    if not decide_ge0(st, cond_ge0): raise PanicExc(kind, span)
def vstore(it, st, r, seq, cap): ip.store(st, it.ctx, r.cell, r.path, VVec(seq, cap))
def ety_of_vec(it, ty): return it.p.ty[ty]['targs'][0]

# ---------------------------------------------------------------- Vec
@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def vec_new(it, st, inst, args, rty, span):
    cap = F(it, st, args[0]) if args else ZERO
    return VVec(VSeq(ety_of_vec(it, rty), ZERO, ('t', ())), cap)
@model('std::vec::from_elem')
def from_elem(it, st, inst, args, rty, span):
    n = F(it, st, args[1]); e = args[0]
    c = st.cst(n); ety = ety_of_vec(it, rty)
    if c is not None and c <= 4096: return VVec(VSeq(ety, C(c), ('t', (e,) * c)), C(c))
    return VVec(VSeq(ety, n, ('c', e)), n)
@model('std::vec::Vec::<T, A>::len')
def vec_len(it, st, inst, args, rty, span):
    r, v = vec_at(it, st, args[0]); return v.seq.len
@model('std::vec::Vec::<T, A>::is_empty')
def vec_is_empty(it, st, inst, args, rty, span):
    r, v = vec_at(it, st, args[0]); return C(int(decide_eq0(st, v.seq.len)))
@model('std::vec::Vec::<T, A>::capacity')
def vec_capacity(it, st, inst, args, rty, span):
    r, v = vec_at(it, st, args[0])
    if v.cap is not None: return v.cap
    return v.seq.len if not v.seq.len.is_const() or v.seq.len.const() else ZERO
@model('std::vec::Vec::<T, A>::push')
def vec_push(it, st, inst, args, rty, span):
    r, v = vec_at(it, st, args[0]); s = v.seq
    c = st.cst(s.len)
    if s.base[0] == 't' and c is not None and not s.stores:
        n = VSeq(s.ety, C(c + 1), ('t', s.base[1] + (args[1],)))
    else: n = VSeq(s.ety, s.len + 1, s.base, s.stores + ((s.len, args[1]),))
    vstore(it, st, r, n, v.cap); return UNIT
@model('std::vec::Vec::<T, A>::pop')
def vec_pop(it, st, inst, args, rty, span):
    r, v = vec_at(it, st, args[0]); s = v.seq
    if not decide_ge0(st, s.len - 1): return mk_none(it, rty)
    e = ip.seq_read(st, it.ctx, s, s.len - 1)
    if s.base[0] == 't' and not s.stores and s.len.is_const():
        n = VSeq(s.ety, s.len - 1, ('t', s.base[1][:-1]))
    else: n = VSeq(s.ety, s.len - 1, s.base, s.stores)
    vstore(it, st, r, n, v.cap); return mk_some(it, rty, e)
@model('std::vec::Vec::<T, A>::clear')
def vec_clear(it, st, inst, args, rty, span):
    r, v = vec_at(it, st, args[0])
    vstore(it, st, r, VSeq(v.seq.ety, ZERO, ('t', ())), v.cap); return UNIT
def concretise(it, st, s, limit=64):
    c = st.cst(s.len)
    if c is None:
        c = decide_value(st, s.len, 8)
    if c > limit: raise Undecided('long sequence')
    if s.base[0] == 't' and not s.stores: return list(s.base[1])
    return [ip.seq_read(st, it.ctx, s, C(i)) for i in range(c)]
@model('std::vec::Vec::<T, A>::insert')
def vec_insert(it, st, inst, args, rty, span):
    r, v = vec_at(it, st, args[0]); s = v.seq; i = F(it, st, args[1])
    ensure(st, s.len - i, 'vec insert index', span)
    items = concretise(it, st, s); i = decide_value(st, i, 64)
    items.insert(i, args[2])
    vstore(it, st, r, VSeq(s.ety, C(len(items)), ('t', tuple(items))), v.cap); return UNIT
@model('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def vec_remove(it, st, inst, args, rty, span):
    r, v = vec_at(it, st, args[0]); s = v.seq; i = F(it, st, args[1])
    ensure(st, s.len - i - 1, 'vec remove index', span)
    items = concretise(it, st, s); i = decide_value(st, i, 64)
    e = items[i]
    if inst['path'].endswith('swap_remove'): items[i] = items[-1]; items.pop()
    else: items.pop(i)
    vstore(it, st, r, VSeq(s.ety, C(len(items)), ('t', tuple(items))), v.cap); return e
@model('std::vec::Vec::<T, A>::split_off')
def vec_split_off(it, st, inst, args, rty, span):
    r, v = vec_at(it, st, args[0]); s = v.seq; i = F(it, st, args[1])
    ensure(st, s.len - i, 'vec split_off index', span)
    items = concretise(it, st, s); i = decide_value(st, i, 64)
    vstore(it, st, r, VSeq(s.ety, C(i), ('t', tuple(items[:i]))), v.cap)
    return VVec(VSeq(s.ety, C(len(items) - i), ('t', tuple(items[i:]))), None)
@model('std::vec::Vec::<T, A>::truncate')
def vec_truncate(it, st, inst, args, rty, span):
    r, v = vec_at(it, st, args[0]); s = v.seq; i = F(it, st, args[1])
    if decide_ge0(st, i - s.len): return UNIT
    if s.base[0] == 't' and not s.stores:
        c = decide_value(st, i, 64); n = VSeq(s.ety, C(c), ('t', s.base[1][:c]))
    else: n = VSeq(s.ety, i, s.base, s.stores)
    vstore(it, st, r, n, v.cap); return UNIT
@model('std::vec::Vec::<T, A>::resize')
def vec_resize(it, st, inst, args, rty, span):
    r, v = vec_at(it, st, args[0]); s = v.seq; n = F(it, st, args[1])
    if st.cst(s.len) == 0:
        vstore(it, st, r, VSeq(s.ety, n, ('c', args[2])), v.cap); return UNIT
    items = concretise(it, st, s); c = decide_value(st, n, 64)
    items = items[:c] + [args[2]] * (c - len(items))
    vstore(it, st, r, VSeq(s.ety, C(c), ('t', tuple(items))), v.cap); return UNIT
@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit')
def vec_reserve(it, st, inst, args, rty, span): return UNIT
@model('std::vec::Vec::<T, A>::as_slice', '<std::vec::Vec<T, A> as std::ops::Deref>::deref',
       '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', 'std::vec::Vec::<T, A>::as_mut_slice',
       '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref')
def vec_as_slice(it, st, inst, args, rty, span):
    r, v = vec_at(it, st, args[0])
    return VRef(r.cell, r.path + (('v',),), (ZERO, v.seq.len))
@model('std::vec::Vec::<T, A>::into_boxed_slice')
def vec_into_boxed(it, st, inst, args, rty, span):
    v = F(it, st, args[0])
    if not isinstance(v, VVec): raise Undecided('into_boxed_slice')
    st.nframe += 1; cell = ('h', st.nframe)
    st.mem[cell] = v.seq
    return VRef(cell, (), (ZERO, v.seq.len))
def index_value(it, st, r, seqlen, idx, span, mk):
    idx = F(it, st, idx)
    if isinstance(idx, Poly):
        ensure(st, seqlen - idx - 1, 'bounds', span)
        return mk(idx)
    return None
@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut')
def vec_index(it, st, inst, args, rty, span):
    r, v = vec_at(it, st, args[0])
    base = VRef(r.cell, r.path + (('v',),), (ZERO, v.seq.len))
    return slice_index(it, st, base, args[1], span)
def slice_index(it, st, base, idx, span):
    idx = F(it, st, idx); n = base.view[1]
    if isinstance(idx, Poly):
        ensure(st, n - idx - 1, 'bounds', span)
        return elem_ref(base, idx)
    if isinstance(idx, VAgg):
        t = it.p.ty[idx.ty]; p = t['path'].rsplit('::', 1)[1]
        f = [F(it, st, x) for x in idx.fields]
        if p == 'Range': a, b = f[0], f[1]
        elif p == 'RangeFrom': a, b = f[0], n
        elif p == 'RangeTo': a, b = ZERO, f[0]
        elif p == 'RangeInclusive': a, b = f[0], f[1] + 1
        elif p == 'RangeToInclusive': a, b = ZERO, f[0] + 1
        elif p == 'RangeFull': a, b = ZERO, n
        else: raise Undecided('index by ' + p)
        ensure(st, b - a, 'slice range', span); ensure(st, n - b, 'slice range', span)
        return VRef(base.cell, base.path, (base.view[0] + a, b - a))
    raise Undecided('index by %s' % type(idx).__name__)
@model('core::slice::index::<impl std::ops::Index<I> for [T]>::index', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
       'std::array::<impl std::ops::Index<I> for [T; N]>::index', 'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut')
def sl_index(it, st, inst, args, rty, span):
    r = F(it, st, args[0])
    n = seq_len_of(it, st, r)
    return slice_index(it, st, VRef(r.cell, r.path, r.view or (ZERO, n)), args[1], span)
@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def sl_get(it, st, inst, args, rty, span):
    r = F(it, st, args[0]); n = seq_len_of(it, st, r); i = F(it, st, args[1])
    if not isinstance(i, Poly): raise Undecided('get range')
    if decide_ge0(st, n - i - 1): return mk_some(it, rty, elem_ref(r, i))
    return mk_none(it, rty)
@model('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def sl_getu(it, st, inst, args, rty, span):
    r = F(it, st, args[0]); n = seq_len_of(it, st, r); i = F(it, st, args[1])
    if not isinstance(i, Poly): raise Undecided('get range')
    ensure(st, n - i - 1, 'unchecked bounds', span)
    return elem_ref(r, i)
@model('core::slice::<impl [T]>::len')
def sl_len(it, st, inst, args, rty, span):
    r = F(it, st, args[0])
    if isinstance(r, VStr): return C(len(r.s.encode()))
    return seq_len_of(it, st, r)
@model('core::slice::<impl [T]>::is_empty')
def sl_is_empty(it, st, inst, args, rty, span):
    return C(int(decide_eq0(st, seq_len_of(it, st, F(it, st, args[0])))))
@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def sl_first(it, st, inst, args, rty, span):
    r = F(it, st, args[0]); n = seq_len_of(it, st, r)
    if decide_ge0(st, n - 1): return mk_some(it, rty, elem_ref(r, ZERO))
    return mk_none(it, rty)
@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def sl_last(it, st, inst, args, rty, span):
    r = F(it, st, args[0]); n = seq_len_of(it, st, r)
    if decide_ge0(st, n - 1): return mk_some(it, rty, elem_ref(r, n - 1))
    return mk_none(it, rty)
@model('core::slice::<impl [T]>::swap')
def sl_swap(it, st, inst, args, rty, span):
    r = F(it, st, args[0]); n = seq_len_of(it, st, r); a = F(it, st, args[1]); b = F(it, st, args[2])
    ensure(st, n - a - 1, 'bounds', span); ensure(st, n - b - 1, 'bounds', span)
    ra, rb = elem_ref(r, a), elem_ref(r, b)
    x = ip.raw_load(st, it.ctx, ra.cell, ra.path); y = ip.raw_load(st, it.ctx, rb.cell, rb.path)
    ip.store(st, it.ctx, ra.cell, ra.path, y); ip.store(st, it.ctx, rb.cell, rb.path, x)
    return UNIT
@model('core::slice::<impl [T]>::fill')
def sl_fill(it, st, inst, args, rty, span):
    r = F(it, st, args[0]); n = seq_len_of(it, st, r)
    c = st.cst(n)
    if c is None or c > 4096:
        v = ip.load(st, it.ctx, r.cell, r.path)
        if r.view is None or (r.view[0] == ZERO and v.len == n):
            ip.store(st, it.ctx, r.cell, r.path, VSeq(v.ety, v.len, ('c', args[1]))); return UNIT
        raise Undecided('fill')
    for i in range(c):
        e = elem_ref(r, C(i)); ip.store(st, it.ctx, e.cell, e.path, args[1])
    return UNIT
@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def sl_copy(it, st, inst, args, rty, span):
    r = F(it, st, args[0]); q = F(it, st, args[1]); n = seq_len_of(it, st, r); m = seq_len_of(it, st, q)
    if not decide_eq0(st, n - m): raise PanicExc('slice length mismatch', span)
    c = decide_value(st, n, 16)
    vals = []
    for i in range(c):
        e = elem_ref(q, C(i)); vals.append(ip.raw_load(st, it.ctx, e.cell, e.path))
    for i in range(c):
        e = elem_ref(r, C(i)); ip.store(st, it.ctx, e.cell, e.path, vals[i])
    return UNIT
@model('std::mem::replace', 'core::mem::replace')
def mem_replace(it, st, inst, args, rty, span):
    r = F(it, st, args[0]); v = ip.raw_load(st, it.ctx, r.cell, r.path)
    ip.store(st, it.ctx, r.cell, r.path, args[1]); return v
@model('std::mem::swap', 'core::mem::swap')
def mem_swap(it, st, inst, args, rty, span):
    r = F(it, st, args[0]); q = F(it, st, args[1])
    v = ip.raw_load(st, it.ctx, r.cell, r.path); w = ip.raw_load(st, it.ctx, q.cell, q.path)
    ip.store(st, it.ctx, r.cell, r.path, w); ip.store(st, it.ctx, q.cell, q.path, v); return UNIT
@model('std::mem::drop', 'core::mem::drop', 'std::mem::forget')
def mem_drop(it, st, inst, args, rty, span): return NotImplemented if inst['body'] else UNIT

# ---------------------------------------------------------------- slice iterators
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut',
       "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
       "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter",
       "std::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter",
       "std::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "std::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter")
def sl_iter(it, st, inst, args, rty, span):
    r = F(it, st, args[0])
    if r.view is None:
        v = ip.load(st, it.ctx, r.cell, r.path)
        if isinstance(v, VVec): r = VRef(r.cell, r.path + (('v',),), (ZERO, v.seq.len))
        else: r = VRef(r.cell, r.path, (ZERO, v.len))
    return VIter(r, ZERO, r.view[1], 'ref')
@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter',
       '<[T; N] as std::iter::IntoIterator>::into_iter', 'std::array::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def vec_into_iter(it, st, inst, args, rty, span):
    v = F(it, st, args[0])
    s = v.seq if isinstance(v, VVec) else v
    st.nframe += 1; cell = ('h', st.nframe); st.mem[cell] = s
    return VIter(VRef(cell, (), (ZERO, s.len)), ZERO, s.len, 'val')
NEXTS = ["<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next",
         '<std::vec::IntoIter<T, A> as std::iter::Iterator>::next', '<std::array::IntoIter<T, N> as std::iter::Iterator>::next']
def iter_elem(it, st, v, i):
    e = elem_ref(v.ref, i)
    return e if v.kind == 'ref' else ip.raw_load(st, it.ctx, e.cell, e.path)
def load_iter(it, st, a):
    r = F(it, st, a)
    if isinstance(r, VIter): return None, r
    v = ip.load(st, it.ctx, r.cell, r.path)
    if not isinstance(v, VIter): raise Undecided('iterator %s' % type(v).__name__)
    return r, v
@model(*NEXTS)
def it_next(it, st, inst, args, rty, span):
    r, v = load_iter(it, st, args[0])
    if not decide_ge0(st, v.end - v.cur - 1): return mk_none(it, rty)
    e = iter_elem(it, st, v, v.cur)
    ip.store(st, it.ctx, r.cell, r.path, VIter(v.ref, v.cur + 1, v.end, v.kind))
    return mk_some(it, rty, e)
@model("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back",
       '<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back')
def it_next_back(it, st, inst, args, rty, span):
    r, v = load_iter(it, st, args[0])
    if not decide_ge0(st, v.end - v.cur - 1): return mk_none(it, rty)
    e = iter_elem(it, st, v, v.end - 1)
    ip.store(st, it.ctx, r.cell, r.path, VIter(v.ref, v.cur, v.end - 1, v.kind))
    return mk_some(it, rty, e)
@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::nth", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::nth",
       "std::slice::Iter<'a, T> as std::iter::Iterator>::advance_by")
def it_nth(it, st, inst, args, rty, span):
    r, v = load_iter(it, st, args[0]); n = F(it, st, args[1])
    if not decide_ge0(st, v.end - v.cur - n - 1):
        ip.store(st, it.ctx, r.cell, r.path, VIter(v.ref, v.end, v.end, v.kind)); return mk_none(it, rty)
    e = iter_elem(it, st, v, v.cur + n)
    ip.store(st, it.ctx, r.cell, r.path, VIter(v.ref, v.cur + n + 1, v.end, v.kind))
    return mk_some(it, rty, e)
@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::size_hint",
       '<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint')
def it_size_hint(it, st, inst, args, rty, span):
    r, v = load_iter(it, st, args[0]); n = v.end - v.cur
    oty = it.p.ty[rty]['fields'][1]
    return VAgg(rty, 0, (n, mk_some(it, oty, n)))
@model("std::iter::ExactSizeIterator::len", "<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len", "<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>::len", "<std::slice::IterMut<'_, T> as std::iter::ExactSizeIterator>::len", "<std::slice::Iter<'a, T> as std::iter::Iterator>::count",
       "<std::slice::IterMut<'a, T> as std::iter::Iterator>::count")
def it_len(it, st, inst, args, rty, span):
    try: r, v = load_iter(it, st, args[0])
    except Undecided: return NotImplemented
    return v.end - v.cur
@model("<std::slice::Iter<'a, T> as std::clone::Clone>::clone")
def it_clone(it, st, inst, args, rty, span):
    r, v = load_iter(it, st, args[0]); return v

def drained(it, st, v):
    """the elements an iterator (or iterable) passed by value still yields, when their number is known"""
    v = F(it, st, v)
    if isinstance(v, VVec): v = v.seq
    if isinstance(v, VSeq):
        st.nframe += 1; c = ('h', st.nframe); st.mem[c] = v
        v = VIter(VRef(c, (), (ZERO, v.len)), ZERO, v.len, 'val')
    if isinstance(v, VIter):
        n = ip.decide_value(st, v.end - v.cur, it.ctx.max_values)
        return [iter_elem(it, st, v, v.cur + i) for i in range(max(n, 0))]
    while isinstance(v, VAgg) and v.ty is not None and it.p.ty[v.ty].get('path') != 'std::option::Option' and len(v.fields) == 1: v = F(it, st, v.fields[0])
    if isinstance(v, VAgg) and v.ty is not None and it.p.ty[v.ty].get('path') == 'std::option::Option':
        return list(v.fields)
    raise Undecided('drained %s' % type(v).__name__)
@model('<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend', "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend", 'std::vec::Vec::<T, A>::extend_from_slice')
def vec_extend(it, st, inst, args, rty, span):
    if 'slice' in inst['path'] or "&'a T" in inst['path']:
        r = F(it, st, args[1])
        xs = drained(it, st, sl_iter(it, st, inst, [r], rty, span) if isinstance(r, VRef) else r)
        xs = [ip.raw_load(st, it.ctx, x.cell, x.path) if isinstance(x, VRef) else x for x in xs]
    else: xs = drained(it, st, args[1])
    for x in xs: vec_push(it, st, inst, [args[0], x], rty, span)
    return UNIT

def resolve_closure(it, st, f, arity_args):
    """instance + receiver for calling a closure value"""
    v = F(it, st, f)
    if isinstance(v, VRef):
        w = ip.load(st, it.ctx, v.cell, v.path)
        if isinstance(w, VRef): return resolve_closure(it, st, w, arity_args)
        if isinstance(w, VFn): return it.p.inst[w.inst], None
        v0, w0 = v, w
    else: v0, w0 = None, v
    if isinstance(w0, VFn): return it.p.inst[w0.inst], None
    if isinstance(w0, VAgg) and w0.ty is not None and it.p.ty[w0.ty]['k'] == 'closure':
        inst = it.p.inst.get(it.p.ty[w0.ty]['inst'])
        if inst is None or inst['body'] is None: raise Undecided('closure body')
        if v0 is None:
            selfty = it.p.ty[inst['body']['locals'][1]]
            if selfty['k'] == 'ref':
                st.nframe += 1; cell = ('h', st.nframe); st.mem[cell] = w0
                return inst, VRef(cell)
            return inst, w0
        selfty = it.p.ty[inst['body']['locals'][1]]
        return inst, (v0 if selfty['k'] == 'ref' else w0)
    raise Undecided('closure %s' % type(w0).__name__)
def clo_args(inst, recv, args): return ([recv] if recv is not None else []) + list(args)

class FoldData:
    __slots__ = ('cell', 'iter', 'f', 'mode', 'acc', 'rty', 'cur', 'it0', 'inst', 'recv')
    def __init__(s, **k):
        for x in s.__slots__: setattr(s, x, k.get(x))
    def repl(s, **k):
        n = FoldData(**{x: getattr(s, x) for x in s.__slots__})
        for a, b in k.items(): setattr(n, a, b)
        return n
def fold_step(it, st, d, phase, last):
    """generic driver of slice-iterator consumers that call a closure per element"""
    v = d.iter
    if phase == 1:
        m = d.mode
        i = d.cur
        if m == 'for_each': pass
        elif m == 'fold': d = d.repl(acc=last)
        else:
            b = F(it, st, last)
            if m in ('any', 'find', 'position', 'all'):
                t = decide_eq0(st, b - 1)
                if m == 'all': t = not t
                if t:
                    e = iter_elem(it, st, v, i)
                    if d.it0 is not None: ip.store(st, it.ctx, d.it0.cell, d.it0.path, VIter(v.ref, i + 1, v.end, v.kind))
                    if m == 'any': return ('ret', ONE)
                    if m == 'all': return ('ret', ZERO)
                    if m == 'find': return ('ret', mk_some(it, d.rty, e))
                    return ('ret', mk_some(it, d.rty, i - v.cur))
        return ('loop', d.repl(cur=i + 1), 0)
    i = d.cur
    if not decide_ge0(st, v.end - i - 1):
        if d.it0 is not None: ip.store(st, it.ctx, d.it0.cell, d.it0.path, VIter(v.ref, v.end, v.end, v.kind))
        m = d.mode
        if m == 'for_each': return ('ret', UNIT)
        if m == 'fold': return ('ret', d.acc)
        if m == 'any': return ('ret', ZERO)
        if m == 'all': return ('ret', ONE)
        return ('ret', mk_none(it, d.rty))
    n = st.cst(i - v.cur)
    if n is None or n > it.ctx.unroll * 20: raise Undecided('iterator length')
    e = iter_elem(it, st, v, i)
    if d.mode == 'find':
        st.nframe += 1; cell = ('h', st.nframe); st.mem[cell] = e
        a = [VRef(cell)]
    elif d.mode == 'fold': a = [d.acc, e]
    else: a = [e]
    return ('call', d.inst, clo_args(d.inst, d.recv, a), d, 1)
def consumer(mode, byref):
    def f(it, st, inst, args, rty, span):
        r, v = load_iter(it, st, args[0])
        if mode == 'fold': acc, clo = args[1], args[2]
        else: acc, clo = None, args[1]
        ci, recv = resolve_closure(it, st, clo, 1)
        return PushModel(fold_step, FoldData(iter=v, mode=mode, acc=acc, rty=rty, cur=v.cur, it0=r, inst=ci, recv=recv))
    return f
for kind in ("std::slice::Iter<'a, T>", "std::slice::IterMut<'a, T>", 'std::vec::IntoIter<T, A>'):
    for mode in ('for_each', 'fold', 'any', 'all', 'find', 'position'):
        M['<%s as std::iter::Iterator>::%s' % (kind, mode)] = consumer(mode, True)

# ---------------------------------------------------------------- ranges
@model('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next')
def range_next(it, st, inst, args, rty, span):
    r = F(it, st, args[0]); v = ip.load(st, it.ctx, r.cell, r.path)
    a = F(it, st, v.fields[0]); b = F(it, st, v.fields[1])
    if not isinstance(a, Poly): return NotImplemented
    if not decide_ge0(st, b - a - 1): return mk_none(it, rty)
    ip.store(st, it.ctx, r.cell, r.path, VAgg(v.ty, 0, (a + 1, b)))
    return mk_some(it, rty, a)
@model('std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back')
def range_next_back(it, st, inst, args, rty, span):
    r = F(it, st, args[0]); v = ip.load(st, it.ctx, r.cell, r.path)
    a = F(it, st, v.fields[0]); b = F(it, st, v.fields[1])
    if not isinstance(a, Poly): return NotImplemented
    if not decide_ge0(st, b - a - 1): return mk_none(it, rty)
    ip.store(st, it.ctx, r.cell, r.path, VAgg(v.ty, 0, (a, b - 1)))
    return mk_some(it, rty, b - 1)
@model('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::size_hint')
def range_size(it, st, inst, args, rty, span):
    r = F(it, st, args[0]); v = ip.load(st, it.ctx, r.cell, r.path)
    a = F(it, st, v.fields[0]); b = F(it, st, v.fields[1])
    if not isinstance(a, Poly): return NotImplemented
    n = b - a if decide_ge0(st, b - a) else ZERO
    return VAgg(rty, 0, (n, mk_some(it, it.p.ty[rty]['fields'][1], n)))
def _rangeinc(back):
    def f(it, st, inst, args, rty, span):
        r = F(it, st, args[0]); v = ip.load(st, it.ctx, r.cell, r.path)
        a = F(it, st, v.fields[0]); b = F(it, st, v.fields[1]); ex = F(it, st, v.fields[2])
        if not isinstance(a, Poly): return NotImplemented
        if decide_eq0(st, ex - 1) or not decide_ge0(st, b - a): return mk_none(it, rty)
        if decide_eq0(st, b - a): n = VAgg(v.ty, 0, (a, b, ONE))
        else: n = VAgg(v.ty, 0, (a, b - 1, ex) if back else (a + 1, b, ex))
        ip.store(st, it.ctx, r.cell, r.path, n)
        return mk_some(it, rty, b if back else a)
    return f
M['std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next'] = _rangeinc(False)
M['std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::RangeInclusive<A>>::next_back'] = _rangeinc(True)

# ---------------------------------------------------------------- Box
@model('std::boxed::Box::<T>::new_uninit', 'std::boxed::Box::<T>::new')
def box_new(it, st, inst, args, rty, span):
    st.nframe += 1; cell = ('h', st.nframe)
    st.mem[cell] = args[0] if args else UNINIT
    return VRef(cell)
@model('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(it, st, inst, args, rty, span):
    r = F(it, st, args[0]); v = ip.load(st, it.ctx, r.cell, r.path)
    while isinstance(v, VAgg) and len(v.fields) >= 1: v = F(it, st, v.fields[-1])
    if not isinstance(v, VSeq): raise Undecided('vec! literal')
    return VVec(v, v.len)
@model('std::boxed::Box::<std::mem::MaybeUninit<T>, A>::assume_init')
def box_assume(it, st, inst, args, rty, span): return args[0]
@model('std::slice::<impl [T]>::into_vec', 'slice::<impl [T]>::into_vec')
def into_vec(it, st, inst, args, rty, span):
    r = F(it, st, args[0]); v = ip.load(st, it.ctx, r.cell, r.path)
    return VVec(v, v.len)
@model('<std::vec::Vec<T, A> as std::clone::Clone>::clone')
def vec_clone(it, st, inst, args, rty, span):
    r, v = vec_at(it, st, args[0]); return v
@model('std::array::<impl std::clone::Clone for [T; N]>::clone')
def arr_clone(it, st, inst, args, rty, span):
    r = F(it, st, args[0]); return ip.load(st, it.ctx, r.cell, r.path)
@model('std::ops::RangeInclusive::<Idx>::new')
def rinew(it, st, inst, args, rty, span): return VAgg(rty, 0, (args[0], args[1], ZERO))

# ---------------------------------------------------------------- Vec from iterator / extend (element by element through next)
class ExtData:
    __slots__ = ('vref', 'items', 'icell', 'next', 'rty', 'ety')
    def __init__(s, **k):
        for x in s.__slots__: setattr(s, x, k.get(x))
def ext_step(it, st, d, phase, last):
    if phase == 1:
        v = F(it, st, last)
        t = it.p.ty[v.ty]
        if t['variants'][v.variant]['name'] == 'None':
            if d.vref is None:
                return ('ret', VVec(VSeq(d.ety, C(len(d.items)), ('t', tuple(d.items))), None))
            return ('ret', UNIT)
        x = v.fields[0]
        if d.vref is None:
            return ('loop', ExtData(vref=None, items=d.items + [x], icell=d.icell, next=d.next, rty=d.rty, ety=d.ety), 0)
        vec_push(it, st, None, [d.vref, x], None, None)
        return ('loop', d, 0)
    return ('call', d.next, [VRef(d.icell)], d, 1)
def find_next(it, ity):
    """the Iterator::next instance whose receiver is &mut ity"""
    for i in it.p.inst.values():
        if i.get('trait') == 'std::iter::Iterator' and i['path'].endswith('::next') and i.get('self') == ity: return i
    return None
def iter_from(it, st, v, a, ity):
    raise Undecided('extend')

# ---------------------------------------------------------------- integers
def num(name):
    def d(f): M['num::' + name] = f; return f
    return d
def ity(it, inst, rty=None):
    p = inst['path']; n = p[p.index('<impl ') + 6:p.index('>')].split(' for ')[-1]
    for t in it.p.ty.values():
        if t['k'] == 'int' and t['name'] == n: return t
    raise Undecided('type ' + n)
@num('wrapping_add')
def w_add(it, st, inst, a, rty, span): return ip.wrap(st, F(it, st, a[0]) + F(it, st, a[1]), ity(it, inst))
@num('wrapping_sub')
def w_sub(it, st, inst, a, rty, span): return ip.wrap(st, F(it, st, a[0]) - F(it, st, a[1]), ity(it, inst))
@num('wrapping_mul')
def w_mul(it, st, inst, a, rty, span): return ip.wrap(st, F(it, st, a[0]) * F(it, st, a[1]), ity(it, inst))
@num('wrapping_neg')
def w_neg(it, st, inst, a, rty, span): return ip.wrap(st, -F(it, st, a[0]), ity(it, inst))
def _sat(f):
    def g(it, st, inst, a, rty, span):
        t = ity(it, inst) if '<impl ' in inst['path'] else it.p.ty[rty]
        lo, hi = ip.int_range(t)
        p = f(F(it, st, a[0]), F(it, st, a[1]))
        if not decide_ge0(st, C(hi) - p): return C(hi)
        if not decide_ge0(st, p - lo): return C(lo)
        return st.norm(p)
    return g
M['num::saturating_add'] = _sat(lambda x, y: x + y)
M['num::saturating_sub'] = _sat(lambda x, y: x - y)
M['num::saturating_mul'] = _sat(lambda x, y: x * y)
M['intr::saturating_add'] = M['num::saturating_add']
M['intr::saturating_sub'] = M['num::saturating_sub']
def _chk(f):
    def g(it, st, inst, a, rty, span):
        t = ity(it, inst)
        p = f(F(it, st, a[0]), F(it, st, a[1]))
        if ip.in_range(st, p, t): return mk_some(it, rty, st.norm(p))
        return mk_none(it, rty)
    return g
M['num::checked_add'] = _chk(lambda x, y: x + y)
M['num::checked_sub'] = _chk(lambda x, y: x - y)
M['num::checked_mul'] = _chk(lambda x, y: x * y)
def _ovf(f):
    def g(it, st, inst, a, rty, span):
        t = ity(it, inst); p = f(F(it, st, a[0]), F(it, st, a[1]))
        if ip.in_range(st, p, t): return VAgg(rty, 0, (st.norm(p), ZERO))
        return VAgg(rty, 0, (ip.wrap(st, p, t), ONE))
    return g
M['num::overflowing_add'] = _ovf(lambda x, y: x + y)
M['num::overflowing_sub'] = _ovf(lambda x, y: x - y)
M['num::overflowing_mul'] = _ovf(lambda x, y: x * y)
@num('signum')
def signum(it, st, inst, a, rty, span):
    v = F(it, st, a[0])
    if decide_eq0(st, v): return ZERO
    return ONE if decide_ge0(st, v) else C(-1)
@num('abs')
def nabs(it, st, inst, a, rty, span):
    v = F(it, st, a[0]); t = ity(it, inst)
    if decide_ge0(st, v): return v
    ensure(st, v - ip.int_range(t)[0] - 1, 'abs overflow', span)
    return -v
@num('unsigned_abs')
def nuabs(it, st, inst, a, rty, span):
    v = F(it, st, a[0])
    return v if decide_ge0(st, v) else -v
@num('leading_zeros')
def lz(it, st, inst, a, rty, span):
    v = F(it, st, a[0]); t = ity(it, inst); bits = t['bits']
    if t['signed'] and not decide_ge0(st, v): return ZERO
    c = st.cst(v)
    if c is not None: return C(bits - c.bit_length())
    if decide_eq0(st, v): return C(bits)
    lo, hi = st.bound(v, 2)
    a0, b0 = max(lo, 1).bit_length(), hi.bit_length()
    # binary split on the bit length
    while a0 < b0:
        m = (a0 + b0) // 2
        if decide_ge0(st, v - (1 << m)): a0 = m + 1
        else: b0 = m
    return C(bits - a0)
def ctlz(it, st, inst, a, rty, span):
    v = F(it, st, a[0]); 
    ta = inst.get('targs') or []
    t = it.p.ty[ta[0]]
    fake = {'path': 'core::num::<impl %s>::leading_zeros' % t['name']}
    return lz(it, st, fake, a, rty, span)
M['intr::ctlz'] = ctlz
@num('count_ones')
def popc(it, st, inst, a, rty, span):
    v = F(it, st, a[0]); c = st.cst(v)
    if c is not None and c >= 0: return C(bin(c).count('1'))
    if st.bound(v, 1)[0] < 0: raise Undecided('count_ones of signed')
    v = st.norm(v); seen = 0; total = ZERO          # a sum of distinct binary digits
    for m, c in v.t.items():
        if c <= 0 or c & seen: break
        if not m: total = total + bin(c).count('1')
        else:
            if c & (c - 1) or st.bound(Poly({m: 1}), 1)[0] < 0 or st.bound(Poly({m: 1}), 1)[1] > 1: break
            total = total + Poly({m: 1})
        seen |= c
    else: return total
    return op_atom('popcount', [v])
M['intr::ctpop'] = popc
@num('pow')
def npow(it, st, inst, a, rty, span):
    e = decide_value(st, F(it, st, a[1]), 16); t = ity(it, inst); v = F(it, st, a[0])
    r = ONE
    for _ in range(e): r = r * v
    if not ip.in_range(st, r, t): raise PanicExc('assert:overflow_Mul', span)
    return st.norm(r)
@num('trailing_zeros')
def ntz(it, st, inst, a, rty, span):
    v = F(it, st, a[0]); c = st.cst(v); t = ity(it, inst)
    if c is None:
        for k in range(t['bits']):
            if not decide_eq0(st, st.mod(v, 1 << (k + 1))): return C(k)
        return C(t['bits'])
    return C(t['bits'] if c == 0 else (c & -c).bit_length() - 1)
@num('is_power_of_two')
def npow2(it, st, inst, a, rty, span):
    v = F(it, st, a[0]); c = st.cst(v)
    if c is None: return NotImplemented
    return C(int(c > 0 and c & (c - 1) == 0))
@num('to_be_bytes')
def ntobe(it, st, inst, a, rty, span):
    v = F(it, st, a[0]); t = ity(it, inst); n = t['bits'] // 8
    if t['signed']: v = st.mod(v, 1 << t['bits'])
    bs = []
    for i in range(n - 1, -1, -1):
        bs.append(st.mod(st.fdiv(v, 1 << (8 * i)), 256))
    return VSeq(it.p.ty[rty]['of'], C(n), ('t', tuple(bs)))
@num('to_le_bytes')
def ntole(it, st, inst, a, rty, span):
    r = ntobe(it, st, inst, a, rty, span)
    return VSeq(r.ety, r.len, ('t', tuple(reversed(r.base[1]))))
def _from_bytes(be):
    def f(it, st, inst, a, rty, span):
        s = F(it, st, a[0]); t = ity(it, inst); n = t['bits'] // 8
        bs = [F(it, st, ip.seq_read(st, it.ctx, s, C(i))) for i in range(n)]
        if not be: bs.reverse()
        r = ZERO
        for b in bs: r = r * 256 + b
        return ip.wrap(st, r, t)
    return f
M['num::from_be_bytes'] = _from_bytes(True); M['num::from_le_bytes'] = _from_bytes(False)
def _rot(left):
    def f(it, st, inst, a, rty, span):
        v = F(it, st, a[0]); t = ity(it, inst); n = decide_value(st, F(it, st, a[1]), 64) % t['bits']
        if t['signed']: return NotImplemented
        if not left: n = (t['bits'] - n) % t['bits']
        if n == 0: return v
        hi = st.fdiv(v, 1 << (t['bits'] - n))
        return v * (1 << n) - hi * (1 << t['bits']) + hi
    return f
M['num::rotate_left'] = _rot(True); M['num::rotate_right'] = _rot(False)
@num('min_value')
def minv(it, st, inst, a, rty, span): return C(ip.int_range(ity(it, inst))[0])
@num('max_value')
def maxv(it, st, inst, a, rty, span): return C(ip.int_range(ity(it, inst))[1])
def _minmax(mx):
    def f(it, st, inst, a, rty, span):
        x = F(it, st, a[0]); y = F(it, st, a[1])
        if not isinstance(x, Poly) or not isinstance(y, Poly): return NotImplemented
        return (y if mx else x) if decide_ge0(st, y - x) else (x if mx else y)
    return f
M['ord::max'] = _minmax(True); M['ord::min'] = _minmax(False)
M['intr::integer_max'] = _minmax(True); M['intr::integer_min'] = _minmax(False)
@model('intr::cold_path', 'intr::assert_inhabited', 'intr::assert_zero_valid', 'intr::assert_mem_uninitialized_valid')
def intr_nop(it, st, inst, a, rty, span): return UNIT
@model('intr::fabs')
def fabs(it, st, inst, a, rty, span):
    v = F(it, st, a[0])
    if v.e[0] == 'k': return VFloat(('k', abs(v.e[1])), abs(v.lo), abs(v.hi))
    lo = 0.0 if v.lo <= 0 <= v.hi else min(abs(v.lo), abs(v.hi))
    return VFloat(('abs', v.e), lo, max(abs(v.lo), abs(v.hi)))
@model('intr::maximum_number_nsz_f64')
def fmaxn(it, st, inst, a, rty, span):
    x, y = F(it, st, a[0]), F(it, st, a[1])
    return VFloat(('max', x.e, y.e), max(x.lo, y.lo), max(x.hi, y.hi))
def _fun(name, fn, mono=True):
    def f(it, st, inst, a, rty, span):
        import math
        v = F(it, st, a[0])
        try: lo = fn(v.lo); hi = fn(v.hi)
        except (ValueError, OverflowError): lo, hi = float('-inf'), float('inf')
        return VFloat((name, v.e), lo, hi)
    return f
import math
M['std::f64::<impl f64>::exp'] = _fun('exp', lambda x: math.exp(x) if x < 700 else float('inf'))
M['std::f64::<impl f64>::ln'] = _fun('ln', lambda x: math.log(x) if x > 0 else float('-inf'))
M['std::f64::<impl f64>::log2'] = _fun('log2', lambda x: math.log2(x) if x > 0 else float('-inf'))

# ---------------------------------------------------------------- hash maps (insertion order lists; keys compared value by value)
# A hash is what the hasher was fed; ctx.hashing picks the hash function considered: 'each' tells all inputs apart,
# 'last' keeps only the last value written, 'same' gives every input the same hash.
HM = 'std::collections::HashMap::<K, V>::'; HMS = 'std::collections::HashMap::<K, V, S, A>::'; EN = "std::collections::hash_map::Entry::<'a, K, V, A>::"
@model(HM + 'new', HM + 'with_capacity', '<std::collections::HashMap<K, V, S> as std::default::Default>::default')
def hm_new(it, st, inst, args, rty, span):
    t = it.p.ty[rty]['targs']
    return VAgg(rty, 0, (VSeq(t[0], ZERO, ('t', ())), VSeq(t[1], ZERO, ('t', ()))))
@model(HMS + 'hasher')
def hm_hasher(it, st, inst, args, rty, span): return VOpaque('build-hasher')
@model('<std::hash::RandomState as std::hash::BuildHasher>::build_hasher', 'std::hash::DefaultHasher::new', '<std::hash::DefaultHasher as std::default::Default>::default')
def hm_build(it, st, inst, args, rty, span): return VOpaque('hasher', ())
def hm_write(width):
    def m(it, st, inst, args, rty, span):
        r = F(it, st, args[0]); h = ip.load(st, it.ctx, r.cell, r.path)
        if not isinstance(h, VOpaque) or h.tag != 'hasher': raise Undecided('hasher %s' % type(h).__name__)
        ip.store(st, it.ctx, r.cell, r.path, VOpaque('hasher', h.data + ((width, F(it, st, args[1])),))); return UNIT
    return m
for _w in ('u8', 'u16', 'u32', 'u64', 'usize'): M['std::hash::Hasher::write_' + _w] = hm_write(_w)
@model('<std::hash::DefaultHasher as std::hash::Hasher>::finish')
def hm_finish(it, st, inst, args, rty, span):
    r = F(it, st, args[0]); h = ip.load(st, it.ctx, r.cell, r.path)
    if not isinstance(h, VOpaque) or h.tag != 'hasher': raise Undecided('hasher %s' % type(h).__name__)
    how = getattr(it.ctx, 'hashing', 'each')
    return VOpaque('hash', h.data if how == 'each' else h.data[-1:] if how == 'last' else ())
def hm_same(st, a, b):
    if isinstance(a, Poly) and isinstance(b, Poly): return decide_eq0(st, a - b)
    if isinstance(a, VOpaque) and isinstance(b, VOpaque) and a.tag == b.tag == 'hash':
        if [w for w, _ in a.data] != [w for w, _ in b.data]: raise Undecided('hashes of different kinds')
        return all(decide_eq0(st, x - y) for (_, x), (_, y) in zip(a.data, b.data))
    raise Undecided('map key %s' % type(a).__name__)
def hm_at(it, st, ref):
    r = F(it, st, ref); v = ip.load(st, it.ctx, r.cell, r.path)
    if not isinstance(v, VAgg) or len(v.fields) != 2: raise Undecided('map receiver')
    return r, v
def hm_find(it, st, v, k):
    for i in range(st.cst(v.fields[0].len)):
        if hm_same(st, ip.seq_read(st, it.ctx, v.fields[0], C(i)), k): return i
def hm_value(r, i): return VRef(r.cell, r.path + (('f', 1), ('i', C(i))))
def hm_add(it, st, r, v, k, x):
    s, t = v.fields; n = st.cst(s.len); items = [ip.seq_read(st, it.ctx, q, C(i)) for q in (s, t) for i in range(n)]
    ip.store(st, it.ctx, r.cell, r.path, VAgg(v.ty, 0, (VSeq(s.ety, C(n + 1), ('t', tuple(items[:n]) + (k,))), VSeq(t.ety, C(n + 1), ('t', tuple(items[n:]) + (x,))))))
    return n
def hm_key(it, st, a):
    k = F(it, st, a)
    return F(it, st, ip.load(st, it.ctx, k.cell, k.path)) if isinstance(k, VRef) else k
@model(HMS + 'get', HMS + 'get_mut')
def hm_get(it, st, inst, args, rty, span):
    r, v = hm_at(it, st, args[0]); i = hm_find(it, st, v, hm_key(it, st, args[1]))
    return mk_none(it, rty) if i is None else mk_some(it, rty, hm_value(r, i))
@model(HMS + 'contains_key')
def hm_has(it, st, inst, args, rty, span):
    r, v = hm_at(it, st, args[0]); return C(int(hm_find(it, st, v, hm_key(it, st, args[1])) is not None))
@model(HMS + 'insert')
def hm_insert(it, st, inst, args, rty, span):
    r, v = hm_at(it, st, args[0]); k = hm_key(it, st, args[1]); i = hm_find(it, st, v, k)
    if i is None: hm_add(it, st, r, v, k, args[2]); return mk_none(it, rty)
    q = hm_value(r, i); old = ip.raw_load(st, it.ctx, q.cell, q.path); ip.store(st, it.ctx, q.cell, q.path, args[2]); return mk_some(it, rty, old)
@model(HMS + 'len')
def hm_len(it, st, inst, args, rty, span): return hm_at(it, st, args[0])[1].fields[0].len
@model(HMS + 'entry')
def hm_entry(it, st, inst, args, rty, span):
    r, v = hm_at(it, st, args[0]); return VOpaque('map-entry', (r, hm_key(it, st, args[1])))
def hm_of_entry(it, st, a):
    e = F(it, st, a)
    if not isinstance(e, VOpaque) or e.tag != 'map-entry': raise Undecided('map entry')
    r, k = e.data; v = ip.load(st, it.ctx, r.cell, r.path); return r, v, k, hm_find(it, st, v, k)
@model(EN + 'or_insert')
def hm_or_insert(it, st, inst, args, rty, span):
    r, v, k, i = hm_of_entry(it, st, args[0])
    return hm_value(r, hm_add(it, st, r, v, k, args[1]) if i is None else i)
def hm_or_step(it, st, d, phase, last):
    ref, inst, recv, r, v, k = d
    if phase == 0: return ('call', inst, clo_args(inst, recv, []), d, 1)
    return ('ret', hm_value(r, hm_add(it, st, r, v, k, last)))
@model(EN + 'or_insert_with')
def hm_or_insert_with(it, st, inst, args, rty, span):
    r, v, k, i = hm_of_entry(it, st, args[0])
    if i is not None: return hm_value(r, i)
    ci, recv = resolve_closure(it, st, args[1], 0)
    return PushModel(hm_or_step, (None, ci, recv, r, v, k))

@model('intr::compare_bytes')
def compare_bytes(it, st, inst, args, rty, span):
    """memcmp of two byte slices of known length"""
    p, q = F(it, st, args[0]), F(it, st, args[1]); n = st.cst(args[2]) if isinstance(args[2], Poly) else None
    if n is None or n > 256 or not isinstance(p, VRef) or not isinstance(q, VRef): return NotImplemented
    for i in range(n):
        a, b = [F(it, st, ip.raw_load(st, it.ctx, e.cell, e.path)) for e in (elem_ref(p, C(i)), elem_ref(q, C(i)))]
        if not isinstance(a, Poly) or not isinstance(b, Poly): return NotImplemented
        if not ip.decide_eq0(st, a - b): return ONE if ip.decide_ge0(st, a - b) else -ONE
    return ZERO
