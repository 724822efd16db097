"""Models of slices, vectors and slice iterators."""
from . import term as t
from .term import Term, isc
from .val import *
from .sym import Custom

ex_whole = [None]
def install(I, mir):
    T = mir.types
    from .intr import require
    def rty(info): return info.dty if info.dty is not None else info.b['abi_ret']
    def some(ty, v): return Enum(ty, 1, {1: (v,)})
    def none(ty): return Enum(ty, 0, {0: ()})
    def sl_len(ex, st, r):
        if isinstance(r, Choice): return ex.u.choice_map(r, lambda x: sl_len(ex, st, x))
        return ex.slice_len(st, r)
    def at(r, i):
        if isinstance(r, Choice): return Choice([(c, at(x, i)) for c, x in r.alts])
        return Ref(r.cell, r.path + (('idx', i),))
    def sub(r, start, ln):
        if isinstance(r, Choice): return Choice([(c, sub(x, start, ln)) for c, x in r.alts])
        return Ref(r.cell, r.path + ((('off', start),) if not (isc(start) and start == 0) else ()), ln)
    # ---- slice basics
    I.addrx(r'^(std|core)::slice::<impl \[.*\]>::len$', lambda ex, st, a, i: [(st, sl_len(ex, st, a[0]))])
    I.addrx(r'^(std|core)::slice::<impl \[.*\]>::is_empty$', lambda ex, st, a, i: [(st, t.eq(sl_len(ex, st, a[0]), 0))])
    def it_new(ex, st, a, i):
        return [(st, mk_iter(ex, st, a[0]))]
    def mk_iter(ex, st, r):
        if isinstance(r, Choice): return ex.u.choice_map(r, lambda x: mk_iter(ex, st, x))
        return IterV(r, 0, sl_len(ex, st, r))
    I.addrx(r'^(std|core)::slice::<impl \[.*\]>::iter(_mut)?$', it_new, 'slice iterators visit indices 0..len in order')
    I.addrx(r'^std::slice::Iter(Mut)?.*::new$', it_new)
    I.addrx(r'^<&(mut )?(\[.*\]|std::vec::Vec<.*>) as std::iter::IntoIterator>::into_iter$', lambda ex, st, a, i: [(st, mk_iter(ex, st, vecref(ex, st, a[0])))])
    def vecref(ex, st, r):
        if isinstance(r, Choice): return Choice([(c, vecref(ex, st, x)) for c, x in r.alts])
        if not isinstance(r, Ref): return r
        v = ex.read(st, r) if r.meta is None else None
        if isinstance(v, VecV): return Ref(r.cell, r.path + (('vec',),), v.len)
        if isinstance(v, ArrV) and r.meta is None: return Ref(r.cell, r.path, v.n)
        return r
    def itval(ex, st, r):
        v = ex.read(st, r)
        return v
    def it_next(ex, st, a, info):
        v = itval(ex, st, a[0]); ty = rty(info)
        if isinstance(v, Opaque): raise Unsupported('opaque iterator')
        out = []
        s = ex.branch(st, t.lt(v.pos, v.end))
        if s:
            ex.write(s, a[0], IterV(v.ref, t.add(v.pos, 1), v.end))
            out.append((s, some(ty, at(v.ref, v.pos))))
        s = ex.branch(st, t.le(v.end, v.pos))
        if s: out.append((s, none(ty)))
        return out
    def it_next_back(ex, st, a, info):
        v = itval(ex, st, a[0]); ty = rty(info); out = []
        s = ex.branch(st, t.lt(v.pos, v.end))
        if s:
            e = t.sub(v.end, 1)
            ex.write(s, a[0], IterV(v.ref, v.pos, e))
            out.append((s, some(ty, at(v.ref, e))))
        s = ex.branch(st, t.le(v.end, v.pos))
        if s: out.append((s, none(ty)))
        return out
    I.addrx(r'^<std::slice::Iter(Mut)?<.*> as std::iter::Iterator>::next$', it_next)
    I.addrx(r'^<std::slice::Iter(Mut)?<.*> as std::iter::DoubleEndedIterator>::next_back$', it_next_back)
    I.addrx(r'^<std::slice::Iter(Mut)?<.*> as std::iter::ExactSizeIterator>::len$', lambda ex, st, a, i: [(st, t.sub(itval(ex, st, a[0]).end, itval(ex, st, a[0]).pos))])
    # ---- indexing
    def get_opt(ex, st, a, info):
        r, i = a; ty = rty(info)
        if not leafy(i): return None
        n = sl_len(ex, st, r); out = []
        s = ex.branch(st, t.and_(t.le(0, i), t.lt(i, n)))
        if s: out.append((s, some(ty, at(r, i))))
        s = ex.branch(st, t.le(n, i))
        if s: out.append((s, none(ty)))
        return out
    I.addrx(r'^(std|core)::slice::<impl \[.*\]>::get(_mut)?$', get_opt)
    def whole(ex, st, r):
        """(array root ref, offset, length, array value) of a slice reference"""
        off = 0; path = list(r.path)
        while path and path[-1][0] == 'off': off = t.add(off, path.pop()[1])
        root = Ref(r.cell, tuple(path)); v = ex.read(st, root)
        if isinstance(v, VecV): root = Ref(r.cell, tuple(path) + (('vec',),)); v = v.arr
        if not isinstance(v, ArrV): raise Unsupported('slice of %r' % (v,))
        return root, off, sl_len(ex, st, r), v
    ex_whole[0] = whole
    def fill(ex, st, a, info):
        r, x = a
        if isinstance(r, Choice): raise Unsupported('fill of a choice')
        root, off, n, v = whole(ex, st, r)
        if isc(n) and n <= 64 and isc(off):
            for k in range(n): v = ex.u.arr_set(v, off + k, x)
            ex.write(st, root, v)
        else:
            hi = t.add(off, n)
            ex.write(st, root, ArrV(v.ety, v.n, ('fn', lambda i: ex.u.ite(t.and_(t.le(off, i), t.lt(i, hi)), x, ex.u.arr_get(v, i)))))
        return [(st, Agg(info.dty, ()))]
    I.addrx(r'^(std|core)::slice::<impl \[.*\]>::fill$', fill, 'slice::fill writes the value to every element')
    def first(ex, st, a, info):
        return get_opt(ex, st, [a[0], 0], info)
    I.addrx(r'^(std|core)::slice::<impl \[.*\]>::first(_mut)?$', first)
    def index(ex, st, a, info):
        r, i = a
        if leafy(i):
            r = vecref(ex, st, r)
            n = sl_len(ex, st, r)
            s = require(ex, st, t.and_(t.le(0, i), t.lt(i, n)), 'index', info)
            return [(s, at(r, i))] if s else []
        if isinstance(i, Agg):
            d = T[i.ty]['disp']; r = vecref(ex, st, r); n = sl_len(ex, st, r)
            if d.startswith('std::ops::RangeFull'): return [(st, r)]
            if d.startswith('std::ops::RangeFrom'): lo, hi = i.fs[0], n
            elif d.startswith('std::ops::RangeTo<'): lo, hi = 0, i.fs[0]
            elif d.startswith('std::ops::Range<'): lo, hi = i.fs[0], i.fs[1]
            else: raise Unsupported('index by ' + d)
            s = require(ex, st, t.and_(t.le(0, lo), t.le(lo, hi), t.le(hi, n)), 'range', info)
            return [(s, sub(r, lo, t.sub(hi, lo)))] if s else []
        raise Unsupported('index by %r' % (i,))
    I.addrx(r'^<(\[.*\]|std::vec::Vec<.*>) as std::ops::Index(Mut)?<.*>>::index(_mut)?$', index)
    I.addrx(r'as std::ops::Index(Mut)?<std::ops::Range\w*<?.*>?>>::index(_mut)?$', index)
    I.addrx(r'^std::(array|slice|slice::index)::<impl std::ops::Index(Mut)?<.*> for \[.*\]>::index(_mut)?$', index)
    def swap_(ex, st, a, info):
        x = ex.read(st, a[0]); y = ex.read(st, a[1])
        ex.write(st, a[0], y); ex.write(st, a[1], x)
        return [(st, Agg(info.dty, ()))]
    I.add('std::mem::swap', swap_)
    def replace_(ex, st, a, info):
        x = ex.read(st, a[0]); ex.write(st, a[0], a[1]); return [(st, x)]
    I.add(['std::mem::replace'], replace_)
    I.add('std::mem::drop', lambda ex, st, a, i: [(st, Agg(i.dty, ()))])
    I.add('std::mem::forget', lambda ex, st, a, i: [(st, Agg(i.dty, ()))])
    # ---- Vec
    def vec_empty(ex, st, a, info):
        ety = T[rty(info)]['args'][0]
        return [(st, VecV(ety, ArrV(ety, None, ('list', ())), 0))]
    I.addrx(r'^std::vec::Vec::(new|with_capacity)$|^<std::vec::Vec<.*> as std::default::Default>::default$', vec_empty, 'Vec operations have their documented sequence semantics; allocation never fails')
    def vec_push(ex, st, a, info):
        v = ex.read(st, a[0])
        arr = ex.u.arr_set(v.arr, v.len, a[1])
        if v.arr.base == ('list', ()) and not arr.writes and isc(v.len): pass
        if isc(v.len) and v.arr.base[0] == 'list' and len(v.arr.base[1]) == v.len and not v.arr.writes:
            arr = ArrV(v.ety, None, ('list', v.arr.base[1] + (a[1],)))
        ex.write(st, a[0], VecV(v.ety, arr, t.add(v.len, 1)))
        return [(st, Agg(info.dty, ()))]
    I.addrx(r'^std::vec::Vec::push$', vec_push)
    I.addrx(r'^std::vec::Vec::len$', lambda ex, st, a, i: [(st, ex.read(st, a[0]).len)])
    I.addrx(r'^std::vec::Vec::is_empty$', lambda ex, st, a, i: [(st, t.eq(ex.read(st, a[0]).len, 0))])
    I.addrx(r'^<std::vec::Vec<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$|^std::vec::Vec::as_(mut_)?slice$', lambda ex, st, a, i: [(st, vecref(ex, st, a[0]))])
    # ---- Box
    def box_new(ex, st, a, info):
        c = ex.u.new_cell(('box',)); st.cells[c] = a[0]
        return [(st, Agg(rty(info), (Ref(c, ()),)))]
    I.addrx(r'^std::boxed::Box::new$|exchange_malloc', box_new)
    # ---- arrays
    def arr_eq(ex, st, a, info):
        x, y = a
        while isinstance(x, (Ref, Choice)): x = ex.read(st, x)
        while isinstance(y, (Ref, Choice)): y = ex.read(st, y)
        return [(st, t.fresh('arreq', 'Bool'))]
    I.addrx(r'^std::array::equality::|^std::slice::cmp::<impl std::cmp::PartialEq', arr_eq)
    # ---- clone of plain data
    def clone(ex, st, a, info):
        return [(st, ex.read(st, a[0]))]
    I.addrx(r'^<(\[.*\]|anchor_lang::prelude::Pubkey|[iuf]\d+|bool|usize|std::vec::Vec<.*>) as std::clone::Clone>::clone$', clone)
    # ---- intrinsics
    I.add('std::intrinsics::discriminant_value', lambda ex, st, a, i: [(st, ex.discr(st, ex.read(st, a[0])))])
    I.addrx(r'^std::intrinsics::(black_box|likely|unlikely)$', lambda ex, st, a, i: [(st, a[0])])
    I.addrx(r'^std::mem::size_of$|^std::intrinsics::size_of$', lambda ex, st, a, i: [(st, T[i.f['targs'][0]]['size'])])
    I.addrx(r'^std::intrinsics::(assume|assert_\w+)$|^core::ub_checks|::precondition_check$', lambda ex, st, a, i: [(st, Agg(i.dty, ()))])
    I.add('std::intrinsics::three_way_compare', lambda ex, st, a, i: [(st, Enum(rty(i), t.ite(t.lt(a[0], a[1]), 0, t.ite(t.eq(a[0], a[1]), 1, 2)), {0: (), 1: (), 2: ()}))])
    def from_fn_like(ex, st, a, info): raise Unsupported(info.name)
    def transmute(ex, st, a, info): return [(st, ex.cast(st, info.fr, 'Transmute', a[0], info.atys[0], info.dty))]
    I.add('std::intrinsics::transmute', transmute)
    def typed_swap(ex, st, a, info): return swap_(ex, st, a, info)
    I.addrx(r'^std::intrinsics::typed_swap', typed_swap)
    I.addrx(r'^std::intrinsics::integer_min', lambda ex, st, a, i: [(st, t.tmin(a[0], a[1]))])
    I.addrx(r'^std::intrinsics::integer_max', lambda ex, st, a, i: [(st, t.tmax(a[0], a[1]))])
    def read_via(ex, st, a, info): return [(st, ex.read(st, a[0]))]
    I.addrx(r'^std::intrinsics::read_via_copy$|^std::ptr::read$', read_via)
    def write_via(ex, st, a, info):
        ex.write(st, a[0], a[1]); return [(st, Agg(info.dty, ()))]
    I.addrx(r'^std::intrinsics::write_via_move$|^std::ptr::write$', write_via)
    def rem(ex, st, a, info): return [(st, t.trem(a[0], a[1]))]
    I.addrx(r'^std::intrinsics::(unchecked|exact)_rem$', rem)
    I.addrx(r'^std::intrinsics::(unchecked|exact)_div$', lambda ex, st, a, i: [(st, t.tdiv(a[0], a[1]))])
