"""Models of iterator adapters and searches.  An iterator over a slice or an integer range, with adapters on top, is a
sequence indexed by integers; a search for the first element that matches is described by its result (nothing before it
matches), for sequences of any length.  Elements are obtained by executing the closures of the adapters."""
import re
from . import term as t, solve
from .term import Term, isc
from .val import *
from .sym import Custom

def install(I, mir):
    T = mir.types
    from .intr import bits, mkfx
    def rty(info): return info.dty if info.dty is not None else info.b['abi_ret']
    def some(ty, v): return Enum(ty, 1, {1: (v,)})
    def none(ty): return Enum(ty, 0, {0: ()})
    KINDS = {'std::ops::Range': 'range', 'std::iter::Map': 'map', 'std::iter::Filter': 'filter', 'std::iter::FilterMap': 'filtermap', 'std::iter::Enumerate': 'enum',
             'std::iter::Zip': 'zip', 'std::iter::Rev': 'rev', 'std::iter::Copied': 'copied', 'std::iter::Cloned': 'copied', 'std::vec::IntoIter': 'into', 'std::iter::Take': 'take', 'std::iter::Skip': 'skip'}
    def kind(it):
        if isinstance(it, IterV): return 'slice'
        if isinstance(it, Agg) and it.ty is not None:
            d = T[it.ty]['disp']; k = KINDS.get(d[:d.index('<')] if '<' in d else d)
            if k: return k
        raise Unsupported('iterator %r' % (it,))
    def fld(it, n):
        for i, f in enumerate(T[it.ty]['variants'][0]['fields']):
            if f[0] == n: return it.fs[i]
        raise Unsupported('field %s of an iterator' % n)
    def setf(it, **kw):
        fs = list(it.fs)
        for i, f in enumerate(T[it.ty]['variants'][0]['fields']):
            if f[0] in kw: fs[i] = kw[f[0]]
        return Agg(it.ty, fs)
    def inner(it): return fld(it, 'it' if kind(it) == 'copied' else 'iter') if kind(it) != 'into' else it.fs[0]
    def set_inner(it, x):
        if kind(it) == 'into': return Agg(it.ty, (x,) + tuple(it.fs[1:]))
        return setf(it, **{'it' if kind(it) == 'copied' else 'iter': x})
    def span(it):
        k = kind(it)
        if k == 'slice': return it.pos, it.end
        if k == 'range': return fld(it, 'start'), fld(it, 'end')
        if k == 'zip': return fld(it, 'index'), fld(it, 'len')
        if k == 'take':
            lo, hi = span(inner(it)); return lo, t.tmin(hi, t.add(lo, fld(it, 'n')))
        if k == 'skip':
            lo, hi = span(inner(it)); return t.tmin(hi, t.add(lo, fld(it, 'n'))), hi
        return span(inner(it))
    def total(it):
        """every index has an element"""
        k = kind(it)
        if k in ('slice', 'range'): return True
        if k in ('filter', 'filtermap'): return False
        if k == 'zip': return total(fld(it, 'a')) and total(fld(it, 'b'))
        return total(inner(it))
    def at(r, i):
        if isinstance(r, Choice): return Choice([(c, at(x, i)) for c, x in r.alts])
        return Ref(r.cell, r.path + (('idx', i),))
    def callf(ex, st, f, args):
        """apply a function value"""
        while isinstance(f, (Ref, Choice)): f = ex.read(st, f)
        if isinstance(f, FnV): key = f.key; ty = None
        elif isinstance(f, Agg): ty = T[f.ty]; key = ty.get('mutc') if ty['k'] == 'closure' else ty.get('inst')
        else: raise Unsupported('call of %r' % (f,))
        if key is None: raise Unsupported('call of a function value')
        b = mir.bodies[key]; bl = (b.get('body') or {}).get('locals')
        if isinstance(f, Agg) and T[f.ty]['k'] == 'closure':
            if T[bl[1]]['k'] == 'closure': return ex.sub(st, key, [f] + args)
            c = ex.u.new_cell(('closure',)); st.cells[c] = f
            return ex.sub(st, key, [Ref(c, ())] + args)
        return ex.sub(st, key, args)
    I.callf = callf
    def cellof(ex, st, v):
        c = ex.u.new_cell(('tmp',)); st.cells[c] = v
        return Ref(c, ())
    def elem(ex, st, it, k):
        """-> [(state, present, value)]"""
        kd = kind(it)
        if kd == 'slice': return [(st, True, at(it.ref, k))]
        if kd == 'range': return [(st, True, k)]
        if kd == 'map':
            out = []
            for s, p, v in elem(ex, st, inner(it), k):
                if p is False: continue
                for s2, w in callf(ex, s, fld(it, 'f'), [v]): out.append((s2, p, w))
            return out
        if kd == 'filter':
            out = []
            for s, p, v in elem(ex, st, inner(it), k):
                for s2, w in callf(ex, s, fld(it, 'predicate'), [cellof(ex, s, v)]): out.append((s2, t.and_(p, w), v))
            return out
        if kd == 'filtermap':
            out = []
            for s, p, v in elem(ex, st, inner(it), k):
                for s2, w in callf(ex, s, fld(it, 'f'), [v]):
                    d = w.d if isinstance(w, Enum) else ex.discr(s2, w)
                    out.append((s2, t.and_(p, t.eq(d, 1)), ex.u.get(w, (('d', 1), ('f', 0, T[w.ty]['variants'][1]['fields'][0][1]))) if not (isc(d) and d == 0) else UNDEF))
            return out
        if kd == 'enum':
            if not total(inner(it)): raise Unsupported('enumeration of a filtered sequence')
            lo, hi = span(it); i = t.add(fld(it, 'count'), t.sub(k, lo))
            return [(s, p, Agg(tup(ex, it), (i, v))) for s, p, v in elem(ex, st, inner(it), k)]
        if kd == 'rev':
            lo, hi = span(it)
            return elem(ex, st, inner(it), t.sub(t.add(lo, hi), t.add(k, 1)))
        if kd == 'zip':
            a, b = fld(it, 'a'), fld(it, 'b'); out = []
            for s, p, v in elem(ex, st, a, t.add(span(a)[0], k)):
                for s2, p2, w in elem(ex, s, b, t.add(span(b)[0], k)): out.append((s2, t.and_(p, p2), Agg(tup(ex, it), (v, w))))
            return out
        if kd in ('copied', 'into'): return [(s, p, ex.read(s, v)) for s, p, v in elem(ex, st, inner(it), k)]
        if kd in ('take', 'skip'):
            if not total(inner(it)): raise Unsupported('prefix of a filtered sequence')
            return elem(ex, st, inner(it), k)
        raise Unsupported('elements of ' + kd)
    def tup(ex, it):
        """type of the pairs an Enumerate / Zip yields: not needed, tuples are projected by position"""
        return None
    def advance(it, k):
        """the iterator after element k has been consumed"""
        kd = kind(it); n = t.add(k, 1)
        if kd == 'slice': return IterV(it.ref, n, it.end)
        if kd == 'range': return setf(it, start=n)
        if kd == 'zip': return setf(it, index=n)
        if kd == 'enum':
            lo, hi = span(it)
            return setf(it, iter=advance(inner(it), k), count=t.add(fld(it, 'count'), t.sub(n, lo)))
        if kd == 'rev':
            lo, hi = span(it)
            return set_inner(it, shorten(inner(it), t.sub(t.add(lo, hi), n)))
        if kd == 'take':
            lo, hi = span(it); return setf(it, iter=advance(inner(it), k), n=t.sub(fld(it, 'n'), t.sub(n, lo)))
        if kd == 'skip': return setf(it, iter=advance(inner(it), k), n=0)
        return set_inner(it, advance(inner(it), k))
    def shorten(it, e):
        kd = kind(it)
        if kd == 'slice': return IterV(it.ref, it.pos, e)
        if kd == 'range': return setf(it, end=e)
        if kd == 'zip': return setf(it, len=e)
        if kd in ('take', 'skip', 'rev'): raise Unsupported('reversed ' + kd)
        return set_inner(it, shorten(inner(it), e))
    def finished(it):
        lo, hi = span(it); kd = kind(it)
        if kd in ('rev', 'take', 'skip', 'enum'): return it if isc(hi) and isc(lo) and hi <= lo else advance_to(it, hi)
        return advance(it, t.sub(hi, 1)) if not (isc(lo) and isc(hi) and hi <= lo) else it
    def advance_to(it, hi): return advance(it, t.sub(hi, 1))
    class Impure(Unsupported): pass
    def pure(ex, st, run):
        """execute without side effects on a scratch state -> [(conditions, value)] with values of base type"""
        s0 = st.copy(); s0.pc = (); cells0 = dict(s0.cells); n0 = t._fresh[0]; g0 = dict(s0.ghost)
        log = []; ex.writes.append(log); ex.dry += 1
        try: res = run(s0)
        finally: ex.writes.pop(); ex.dry -= 1
        for cell, path in log:
            if cell in cells0: raise Impure('a search closure has side effects')
        out = []
        for s, v in res:
            c = t.and_(*s.pc)
            out.append((c, v))
        return out, n0
    def closedover(x, n0, r):
        for y in t.subterms([x] if isinstance(x, Term) else []).values():
            if y.op == 'var' and y.id != r.id:
                if any(int(m) > n0 for m in re.findall(r'(?:!|^L)(\d+)', y.args[0])): raise Impure('a search closure computes values that are not functions of the element')
    def none_matches(ex, st, it, test):
        """-> function j -> 'element j is evaluated and does not match'"""
        r = t.fresh('elem')
        def run(s):
            out = []
            for s1, p, v in elem(ex, s, it, r):
                if p is False: out.append((s1, False)); continue
                if p is True: out += [(s2, h) for s2, h, _ in test(s1, v)]; continue
                a = s1.copy(); a.assume(p)
                out += [(s2, h) for s2, h, _ in test(a, v)]
                b = s1.copy(); b.assume(t.not_(p)); out.append((b, False))
            return out
        res, n0 = pure(ex, st, run)
        f = t.or_(*[t.and_(c, t.not_(h)) for c, h in res])
        if isinstance(f, Term): closedover(f, n0, r)
        return lambda j: t.subst(f, {r.id: j}) if isinstance(f, Term) else f
    def concrete_span(ex, it):
        lo, hi = span(it)
        return isc(lo) and isc(hi) and (getattr(ex, 'concrete', False) or hi - lo <= 3)
    def search(ex, st, it, test):
        """first element for which test holds: -> [(state, k, payload)] with k None if there is none;  test(st, v) -> [(st, hit, payload)]"""
        lo, hi = span(it); out = []
        if concrete_span(ex, it):
            sts = [st]
            for k in range(lo, max(lo, hi)):
                nxt = []
                for s in sts:
                    for s1, p, v in elem(ex, s, it, k):
                        cases = []
                        a = ex.branch(s1, p)
                        if a:
                            for s2, h, pay in test(a, v):
                                x = ex.branch(s2, h)
                                if x: out.append((x, k, pay))
                                y = ex.branch(s2, t.not_(h))
                                if y: nxt.append(y)
                        b = ex.branch(s1, t.not_(p))
                        if b: nxt.append(b)
                if len(nxt) > 64: raise Unsupported('search with many cases')
                sts = nxt
            return out + [(s, None, None) for s in sts]
        nm = none_matches(ex, st, it, test)
        q = t.var('?s%d' % depth(nm(t.var('?probe'))))
        def nothing(upto): 
            b = nm(q)
            return t.forall([q], t.implies(t.and_(t.le(lo, q), t.lt(q, upto)), b)) if b is not True else True
        k = t.fresh('found')
        s = ex.branch(st, t.and_(t.le(lo, k), t.lt(k, hi)))
        if s:
            s.assume(nothing(k))
            for s1, p, v in elem(ex, s, it, k):
                s1 = ex.branch(s1, p)
                if not s1: continue
                for s2, h, pay in test(s1, v):
                    s3 = ex.branch(s2, h)
                    if s3: out.append((s3, k, pay))
        s = st.copy(); s.assume(nothing(hi))
        if not ex.prune or solve.feasible(s.pc, ex.feas_ms): out.append((s, None, None))
        return out
    def depth(x):
        d = 0
        for y in t.subterms([x] if isinstance(x, Term) else []).values():
            if y.op == 'var' and y.args[0].startswith('?s'): d = max(d, int(y.args[0][2:]) + 1)
        return d
    def bycl(ex, f, byref=False, want=None):
        def test(st, v):
            out = []
            for s, w in callf(ex, st, f, [cellof(ex, st, v) if byref else v]):
                if want == 'opt':
                    d = w.d if isinstance(w, Enum) else ex.discr(s, w)
                    out.append((s, t.eq(d, 1), w))
                else: out.append((s, w, v))
            return out
        return test
    def guard(f):
        def g(ex, st, a, info):
            if ex.abstract is not None: return None
            return f(ex, st, a, info)
        return g
    def selfit(ex, st, r):
        it = ex.read(st, r) if isinstance(r, (Ref, Choice)) else r
        while isinstance(it, (Ref, Choice)): r = it; it = ex.read(st, it)
        return it, r
    ITER = r'^<(&mut )?(std::slice::Iter(Mut)?|std::ops::Range|std::vec::IntoIter|std::iter::\w+)<.*> as std::iter::(Iterator|DoubleEndedIterator)>::'
    def m_position(ex, st, a, info):
        it, r = selfit(ex, st, a[0]); ty = rty(info); out = []
        if not total(it) and not concrete_span(ex, it): raise Unsupported('position in a filtered sequence')
        lo, _ = span(it)
        for s, k, pay in search(ex, st, it, bycl(ex, a[1])):
            if k is None: ex.write(s, r, finished(it)); out.append((s, none(ty)))
            else: ex.write(s, r, advance(it, k)); out.append((s, some(ty, t.sub(k, lo))))
        return out
    def m_any(ex, st, a, info):
        it, r = selfit(ex, st, a[0]); out = []
        for s, k, pay in search(ex, st, it, bycl(ex, a[1])):
            ex.write(s, r, finished(it) if k is None else advance(it, k)); out.append((s, k is not None))
        return out
    def m_all(ex, st, a, info):
        it, r = selfit(ex, st, a[0]); out = []
        tst = bycl(ex, a[1])
        for s, k, pay in search(ex, st, it, lambda s, v: [(s2, t.not_(h), p) for s2, h, p in tst(s, v)]):
            ex.write(s, r, finished(it) if k is None else advance(it, k)); out.append((s, k is None))
        return out
    def m_find(ex, st, a, info):
        it, r = selfit(ex, st, a[0]); ty = rty(info); out = []
        for s, k, pay in search(ex, st, it, bycl(ex, a[1], True)):
            if k is None: ex.write(s, r, finished(it)); out.append((s, none(ty)))
            else: ex.write(s, r, advance(it, k)); out.append((s, some(ty, pay)))
        return out
    def m_find_map(ex, st, a, info):
        it, r = selfit(ex, st, a[0]); ty = rty(info); out = []
        for s, k, pay in search(ex, st, it, bycl(ex, a[1], False, 'opt')):
            if k is None: ex.write(s, r, finished(it)); out.append((s, none(ty)))
            else: ex.write(s, r, advance(it, k)); out.append((s, Enum(ty, 1, {1: (ex.u.get(pay, (('d', 1), ('f', 0, T[ty]['variants'][1]['fields'][0][1]))),)})))
        return out
    def put(ex, st, r, v):
        """store an advanced iterator: only the parts that differ are written"""
        old = ex.read(st, r)
        if isinstance(old, Agg) and isinstance(v, Agg) and old.ty == v.ty and len(old.fs) == len(v.fs) and isinstance(r, Ref):
            fts = T[v.ty]['variants'][0]['fields']
            for k, (x, y) in enumerate(zip(old.fs, v.fs)):
                if x is not y and not (t.isc(x) and t.isc(y) and x == y): put(ex, st, Ref(r.cell, r.path + (('f', k, fts[k][1]),)), y)
            return
        ex.write(st, r, v)
    def m_next(ex, st, a, info):
        it, r = selfit(ex, st, a[0]); ty = rty(info); out = []
        kd = kind(it)
        if kd == 'enum' and not total(inner(it)):
            # enumeration of a filtered sequence: the counter follows the elements that are visited
            x = inner(it)
            for s, k, pay in search(ex, st, x, lambda s, v: [(s, True, v)]):
                if k is None: put(ex, s, r, setf(it, iter=finished(x))); out.append((s, none(ty)))
                else:
                    put(ex, s, r, setf(it, iter=advance(x, k), count=t.add(fld(it, 'count'), 1))); out.append((s, some(ty, Agg(T[ty]['variants'][1]['fields'][0][1], (fld(it, 'count'), pay)))))
            return out
        if total(it):
            lo, hi = span(it)
            s = ex.branch(st, t.lt(lo, hi))
            if s:
                for s1, p, v in elem(ex, s, it, lo):
                    put(ex, s1, r, advance(it, lo)); out.append((s1, some(ty, retup(ty, v))))
            s = ex.branch(st, t.le(hi, lo))
            if s: out.append((s, none(ty)))
            return out
        for s, k, pay in search(ex, st, it, lambda s, v: [(s, True, v)]):
            if k is None: put(ex, s, r, finished(it)); out.append((s, none(ty)))
            else: put(ex, s, r, advance(it, k)); out.append((s, some(ty, retup(ty, pay))))
        return out
    def retup(ty, v):
        if isinstance(v, Agg) and v.ty is None: return Agg(T[ty]['variants'][1]['fields'][0][1], v.fs)
        return v
    for n, f in (('position', m_position), ('any', m_any), ('all', m_all), ('find', m_find), ('find_map', m_find_map)):
        I.addrx(ITER + n + '$', guard(f), 'iterator searches return the first matching element of the sequence')
    I.addrx(r'^<std::iter::(Filter|FilterMap|Zip|Map|Enumerate|Rev|Copied|Cloned|Take|Skip)<.*> as std::iter::Iterator>::next$', guard(m_next), 'iterator adapters have their documented sequence semantics')
    I.addrx(r'^<std::vec::IntoIter<.*> as std::iter::Iterator>::next$', guard(lambda ex, st, a, i: m_next(ex, st, a, i) if isinstance(selfit(ex, st, a[0])[0], Agg) and isinstance(selfit(ex, st, a[0])[0].fs[0], IterV) else None))
    def into_vec(ex, st, a, info):
        v = a[0]
        if not isinstance(v, VecV): return None
        c = ex.u.new_cell(('vec',)); st.cells[c] = v.arr
        n = len(T[rty(info)]['variants'][0]['fields'])
        return [(st, Agg(rty(info), (IterV(Ref(c, (), v.len), 0, v.len),) + (UNDEF,) * (n - 1)))]
    I.addrx(r'^<std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter$', guard(into_vec))
    def m_zip(ex, st, a, info):
        x, y = a; ty = rty(info)
        if isinstance(y, (Ref, Choice)) or isinstance(y, VecV):
            raise Unsupported('zip with a collection')
        (la, ha), (lb, hb) = span(x), span(y)
        if not (total(x) and total(y)): raise Unsupported('zip of filtered sequences')
        na, nb = t.sub(ha, la), t.sub(hb, lb)
        return [(st, setf(Agg(ty, (UNDEF,) * len(T[ty]['variants'][0]['fields'])), a=x, b=y, index=0, len=t.tmin(na, nb), a_len=na))]
    I.addrx(ITER + 'zip$', guard(m_zip))
    def m_count(ex, st, a, info):
        it = a[0]; lo, hi = span(it)
        if total(it): return [(st, t.tmax(0, t.sub(hi, lo)))]
        if concrete_span(ex, it):
            sts = [(st, 0)]
            for k in range(lo, max(lo, hi)):
                nxt = []
                for s, n in sts:
                    for s1, p, v in elem(ex, s, it, k):
                        x = ex.branch(s1, p)
                        if x: nxt.append((x, n + 1))
                        x = ex.branch(s1, t.not_(p))
                        if x: nxt.append((x, n))
                if len(nxt) > 64: raise Unsupported('count with many cases')
                sts = nxt
            return sts
        n = t.ranged(t.fresh('count'), 0, None); st.assume(t.le(n, t.tmax(0, t.sub(hi, lo))))
        return [(st, n)]
    I.addrx(ITER + 'count$', guard(m_count))
    def total_value(ex, st, it, k):
        r = elem(ex, st, it, k)
        return r
    def m_sum(ex, st, a, info):
        it = a[0]; ty = rty(info); lo, hi = span(it)
        fx = T[ty]['disp'].startswith('fixed::')
        def val(s, v): return bits(ex, s, v) if fx else (ex.read(s, v) if isinstance(v, (Ref, Choice)) else v)
        if concrete_span(ex, it):
            sts = [(st, 0)]
            for k in range(lo, max(lo, hi)):
                nxt = []
                for s, n in sts:
                    for s1, p, v in elem(ex, s, it, k):
                        x = ex.branch(s1, p)
                        if x: nxt.append((x, t.add(n, val(x, v))))
                        x = ex.branch(s1, t.not_(p))
                        if x: nxt.append((x, n))
                if len(nxt) > 64: raise Unsupported('sum with many cases')
                sts = nxt
            return [(s, mkfx(ex, ty, n) if fx else n) for s, n in sts]
        if not fx and T[ty]['k'] != 'int': raise Unsupported('sum of ' + T[ty]['disp'])
        r = t.fresh('elem')
        def run(s): return [(s1, t.ite(p, val(s1, v), 0) if p is not False else 0) for s1, p, v in elem(ex, s, it, r)]
        res, n0 = pure(ex, st, run)
        f = 0
        for c, v in res: f = t.ite(c, v, f)
        if isinstance(f, Term): closedover(f, n0, r)
        name = 'sum!%d' % (t.fresh('s').id)
        t.SUMS[name] = (lambda k: t.subst(f, {r.id: t.add(lo, k)}) if isinstance(f, Term) else f), 'Int'
        v = t.psum(name, (), t.tmax(0, t.sub(hi, lo)))
        okc = t.or_(*[c for c, _ in res])     # every element is evaluated without aborting
        if isinstance(okc, Term):
            closedover(okc, n0, r); q = t.var('?s0')
            st.assume(t.forall([q], t.implies(t.and_(t.le(lo, q), t.lt(q, hi)), t.subst(okc, {r.id: q}))))
        return [(st, mkfx(ex, ty, v) if fx else v)]
    I.addrx(ITER + 'sum$', guard(m_sum), 'Iterator::sum adds the elements (an overflow aborts)')
    def m_fold(ex, st, a, info):
        it, acc, f = a
        if not concrete_span(ex, it): raise Unsupported('fold over a sequence of unknown length')
        lo, hi = span(it); sts = [(st, acc)]
        for k in range(lo, max(lo, hi)):
            nxt = []
            for s, x in sts:
                for s1, p, v in elem(ex, s, it, k):
                    y = ex.branch(s1, p)
                    if y: nxt += callf(ex, y, f, [x, v])
                    y = ex.branch(s1, t.not_(p))
                    if y: nxt.append((y, x))
            sts = nxt
        return sts
    I.addrx(ITER + 'fold$', guard(m_fold))
    def m_for_each(ex, st, a, info):
        it, f = a
        if not concrete_span(ex, it): raise Unsupported('for_each over a sequence of unknown length')
        lo, hi = span(it); sts = [st]
        for k in range(lo, max(lo, hi)):
            nxt = []
            for s in sts:
                for s1, p, v in elem(ex, s, it, k):
                    y = ex.branch(s1, p)
                    if y: nxt += [x for x, _ in callf(ex, y, f, [v])]
                    y = ex.branch(s1, t.not_(p))
                    if y: nxt.append(y)
            sts = nxt
        return [(s, Agg(rty(info), ())) for s in sts]
    I.addrx(ITER + 'for_each$', guard(m_for_each))
    def m_collect(ex, st, a, info):
        it = a[0]; ty = rty(info)
        if not T[ty]['disp'].startswith('std::vec::Vec<'): return None
        ety = T[ty]['args'][0]; lo, hi = span(it)
        if concrete_span(ex, it):
            sts = [(st, ())]
            for k in range(lo, max(lo, hi)):
                nxt = []
                for s, l in sts:
                    for s1, p, v in elem(ex, s, it, k):
                        y = ex.branch(s1, p)
                        if y: nxt.append((y, l + (v,)))
                        y = ex.branch(s1, t.not_(p))
                        if y: nxt.append((y, l))
                sts = nxt
            return [(s, VecV(ety, ArrV(ety, None, ('list', l)), len(l))) for s, l in sts]
        if not total(it): raise Unsupported('collect of a filtered sequence')
        r = t.fresh('elem')
        def run(s): return [(s1, v) for s1, p, v in elem(ex, s, it, r)]
        res, n0 = pure(ex, st, run)
        if len(res) != 1 or res[0][0] is not True: raise Unsupported('collect of a branching map')
        v = res[0][1]
        if not leafy(v): raise Unsupported('collect of structured values')
        if isinstance(v, Term): closedover(v, n0, r)
        n = t.tmax(0, t.sub(hi, lo))
        return [(st, VecV(ety, ArrV(ety, None, ('fn', lambda i: t.subst(v, {r.id: t.add(lo, i)}) if isinstance(v, Term) else v)), n))]
    I.addrx(ITER + 'collect$', guard(m_collect))
    def from_elem(ex, st, a, info):
        v, n = a; ety = T[rty(info)]['args'][0]
        if getattr(ex, 'concrete', False) and isc(n): return [(st, VecV(ety, ArrV(ety, None, ('list', (v,) * n)), n))]
        return [(st, VecV(ety, ArrV(ety, None, ('rep', v)), n))]
    I.addrx(r'^std::vec::from_elem$', guard(from_elem), 'vec![x; n] is n copies of x')
