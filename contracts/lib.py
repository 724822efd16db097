"""Shared vocabulary of the contracts.  Fixed-point numbers are raw bits: the real value x is represented by x * 2**48."""
from mirv import term as t
from mirv.verify import Unit
from mirv.run import Prop
from mirv.exec import FnSpec, LoopSpec, View
from mirv.term import and_, or_, not_, implies, eq, ne, le, lt, ite, fxmul, fxdiv, tdiv, fdiv, fmod, tmin, tmax, tabs, neg, mul, forall, add, sub
ONE = t.ONE48
I80MAX = (1 << 127) - 1
I80MIN = -(1 << 127)
def pos(x): return tmax(x, 0)
def negp(x): return tmax(neg(x), 0)
def iff(a, b): return eq(a, b)
def between(lo, x, hi): return and_(le(lo, x), le(x, hi))
def same(c, i, fields, lab='frame'):
    """the listed fields of argument i are unchanged"""
    o, n = c.old(i), c.new(i)
    for f in fields:
        yield ('%s: %s unchanged' % (lab, f), eq(getattr(n, f), getattr(o, f)))
def fceil(x): return fdiv(x + (ONE - 1), ONE)      # smallest integer >= x (an integer, not raw bits)
def ffloor(x): return fdiv(x, ONE)
def clamp_i64(x): return tmax(tmin(x, (1 << 63) - 1), -(1 << 63))

def scalar_fields(c, i):
    """names of the scalar fields (integers, floats, fixed point) of the struct behind argument i"""
    ex = c.ex; i = c._i(i); ty = c.tys[i + 1]
    while ex.T[ty]['k'] in ('ref', 'ptr'): ty = ex.T[ty]['to']
    out = []
    for f in ex.T[ty]['variants'][0]['fields']:
        k = ex.T[f[1]]
        if k['k'] in ('int', 'uint', 'float', 'bool', 'char') or k['disp'].startswith('fixed::'): out.append(f[0])
    return out
def frame(c, i, mods, skip=()):
    """every scalar field of argument i that is not listed is unchanged (one obligation)"""
    o, n = c.old(i), c.new(i)
    gs = []
    for f in scalar_fields(c, i):
        if f in mods or f in skip: continue
        a, b = getattr(o, f), getattr(n, f)
        if a is b: continue
        gs.append(eq(a, b))
    return ('no other field of argument %s changes' % i, and_(*gs))

from mirv.val import *
from mirv.intr import PkV, pk_int
def deep_eq(ex, a, b):
    """structural equality of two values of the same type"""
    if a is b: return True
    if isinstance(a, Lazy) and isinstance(b, Lazy) and a.name == b.name and len(a.idx) == len(b.idx) and all(t.eq(x, y) is True for x, y in zip(a.idx, b.idx)): return True
    if isinstance(a, Lazy): a = ex.u.sym(a.ty, a.name, a.idx)
    if isinstance(b, Lazy): b = ex.u.sym(b.ty, b.name, b.idx)
    if leafy(a) and leafy(b): return eq(a, b)
    if isinstance(a, PkV) or isinstance(b, PkV): return eq(pk_int(ex, a), pk_int(ex, b))
    if isinstance(a, Agg) and isinstance(b, Agg) and a.ty is not None and ex.T[a.ty]['disp'].endswith('prelude::Pubkey'):
        try: return eq(pk_int(ex, a), pk_int(ex, b))
        except Unsupported: pass
    if isinstance(a, Agg) and isinstance(b, Agg): return and_(*[deep_eq(ex, x, y) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, Enum) and isinstance(b, Enum):
        gs = [eq(a.d, b.d)]
        for k, var in enumerate(ex.T[a.ty]['variants']):
            fa = a.vs.get(k); fb = b.vs.get(k)
            if not var['fields'] or fa is None or fb is None: continue
            gs.append(implies(eq(a.d, k), and_(*[deep_eq(ex, x, y) for x, y in zip(fa, fb) if x is not UNDEF and y is not UNDEF])))
        return and_(*gs)
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        if a.base == b.base and a.writes is b.writes: return True
        if a.base == b.base and not a.writes and not b.writes: return True
        if isinstance(a.n, int) and a.n <= 64: return and_(*[deep_eq(ex, ex.u.arr_get(a, i), ex.u.arr_get(b, i)) for i in range(a.n)])
        i = t.fresh('i'); 
        return implies(and_(le(0, i), lt(i, a.n)), deep_eq(ex, ex.u.arr_get(a, i), ex.u.arr_get(b, i)))
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.what == b.what: return True
    if isinstance(a, Ref) and isinstance(b, Ref): return a.cell == b.cell and len(a.path) == len(b.path) and all(x == y for x, y in zip(a.path, b.path))
    raise ValueError('deep_eq %r %r' % (type(a), type(b)))
def fields_of(ex, ty):
    while ex.T[ty]['k'] in ('ref', 'ptr'): ty = ex.T[ty]['to']
    return [f[0] for f in ex.T[ty]['variants'][0]['fields']]
def field(v, n):
    """the raw value of a field of a View"""
    i, ft = v._e.mir.fidx(v._t, n)
    return v._e.u.get(v._v, (('f', i, ft),))
def same_field(a, b, n): return deep_eq(a._e, field(a, n), field(b, n))

# ---- sequences: quantified statements and sums over them -------------------------------------------------------
def conc(c): return bool(getattr(c.ex, 'concrete', False))
_qn = [0]
def all_(lo, hi, f):
    """f(i) for all lo <= i < hi"""
    if isc(lo) and isc(hi): return and_(*[f(i) for i in range(lo, hi)])
    v = t.var('?q%d' % _qn[0]); _qn[0] += 1
    try: return forall([v], implies(and_(le(lo, v), lt(v, hi)), f(v)))
    finally: _qn[0] -= 1
def some_(lo, hi, f): return not_(all_(lo, hi, lambda i: not_(f(i))))
_sn = [0]
def sum_(c, name, n, f, params=()):
    """f(*params, 0) + ... + f(*params, n - 1);  every varying value f depends on has to be a parameter"""
    if isc(n):
        r = 0
        for i in range(n): r = r + f(*params, i)
        return r
    vs = [t.var('?p%d.%d' % (_sn[0], i)) for i in range(len(params) + 1)]; _sn[0] += 1
    try: body = f(*vs)
    finally: _sn[0] -= 1
    for x in t.subterms([body] if isinstance(body, Term) else []).values():
        if x.op == 'var' and x.args[0].startswith('?') and x not in vs: raise ValueError('the sum %s depends on %s' % (name, x.args[0]))
    canon = [t.var('?c%d' % i) for i in range(len(vs))]
    if isinstance(body, Term): body = t.subst(body, {v.id: x for v, x in zip(vs, canon)})
    vs = canon
    key = '%s.%s' % (name, body.id if isinstance(body, Term) else body)
    t.SUMS[key] = ((lambda *a: t.subst(body, {v.id: x for v, x in zip(vs, a)})) if isinstance(body, Term) else (lambda *a: body), t.sort(body))
    return t.psum(key, tuple(params), n)
def changed_vecs(c, disp):
    """vectors of elements of a type that the loop changes: (before the loop, now)"""
    out = []
    for cell in sorted({m[0] for m in c.mods}):
        v = c.st.cells.get(cell); o = c.ent.cells.get(cell)
        if isinstance(v, VecV) and isinstance(o, VecV) and c.ex.T[v.ety]['disp'].endswith(disp): out.append((View(c.ex, c.ent, o, None), View(c.ex, c.st, v, None)))
    return out
def accumulators(c):
    """fixed-point numbers that the loop changes: (before the loop, now)"""
    out = []
    def fx(v): return isinstance(v, Agg) and v.ty is not None and c.ex.T[v.ty]['disp'].startswith('fixed::')
    def leaf(v): return [x for x in v.fs if leafy(x)][0]
    for cell in sorted({m[0] for m in c.mods}):
        v = c.st.cells.get(cell); o = c.ent.cells.get(cell)
        if fx(v) and fx(o): out.append((leaf(o), leaf(v)))
    return out
def changed(c, disp):
    """variables of a type that the loop changes: (before the loop, now)"""
    out = []
    for i in sorted(c.used):
        cell = c.fr.loc[i]; ty = c.fr.body['locals'][i]
        if c.ex.T[ty]['disp'] == disp and any(m[0] == cell for m in c.mods): out.append((View(c.ex, c.ent, None, None)._wrap(c.ent.cells.get(cell), ty), View(c.ex, c.st, None, None)._wrap(c.st.cells.get(cell), ty)))
    return out
def counters(c):
    """the counter of an enumeration moves with the elements"""
    T = c.ex.T
    def lo(v):
        if isinstance(v, IterV): return v.pos
        if isinstance(v, Agg) and v.ty is not None:
            d = T[v.ty]['disp']
            if d.startswith('std::ops::Range<'): return v.fs[0]
            if d.startswith(('std::iter::Map<', 'std::iter::Copied<', 'std::iter::Cloned<')): return lo(v.fs[0])
    for i in sorted(c.used):
        cell = c.fr.loc[i]; v = c.st.cells.get(cell); o = c.ent.cells.get(cell)
        if isinstance(v, Agg) and isinstance(o, Agg) and v.ty is not None and T[v.ty]['disp'].startswith('std::iter::Enumerate<') and lo(v.fs[0]) is not None:
            yield 'the enumeration counts the elements', eq(v.fs[1] - lo(v.fs[0]), o.fs[1] - lo(o.fs[0]))
def visited(c, disp):
    """how many elements of a type the loop has visited, and how many there are (None: iteration over a range of integers)"""
    T = c.ex.T; out = []
    def ety(it):
        v = c.ex.read(c.st, Ref(it.ref.cell, it.ref.path + (('idx', it.pos),)))
        return T[v.ty]['disp'] if isinstance(v, (Agg, Enum)) and v.ty is not None else ''
    def walk(v, off=0, hi=None):
        if isinstance(v, IterV):
            if isinstance(v.ref, Ref) and disp is not None and ety(v).endswith(disp): out.append((add(v.pos, off), v.end if hi is None else tmin(v.end, add(v.pos, hi))))
        elif isinstance(v, Agg) and v.ty is not None:
            d = T[v.ty]['disp']
            if d.startswith('std::iter::Zip<'):
                walk(v.fs[0], add(off, v.fs[2]), v.fs[3]); walk(v.fs[1], add(off, v.fs[2]), v.fs[3])
            elif d.startswith('std::iter::'):
                for x in v.fs: walk(x, off)
            elif d.startswith('std::ops::Range<') and disp is None: out.append((v.fs[0], v.fs[1]))
    for i in sorted(c.used):
        v = c.st.cells.get(c.fr.loc[i])
        if v is not None: walk(v)
    if not out:
        for i in sorted(c.used):
            v = c.st.cells.get(c.fr.loc[i])
            if isinstance(v, Agg) and v.ty is not None and T[v.ty]['disp'].startswith('std::ops::Range<usize'): out.append((v.fs[0], v.fs[1]))
    if not out: raise Unsupported('no iteration over %s' % disp)
    return out[-1]
