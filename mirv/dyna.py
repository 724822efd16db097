"""MangoAccount: fixed part, parsed header and the dynamic part, which holds one sequence of slots per kind of position.

Model: the bytes of the dynamic part are read and written through get_helper / get_helper_mut with an offset computed by
the header.  An offset is represented by the pair (kind, slot number); using it for another type of slot, or using a slot
number that is not below the count in the header, fails an obligation.  That offsets of different slots (and kinds) are
disjoint, aligned and inside the account is what property A01 proves about the real offset functions."""
from . import term as t
from .term import isc
from .val import *

PRE = 'state::dynamic_account::DynamicAccount<'
KINDS = ['TokenPosition', 'Serum3Orders', 'PerpPosition', 'PerpOpenOrder', 'TokenConditionalSwap']
COUNTS = ['token_count', 'serum3_count', 'perp_count', 'perp_oo_count', 'token_conditional_swap_count']
OFFS = ['token_offset', 'serum3_offset', 'perp_offset', 'perp_oo_offset', 'token_conditional_swap_offset']
BASE = 1 << 64
def tids(u):
    r = getattr(u, 'dyn_tids', None)
    if r is None:
        r = u.dyn_tids = {}
        for i, ty in enumerate(u.T):
            if ty and ty.get('name', '').startswith('mango_v4::state::') and ty['name'].split('::')[-1] in KINDS: r[ty['name'].split('::')[-1]] = i
    return r
def dynv(u, name, idx=()):
    m = tids(u)
    return Agg(None, [ArrV(m[k], None, ('sym', '%s.%s' % (name, COUNTS[i][:-6]), tuple(idx))) if k in m else Opaque(k) for i, k in enumerate(KINDS)])
def sym(u, tid, name, idx):
    ty = u.T[tid]; fs = []
    for n, ft in ty['variants'][0]['fields']:
        d = u.T[ft]['disp']
        if n == 'dynamic':
            c = u.new_cell(('dyn', name)); u.pending[c] = DynLazy(name + '.dyn', idx)
            fs.append(Ref(c, (), u.leaf({'k': 'int', 'bits': 32, 'signed': False}, name + '.dyn.bytes', idx)))
        elif d.startswith('std::cell::'):
            to = [x for x in u.T[ft]['args'] if x is not None][-1]
            c = u.new_cell(('ref', name + '.' + n)); u.pending[c] = Lazy(to, name + '.' + n + '*', tuple(idx)); fs.append(Ref(c))
        else: fs.append(u.sym(ft, name + '.' + n, idx))
    return Agg(tid, fs)
class DynLazy(Lazy): 
    __slots__ = ()
    def __init__(self, name, idx): Lazy.__init__(self, ('dyn',), name, tuple(idx))
SYM = {PRE: sym}

def install(I, mir):
    T = mir.types
    def rty(info): return info.dty if info.dty is not None else info.b['abi_ret']
    def header(ex, st, v):
        while isinstance(v, (Ref, Choice)): v = ex.read(st, v)
        return v
    def off(k):
        def f(ex, st, a, info):
            if ex.abstract is not None or getattr(ex, 'raw_offsets', False): return None
            h = header(ex, st, a[0])
            if not isinstance(h, Agg): return None
            i, ft = mir.fidx(h.ty, COUNTS[k]); n = h.fs[i]
            ex.oblige(st, info.name, 'the slot number is below the number of slots', t.lt(a[1], n), 'slot')
            return [(st, t.add(a[1], BASE * (k + 1)))]
        return f
    H = 'mango_v4::state::mango_account::MangoAccountDynamicHeader::'
    for k, n in enumerate(OFFS): I.add([H + n], off(k), 'slots of the dynamic part of a MangoAccount are separate memory (A01)')
    def gh(ex, st, a, info):
        if ex.abstract is not None: return None
        d = T[T[rty(info)]['to']]['disp'].split('::')[-1]
        if d not in KINDS: return None
        r = a[0]
        while isinstance(r, (Ref, Choice)):
            v = ex.read(st, r)
            if not isinstance(v, (Ref, Choice)): break
            r = v
        k = KINDS.index(d); i = t.sub(a[1], BASE * (k + 1))
        ex.oblige(st, info.name, 'the offset belongs to this kind of slot', t.and_(t.le(0, i), t.lt(i, 1 << 32)), 'slot')
        return [(st, at(r, k, i))]
    def at(r, k, i):
        if isinstance(r, Choice): return Choice([(c, at(x, k, i)) for c, x in r.alts])
        return Ref(r.cell, r.path + (('f', k, None), ('idx', i)))
    I.add(['mango_v4::state::mango_account::get_helper', 'mango_v4::state::mango_account::get_helper_mut'], gh)
    def vecd(ex, st, a, info):
        v = a[0]
        while isinstance(v, (Ref, Choice)):
            x = ex.read(st, v)
            if not isinstance(x, (Ref, Choice)): break
            v = x
        if isinstance(x, Agg) and x.ty is None: return [(st, v)]
        return None
    I.addrx(r'^<std::vec::Vec<u8> as mango_v4::state::dynamic_account::DerefOrBorrow(Mut)?<\[u8\]>>::deref_or_borrow(_mut)?$', vecd)
