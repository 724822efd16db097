"""Models of anchor account wrappers (AccountLoader, Signer, Account, ...), std::cell::{Ref, RefMut},
Context plumbing and sysvars.

An account wrapper is the pair (account identity, wrapper type).  Its key, signer flag and data are
arbitrary (named after the account); loading an AccountLoader yields a reference to the account's data.
Errors of loading (wrong owner / discriminator / already borrowed) are not followed: an Err aborts the
instruction, and every contract on handlers constrains Ok results only.  Different accounts of one
instruction are different memory."""
import re
from . import term as t
from .term import Term, isc
from .val import *
from .sym import Custom
from .intr import PkV, pk_int

PFX = ("anchor_lang::prelude::AccountLoader<", "anchor_lang::prelude::Signer<", "anchor_lang::prelude::UncheckedAccount<", "anchor_lang::prelude::Account<",
       "anchor_lang::prelude::Program<", "anchor_lang::prelude::Sysvar<", "anchor_lang::prelude::AccountInfo<", "anchor_lang::prelude::SystemAccount<", "anchor_lang::prelude::Interface")

SYM = {p: (lambda u, tid, name, idx: Acct(tid, name, idx)) for p in PFX}
def leaf_int(u, name, idx): return u.leaf({'k': 'x'}, name, idx)
class Acct(Custom):
    __slots__ = ('ty', 'name', 'idx')
    def __init__(self, ty, name, idx=()): self.ty = ty; self.name = name; self.idx = tuple(idx)
    def __repr__(self): return 'Acct(%s%s)' % (self.name, list(self.idx) or '')
    def key(self, u): return leaf_int(u, self.name + '.key#', self.idx)
    def owner(self, u): return leaf_int(u, self.name + '.program#', self.idx)
    def signed(self, u): return u.leaf({'k': 'bool'}, self.name + '.is_signer', self.idx)
    def with_ty(self, ty): return Acct(ty, self.name, self.idx)
    def merge(self, u, c, o):
        if isinstance(o, Acct) and o.name == self.name and o.idx == self.idx: return self
        return Choice([(c, self), (True, o)])
    def havoc_like(self, ex, st, nm): return self
    def havoc(self, ex, st, why): pass
    def deref_read(self, ex, st): return self
    def datacell(self, u, tid):
        k = (self.name, self.idx, 'data', tid)
        c = u.acct_cells.get(k)
        if c is None:
            c = u.acct_cells[k] = u.new_cell(('account', self.name))
            u.pending[c] = Lazy(tid, self.name + '.data', self.idx)
        return c
    def dataref(self, ex, st, tid=None):
        c = self.datacell(ex.u, self.data_ty(ex.u) if tid is None else tid)
        if c not in st.cells and any(h[0] == self.name and h[1] in (None, self.idx) and h[2] in (-1, ex.u.pending[c].ty) for h in st.ghost.get('acct_havoc') or ()): st.cells[c] = ex.u.sym(ex.u.pending[c].ty, 'hv.acct%d' % c)      # (each path gets here at most once per account)
        return Ref(c)
    def const_ref(self, u, tag, v):
        k = (self.name, self.idx, tag)
        c = u.acct_cells.get(k)
        if c is None:
            c = u.acct_cells[k] = u.new_cell(('account', self.name + tag)); u.const_cells[c] = v
        return c
    def dynref(self, ex):
        from .dyna import DynLazy
        u = ex.u; k = (self.name, self.idx, 'dyn'); c = u.acct_cells.get(k)
        if c is None:
            c = u.acct_cells[k] = u.new_cell(('account', self.name + '.dyn')); u.pending[c] = DynLazy(self.name + '.dyn', self.idx)
        return Ref(c, (), u.leaf({'k': 'int', 'bits': 32, 'signed': False}, self.name + '.dyn.bytes', self.idx))
    def data_ty(self, u):
        ty = u.T[self.ty]
        for a in ty['args']: return a
    def data(self, ex, st): return ex.read(st, self.dataref(ex, st))
    def proj(self, u, p):
        if p[0] == 'f':
            fn, ft = u.T[self.ty]['variants'][0]['fields'][p[1]]
            d = u.T[ft]['disp']
            if d.startswith("anchor_lang::prelude::AccountInfo<"): return Acct(ft, self.name, self.idx)
            if fn == 'is_signer': return self.signed(u)
            if fn in ('is_writable', 'executable'): return u.leaf({'k': 'bool'}, self.name + '.' + fn, self.idx)
            if fn in ('key', 'owner') and u.T[ft]['k'] == 'ref':
                c = self.const_ref(u, fn, None)
                u.pending[c] = Lazy(('pk', self.key(u) if fn == 'key' else self.owner(u)), fn)
                return Ref(c)
            if fn == 'account' or fn == '0': return u.sym(ft, self.name + '.data', self.idx)
            return u.sym(ft, self.name + '.' + fn, self.idx)
        raise Unsupported('projection %r of an account' % (p,))
    def setf(self, u, path, x, i):
        return self
    def view_attr(self, view, n):
        ex = view._e; u = ex.u
        if n == 'key': return self.key(u)
        if n == 'signed': return self.signed(u)
        if n == 'data': return self.view_data(ex, view._s)
        raise AttributeError(n)
    def view_data(self, ex, st):
        from .exec import View
        ty = u_args = ex.u.T[self.ty]['args'][0]
        if ex.u.T[self.ty]['name'].endswith('AccountLoader'):
            return View(ex, st, ex.read(st, self.dataref(ex, st, ty)), ty)
        v = View(ex, st, ex.u.sym(ty, self.name + '.data', self.idx), ty)
        while ex.u.T[v._t]['variants'][0]['fields'][0][0] == '0': v = View(ex, st, v._v.fs[0], ex.u.T[v._t]['variants'][0]['fields'][0][1])   # spl newtype
        return v

def acct_of(ex, st, v):
    while isinstance(v, (Ref, Choice)) or (isinstance(v, Agg) and v.ty is not None and ex.T[v.ty]['disp'].startswith('std::boxed::Box<')):
        if isinstance(v, Agg): v = v.fs[0]; continue
        if isinstance(v, Choice) and any(isinstance(x, Acct) for _, x in v.alts): return None
        v = ex.read(st, v)
    return v if isinstance(v, Acct) else None
def ata(ex, o, m):
    if isc(o) and isc(m): return (o * 1000003 + m * 7919 + 17) % (1 << 61)
    return t.app('ata', (o, m))

def install(I, mir):
    T = mir.types
    def okv(ty, v): return Enum(ty, 0, {0: (v,)})
    def rty(info): return info.dty if info.dty is not None else info.b['abi_ret']
    # ---- std::cell guards
    def guard_deref(ex, st, args, info):
        v = args[0]
        if isinstance(v, (Ref, Choice)): v = ex.read(st, v)
        if isinstance(v, (Ref, Choice)): return [(st, v)]
        if isinstance(v, Custom): return [(st, v)]
        return None
    I.addrx(r"^<std::cell::Ref(Mut)?<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$", guard_deref, 'std::cell::Ref / RefMut guards are plain references')
    # ---- AccountLoader
    def load(ex, st, args, info):
        a = acct_of(ex, st, args[0])
        if a is None: return None
        if not info.name.endswith('::load'): st.ghost['effect'] = True
        return [(st, okv(rty(info), a.dataref(ex, st)))]
    I.addrx(r"^anchor_lang::prelude::AccountLoader::(<.*>::)?(load|load_mut|load_init)$", load, 'loading an account yields a reference to its (arbitrary) data of that type; failures abort the instruction')
    def zc(ex, st, args, info):
        a = acct_of(ex, st, args[0])
        if a is None: return None
        if 'load_mut' in info.name: st.ghost['effect'] = True
        g = ex.T[rty(info)]['variants'][0]['fields'][0][1]
        to = [x for x in ex.T[g]['args'] if x is not None][-1]
        return [(st, okv(rty(info), a.dataref(ex, st, to)))]
    I.addrx(r"^<anchor_lang::prelude::AccountInfo<.*> as mango_v4::accounts_zerocopy::Load(Mut)?ZeroCopyRef>::load(_mut)?$", zc, 'loading account data as a zero-copy type yields a reference to its (arbitrary) data of that type; failures abort the instruction')
    def full(ex, st, args, info):
        a = acct_of(ex, st, args[0])
        if a is None: return None
        if not info.name.endswith('load_full'): st.ghost['effect'] = True
        ty = rty(info); da = ex.T[ty]['variants'][0]['fields'][0][1]
        fs = []
        for n, ft in ex.T[da]['variants'][0]['fields']:
            if n == 'fixed': fs.append(a.dataref(ex, st))
            elif n == 'header': fs.append(ex.u.sym(ft, a.name + '.header', a.idx))
            elif ex.abstract is None: fs.append(a.dynref(ex))
            else: fs.append(ex.u.sym(ft, a.name + '.dynamic', a.idx))
        return [(st, okv(ty, Agg(da, tuple(fs))))]
    I.addrx(r"MangoAccountLoader(<.*>)?>::load_full(_mut|_init)?$", full, 'load_full: fixed part and dynamic part of the account data')
    def ctx_new(ex, st, args, info):
        m = dict(zip(('program_id', 'accounts', 'remaining_accounts', 'bumps'), args))
        ty = rty(info)
        return [(st, Agg(ty, tuple(m[n] for n, ft in ex.T[ty]['variants'][0]['fields'])))]
    I.addrx(r"^anchor_lang::context::Context::(<.*>::)?new$", ctx_new, 'Context::new bundles its arguments')
    def cpi_new(ex, st, args, info):
        ty = rty(info); fs = []
        for n, ft in ex.T[ty]['variants'][0]['fields']: fs.append(args[0] if n == 'program' else args[1] if n == 'accounts' else ex.fresh_val(ft, 'cpi.' + n))
        return [(st, Agg(ty, tuple(fs)))]
    I.addrx(r"^anchor_lang::context::CpiContext::(<.*>::)?new$", cpi_new, 'CpiContext::new bundles its arguments')
    I.addrx(r"^anchor_lang::context::CpiContext::(<.*>::)?with_signer$", lambda ex, st, args, info: [(st, args[0])], 'with_signer adds signer seeds only')
    def key(ex, st, args, info):
        a = acct_of(ex, st, args[0])
        if a is None: return None
        return [(st, PkV(a.key(ex.u)))]
    I.addrx(r"as anchor_lang::Key>::key$|anchor_lang::Key for .*>::key$", key, 'the key of an account is arbitrary')
    def to_info(ex, st, args, info):
        a = acct_of(ex, st, args[0])
        if a is None: return None
        ty = rty(info)
        if ex.T[ty]['k'] == 'ref':
            c = ex.u.new_cell(('acct',)); st.cells[c] = a.with_ty(ex.T[ty]['to']); return [(st, Ref(c))]
        return [(st, a.with_ty(ty))]
    I.addrx(r"as anchor_lang::ToAccountInfo<?.*>::to_account_info$|^<anchor_lang::prelude::\w+<.*> as std::convert::AsRef<anchor_lang::prelude::AccountInfo<.*>>>::as_ref$|^<anchor_lang::prelude::AccountInfo<.*> as std::clone::Clone>::clone$", to_info, 'account wrappers convert to the same account')
    I.addrx(r"^anchor_lang::prelude::AccountLoader::(<.*>::)?try_from(_unchecked)?$|^anchor_lang::prelude::Account::(<.*>::)?try_from(_unchecked)?$|^<anchor_lang::prelude::\w+<.*> as std::convert::TryFrom<&anchor_lang::prelude::AccountInfo<.*>>>::try_from$",
            lambda ex, st, args, info: (lambda a: None if a is None else [(st, okv(rty(info), a.with_ty(ex.T[rty(info)]['variants'][0]['fields'][0][1])))])(acct_of(ex, st, args[-1])), 'typed access to an account; owner and discriminator checks abort')
    # ---- parsing of the account list
    def take(ex, st, args, info):
        r = ex.read(st, args[1])           # &mut &[AccountInfo]
        if not isinstance(r, Ref): return None
        el = ex.read(st, Ref(r.cell, r.path + (('idx', 0),)))
        if not isinstance(el, Acct): return None
        ex.write(st, args[1], Ref(r.cell, r.path + (('off', 1),), t.sub(r.meta, 1)))
        s = ex.branch(st, t.le(1, r.meta))
        if s is None: return []
        ty = ex.T[rty(info)]['variants'][0]['fields'][0][1]
        boxed = ex.T[ty]['disp'].startswith('std::boxed::Box<')
        a = el.with_ty(ex.T[ty]['args'][0] if boxed else ty)
        if ex.T[a.ty]['disp'].startswith('anchor_lang::prelude::Signer<'): s.assume(a.signed(ex.u))
        if boxed:
            c = ex.u.new_cell(('box',)); s.cells[c] = a
            return [(s, okv(rty(info), Ref(c)))]
        return [(s, okv(rty(info), a))]
    W = r"anchor_lang::prelude::(AccountLoader|Signer|UncheckedAccount|Account|Program|Sysvar|AccountInfo|SystemAccount|Interface|InterfaceAccount)<"
    I.addrx(r"^<" + W + r".*> as anchor_lang::Accounts<.*>>::try_accounts$|accounts::boxed::<impl anchor_lang::Accounts<.*> for std::boxed::Box<.*>>::try_accounts$", take,
            'anchor takes the next account of the instruction; a Signer account has signed; account type checks abort')
    def deref(ex, st, args, info):
        a = acct_of(ex, st, args[0])
        if a is None: return None
        to = ex.T[rty(info)]['to']
        if ex.T[to]['disp'].startswith('anchor_lang::prelude::AccountInfo<'):
            c = ex.u.new_cell(('acct',)); st.cells[c] = a.with_ty(to); return [(st, Ref(c))]
        return [(st, a.dataref(ex, st, to))]
    I.addrx(r"^<anchor_lang::prelude::\w+<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$", deref, 'account wrappers deref to the account or to its decoded (arbitrary) data')
    def spl(ex, st, args, info):
        r = args[0]
        while isinstance(r, Ref) and ex.T[rty(info)]['k'] == 'ref':
            v = ex.read(st, r)
            if isinstance(v, Ref): r = v
            else: break
        if not isinstance(r, Ref): return None
        return [(st, Ref(r.cell, r.path + (('f', 0, ex.T[rty(info)]['to']),)))]
    I.addrx(r"^<anchor_spl::token::(TokenAccount|Mint) as std::ops::Deref>::deref$", spl, 'newtype around the SPL token structs')
    def reload(ex, st, args, info):
        a = acct_of(ex, st, args[0])
        if a is None: return None
        ty = ex.T[a.ty]['args'][0]; r = a.dataref(ex, st, ty)
        st.cells[r.cell] = ex.fresh_val(ty, 'reload')
        for log in ex.writes: log.append((r.cell, ()))
        return [(st, ex.fresh_val(rty(info), 'ret.reload'))]
    I.addrx(r"^anchor_lang::prelude::Account::(<.*>::)?reload$", reload, 'reloading a token account gives arbitrary new contents')
    def clock(ex, st, args, info):
        return [(st, okv(rty(info), ex.u.sym(ex.T[rty(info)]['variants'][0]['fields'][0][1], 'clock')))]
    I.addrx(r"SolanaSysvar for anchor_lang::prelude::Clock>::get$", clock, 'the cluster clock is arbitrary but constant during an instruction')
    def f_ata(ex, st, args, info):
        p = [pk_int(ex, ex.read(st, a) if isinstance(a, (Ref, Choice)) else a) for a in args[:2]]
        return [(st, PkV(ata(ex, *p)))]
    I.addrx(r"get_associated_token_address$", f_ata, 'the associated token address is a function of owner and mint')
    def bump(ex, st, args, info): return ex.unknown(st, info, args[:0], info.name)
    I.addrx(r"^std::collections::BTreeMap::(<.*>::)?(insert|entry|get|contains_key|remove)$", bump, 'BTreeMap (bump bookkeeping of anchor): arbitrary results')
