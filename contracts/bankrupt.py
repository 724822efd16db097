"""Contract of the token bankruptcy instruction (instructions/token_liq_bankruptcy.rs)."""
from .lib import *
from . import bank, account as A, health as Hh
from .liq import pick, okerr, wkey, ensure, fx, sample_bank, sample_tokens
from .settle import through, who, cells, caches, cache_of, hval, rec, fixnames, names, place
from .token import Proxy, sym, transfer
from .match import claim
from mirv.exec import CallCtx
from mirv.intr import mkfx, pk_int
from mirv.acct import Acct, acct_of
import re
IX = 'mango_v4::instructions::'; F = t.Fraction; BK = bank.BK; NS = ('liqor', 'liqee')
LOOPG = {'n1': 'Int', 'tot': 'Int', 'n2': 'Int', 'cred': 'Int', 'b:open': 'Int', 'b:dep': 'Int'}
GH = dict({k: 0 for k in LOOPG}); GH.update({k: 0 for k in ('verified', 'phase2', 'cov', 'nat1', 'insdep', 'liabwd', 'h:n', 'h:type', 'adj', 'adjv', 'recovery', 'x:from', 'x:to', 'x:authority', 'x:amount', 'x:n', 'b:cell', 'got', 'endn')}); GH.update({'bad': (), 'effect': False, 'acct_havoc': ()})
def ty_of(info): return info.dty if info.dty is not None else info.b['abi_ret']
class V:
    """what the instruction is to do, from its accounts"""
    def __init__(self, ex, st):
        c = ex.top; self.ex = ex; self.st = st; self.g = st.ghost; self.c = c; a = c.arg(0).accounts; self.a = a; self.mi = a.liab_mint_info.data; self.tok = self.mi.token_index
        self.ins = ex.insidx; self.same = eq(self.tok, self.ins); self.max = c.arg(1)
        X = lambda n: View(ex, c.old_st, *ex.extra[n])._wrap(*ex.extra[n]); self.L = X('liab'); self.I = X('ins'); self.lp = X('liab_price'); self.ip = X('ins_price')
        p = Proxy(c, 'liqee'); T = A.tokens(p.old(0)); k = wkey(p.old(0), self.tok)
        self.i = next((j for j in range(T.n) if T.id(j) == self.tok), 0) if getattr(ex, 'concrete', False) else self.g.get(k)
        self.T = T; self.p0 = T[self.i].indexed_position if self.i is not None else None
        self.nat0 = bank.native(self.L, self.p0) if self.p0 is not None else None
        self.bal = balances(ex, st)[tinfo(ex)].spot_and_perp
        if self.nat0 is None: return
        self.loss0 = tmin(neg(self.nat0), neg(self.bal))
        self.rate = ite(self.same, ONE, fxdiv(fxmul(self.lp, ONE + self.L.liquidation_fee), self.ip))
        self.vault = ite(eq(self.mi.group_insurance_fund, 1), a.insurance_vault.data.amount, 0)
        self.pay = tmin(fceil(fxmul(tmin(self.loss0, self.max), self.rate)), self.vault)
        self.cover = fxdiv(self.pay * ONE, self.rate)
        self.left = self.loss0 - ite(eq(self.g['cov'], 0), 0, self.g['nat1'] - self.nat0)
        self.social = and_(eq(self.pay, self.vault), lt(0, self.left))
        self.newidx = self.L.deposit_index - fxdiv(self.left, self.g['tot'])
def tinfo(ex): return ex.u.leaf({'k': 'int', 'bits': 64, 'signed': False}, 'tinfo', ())
def nbanks(ex): return ex.u.leaf({'k': 'int', 'bits': 64, 'signed': False}, 'nbanks', ())
def balances(ex, st): return View(ex, st, ex.u.sym(ex.baltys, 'balances'), ex.baltys)
# ---- accounts and banks
def num_banks(ex, st, args, info): return [(st, nbanks(ex))]
def split_at(ex, st, args, info):
    """the health accounts and the banks are separate accounts"""
    claim(ex, st, 'the banks come first', eq(args[1], nbanks(ex))); ty = ty_of(info); to = ex.T[ex.T[ty]['elems'][0]]['to']; rs = []
    for n, k in (('bank_ais', nbanks(ex)), ('health_ais', ex.u.leaf({'k': 'int', 'bits': 64, 'signed': False}, 'nhealth', ()))):
        c = ex.u.new_cell((n,)); ex.u.pending[c] = Lazy(to, n); rs.append(Ref(c, (), k))
    return [(st, Agg(ty, tuple(rs)))]
def verify(ex, st, args, info):
    claim(ex, st, 'the banks are checked against the mint info of the token', and_(eq(ex.slice_len(st, args[1]), nbanks(ex))))
    ok = okerr(ex, info, st, None if getattr(ex, 'concrete', False) else st.copy(), lambda ty: ex.fresh_val(ty, 'unit')); st.ghost['verified'] = 1
    return ok
def find_map(ex, st, args, info):
    """the first health account for which the closure has a result: an arbitrary account"""
    v = ex.u.sym(ty_of(info), 'insidx'); ty = ty_of(info)
    s = st; cell = ex.u.new_cell(('hb',)); st.cells[cell] = Acct(ex.aity, 'hb')
    out = []
    for s, r in ex.intr.callf(ex, st, args[1], [Ref(cell, ())]):
        r_ = View(ex, s, r, ty); s.assume(r_.some); s.assume(eq(r_.val(), ex.insidx)); out.append((s, Enum(ty, 1, {1: (ex.insidx,)})))
    return out
def load(ex, st, args, info):
    a = acct_of(ex, st, args[0]); ty = ex.bankty; out = lambda r: [(st, Enum(ty_of(info), 0, {0: (r,)}))]
    if a is None: raise Unsupported('an unknown bank account')
    if a.name == 'hb':
        cell = ex.u.new_cell(('hbank',)); st.cells[cell] = ex.u.sym(ty, 'health_bank'); return out(Ref(cell, ()))
    k = a.idx[-1]; g = st.ghost; o = V(ex, st); mut = 'load_mut' in info.name; cell = ex.u.new_cell(('bank',)); B = bank_at(ex, st, k)
    st.assume(bank_ok(B))
    if mut:
        claim(ex, st, 'banks are only changed to socialize a loss', o.social)
        claim(ex, st, 'all banks are counted', eq(g['n1'], nbanks(ex)))
        claim(ex, st, 'one bank after the other', and_(eq(k, g['n2']), lt(k, nbanks(ex)), eq(g['b:open'], 0)))
        g.update({'n2': g['n2'] + 1, 'b:cell': cell, 'b:open': 1, 'b:dep': 0}); g['effect'] = True; ex.mine[cell] = k
        if getattr(ex, 'concrete', False): g['b:open'] = 0
    def count(st):
        g = st.ghost; x = and_(eq(k, g['n1']), lt(k, nbanks(ex))); g['tot'] = g['tot'] + ite(x, B.indexed_deposits, 0); g['n1'] = g['n1'] + ite(x, 1, 0); st.cells[cell] = B._v; return [(st, Enum(ty_of(info), 0, {0: (Ref(cell, ()),)}))]
    def final(st):
        c2 = ex.u.new_cell(('bank',)); st.cells[c2] = ex.u.sym(ty, 'end_bank'); st.assume(bank_ok(View(ex, st, st.cells[c2], ty))); st.ghost['endn'] = 1; return [(st, Enum(ty_of(info), 0, {0: (Ref(c2, ()),)}))]
    if mut: st.cells[cell] = B._v; return out(Ref(cell, ()))
    if not (isc(k) and k == 0): return count(st)
    if not (isc(g['n1']) and g['n1'] == 0): return final(st)         # (the deposits have been counted)
    rs = []; s2 = st.copy()
    for s, cond, f in ((st, o.social, count), (s2, not_(o.social), final)):
        s = ex.branch(s, cond)
        if s: rs += f(s)
    return rs
def bank_at(ex, st, k): return View(ex, st, ex.u.sym(ex.bankty, 'banks', (k,)), ex.bankty)
def bank_ok(B): return and_(between(ONE, B.deposit_index, 1 << 90), between(ONE, B.borrow_index, 1 << 90), le(0, B.indexed_borrows), le(0, B.indexed_deposits))
def mine(ex, st, ref):
    for n in ('liab', 'ins'):
        if isinstance(ref, Ref) and ref.cell == ex.extra[n][0].cell: return n
    if isinstance(ref, Ref) and ref.cell in ex.mine: return 'bank'
def banks(ex, st, args, info):
    o = V(ex, st); claim(ex, st, 'the bank of the liability and of the insurance token', and_(eq(args[1], o.tok), eq(args[2], o.ins)))
    hb = View(ex, st, ex.u.sym(ex.bankty, 'health_bank'), ex.bankty)
    claim(ex, st, 'the insurance token is the one of the insurance mint', and_(eq(o.ins, hb.token_index), eq(key_of(hb.mint), key_of(o.a.insurance_vault.data.mint)), eq(key_of(o.a.group.data.insurance_mint), key_of(o.a.insurance_vault.data.mint))))
    rty = ty_of(info); ty = ex.T[rty]; okt = ty['variants'][0]['fields'][0][1]; opt = ex.T[okt]['elems'][2]; X = lambda n: ex.extra[n][0]; out = []
    tt = ex.T[opt]['variants'][1]['fields'][0][1]
    for cond, second in ((o.same, Enum(opt, 0, {0: ()})), (not_(o.same), Enum(opt, 1, {1: (Agg(tt, (X('ins'), X('ins_price'))),)}))):
        if cond is False: continue
        s = st.copy(); s.assume(cond); out += okerr(ex, info, s, None, lambda ty_: Agg(okt, (X('liab'), X('liab_price'), second)))
    return out
# ---- health
def caches_(ex, st, args, info):
    w = who(ex, field(CallCtx(ex, info.key, st, st, args, None).arg(0), 'dynamic'))
    claim(ex, st, 'the health of the liqee', w == 'liqee')
    return sym('cache_liqee')(ex, st, args, info)
def phase2(ex, st, args, info):
    st.ghost['phase2'] = 1
    return okerr(ex, info, st, None if getattr(ex, 'concrete', False) else st.copy(), lambda ty: ex.fresh_val(ty, 'unit'))
def effective(ex, st, args, info):
    c = CallCtx(ex, info.key, st, st, args, None); claim(ex, st, 'balances for liquidation end, before anything moves', and_(eq(c.arg(1).d, 2), eq(st.ghost['adj'], 0)))
    return [(st, balances(ex, st)._v)]
def info_index(ex, st, args, info):
    claim(ex, st, 'the balance of the liability token', eq(args[1], V(ex, st).tok))
    return okerr(ex, info, st, None if getattr(ex, 'concrete', False) else st.copy(), lambda ty: tinfo(ex))
def adjust(ex, st, args, info):
    c = CallCtx(ex, info.key, st, st, args, None); g = st.ghost; o = V(ex, st); p = Proxy(ex.top, 'liqee'); p.st = st; T = A.tokens(p.new(0)); e = View(ex, st, ex.u.sym(ex.bankty, 'end_bank'), ex.bankty)
    claim(ex, st, 'the cache follows the position of the liqee', and_(eq(g['endn'], 1), eq(c.arg(1).token_index, e.token_index), eq(c.arg(2), bank.native(e, T[o.i].indexed_position) - o.nat0)))
    g['adj'] = g['adj'] + 1
    return okerr(ex, info, st, None if getattr(ex, 'concrete', False) else st.copy(), lambda ty: ex.fresh_val(ty, 'unit'))
def health(ex, st, args, info):
    c = CallCtx(ex, info.key, st, st, args, None)
    claim(ex, st, 'liquidation end health after what moved', and_(eq(c.arg(1).d, 2), eq(st.ghost['adj'], 1)))
    return [(st, mkfx(ex, ty_of(info), hval(ex, 'liqee', 2)))]
def liqor_health(ex, st, args, info):
    c = CallCtx(ex, info.key, st, st, args, None); g = st.ghost
    claim(ex, st, 'init health of the liqor after what moved', and_(who(ex, field(c.arg(0), 'dynamic')) == 'liqor', eq(c.arg(1).d, 0), eq(g['insdep'], 1), eq(g['liabwd'], 1)))
    g['h:n'] = g['h:n'] + 1
    return okerr(ex, info, st, None if getattr(ex, 'concrete', False) else st.copy(), lambda ty: mkfx(ex, ty, hval(ex, 'liqor', 0)))
# ---- what moves
def op(name, mods):
    sp = FnSpec(BK + name, ensures=lambda c: [], modifies=[(0, (f,)) for f in bank.LEDGER + tuple(mods)] + [(1, (f,)) for f in bank.TPF])
    def f(ex, st, args, info):
        g = st.ghost; o = V(ex, st); c = CallCtx(ex, info.key, st, st, args, None); b = mine(ex, st, args[0]); w = who(ex, args[1]); x = c.arg(2); B = c.arg(0)
        if (name, b, w) == ('deposit_with_dusting', 'liab', 'liqee'):
            claim(ex, st, 'the liqee is credited what the insurance fund covers', and_(eq(x, o.cover), eq(g['cov'], 0), lt(0, o.pay), eq(g['n1'], 0))); g['cov'] = 1
        elif (name, b, w) == ('deposit_with_dusting', 'bank', 'liqee'):
            claim(ex, st, 'the liqee is credited the loss, up to the borrows of each bank', and_(eq(x, tmin(o.left - g['cred'], bank.nbr(B))), lt(0, x), eq(g['b:dep'], 0))); g['cred'] = g['cred'] + x; g['b:dep'] = 1
        elif (name, b, w) == ('deposit', 'ins', 'liqor'):
            claim(ex, st, 'the liqor gets the insurance tokens', and_(eq(x, o.pay * ONE), eq(g['insdep'], 0), lt(0, o.pay), not_(o.same))); g['insdep'] = 1
        elif (name, b, w) == ('withdraw_with_fee', 'liab', 'liqor'):
            claim(ex, st, 'the liqor takes over the liability', and_(eq(x, o.cover), eq(g['liabwd'], 0), lt(0, o.pay), not_(o.same))); g['liabwd'] = 1
        else: claim(ex, st, 'nothing else moves: %s, %s, %s' % (name, b, w), False)
        rs = through(ex, st, info, args) if getattr(ex, 'concrete', False) else ex.apply_contract(sp, st, info, args)
        for s, v in rs:
            if (b, w) == ('liab', 'liqee'): n = CallCtx(ex, info.key, s, st, args, None); s.ghost['nat1'] = bank.native(n.new(0) if False else View(ex, s, *ex.extra['liab'])._wrap(*ex.extra['liab']), View(ex, s, ex.read(s, args[1]), c.arg(1)._t).indexed_position)
        return rs
    return f
# ---- the loops
def i80(c):
    for i, cell in enumerate(c.fr.loc):
        if i not in c.used and i > c.fr.body['args'] and not any(m[0] == cell for m in c.mods): continue
        v, e = c.st.cells.get(cell), c.ent.cells.get(cell)
        if isinstance(v, Agg) and isinstance(e, Agg) and v.ty is not None and c.ex.T[v.ty]['disp'].startswith('fixed::I80F48') and any(m[0] == cell for m in c.mods): yield View(c.ex, c.st, v, v.ty)._wrap(v, v.ty), View(c.ex, c.ent, e, e.ty)._wrap(e, e.ty)
def has(c, *ws): return any(w in c.ex.T[ty].get('disp', '') for i, ty in enumerate(c.fr.body['locals']) if i in c.used for w in ws)
def inv1(c):
    g = c.st.ghost; yield 'counted so far', and_(between(0, g['n1'], nbanks(c.ex)), le(0, g['tot']), eq(g['n2'], 0))
    for k, n in iters(c): yield 'one bank after the other', eq(g['n1'], k)
    for v, e in i80(c): yield 'total deposits', eq(v, e + g['tot'])
def inv2(c):
    g = c.st.ghost; yield 'so far', and_(between(0, g['n2'], nbanks(c.ex)), le(0, g['cred']), eq(g['b:open'], 0))
    for k, n in iters(c): yield 'one bank after the other', eq(g['n2'], k)
    for v, e in i80(c): yield 'left to credit', eq(v, e - g['cred'])
def iters(c):
    """the positions of the loop in the list of banks: iterators, ranges and plain counters"""
    yield from counters_(c)
    for i in sorted(c.used):
        v = c.st.cells.get(c.fr.loc[i])
        if type(v).__name__ == 'IterV': yield v.pos, v.end
        elif isinstance(v, Agg) and v.ty is not None and c.ex.T[v.ty]['disp'].startswith('std::ops::Range<usize'): yield v.fs[0], v.fs[1]
def counters_(c):
    for i in sorted(c.used):
        cell = c.fr.loc[i]; e = c.ent.cells.get(cell)
        if c.ex.T[c.fr.body['locals'][i]].get('disp') == 'usize' and isc(e) and e == 0 and any(m[0] == cell for m in c.mods): yield c.st.cells[cell], nbanks(c.ex)
def step2(head, c):
    ex, st = c.ex, c.st; g = st.ghost; o = V(ex, st); cell = g['b:cell']
    if not isc(cell) or cell == 0: raise Unsupported('no bank in this iteration')
    B = View(ex, st, ex.cell(st, cell), ex.bankty); B0 = bank_at(ex, st, ex.mine[cell])
    claim(ex, st, 'every bank of the token gets the new deposit index', eq(B.deposit_index, o.newidx))
    claim(ex, st, 'each bank takes as much as it can', or_(eq(g['b:dep'], 1), le(tmin(o.left - g['cred'], bank.nbr(B)), 0)))
    claim(ex, st, 'nothing else in the banks changes', and_(*[same_field(B0, B, f) for f in fields_of(ex, ex.bankty) if f not in bank.LEDGER + bank.DEPMODS + ('deposit_index',)]))
    g['b:open'] = 0
LOOPS = {'*': [(lambda c: has(c, 'RefMut<') and has(c, 'state::bank::Bank') and has(c, 'AccountInfo'), LoopSpec(lambda c: list(inv2(c)), ghost={k: LOOPG[k] for k in ('n2', 'cred', 'b:dep', 'b:open')}, step=step2)),
               (lambda c: has(c, 'AccountInfo') and not has(c, 'IntoIter', 'Find', 'ScanningAccountRetriever'), LoopSpec(lambda c: list(inv1(c)), ghost={k: LOOPG[k] for k in ('n1', 'tot')}))]}
# ---- the claim
def req(c):
    ex = c.ex; o = V(ex, c.st)
    for n in NS: yield 'at most one position per token', A.tokens(Proxy(c, n).arg(0)).unique()
    yield 'banks', and_(bank_ok(o.L), bank_ok(o.I), le(0, o.L.liquidation_fee), lt(0, o.lp), lt(0, o.ip), lt(o.tok, A.FREE16), lt(o.ins, A.FREE16), between(1, nbanks(ex), 6), between(0, tinfo(ex), balances(ex, c.st).len() - 1))
def l02(c):
    ex = c.ex; o = V(ex, c.st); g = c.st.ghost; A0, A1 = c.old(0).accounts, c.new(0).accounts
    for b in g['bad']: yield b, False
    yield 'two different accounts', ne(A0.liqor.key, A0.liqee.key)
    yield 'the banks are those of the token', eq(g['verified'], 1)
    yield 'only after the other liquidations', eq(g['phase2'], 1)
    f0, f1 = Proxy(c, 'liqor').old(0).fixed, Proxy(c, 'liqee').new(0).fixed
    yield 'the liqor is not being liquidated', ne(f0.being_liquidated, 1)
    yield 'only a debt in the token, in position and in health', and_(lt(o.nat0, 0), lt(o.bal, 0))
    paid = lt(0, o.pay)
    yield 'the insurance fund pays what is lost, the maximum or all it has', and_(eq(g['x:n'], ite(paid, 1, 0)), implies(paid, and_(eq(g['x:amount'], o.pay), eq(g['x:from'], A0.insurance_vault.key), eq(g['x:to'], A0.quote_vault.key), eq(g['x:authority'], A0.group.key))))
    yield 'to the vault of the insurance token', implies(paid, eq(A0.quote_vault.key, ite(o.same, key_of(o.L.vault), key_of(o.I.vault))))
    yield 'for which the liqee is credited and the liqor pays', and_(eq(g['cov'], ite(paid, 1, 0)), *[eq(g[k], ite(and_(paid, not_(o.same)), 1, 0)) for k in ('insdep', 'liabwd')])
    yield 'the liqor has init health', or_(not_(paid), o.same, eq(f0.in_health_region, 1), and_(eq(g['h:n'], 1), le(0, hval(ex, 'liqor', 0))))
    yield 'a loss is socialized when the insurance fund is used up, over all banks of the token', eq(g['n2'], ite(o.social, nbanks(ex), 0))
    T1 = A.tokens(Proxy(c, 'liqee').new(0))
    yield 'and the debt is gone', implies(o.social, eq(T1[o.i].indexed_position, 0))
    if conc(c):
        for cell, k in ex.mine.items():
            if isc(o.social) and o.social: yield 'every bank of the token gets the new deposit index', eq(View(ex, c.st, ex.cell(c.st, cell), ex.bankty).deposit_index, o.newidx)
    yield 'the last bank is done', eq(g['b:open'], 0)
    yield 'the liquidation flag is cleared exactly if liquidation end health has recovered', and_(eq(g['adj'], 1), eq(f1.being_liquidated, ite(lt(-ONE, hval(ex, 'liqee', 2)), 0, 1)))
from mirv.intr import pk_int
def key_of(v): return pk_int(v._e, v._v) if isinstance(v, View) else v
def setup(ovr):
    def f(ex, st, args, M, key):
        for b in M.bodies.values():
            for r, g in ovr:
                if re.search(r, b['name']): ex.overrides[b['name']] = g
        c = CallCtx(ex, key, st, st, args, None); ex.top = c; cells(ex, st, c.arg(0).accounts, NS); ex.mine = {}; ex.accts = c.arg(0).accounts
        b = next(b for b in M.bodies.values() if b['name'].endswith('::banks_mut_and_oracles') and 'Scanning' in b['name']); tup = ex.T[ex.T[b['body']['locals'][0]]['variants'][0]['fields'][0][1]]['elems']
        ex.extra = {n: (ex.u.sym(tup[j], n), tup[j]) for n, j in (('liab', 0), ('ins', 0), ('liab_price', 1), ('ins_price', 1))}
        ty = lambda d: next(i for i, x in enumerate(ex.T) if x.get('disp') == d)
        ex.bankty = ty('state::bank::Bank'); ex.baltys = ty('std::vec::Vec<health::cache::TokenBalance>'); ex.aity = next(i for i, x in enumerate(ex.T) if x.get('disp', '').startswith('anchor_lang::prelude::AccountInfo<'))
        ex.insidx = ex.u.leaf({'k': 'int', 'bits': 16, 'signed': False}, 'insurance_token', ())
    return f
D, W = bank.DEPMODS, bank.WDFMODS
OVR = [(r'MintInfo::num_banks$', num_banks), (r'MintInfo::verify_banks_ais$', verify), (r'slice.*AccountInfo.*::split_at$', split_at), (r'AccountInfo.*Iterator>::find_map(::<.*>)?$', find_map), (r'AccountInfo.*Load(Mut)?ZeroCopyRef>::load(_mut)?(::<.*>)?$', load),
       (r'ScanningAccountRetriever.*::new$', sym('retriever')), (r'::banks_mut_and_oracles$', banks), (r'::new_health_cache(::<.*>)?$', caches_), (r'require_after_phase2_liquidation$', phase2), (r'HealthCache::effective_token_balances$', effective),
       (r'HealthCache::token_info_index$', info_index), (r'HealthCache::adjust_token_balance$', adjust), (r'HealthCache::health$', health), (r'health::cache::compute_health(::<.*>)?$', liqor_health), (r'^anchor_spl::token::transfer$', transfer),
       (r'bank::Bank::deposit$', op('deposit', D)), (r'bank::Bank::deposit_with_dusting$', op('deposit_with_dusting', D)), (r'bank::Bank::withdraw_with_fee$', op('withdraw_with_fee', W))]
def specs():
    s = {}; s.update(A.spec_of('ensure_token_position', apply=ensure)); s.update(A.spec_of('token_position_mut', apply=pick('TokenPosition', 1))); s.update(A.spec_of('token_position', apply=pick('TokenPosition', 0)))
    return s
def l02_sample(rng):
    m = {}; la = rng.choice([1, 2, 7]); ia = la if rng.random() < .25 else 0; debt = fx(rng, 1, 60); pl, pi = fx(rng, .5, 3), fx(rng, .5, 3)
    sample_bank(m, rng, 'liab', la, pl); sample_bank(m, rng, 'ins', ia, pi); L = m['liab*.borrow_index.bits']
    sample_tokens(m, rng, 'liqee', {la: -bank_div(debt, L)}); sample_tokens(m, rng, 'liqor', {x: fx(rng, -10, 50) for x in (la, ia) if rng.random() < .6})
    m['liqor*.header*.token_count'] += 2; m = fixnames(m, names(*NS)); d = m['*default']; a = 'ctx.accounts*.'
    n = rng.randint(1, 3); dep = m['liab*.deposit_index.bits']; m['nbanks'] = n
    for k in range(n):
        for f, v in (('net_borrow_limit_window_size_ts', 86400), ('net_borrow_limit_per_window_quote', -1), ('stable_price_model.stable_price', F(pl, ONE)), ('token_index', la), ('deposit_index.bits', dep), ('borrow_index.bits', L), ('indexed_deposits.bits', fx(rng, 100, 500)), ('indexed_borrows.bits', rng.choice([0, fx(rng, 0, 40)]) if n > 1 and k < n - 1 else fx(rng, 60, 90))): m[('banks.' + f, k)] = v
    for f, v in (('deposit_index.bits', dep), ('borrow_index.bits', L), ('token_index', la)): m['end_bank.' + f] = v
    m.update({'insurance_token': ia, 'nhealth': 4, 'tinfo': 1, 'balances.len': 2, ('balances.elem[].spot_and_perp.bits', 1): -debt if rng.random() < .6 else -fx(rng, 1, 60), 'max_liab_transfer.bits': rng.choice([fx(rng, 0, 80), 1000 * ONE]),
              'health_bank.token_index': ia, a + 'liab_mint_info.data.token_index': la, a + 'liab_mint_info.data.group_insurance_fund': int(rng.random() < .8), a + 'insurance_vault.data.0.amount': rng.choice([0, 0, rng.randint(1, 60), 10000]),
              'liab_price.bits': pl, 'ins_price.bits': pi, 'clock.unix_timestamp': 1000, a + 'group.data.insurance_mint.0#': 5, a + 'insurance_vault.data.0.mint.0#': 5, 'health_bank.mint.0#': 5, 'ins*.mint.0#': 5, 'ins*.vault.0#': 6, 'liab*.vault.0#': 6, a + 'quote_vault.key#': 6, a + 'liqor.key#': 1, a + 'liqee.key#': 2,
              a + 'liqor.data.owner.0#': 8, a + 'liqor_owner.key#': 8})
    return m
def bank_div(a, b): return a * ONE // b
def l02u(): return Prop('L02', [Unit(IX + 'token_liq_bankruptcy::token_liq_bankruptcy', req, l02, name='token_liq_bankruptcy', contracts=specs(), loops=LOOPS, ghost=GH, setup=setup(OVR), sample=l02_sample, feas_ms=100)])
PROPS = {'L02': l02u}
