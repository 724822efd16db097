"""Contracts of the deposit and withdraw instructions (instructions/token_deposit.rs, token_withdraw.rs)."""
from .lib import *
from . import bank, oracle, account as A, health as Hh
from .liq import bank_specs, moved, totals, pick, okerr, wkey, witness, differ, fx, sample_bank, sample_tokens, ensure
from .edit import raw
from mirv.exec import CallCtx
from mirv.intr import mkfx, pk_int
from mirv.acct import Acct, ata, acct_of
from mirv import solve
import re
IX = 'mango_v4::instructions::'
F = t.Fraction
# ---- what the instructions use of the rest: the health cache, oracles, token transfers
def mkcache(ex, st, args, info):
    # note what the position of the token is when health is computed
    c = CallCtx(ex, info.key, st, st, args, None); T = A.tokens(c.arg(0)); i = None
    if getattr(ex, 'concrete', False): i = next((j for j in range(T.n) if eq(T.id(j), ex.tok) is True), 0)
    else: i = st.ghost[wkey(c.arg(0), ex.tok)]
    st.ghost['at'] = T[i].indexed_position
    return sym('cache')(ex, st, args, info)
def both_ways(mk):
    """an arbitrary success or an error"""
    def apply(ex, st, args, info): return okerr(ex, info, st, None if getattr(ex, 'concrete', False) else st.copy(), lambda ty: mk(ex, st, args, info, ty))
    return apply
def sym(name): return both_ways(lambda ex, st, args, info, ty: ex.u.sym(ty, name))
HN = ['Init', 'Maint', 'LiquidationEnd']
def hfun(ex, d, adj):
    """health (by type) after the balance of the instruction's token has changed by adj: any function of it"""
    r = None
    for i, n in enumerate(HN):
        b = ex.u.leaf({'k': 'int', 'bits': 128, 'signed': True}, 'health.' + n, ())
        v = b if isc(adj) and adj == 0 else b + adj if isc(adj) and isc(b) else t.ite(eq(adj, 0), b, t.app('health', (i, adj)))
        r = v if r is None else ite(eq(d, i), v, r)
    return r
def health(ex, st, args, info):
    d = CallCtx(ex, info.key, st, st, args, None).arg(1).d
    return [(st, mkfx(ex, info.b['abi_ret'] if info.dty is None else info.dty, hfun(ex, d, st.ghost['adj'])))]
def has_info(ex): return ex.u.leaf({'k': 'bool'}, 'cache_has_token', ())
def has_token(ex, st, args, info):
    ex.oblige(st, 'handler', 'the health cache is asked for the token of the bank', eq(CallCtx(ex, info.key, st, st, args, None).arg(1), ex.tok), 'pre')
    return [(st, has_info(ex))]
def adjust(ex, st, args, info):
    c = CallCtx(ex, info.key, st, st, args, None); h = has_info(ex)
    ex.oblige(st, 'handler', 'the health cache is adjusted for the token of the bank', eq(c.arg(1).token_index, ex.tok), 'pre')
    s, e = st.copy(), st.copy(); s.assume(h); e.assume(not_(h)); s.ghost['adj'] = s.ghost['adj'] + c.arg(2)
    if h is True: e = None
    if h is False: return okerr(ex, info, s, e, lambda ty: ex.fresh_val(ty, 'unit'))[1:]
    return okerr(ex, info, s, e, lambda ty: ex.fresh_val(ty, 'unit'))
def transfer(ex, st, args, info):
    """a token transfer by the token program: who, where from and to, how much"""
    c = args[0]; ty = ex.T[c.ty]['variants'][0]['fields']; a = c.fs[[n for n, _ in ty].index('accounts')]
    for n, x in zip([n for n, _ in ex.T[a.ty]['variants'][0]['fields']], a.fs):
        k = acct_of(ex, st, x).key(ex.u); st.ghost['x:' + n] = k
    st.ghost['x:amount'] = args[1]; st.ghost['x:n'] = st.ghost['x:n'] + 1
    return okerr(ex, info, st, None if getattr(ex, 'concrete', False) else st.copy(), lambda t_: ex.fresh_val(t_, 'unit'))
GHOST = {'effect': False, 'acct_havoc': (), 'adj': 0, 'at': 0, 'priced': False, 'x:from': 0, 'x:to': 0, 'x:authority': 0, 'x:amount': 0, 'x:n': 0}
HC = 'mango_v4::health::cache::HealthCache::'
def price(ex, st, args, info):
    r = sym('valid_price')(ex, st, args, info)
    r[0][0].ghost['priced'] = True
    return r
def stable(ex, st, args, info):
    ty = info.dty if info.dty is not None else info.b['abi_ret']; el = ex.T[ty]['elems']
    return [(st, Agg(ty, tuple(ex.u.sym(e, n) for e, n in zip(el, ('stable_assets', 'stable_liabs')))))]
OVR = [(r'state::bank::Bank::oracle_price', price), (r'^anchor_spl::token::transfer$', transfer), (r'oracle_state_unchecked', sym('oracle')), (r'AccountInfoRef.*::borrow$', sym('oracle_ref')),
       (r'new_fixed_order_account_retriever', sym('retriever')), (r'::new_health_cache', mkcache), (r'HealthCache::health$', health),
       (r'HealthCache::has_token_info$', has_token), (r'HealthCache::adjust_token_balance$', adjust), (r'health_assets_and_liabs_stable_assets$', stable)]
def setup(path):
    def f(ex, st, args, M, key):
        for b in M.bodies.values():
            for r, g in OVR:
                if re.search(r, b['name']): ex.overrides[b['name']] = g
        c = CallCtx(ex, key, st, st, args, None); ex.accts = path(c)
        a = getattr(ex.accts, 'bank')._v
        a = acct_of(ex, st, a)
        ex.extra = {'bank': (a.dataref(ex, st), None)}
        ex.tok = ex.accts.bank.data.token_index
    return f
# ---- views: the account with its slots, as a method of DynamicAccount sees it
class Proxy:
    """a context whose argument 0 is the MangoAccount behind an account of the instruction"""
    def __init__(self, c, name='account'):
        self.c = c; self.ex = c.ex; self.st = c.st; self.old_st = c.old_st
        a = acct_of(c.ex, c.old_st, getattr(c.old(0).accounts, name)._v); self.a = a; ex = c.ex
        ty = next(x for x in ex.T if x.get('disp', '').startswith('std::result::Result<state::dynamic_account::DynamicAccount<') and 'RefMut<' in x['disp'])
        self.da = ty['variants'][0]['fields'][0][1]; fs = []
        for n, ft in ex.T[self.da]['variants'][0]['fields']:
            if n == 'fixed': fs.append(a.dataref(ex, c.old_st))
            elif n == 'header': fs.append(ex.u.sym(ft, a.name + '.header', a.idx))
            else: fs.append(a.dynref(ex))
        self.v = Agg(self.da, tuple(fs))
    def old(self, i): return View(self.ex, self.old_st, self.v, self.da)
    def new(self, i): return View(self.ex, self.st, self.v, self.da)
    arg = old
def g(c, k): return c.st.ghost[k]
def done(c, k, spec):
    return c.st.ghost.get(k, 0)
def reduce(B, both): return eq(B.reduce_only, 1) if both else or_(eq(B.reduce_only, 1), eq(B.reduce_only, 2))
U64 = (1 << 64) - 1
def usd(amt, price):
    v = fxmul(amt, price); return t.fdiv(v, ONE)
def net_ok(B, price): return or_(lt(B.net_borrows_in_window, 0), lt(B.net_borrow_limit_per_window_quote, 0), le(0, bank.remaining(B, price)))
def spots(c, p, tok):
    """the account's token slots before and after, and the one of the token"""
    k = wkey(p.old(0), tok)
    T0, T1 = A.tokens(p.old(0)), A.tokens(p.new(0))
    if conc(c):
        i = next((j for j in range(T0.n) if T0.id(j) == tok), None)
        if i is None: i = next((j for j in range(T1.n) if T1.id(j) == tok or A.ne(T1.id(j), T0.id(j)) is True or not T0.same(T1, j)), 0)
    else: i = c.st.ghost[k]
    return T0, T1, i
def key(a): return a.key
def freed(c, T1, i): return eq(T1.id(i), A.FREE16)
def post_ok(a, b): return A.post_ok(a, b)
def t02_req(c):
    B = c.arg(0).accounts.bank.data; p = Proxy(c)
    yield 'bank', and_(between(ONE, B.deposit_index, 1 << 90), between(ONE, B.borrow_index, 1 << 90), le(0, B.loan_origination_fee_rate), lt(0, B.net_borrow_limit_window_size_ts), lt(B.token_index, A.FREE16), between(0, bank.price_of(B), 1 << 60))
    yield 'at most one position per token', A.tokens(p.arg(0)).unique()
def t02(c):
    a0, a1 = c.old(0).accounts, c.new(0).accounts; B0, B1 = a0.bank.data, a1.bank.data; p = Proxy(c); tok = B0.token_index
    T0, T1, i = spots(c, p, tok); p0 = ite(eq(T0.id(i), tok), T0[i].indexed_position, 0); p1 = T1[i].indexed_position
    n0, n1 = bank.native(B0, p0), bank.native(B1, p1); amt, borrow = c.arg(1), c.arg(2); al = borrow if isinstance(borrow, bool) else borrow
    full = and_(eq(amt, U64), not_(al)); none = and_(full, lt(n0, 0)); want = ite(full, t.fdiv(n0, ONE), amt)
    f0, f1 = p.old(0).fixed, p.new(0).fixed
    yield 'nothing is paid out if all of no deposit is withdrawn', implies(none, and_(eq(g(c, 'x:n'), 0), eq(p0, p1), eq(B0.indexed_deposits, B1.indexed_deposits), eq(B0.indexed_borrows, B1.indexed_borrows)))
    go = not_(none)
    yield 'what is asked for is paid out of the vault of the bank, once', implies(go, and_(eq(g(c, 'x:n'), 1), eq(g(c, 'x:amount'), want), eq(g(c, 'x:from'), a0.vault.key), eq(g(c, 'x:to'), a0.token_account.key), eq(g(c, 'x:authority'), a0.group.key)))
    isb = lt(n0, want * ONE); fee = B1.collected_fees_native - B0.collected_fees_native; nb = ite(lt(n0, 0), want * ONE, tmax(want * ONE - n0, 0))
    yield 'the loan fee is charged on what is newly borrowed', implies(go, eq(fee, fxmul(B0.loan_origination_fee_rate, nb)))
    if conc(c): gone = -want * ONE
    else: gone = c.st.ghost.get('amt:bank:%d' % field(p.old(0), 'dynamic').cell, 0)
    yield 'the position is charged for what is paid out', implies(go, eq(gone, neg(want * ONE)))
    for lab, x in moved(B0, B1, p0, p1, gone - fee, 'the position shrinks by what is paid out and the loan fee'): yield lab, implies(go, x)
    yield from totals(B0, B1, [(p0, p1)], 'the totals of the bank move with the position')
    yield 'nothing else in the bank changes', and_(*[same_field(B0, B1, f) for f in fields_of(c.ex, B0._t) if f not in bank.LEDGER + bank.WDFMODS])
    px = c.ex.u.leaf({'k': 'int', 'bits': 128, 'signed': True}, 'oracle.price.bits', ())
    yield 'borrowing needs to be allowed', implies(and_(go, isb), and_(al, not_(reduce(B0, False))))
    yield 'borrowing needs a valid oracle price', implies(and_(go, isb), oracle_ok(c, B0.oracle_config))
    yield 'health counts the position as it was', implies(go, or_(region0(p), eq(g(c, 'at'), p0)))
    yield 'borrowing stays within the utilization limit', implies(and_(go, isb), le(bank.nbr(B1), fxmul(ONE - bank.f2fx(B1.min_vault_to_deposits_ratio), bank.nd(B1))))
    yield 'borrowing stays within the net borrow limit', implies(and_(go, isb), net_ok(B1, px))
    yield 'no withdrawal leaves borrows above deposits', implies(and_(go, not_(isb)), le(bank.nbr(B1), bank.nd(B1)))
    region = eq(f0.in_health_region, 1); hi0, hl0 = hfun(c.ex, 0, 0), hfun(c.ex, 2, 0); hi1 = hfun(c.ex, 0, n1 - n0); known = has_info(c.ex)
    yield 'initial health stays positive or does not fall', implies(and_(go, not_(region), known), A.post_ok(hi0, hi1))
    yield 'without the token in the health cache, no borrowing and positive health', implies(and_(go, not_(region), not_(known)), and_(not_(isb), le(0, hi0)))
    liq = eq(f0.being_liquidated, 1)
    yield 'no withdrawal while being liquidated', implies(and_(go, not_(region), liq), or_(lt(-ONE, hi0), lt(-ONE, hl0)))
    k = pk_int(c.ex, raw(a0.owner.key)) if not isinstance(a0.owner.key, (int, t.Term)) else a0.owner.key; own = pk_int(c.ex, raw(f0.owner))
    cl = p_now(c); dele = or_(eq(pk_int(c.ex, raw(f0.delegate)), k), and_(eq(pk_int(c.ex, raw(f0.temporary_delegate)), k), le(cl, f0.temporary_delegate_expiry)))
    mint = pk_int(c.ex, raw(a0.vault.data.mint)); ta = a0.token_account
    yield 'a delegate withdraws to the token account of the owner only', implies(and_(go, dele), and_(eq(ta.key, ata(c.ex, own, mint)), eq(pk_int(c.ex, raw(ta.data.owner)), own)))
    yield 'a delegate has to close the position', implies(and_(go, dele), freed(c, T1, i))
    yield 'only an empty position is closed', implies(freed(c, T1, i), and_(eq(p1, 0), eq(T1[i].in_use_count, 0)))
    yield 'the position stays the one of the token', or_(eq(T1.id(i), tok), freed(c, T1, i))
    yield 'net deposits follow', implies(go, eq(f1.net_deposits, f0.net_deposits - usd(want * ONE, px)))
    yield 'nothing else in the account changes', A.kept(p, [('TokenPosition', i)], 0, ('net_deposits', 'being_liquidated'))
def region0(p): return eq(p.old(0).fixed.in_health_region, 1)
def p_now(c):
    ty = next(i for i, x in enumerate(c.ex.T) if x.get('disp') == 'anchor_lang::prelude::Clock')
    return View(c.ex, c.st, c.ex.u.sym(ty, 'clock'), ty).unix_timestamp
def specs():
    q = {}; q.update(bank_specs())
    q.update(A.spec_of('ensure_token_position', apply=ensure)); q.update(A.spec_of('token_position_mut', apply=pick('TokenPosition', 1))); q.update(A.spec_of('token_position', apply=pick('TokenPosition', 0)))
    return q
def oracle_ok(c, cfg):
    """the oracle price is confident and recent enough"""
    ex = c.ex; ty = next(i for i, x in enumerate(ex.T) if x.get('disp') == 'state::oracle::OracleState'); s = View(ex, c.st, ex.u.sym(ty, 'oracle'), ty)
    ct = next(i for i, x in enumerate(ex.T) if x.get('disp') == 'anchor_lang::prelude::Clock'); cl = View(ex, c.st, ex.u.sym(ct, 'clock'), ct)
    return and_(not_(oracle.unsure(s, cfg)), not_(oracle.stale(s, cfg, cl.slot, cl.unix_timestamp)))
def t01_req(c):
    yield from t02_req(c)
def t01(existing):
    def ens(c):
        a0, a1 = c.old(0).accounts, c.new(0).accounts; B0, B1 = a0.bank.data, a1.bank.data; p = Proxy(c); tok = B0.token_index
        T0, T1, i = spots(c, p, tok); had = eq(T0.id(i), tok); p0 = ite(had, T0[i].indexed_position, 0); p1 = T1[i].indexed_position
        n0 = bank.native(B0, p0); amt, ro = c.arg(1), c.arg(2); br = eq(B0.reduce_only, 1)
        owed = t.fdiv(neg(tmin(n0, 0)) + ONE - 1, ONE); want = ite(or_(ro, br), tmin(owed, amt), amt)
        f0, f1 = p.old(0).fixed, p.new(0).fixed
        yield 'what is deposited goes into the vault of the bank, once', and_(eq(g(c, 'x:n'), 1), eq(g(c, 'x:amount'), want), eq(g(c, 'x:from'), a0.token_account.key), eq(g(c, 'x:to'), a0.vault.key), eq(g(c, 'x:authority'), a0.token_authority.key))
        yield 'a bank in reduce only mode takes no more than what is owed', implies(br, or_(ro, eq(want, amt)))
        came = want * ONE if conc(c) else c.st.ghost.get('amt:bank:%d' % field(p.old(0), 'dynamic').cell, 0)
        yield 'the position is credited what is deposited', eq(came, want * ONE)
        yield from moved(B0, B1, p0, p1, came, 'the position grows by what is deposited')
        yield from totals(B0, B1, [(p0, p1)], 'the totals of the bank move with the position')
        yield 'nothing else in the bank changes', and_(*[same_field(B0, B1, f) for f in fields_of(c.ex, B0._t) if f not in bank.LEDGER + bank.DEPMODS])
        yield 'deposits stay within the deposit limit', implies(lt(0, p1), bank.limit_ok(B1))
        yield 'a position is opened only with a valid oracle price' if not existing else 'no position is opened', had if existing else or_(had, g(c, 'priced'))
        region = eq(f0.in_health_region, 1); liq = eq(f0.being_liquidated, 1); rec = and_(liq, not_(region))
        yield 'health counts the deposit', eq(g(c, 'at'), p1)
        yield 'a deposit to an account being liquidated ends the liquidation', and_(implies(rec, lt(-ONE, hfun(c.ex, 2, 0))), eq(f1.being_liquidated, ite(rec, 0, f0.being_liquidated)))
        lim = a0.group.data.deposit_limit_quote; sa = c.ex.u.leaf({'k': 'int', 'bits': 128, 'signed': True}, 'stable_assets.bits', ())
        yield 'the account stays within the deposit limit of the group', or_(eq(lim, 0), le(tdiv(sa, ONE), lim))
        px = c.ex.u.leaf({'k': 'int', 'bits': 128, 'signed': True}, 'oracle.price.bits', ())
        yield 'net deposits follow', eq(f1.net_deposits, f0.net_deposits + usd(want * ONE, px))
        yield 'only an empty position is closed', implies(freed(c, T1, i), and_(eq(p1, 0), eq(T1[i].in_use_count, 0)) if not existing else False)
        yield 'the position stays the one of the token', or_(eq(T1.id(i), tok), freed(c, T1, i))
        yield 'nothing else in the account changes', A.kept(p, [('TokenPosition', i)], 0, ('net_deposits', 'being_liquidated'))
    return ens
# ---- inputs to start the search for a failing input from
def t_sample(withdraw):
    def f(rng):
        m = {}; a = 'ctx.accounts*.account'; b = 'ctx.accounts*.bank.data'; x, lo = rng.sample([0, 1, 2, 3, 7], 2); px = fx(rng, .5, 3)
        sample_bank(m, rng, 'B', x, px); m = {(k.replace('B*.', b + '.') if isinstance(k, str) else k): v for k, v in m.items()}
        toks = {x: fx(rng, -40, 40), lo: fx(rng, -5, 5)}
        if rng.random() < .4: m[b + '.deposit_index.bits'] = m[b + '.borrow_index.bits'] = ONE; toks[x] = toks[x] // ONE * ONE
        if rng.random() < .15: del toks[x]
        sample_tokens(m, rng, 'A', toks)
        m = {(k.replace('A*', a) if isinstance(k, str) else (k[0].replace('A*', a),) + k[1:]): v for k, v in m.items()}
        m['*default'] = {k.replace('A*', a): v for k, v in m['*default'].items()}; m[a + '.header.token_count'] = m.pop(a + '.header*.token_count')
        whole = lambda v: abs(v) // ONE
        m.update({'amount': rng.choice([U64, whole(toks.get(x, 0)), whole(toks.get(x, 0)) + 1, rng.randint(1, 50), rng.randint(1, 50)]), 'allow_borrow': rng.random() < .7, 'reduce_only': rng.random() < .3})
        ac = a + '.data.'; h = fx(rng, -30, 60); rare = lambda v, w: w if rng.random() < .15 else v
        m.update({'ctx.accounts*.vault.data.0.amount': 10**9, 'oracle.price.bits': px, 'health.Init': h, 'health.LiquidationEnd': h + fx(rng, 0, 10), 'health.Maint': h + fx(rng, 10, 20), 'cache_has_token': rng.random() < .8,
                  ac + 'being_liquidated': rare(0, 1), ac + 'in_health_region': rare(0, 1), b + '.reduce_only': rare(0, rng.choice([1, 2])), b + '.min_vault_to_deposits_ratio': F(rng.choice([0, 1]), 10), b + '.deposit_limit': rare(0, 5000),
                  b + '.net_borrow_limit_per_window_quote': rare(-1, rng.choice([0, 10, 100])), b + '.oracle_config.conf_filter.bits': ONE // 10, b + '.oracle_config.max_staleness_slots': -1, 'oracle.deviation.bits': rare(0, ONE),
                  'stable_assets.bits': fx(rng, 0, 100), 'ctx.accounts*.group.data.deposit_limit_quote': rare(0, rng.randint(1, 100)), 'clock.unix_timestamp': rng.choice([0, 1000, 100000])})
        for i, n in enumerate(('owner', 'vault', 'token_account', 'group', 'token_authority', 'bank', 'account')): m['ctx.accounts*.%s.key#' % n] = 100 + i
        if rng.random() < .3:      # a delegate
            m.update({ac + rng.choice(['delegate.0#', 'temporary_delegate.0#']): 100, ac + 'temporary_delegate_expiry': rng.choice([0, 1000, 10**6]), ac + 'owner.0#': 200, 'ctx.accounts*.vault.data.0.mint.0#': 300,
                      'ctx.accounts*.token_account.data.0.owner.0#': rare(200, 201), 'ctx.accounts*.token_account.key#': rare(ata(None, 200, 300), 102)})
        return m
    return f
def unit(f, req, ens, n): return Unit(IX + f, req, ens, name=n, contracts=specs(), ghost=GHOST, setup=setup(lambda c: c.arg(0).accounts), sample=t_sample('withdraw' in n))
def t01u(): return Prop('T01', [unit('token_deposit::token_deposit', t01_req, t01(False), 'token_deposit'), unit('token_deposit::token_deposit_into_existing', t01_req, t01(True), 'token_deposit_into_existing')])
def t02u(): return Prop('T02', [unit('token_withdraw::token_withdraw', t02_req, t02, 'token_withdraw')])
PROPS = {'T01': t01u, 'T02': t02u}
