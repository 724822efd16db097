"""Contracts of the perp settlement instructions (instructions/perp_settle_pnl.rs, perp_force_close_position.rs)."""
from .lib import *
from . import bank, perp, account as A, health as Hh
from .liq import bank_specs, moved, totals, pick, okerr, wkey, fx, sample_bank, sample_tokens, ensure
from .token import Proxy, sym, both_ways, HN
from mirv.exec import CallCtx
from mirv.intr import mkfx
from mirv.acct import acct_of
import re
IX = 'mango_v4::instructions::'
F = t.Fraction
PP, PM, BK = perp.PP, perp.PM, bank.BK
# ---- recorders: the call goes through (by the callee's contract, or in a replay for real) and is noted in ghost state
def through(ex, st, info, args):
    s0 = ex.skip; ex.skip = info.def_
    try: return ex.call_key(st, info, args)
    finally: ex.skip = s0
def rec(note, spec=None, post=None):
    def f(ex, st, args, info):
        pre = st.copy(); args = list(args)
        rs = through(ex, st, info, args) if spec is None or getattr(ex, 'concrete', False) else ex.apply_contract(spec, st, info, args)
        for s, v in rs: note(CallCtx(ex, info.key, s, pre, args, v), s.ghost)
        return rs
    return f
def who(ex, v):
    """the account (by its name in the instruction) that a reference points into"""
    while isinstance(v, Ref):
        if v.cell in ex.cells: return ex.cells[v.cell]
        return None
def cells(ex, st, accts, names):
    ex.cells = {}
    for n in names:
        a = acct_of(ex, st, getattr(accts, n)._v); ex.cells[a.dynref(ex).cell] = n
def q(fs, i=0): return [(i, (f,)) for f in fs]
QN = ('quote_position_native', 'oneshot_settle_pnl_allowance', 'realized_pnl_for_position_native')
TRADE = FnSpec(PP + 'record_trade', requires=perp.trade_req, ensures=perp.trade, modifies=q(('base_position_lots', 'quote_position_native', 'avg_entry_price_per_base_lot', 'quote_running_native', 'realized_pnl_for_position_native', 'recurring_settle_pnl_allowance', 'deprecated_realized_trade_pnl_native')) + q(('open_interest',), 1))
def n_trade(c, g):
    w = who(c.ex, c.args[0])
    if w: g['trades:' + w] = g['trades:' + w] + 1; g['base:' + w] = g['base:' + w] + c.arg(2); g['quote:' + w] = g['quote:' + w] + c.arg(3)
def price(name, flag):
    def mk(ex, st, args, info, ty):
        v = ex.u.sym(ty, name); return v
    base = both_ways(mk)
    def f(ex, st, args, info):
        c = CallCtx(ex, info.key, st, st, args, None); now = ite(c.arg(2).some, 1, 0); r = base(ex, st, args, info)
        r[0][0].ghost[flag] = now; r[0][0].assume(le(0, px(ex, name)))
        return r
    return f
def px(ex, name): return ex.u.leaf({'k': 'int', 'bits': 128, 'signed': True}, name + '.bits', ())
def install(ovr, names, more=None):
    def f(ex, st, args, M, key):
        for b in M.bodies.values():
            for r, g in ovr:
                if re.search(r, b['name']): ex.overrides[b['name']] = g
        c = CallCtx(ex, key, st, st, args, None); ex.accts = c.arg(0).accounts
        cells(ex, st, ex.accts, names); ex.extra = {}
    return f
def acc_specs():
    s = {}; s.update(bank_specs())
    s.update(A.spec_of('ensure_token_position', apply=ensure)); s.update(A.spec_of('token_position_mut', apply=pick('TokenPosition', 1))); s.update(A.spec_of('token_position', apply=pick('TokenPosition', 0)))
    s.update(A.spec_of('perp_position', apply=pick('PerpPosition', 0))); s.update(A.spec_of('perp_position_mut', apply=pick('PerpPosition', 0)))
    return s
def place(c, p, kind, x):
    """the slots of a kind before and after, and the one for index x"""
    a, b = A.Slots(p.old(0), kind), A.Slots(p.new(0), kind)
    if conc(c):
        i = next((j for j in range(a.n) if a.id(j) == x), None)
        if i is None: i = next((j for j in range(a.n) if b.id(j) == x), 0)
        return a, b, i
    return a, b, c.st.ghost[wkey(p.old(0), x)]
ORACLE = (r'AccountInfoRef.*::borrow$', sym('oracle_ref'))
# ---------------------------------------------------------------- P06: forced closing of positions
P06G = dict({'effect': False, 'acct_havoc': (), 'fresh': 0}, **{k + n: 0 for k in ('trades:', 'base:', 'quote:') for n in ('account_a', 'account_b')})
def market_req(c, m, names):
    yield 'market', and_(lt(0, m.base_lot_size), lt(0, m.quote_lot_size), le(F(0), m.stable_price_model.stable_price), lt(m.perp_market_index, A.FREE16))
    for n in names:
        a = A.perps(Proxy(c, n).arg(0))
        yield 'at most one position per market, with an average entry price that is not negative', and_(a.unique(), all_(0, a.n, lambda j: le(F(0), a[j].avg_entry_price_per_base_lot)))
def p06_req(c): yield from market_req(c, c.arg(0).accounts.perp_market.data, ('account_a', 'account_b'))
def p06(c):
    g = c.st.ghost; M, M2 = c.old(0).accounts.perp_market.data, c.new(0).accounts.perp_market.data; x = M.perp_market_index; pr = px(c.ex, 'perp_price')
    P = {n: Proxy(c, 'account_' + n) for n in 'ab'}; S = {n: place(c, P[n], 'PerpPosition', x) for n in 'ab'}
    (a0, a1), (b0, b1) = [(S[n][0][S[n][2]], S[n][1][S[n][2]]) for n in 'ab']
    yield 'a long of the first account and a short of the second', and_(eq(S['a'][0].id(S['a'][2]), x), eq(S['b'][0].id(S['b'][2]), x), lt(0, a0.base_position_lots), lt(b0.base_position_lots, 0))
    T = tmin(a0.base_position_lots, neg(b0.base_position_lots)); Q = fxmul(T * M.base_lot_size * ONE, pr)
    yield 'as much as both have is closed', and_(eq(a1.base_position_lots, a0.base_position_lots - T), eq(b1.base_position_lots, b0.base_position_lots + T))
    yield 'it is paid for at the oracle price', and_(eq(a1.quote_position_native, a0.quote_position_native + Q), eq(b1.quote_position_native, b0.quote_position_native - Q))
    yield 'the oracle price is recent', eq(g['fresh'], 1)
    yield 'it is one trade for each of them', and_(*[and_(eq(g['trades:account_' + n], 1), eq(g['base:account_' + n], s * T), eq(g['quote:account_' + n], neg(s) * Q)) for n, s in (('a', -1), ('b', 1))])
    yield 'open interest falls by both', eq(M2.open_interest, M.open_interest - 2 * T)
    yield 'nothing else in the market changes', and_(*[same_field(M, M2, f) for f in fields_of(c.ex, M._t) if f != 'open_interest'])
    for n in 'ab': yield 'nothing else in the accounts changes', A.kept(P[n], [('PerpPosition', S[n][2])])
def p06u():
    ovr = [(r'PerpPosition::record_trade$', rec(n_trade, TRADE)), (r'PerpMarket::oracle_price', price('perp_price', 'fresh')), ORACLE]
    return Prop('P06', [Unit(IX + 'perp_force_close_position::perp_force_close_position', p06_req, p06, name='perp_force_close_position', contracts=acc_specs(), ghost=P06G, setup=install(ovr, ('account_a', 'account_b')), sample=p06_sample)])
def sample_perps(m, rng, acc, mk, base, quote, count=None):
    """a perp position in the market mk, in a random slot"""
    q_ = acc + '*.dyn.perp'; n = rng.randint(1, 3); m[acc + '*.header*.perp_count'] = n; d = m.setdefault('*default', {}); d[q_ + '[].market_index'] = A.FREE16; s = rng.randrange(n)
    m[(q_ + '[].market_index', s)] = mk; m[(q_ + '[].base_position_lots', s)] = base; m[(q_ + '[].quote_position_native.bits', s)] = quote
    m[(q_ + '[].avg_entry_price_per_base_lot', s)] = F(rng.randint(1, 30), 10); m[(q_ + '[].oneshot_settle_pnl_allowance.bits', s)] = fx(rng, -5, 5); m[(q_ + '[].recurring_settle_pnl_allowance', s)] = rng.randint(0, 20)
    m[(q_ + '[].settle_pnl_limit_settled_in_current_window_native', s)] = rng.randint(-5, 5); m[(q_ + '[].settle_pnl_limit_window', s)] = rng.randint(0, 20)
    return s
def fixnames(m, m2):
    def r(k):
        for a, b in m2: k = k.replace(a, b)
        return k
    d = m.pop('*default', {}); o = {(r(k) if isinstance(k, str) else (r(k[0]),) + k[1:]): v for k, v in m.items()}; o['*default'] = {r(k): v for k, v in d.items()}
    return o
def sample_market(m, rng, px_, mk=3, settle=0):
    b = 'ctx.accounts*.perp_market.data.'
    m.update({b + 'perp_market_index': mk, b + 'base_lot_size': rng.choice([1, 10]), b + 'quote_lot_size': rng.choice([1, 10]), b + 'stable_price_model.stable_price': F(px_, ONE), b + 'settle_pnl_limit_window_size_ts': rng.choice([50, 1000]),
              b + 'settle_pnl_limit_factor': F(rng.choice([-1, 1, 2]), 5), b + 'settle_token_index': settle, b + 'open_interest': 1000, 'perp_price.bits': px_, b + 'long_funding.bits': fx(rng, -2, 2), b + 'short_funding.bits': fx(rng, -2, 2),
              b + 'settle_fee_flat': F(rng.randint(0, 10), 10), b + 'settle_fee_amount_threshold': F(rng.randint(0, 20)), b + 'settle_fee_fraction_low_health': F(rng.randint(0, 10), 100)})
def names(*ns): return [x for n in ns for x in ((n + '*.header*', 'ctx.accounts*.%s.header' % n), (n + '*', 'ctx.accounts*.' + n))]
def p06_sample(rng):
    m = {}; sample_perps(m, rng, 'account_a', 3, rng.randint(-3, 20), fx(rng, -50, 50)); sample_perps(m, rng, 'account_b', 3, rng.randint(-20, 3), fx(rng, -50, 50))
    m = fixnames(m, names('account_a', 'account_b')); sample_market(m, rng, fx(rng, .5, 3))
    m['clock.unix_timestamp'] = 1000
    return m
# ---------------------------------------------------------------- P04: settling profits against losses
U3 = {u.name: u for u in perp.p03().units}; U2 = {u.name: u for u in perp.p02().units}; U5 = {u.name: u for u in perp.p05().units}; U1 = {u.name: u for u in perp.p01().units}
def spec(u, mods=()): return FnSpec(u.fn, requires=u.requires, ensures=u.ensures, modifies=q(mods))
FUND = spec(U2['settle_funding'], ('quote_position_native', 'oneshot_settle_pnl_allowance', 'realized_pnl_for_position_native', 'long_settled_funding', 'short_settled_funding', 'cumulative_long_funding', 'cumulative_short_funding'))
WIN = spec(U3['update_settle_limit'], ('settle_pnl_limit_settled_in_current_window_native', 'settle_pnl_limit_window'))
APL = spec(U3['apply_pnl_settle_limit'])
RECS = spec(U3['record_settle'], ('quote_position_native', 'oneshot_settle_pnl_allowance', 'recurring_settle_pnl_allowance', 'settle_pnl_limit_settled_in_current_window_native', 'deprecated_realized_trade_pnl_native'))
UPNL = spec(U1['unsettled_pnl']); FEE = spec(U5['compute_settle_fee'])
from .liq import led
DEP = bank.callee('deposit', A.both(bank.dep, led(bank.DEPMODS)), bank.DEPMODS); WD = bank.callee('withdraw_without_fee', A.both(bank.wd, led(bank.DEPMODS)), bank.DEPMODS)
def n_bank(sign):
    def f(c, g):
        w = who(c.ex, c.args[1])
        if w: g['paid:' + w] = g['paid:' + w] + (c.arg(2) if sign > 0 else neg(c.arg(2))); g['pays:' + w] = g['pays:' + w] + 1
    return f
def n_apl(c, g):
    w = who(c.ex, c.args[0])
    if w: g['lim:' + w] = c.ret; g['limx:' + w] = c.arg(2)
def n_set(c, g):
    w = who(c.ex, c.args[0])
    if w: g['set:' + w] = g['set:' + w] + c.arg(1)
def n_fee(c, g):
    if c.is_ok() is not False:
        g['fee'] = c.okval()
        for i in range(1, 6): g['fee%d' % i] = c.arg(i)
def caches(ns):
    """the health cache of an account; which account, in the names of its parts"""
    mk = {n: sym('cache_' + n) for n in ns}
    def f(ex, st, args, info):
        w = who(ex, field(CallCtx(ex, info.key, st, st, args, None).arg(0), 'dynamic'))
        if w is None: raise Unsupported('health of an unknown account')
        rs = mk[w](ex, st, args, info); v = rs[0][1].vs[0][0]; fs = [n for n, _ in ex.T[v.ty]['variants'][0]['fields']]
        ex.tags = getattr(ex, 'tags', []) + [(v.fs[fs.index('token_infos')], w)]
        return rs
    return f
def cache_of(c, i=0):
    for x, w in getattr(c.ex, 'tags', []):
        if x is c.arg(i).token_infos._v: return w
    v = c.arg(i).token_infos._v; m = re.search(r"cache_(\w+)[.*]", repr(getattr(v, 'base', v)))
    if not m: raise Unsupported('an unknown health cache: %r' % getattr(v, 'base', v))
    return m.group(1)
def hval(ex, w, d): return ex.u.leaf({'k': 'int', 'bits': 128, 'signed': True}, 'health.%s.%s' % (w, HN[d] if isc(d) else d), ())
def health_of(ex, st, args, info):
    c = CallCtx(ex, info.key, st, st, args, None); w = cache_of(c); d = c.arg(1).d; r = None
    for i in range(3): r = hval(ex, w, i) if r is None else ite(eq(d, i), hval(ex, w, i), r)
    return [(st, mkfx(ex, info.dty if info.dty is not None else info.b['abi_ret'], r))]
def max_settle(ex, st, args, info):
    c = CallCtx(ex, info.key, st, st, args, None); w = cache_of(c); rs = sym('max_settle')(ex, st, args, info)
    rs[0][0].ghost['max:' + w] = 1; rs[0][0].ghost['maxtok'] = c.arg(1)
    return rs
ABS = ('account_a', 'account_b', 'settler')
P04G = dict({'effect': False, 'acct_havoc': (), 'fee': 0, 'maxtok': 0, 'pfresh': 0, 'tfresh': 0}, **{k + n: 0 for k in ('lim:', 'limx:', 'set:', 'paid:', 'pays:', 'max:') for n in ABS})
P04G.update({'fee%d' % i: 0 for i in range(1, 6)})
def p04_req(c):
    a = c.arg(0).accounts; m = a.perp_market.data; B = a.settle_bank.data
    yield from market_req(c, m, ABS[:2])
    yield 'market settings', and_(lt(0, m.settle_pnl_limit_window_size_ts), le(F(0), m.settle_fee_flat), le(F(0), m.settle_fee_fraction_low_health), le(F(0), m.settle_fee_amount_threshold), lt(m.settle_token_index, A.FREE16))
    yield 'bank', and_(between(ONE, B.deposit_index, 1 << 90), between(ONE, B.borrow_index, 1 << 90), le(0, B.loan_origination_fee_rate))
    for n in ABS: yield 'at most one position per token', A.tokens(Proxy(c, n).arg(0)).unique()
def p04(c):
    g = c.st.ghost; A0, A1 = c.old(0).accounts, c.new(0).accounts; M = A0.perp_market.data; B0, B1 = A0.settle_bank.data, A1.settle_bank.data; x, y = M.perp_market_index, M.settle_token_index; pr, sp = px(c.ex, 'perp_price'), px(c.ex, 'settle_price')
    P = {n: Proxy(c, n) for n in ABS}; S = {n: place(c, P[n], 'PerpPosition', x) for n in ABS[:2]}; Tk = {n: place(c, P[n], 'TokenPosition', y) for n in ABS}
    (a0, a1), (b0, b1) = [(S[n][0][S[n][2]], S[n][1][S[n][2]]) for n in ABS[:2]]
    yield 'two different accounts', ne(A0.account_a.key, A0.account_b.key)
    yield 'both have a position in the market and in the token it settles in', and_(*[and_(eq(S[n][0].id(S[n][2]), x), eq(Tk[n][0].id(Tk[n][2]), y)) for n in ABS[:2]])
    yield 'the bank is the one of the token the market settles in', eq(B0.token_index, y)
    fa, fb = perp.funding_due(a0, M), perp.funding_due(b0, M); ua, ub = [p.quote_position_native - f + p.base_position_lots * M.base_lot_size * pr for p, f in ((a0, fa), (b0, fb))]
    yield 'after funding the first account has a profit and the second a loss', and_(lt(0, ua), lt(ub, 0))
    yield 'the settle limits are asked for these', and_(eq(g['limx:account_a'], ua), eq(g['limx:account_b'], ub))
    cl = now(c).unix_timestamp; W = M.settle_pnl_limit_window_size_ts
    yield 'of the current window', and_(*[and_(le(p.settle_pnl_limit_window * W, cl), lt(cl, p.settle_pnl_limit_window * W + W)) for p in (a1, b1)])
    yield 'the loser pays out of its own assets only', and_(eq(g['max:account_b'], 1), eq(g['max:account_a'], 0), eq(g['maxtok'], y))
    s = tmin(tmin(g['lim:account_a'], neg(g['lim:account_b'])), px(c.ex, 'max_settle'))
    yield 'as much is settled as both limits and the means of the loser allow', and_(lt(0, s), eq(g['set:account_a'], s), eq(g['set:account_b'], neg(s)))
    s = g['set:account_a']
    yield 'no more than the profit and the loss', and_(le(s, ua), le(s, neg(ub)))
    yield 'the perp positions pay funding and what is settled', and_(eq(a1.quote_position_native, a0.quote_position_native - fa - s), eq(b1.quote_position_native, b0.quote_position_native - fb + s), eq(a1.base_position_lots, a0.base_position_lots), eq(b1.base_position_lots, b0.base_position_lots))
    fee = g['fee']
    yield 'the fee is within what is settled', between(0, fee, s)
    yield 'the fee follows the health, profit and position of the first account', and_(eq(g['fee1'], s), eq(g['fee2'], fxmul(ua, sp)), eq(g['fee3'], fxmul(tabs(a0.base_position_lots * M.base_lot_size * ONE), pr)), eq(g['fee4'], hval(c.ex, 'account_a', 2)), eq(g['fee5'], hval(c.ex, 'account_a', 1)))
    pays = {'account_a': s - fee, 'account_b': neg(s), 'settler': fee}
    yield 'tokens: the profit less the fee, the loss, the fee', and_(*[and_(eq(g['paid:' + n], pays[n]), eq(g['pays:' + n], 1)) for n in ABS])
    pairs = []
    for n in ABS:
        T0, T1, i = Tk[n]; p0 = ite(eq(T0.id(i), y), T0[i].indexed_position, 0); p1 = T1[i].indexed_position; pairs.append((p0, p1))
        yield from moved(B0, B1, p0, p1, g['paid:' + n], 'the token position moves by that: ' + n)
    yield from totals(B0, B1, pairs, 'the totals of the bank move with the positions')
    yield 'nothing else in the bank changes', and_(*[same_field(B0, B1, f) for f in fields_of(c.ex, B0._t) if f not in bank.LEDGER + bank.DEPMODS])
    si, fi = tdiv(s, ONE), tdiv(fee, ONE)
    for n, p, p2, d in (('account_a', a0, a1, si - fi), ('account_b', b0, b1, neg(si))):
        f0, f1 = P[n].old(0).fixed, P[n].new(0).fixed
        yield 'transfers are counted: ' + n, and_(eq(p2.perp_spot_transfers, p.perp_spot_transfers + d), eq(f1.perp_spot_transfers, f0.perp_spot_transfers + d))
        yield 'the position stays the one of the token', eq(Tk[n][1].id(Tk[n][2]), y)
        yield 'nothing else in the account changes: ' + n, A.kept(P[n], [('PerpPosition', S[n][2]), ('TokenPosition', Tk[n][2])], 0, ('perp_spot_transfers',))
    T0, T1, i = Tk['settler']
    yield 'the settler keeps a position or has it closed empty', or_(eq(T1.id(i), y), and_(eq(T1.id(i), A.FREE16), eq(T1[i].indexed_position, 0), eq(T1[i].in_use_count, 0)))
    yield 'nothing else in the account changes: settler', A.kept(P['settler'], [('TokenPosition', i)])
def now(c):
    ty = next(i for i, x in enumerate(c.ex.T) if x.get('disp') == 'anchor_lang::prelude::Clock')
    return View(c.ex, c.st, c.ex.u.sym(ty, 'clock'), ty)
def p04_sample(rng):
    m = {}; pr = fx(rng, .5, 3); sample_perps(m, rng, 'account_a', 3, rng.randint(-3, 5), fx(rng, 10, 100)); sample_perps(m, rng, 'account_b', 3, rng.randint(-5, 3), fx(rng, -100, -10))
    for n in ABS: sample_tokens(m, rng, n, {0: fx(rng, -20, 40), 5: fx(rng, 0, 5)} if n != 'settler' or rng.random() < .6 else {5: fx(rng, 0, 5)})
    m['settler*.header*.token_count'] += 1
    sample_bank(m, rng, 'settle_bank', 0, fx(rng, .5, 2)); m = fixnames(m, names(*ABS) + [('settle_bank*.', 'ctx.accounts*.settle_bank.data.')]); sample_market(m, rng, pr)
    h = fx(rng, -10, 20)
    m.update({'max_settle.bits': fx(rng, -5, 100), 'health.account_a.Maint': h, 'health.account_a.LiquidationEnd': h - fx(rng, 0, 10), 'settle_price.bits': fx(rng, .5, 2), 'clock.unix_timestamp': rng.randint(0, 20000)})
    for i, n in enumerate(('account_a', 'account_b', 'settler', 'settler_owner', 'group')): m['ctx.accounts*.%s.key#' % n] = 100 + i
    m['ctx.accounts*.settler.data.owner.0#'] = 103
    return m
def p04u():
    ovr = [(r'PerpMarket::oracle_price', price('perp_price', 'pfresh')), (r'bank::Bank::oracle_price', price('settle_price', 'tfresh')), ORACLE, (r'ScanningAccountRetriever.*::new$', sym('retriever')), (r'::new_health_cache(::<.*>)?$', caches(ABS)),
           (r'HealthCache::health$', health_of), (r'HealthCache::perp_max_settle$', max_settle), (r'PerpPosition::settle_funding$', rec(lambda c, g: None, FUND)), (r'PerpPosition::unsettled_pnl$', rec(lambda c, g: None, UPNL)),
           (r'PerpPosition::update_settle_limit$', rec(lambda c, g: None, WIN)), (r'PerpPosition::apply_pnl_settle_limit$', rec(n_apl, APL)), (r'PerpPosition::record_settle$', rec(n_set, RECS)), (r'PerpMarket::compute_settle_fee$', rec(n_fee, FEE)),
           (r'bank::Bank::deposit$', rec(n_bank(1), DEP)), (r'bank::Bank::withdraw_without_fee$', rec(n_bank(-1), WD))]
    return Prop('P04', [Unit(IX + 'perp_settle_pnl::perp_settle_pnl', p04_req, p04, name='perp_settle_pnl', contracts=acc_specs(), ghost=P04G, setup=install(ovr, ABS), sample=p04_sample, feas_ms=100)])
# ---------------------------------------------------------------- P07: settling a loss against the fees of the market
P07G = {'effect': False, 'acct_havoc': (), 'lim:account': 0, 'limx:account': 0, 'set:account': 0, 'paid:account': 0, 'pays:account': 0, 'h:n': 0, 'h:type': 0, 'h:quote': 0, 'h:token': 0, 'h:transfers': 0}
def at_health(ex, st, args, info):
    """the health of the account as it is now, and what it is then"""
    c = CallCtx(ex, info.key, st, st, args, None); g = st.ghost; a = c.arg(0); w = who(ex, field(a, 'dynamic'))
    if w is None: raise Unsupported('health of an unknown account')
    g['h:n'] = g['h:n'] + 1; g['h:type'] = c.arg(1).d; m = ex.accts.perp_market.data
    for n, kind, x, f in (('h:quote', 'PerpPosition', m.perp_market_index, 'quote_position_native'), ('h:token', 'TokenPosition', m.settle_token_index, 'indexed_position')):
        T = A.Slots(a, kind); i = next((j for j in range(T.n) if T.id(j) == x), 0) if getattr(ex, 'concrete', False) else g[wkey(a, x)]
        g[n] = getattr(T[i], f)
    g['h:transfers'] = a.fixed.perp_spot_transfers; h = None
    for i in range(3): h = hval(ex, w, i) if h is None else ite(eq(c.arg(1).d, i), hval(ex, w, i), h)
    return both_ways(lambda ex, st, args, info, ty: mkfx(ex, ty, h))(ex, st, args, info)
def p07_req(c):
    a = c.arg(0).accounts; m = a.perp_market.data; B = a.settle_bank.data
    yield from market_req(c, m, ('account',))
    yield 'market settings', and_(lt(0, m.settle_pnl_limit_window_size_ts), lt(m.settle_token_index, A.FREE16))
    yield 'bank', and_(between(ONE, B.deposit_index, 1 << 90), between(ONE, B.borrow_index, 1 << 90), le(0, B.loan_origination_fee_rate))
    yield 'at most one position per token', A.tokens(Proxy(c, 'account').arg(0)).unique()
def p07(c):
    g = c.st.ghost; A0, A1 = c.old(0).accounts, c.new(0).accounts; M, M1 = A0.perp_market.data, A1.perp_market.data; B0, B1 = A0.settle_bank.data, A1.settle_bank.data; x, y = M.perp_market_index, M.settle_token_index; pr = px(c.ex, 'perp_price')
    p = Proxy(c, 'account'); S0, S1, i = place(c, p, 'PerpPosition', x); a0, a1 = S0[i], S1[i]
    yield 'the account has a position in the market', eq(S0.id(i), x)
    yield 'the bank is the one of the token the market settles in', eq(B0.token_index, y)
    yield 'a positive maximum', lt(0, c.old(1))
    fa = perp.funding_due(a0, M); ua = a0.quote_position_native - fa + a0.base_position_lots * M.base_lot_size * pr
    yield 'the settle limit is asked for the pnl after funding', eq(g['limx:account'], ua)
    lim = g['lim:account']; go = and_(lt(lim, 0), lt(0, M.fees_accrued)); s = ite(go, tmin(tmin(neg(lim), M.fees_accrued), c.old(1) * ONE), 0)
    yield 'a loss is settled within its limit, the fees accrued and the maximum', eq(g['set:account'], neg(s))
    s = neg(g['set:account'])
    yield 'no more than the loss', or_(eq(s, 0), and_(lt(0, s), le(s, neg(ua)), le(s, M.fees_accrued), le(s, c.old(1) * ONE)))
    yield 'the perp position pays funding and is credited what is settled', and_(eq(a1.quote_position_native, a0.quote_position_native - fa + s), eq(a1.base_position_lots, a0.base_position_lots))
    yield 'the fees of the market move from accrued to settled', and_(eq(M1.fees_accrued, M.fees_accrued - s), eq(M1.fees_settled, M.fees_settled + s))
    yield 'nothing else in the market changes', and_(*[same_field(M, M1, f) for f in fields_of(c.ex, M._t) if f not in ('fees_accrued', 'fees_settled')])
    yield 'tokens: the account pays what is settled', eq(g['paid:account'], neg(s))
    d = tdiv(s + ONE // 2, ONE); f0, f1 = p.old(0).fixed, p.new(0).fixed
    yield 'transfers are counted', and_(eq(a1.perp_spot_transfers, a0.perp_spot_transfers - d), eq(f1.perp_spot_transfers, f0.perp_spot_transfers - d))
    yield 'nothing else in the bank changes', and_(*[same_field(B0, B1, f) for f in fields_of(c.ex, B0._t) if f not in bank.LEDGER + bank.DEPMODS])
    if not conc(c) and wkey(p.old(0), y) not in g or conc(c) and s == 0:
        yield 'without a settlement the account only pays funding', and_(eq(s, 0), A.kept(p, [('PerpPosition', i)], 0, ()), *[same_field(B0, B1, f) for f in fields_of(c.ex, B0._t)])
        return
    T0, T1, j = place(c, p, 'TokenPosition', y); p0, p1 = T0[j].indexed_position, T1[j].indexed_position
    yield 'its position is the one of the settle token', or_(eq(s, 0), and_(eq(T0.id(j), y), eq(T1.id(j), y)))
    yield from moved(B0, B1, p0, p1, neg(s), 'the token position moves by that')
    yield from totals(B0, B1, [(p0, p1)], 'the totals of the bank move with the position')
    yield 'nothing else in the account changes', A.kept(p, [('PerpPosition', i), ('TokenPosition', j)], 0, ('perp_spot_transfers',))
    yield 'init health is computed once after all that and is not negative', or_(eq(s, 0), and_(eq(g['h:n'], 1), eq(g['h:type'], 0), eq(g['h:quote'], a1.quote_position_native), eq(g['h:token'], p1), eq(g['h:transfers'], f1.perp_spot_transfers), le(0, hval(c.ex, 'account', 0))))
def p07_sample(rng):
    m = {}; pr = fx(rng, .5, 3); sample_perps(m, rng, 'account', 3, rng.randint(-5, 5), fx(rng, -100, 10)); sample_tokens(m, rng, 'account', {0: fx(rng, -20, 40), 5: fx(rng, 0, 5)})
    sample_bank(m, rng, 'settle_bank', 0, fx(rng, .5, 2)); m = fixnames(m, names('account') + [('settle_bank*.', 'ctx.accounts*.settle_bank.data.')]); sample_market(m, rng, pr)
    m.update({'ctx.accounts*.perp_market.data.fees_accrued.bits': fx(rng, -2, 30), 'ctx.accounts*.perp_market.data.fees_settled.bits': fx(rng, 0, 30), 'max_settle_amount': rng.randint(0, 60), 'health.account.Init': fx(rng, -2, 10), 'clock.unix_timestamp': rng.randint(0, 20000)})
    return m
def p07u():
    ovr = [(r'PerpMarket::oracle_price', price('perp_price', 'pfresh')), (r'bank::Bank::oracle_price', price('settle_price', 'tfresh')), ORACLE, (r'new_fixed_order_account_retriever', sym('retriever')), (r'health::cache::compute_health(::<.*>)?$', at_health),
           (r'PerpPosition::settle_funding$', rec(lambda c, g: None, FUND)), (r'PerpPosition::unsettled_pnl$', rec(lambda c, g: None, UPNL)), (r'PerpPosition::apply_pnl_settle_limit$', rec(n_apl, APL)), (r'PerpPosition::record_settle$', rec(n_set, RECS)), (r'bank::Bank::withdraw_without_fee$', rec(n_bank(-1), WD))]
    return Prop('P07', [Unit(IX + 'perp_settle_fees::perp_settle_fees', p07_req, p07, name='perp_settle_fees', contracts=acc_specs(), ghost=dict(P07G, pfresh=0, tfresh=0), setup=install(ovr, ('account',)), sample=p07_sample, feas_ms=100)])
PROPS = {'P06': p06u, 'P04': p04u, 'P07': p07u}
