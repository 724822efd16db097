"""Contracts of the liquidation and swap instructions: what moves between the two accounts (instructions/*.rs)."""
from .lib import *
from . import bank, account as A, health as Hh
from mirv.exec import CallCtx
from mirv.intr import mkfx
from mirv import solve
IX = 'mango_v4::instructions::'
BK = bank.BK; F = t.Fraction
# ---------------------------------------------------------------- contracts of the callees
def credited(c): yield 'the fee is credited', eq(c.new(0).collected_fees_native, c.old(0).collected_fees_native + c.okval().loan_origination_fee)
def feepos(c): yield 'the fee is not negative', le(0, c.okval().loan_origination_fee)
L1 = bank.ledger([1], ())
def led(mods): return bank.ledger([1], mods)
def bank_specs():
    D, W = bank.DEPMODS, bank.WDFMODS
    sp = [bank.callee('deposit', A.both(bank.dep, led(D)), D), bank.callee('deposit_with_dusting', A.both(bank.depd, led(D)), D),
          bank.callee('withdraw_without_fee_with_dusting', A.both(bank.wdd, led(D)), D), bank.callee('withdraw_without_fee', A.both(bank.wd, led(D)), D),
          bank.callee('withdraw_with_fee', A.both(bank.wdf, led(W), bank.wf, feepos), W)]
    for x, sign in zip(sp, (1, 1, -1, -1, -1)): x.apply = recording(x, sign)
    return {x.name: x for x in sp}
def recording(sp, sign):
    """the contract of a bank operation; the amount is noted under the account it was for and the bank"""
    plain = FnSpec(sp.name, sp.requires, sp.ensures, sp.modifies)
    def apply(ex, st, args, info):
        b = next((n for n, v in ((n, x[0]) for n, x in ex.extra.items() if isinstance(x, tuple)) if isinstance(v, Ref) and isinstance(args[0], Ref) and v.cell == args[0].cell and v.path == args[0].path), None)
        amt = CallCtx(ex, info.key, st, st, args, None).arg(2)
        if b is not None and isinstance(args[1], Ref):
            k = 'amt:%s:%d' % (b, args[1].cell); st.ghost[k] = st.ghost.get(k, 0) + (amt if sign > 0 else neg(amt))
        return ex.apply_contract(plain, st, info, args)
    return apply
def amount(c, i, bank_, spec):
    """the amount that was deposited to (withdrawn from, if negative) the position of account argument i, by the calls made"""
    return spec if conc(c) else c.st.ghost.get('amt:%s:%d' % (bank_, field(c.arg(i), 'dynamic').cell), 0)
# ---- witnesses: which slot / entry a callee picked (recorded by its contract; in a replay found by looking)
def wkey(acc, x): return 'slot:%d:%s' % (field(acc, 'dynamic').cell, x)
def slot(c, i, kind, x):
    """the slot of account argument i that is (or becomes) the one for index x"""
    if conc(c):
        a, b = A.Slots(c.old(i), kind), A.Slots(c.new(i), kind)
        for s in (lambda j: a.id(j), lambda j: b.id(j)):
            for j in range(a.n):
                if s(j) == x: return j
        return next((j for j in range(a.n) if not A.ne(a.id(j), A.FREE16)), 0)
    return c.st.ghost[wkey(c.arg(i), x)]
def entry(c, i, x):
    """the entry of a token in the health cache"""
    if conc(c):
        T = c.old(i).token_infos
        return next((j for j in range(T.len()) if T[j].token_index == x), 0)
    return c.st.ghost['tidx:%s' % x]
def witness(st, k, i=None):
    """the witness named k.  Two witnesses of the same collection stand for entries with different keys: once the path condition
    proves that they differ, they are treated as different variables"""
    if k not in st.ghost: st.ghost[k] = t.fresh('slot') if i is None else i
    return st.ghost[k]
def differ(st, k):
    i = st.ghost[k]
    if isc(i): return
    for q, j in list(st.ghost.items()):
        if q == k or q.split(':')[:2] != k.split(':')[:2] or isc(j) or (i.id, j.id) in t.DISTINCT: continue
        if i.op == j.op == 'var' and solve.prove(st.pc, t.not_(t.mk('eq', (i, j), 'Bool')), 3)[0] == 'proved': t.distinct(i, j)
def okerr(ex, info, s, e, ok):
    """Ok(ok) in the state s and an arbitrary error in the state e"""
    rty = info.dty if info.dty is not None else info.b['abi_ret']; ty = ex.T[rty]; out = [(s, Enum(rty, 0, {0: (ok(ty['variants'][0]['fields'][0][1]),)}))]
    if e is not None: out.append((e, Enum(rty, 1, {1: (ex.fresh_val(ty['variants'][1]['fields'][0][1], 'err'),)})))
    return out
def pick(kind, ret, want=1):
    """a lookup by index returns the slot (and its number) or fails if there is none"""
    def apply(ex, st, args, info):
        c = CallCtx(ex, info.key, st, st.copy(), args, None); a = A.Slots(c.arg(0), kind); x = c.arg(want)
        k = wkey(c.arg(0), x); s = st.copy(); i = witness(s, k)
        r = field(c.arg(0), 'dynamic'); sl = Ref(r.cell, r.path + (('f', A.KINDS.index(kind), None), ('idx', i)))
        s.assume(and_(between(0, i, a.n - 1), eq(a.id(i), x))); differ(s, k)
        e = st.copy(); e.assume(not_(a.has(x)))
        return okerr(ex, info, s, e, lambda tup: Agg(tup, (sl, i)) if ret else sl)
    return apply
def ensure(ex, st, args, info):
    c = CallCtx(ex, info.key, st, st, args, None); x = c.arg(1); k = wkey(c.arg(0), x); out = []
    for s, v in A.ensure_apply(ex, st, args, info):
        if v.d == 0:
            i = v.vs[0][0].fs[1]
            if k in s.ghost: s.assume(eq(s.ghost[k], i))      # at most one slot per token: it is the slot that was found before
            else: s.ghost[k] = i
            differ(s, k)
        out.append((s, v))
    return out
def acct_specs():
    q = A.spec_of('ensure_token_position', apply=ensure)
    q.update(A.spec_of('token_position_and_raw_index', apply=pick('TokenPosition', 1)))
    q.update(A.spec_of('token_position_mut', apply=pick('TokenPosition', 1)))
    q.update(A.spec_of('token_position', apply=pick('TokenPosition', 0)))
    return q
def tidx(st, T, x):
    """the entry of the token x among the token infos T"""
    k = 'tidx:%s' % x; i = witness(st, k); st.assume(and_(le(0, i), lt(i, T.len()), eq(T[i].token_index, x))); differ(st, k)
    return i
def tidx_apply(ex, st, args, info):
    c = CallCtx(ex, info.key, st, st.copy(), args, None); s = st.copy(); i = tidx(s, c.arg(0).token_infos, c.arg(1))
    return okerr(ex, info, s, st.copy(), lambda ty: i)
def adj_apply(ex, st, args, info):
    """adjust_token_balance (H05): the balance of the token changes by the amount, and its scaled weights somehow; nothing else"""
    c = CallCtx(ex, info.key, st, st.copy(), args, None); T = c.arg(0).token_infos; o = st.copy()
    for lab, g in Hh.distinct_req(c): ex.oblige(st, info.fr.def_ if info.fr else '?', 'precondition %s of adjust_token_balance' % lab, g, 'pre'); st.assume(g)
    s = st.copy(); k = tidx(s, T, c.arg(1).token_index); E = T[k]
    fi, ft = ex.mir.fidx(c.arg(0)._t, 'token_infos')
    def put(n, v):
        bi, bt = ex.mir.fidx(E._t, n); ex.write(s, Ref(args[0].cell, args[0].path + (('f', fi, ft), ('idx', k), ('f', bi, bt))), mkfx(ex, bt, v))
    put('balance_spot', E.balance_spot + c.arg(2))
    for n in ('init_scaled_asset_weight', 'init_scaled_liab_weight'): put(n, t.fresh(n))
    return okerr(ex, info, s, o, lambda ty: ex.fresh_val(ty, 'unit'))
def health_specs():
    H_ = Hh.HC + 'HealthCache::'
    q = {H_ + 'token_info_index': FnSpec(H_ + 'token_info_index', apply=tidx_apply),
         H_ + 'effective_token_balances': FnSpec(H_ + 'effective_token_balances', requires=Hh.distinct_req, ensures=Hh.balances_ens),
         H_ + 'adjust_token_balance': FnSpec(H_ + 'adjust_token_balance', apply=adj_apply)}
    q.update(A.HEALTH)
    return q
# ---- two banks and their oracle prices, as the account retriever returns them
RETR = "mango_v4::health::account_retriever::ScanningAccountRetriever::<'_, '_>::banks_mut_and_oracles"
def banks_setup(names):
    """names: {argument number of a token index: name of its bank}"""
    def setup(ex, st, args, M, key):
        b = next(b for b in M.bodies.values() if b['name'] == RETR)
        tup = ex.T[ex.T[b['body']['locals'][0]]['variants'][0]['fields'][0][1]]['elems']; ex.extra = {}
        for i, n in names.items():
            ex.extra[n] = (ex.u.sym(tup[0], n), tup[0]); ex.extra[n + '_price'] = (ex.u.sym(tup[1], n + '_price'), tup[1]); ex.extra[n + '#'] = args[i]
    return setup
def xv(c, n, old=False):
    v, ty = c.ex.extra[n]; w = View(c.ex, c.old_st if old else c.st, v, ty)
    return w._wrap(w._v, w._t)
def retrieve(ex, st, args, info):
    rty = info.dty if info.dty is not None else info.b['abi_ret']; ty = ex.T[rty]; okt = ty['variants'][0]['fields'][0][1]; opt = ex.T[okt]['elems'][2]
    def bank_of(x):
        for n, v in ex.extra.items():
            if n.endswith('#') and eq(v, x) is True: return n[:-1]
        raise Unsupported('a bank for another token is asked for')
    a, b = bank_of(args[1]), bank_of(args[2]); X = lambda n: ex.extra[n][0]
    if a == b: second = Enum(opt, 0, {0: ()})
    else:
        tt = ex.T[opt]['variants'][1]['fields'][0][1]; second = Enum(opt, 1, {1: (Agg(tt, (X(b), X(b + '_price'))),)})
    ok = Enum(rty, 0, {0: (Agg(okt, (X(a), X(a + '_price'), second)),)})
    return [(st, ok), (st.copy(), Enum(rty, 1, {1: (ex.fresh_val(ty['variants'][1]['fields'][0][1], 'err'),)}))] if not getattr(ex, 'concrete', False) else [(st, ok)]
def bank_ok(B, idx):
    return and_(between(ONE, B.deposit_index, 1 << 90), between(ONE, B.borrow_index, 1 << 90), le(0, B.loan_origination_fee_rate), le(0, B.liquidation_fee), le(0, B.platform_liquidation_fee), eq(B.token_index, idx))
def moved(o, n, a, b, credit, lab):
    """the value of a position (in a bank that goes from o to n) changes by the amount, up to rounding and dust of at most one native unit"""
    d = bank.value(n, b) - bank.value(o, a); tol = 2 * (o.deposit_index + o.borrow_index + 2 * ONE)
    yield lab, and_(le(credit * ONE - tol - ONE * ONE, d), le(d, credit * ONE + tol))
def totals(o, n, pairs, lab):
    """bank totals move with the positions"""
    dd = db = 0
    for a, b in pairs: dd = dd + (pos(b) - pos(a)); db = db + (negp(b) - negp(a))
    yield lab, and_(eq(n.indexed_deposits - o.indexed_deposits, dd), eq(n.indexed_borrows - o.indexed_borrows, db))
def bank_frame(c, n, mods, lab):
    a, b = xv(c, n, True), xv(c, n)
    yield lab, and_(*[same_field(a, b, f) for f in fields_of(c.ex, a._t) if f not in mods])
# ---------------------------------------------------------------- L01: token liquidation
LA = IX + 'token_liq_with_token::liquidation_action'
def l01_req(c):
    yield 'two tokens', and_(ne(c.arg(1), c.arg(2)), lt(c.arg(1), A.FREE16), lt(c.arg(2), A.FREE16))
    yield 'banks', and_(bank_ok(xv(c, 'liab'), c.arg(1)), bank_ok(xv(c, 'asset'), c.arg(2)))
    yield 'oracle prices are positive', and_(lt(0, xv(c, 'liab_price')), lt(0, xv(c, 'asset_price')))
    yield 'at most one position per token', and_(A.tokens(c.arg(3)).unique(), A.tokens(c.arg(5)).unique())
    yield from Hh.distinct_req(HC(c))
class HC:
    """the context with the health cache as argument 0"""
    def __init__(self, c): self.c = c; self.ex = c.ex
    def arg(self, i): return self.c.arg(7)
    old = arg
def l01(c):
    L0, L1, A0, A1 = xv(c, 'liab', True), xv(c, 'liab'), xv(c, 'asset', True), xv(c, 'asset'); lp, ap = xv(c, 'liab_price'), xv(c, 'asset_price')
    li, ai = c.arg(1), c.arg(2); T0, T1 = A.tokens(c.old(5)), A.tokens(c.new(5)); R0, R1 = A.tokens(c.old(3)), A.tokens(c.new(3))
    ej, ei = slot(c, 5, 'TokenPosition', li), slot(c, 5, 'TokenPosition', ai); rj, ri = slot(c, 3, 'TokenPosition', li), slot(c, 3, 'TokenPosition', ai)
    an, ln = bank.native(A0, T0[ei].indexed_position), bank.native(L0, T0[ej].indexed_position)
    yield 'the liqee had deposits of the asset and borrows of the liability', and_(eq(T0.id(ei), ai), eq(T0.id(ej), li), lt(0, an), lt(ln, 0))
    yield 'the asset may be liquidated', eq(A0.disable_asset_liquidation, 0)
    h = c.old(7); kl, ka = entry(c, 7, li), entry(c, 7, ai); g = Hh.H(c, h, Hh.LEND); K = h.token_infos
    el, ea = g.eff(kl), g.eff(ka)
    fl = fxmul(ONE + L0.liquidation_fee, ONE + A0.liquidation_fee); ft = fxmul(ONE + L0.liquidation_fee + L0.platform_liquidation_fee, ONE + A0.liquidation_fee + A0.platform_liquidation_fee)
    adj = fxmul(lp, ft); maxl = tmax(tmin(tmin(c.arg(10), neg(ln)), neg(el)), 0); maxa = tmax(tmin(an, ea), 0)
    yield 'only what counts as debt and as collateral is liquidated', and_(lt(0, maxl), lt(0, maxa))
    needed = fxdiv(neg(c.arg(8)), fxmul(Hh.liab(K[kl].prices, Hh.LEND), L0.init_liab_weight) - fxmul(adj, A0.init_asset_weight))
    T = tmax(tmin(tmin(needed, fxdiv(fxmul(maxa, ap), adj)), maxl), 0)
    base = fxdiv(fxmul(T, lp), ap); to, frm = fxmul(base, fl), fxmul(base, ft); fee = frm - to
    amts = [(5, 'liab', T), (3, 'liab', neg(T)), (3, 'asset', to), (5, 'asset', neg(frm))]; am = [amount(c, i, b, x) for i, b, x in amts]
    yield 'the liability taken over is what restores health, at most what is owed, asked for and can be paid for', and_(eq(am[0], T), eq(am[1], neg(am[0])))
    base = fxdiv(fxmul(am[0], lp), ap)
    yield 'the asset is paid at the oracle price plus the fees', and_(eq(am[2], fxmul(base, fl)), eq(am[3], neg(fxmul(base, ft))))
    fee = neg(am[2] + am[3])
    yield 'the fee is what the liqee pays beyond what the liqor gets', and_(eq(A1.collected_fees_native, A0.collected_fees_native + fee), eq(A1.collected_liquidation_fees, A0.collected_liquidation_fees + fee))
    yield from moved(L0, L1, T0[ej].indexed_position, T1[ej].indexed_position, am[0], 'the liqee debt shrinks by the liquidated amount')
    z = lambda S, i, x: ite(eq(S.id(i), x), S[i].indexed_position, 0)
    of = L1.collected_fees_native - L0.collected_fees_native; rn = bank.native(L0, z(R0, rj, li)); nb = ite(lt(rn, 0), am[0], tmax(am[0] - rn, 0))
    yield 'the liqor pays the loan fee on what it newly borrows', eq(of, fxmul(L0.loan_origination_fee_rate, nb))
    yield from moved(L0, L1, z(R0, rj, li), R1[rj].indexed_position, am[1] - of, 'the liqor takes over the liquidated amount (and pays the loan fee)')
    yield from moved(A0, A1, z(R0, ri, ai), R1[ri].indexed_position, am[2], 'the liqor gets the asset at the oracle price plus the liquidator fees')
    yield from moved(A0, A1, T0[ei].indexed_position, T1[ei].indexed_position, am[3], 'the liqee pays the asset at the oracle price plus all fees')
    yield from totals(L0, L1, [(T0[ej].indexed_position, T1[ej].indexed_position), (z(R0, rj, li), R1[rj].indexed_position)], 'the totals of the liability bank move with the positions')
    yield from totals(A0, A1, [(T0[ei].indexed_position, T1[ei].indexed_position), (z(R0, ri, ai), R1[ri].indexed_position)], 'the totals of the asset bank move with the positions')
    yield from bank_frame(c, 'liab', bank.LEDGER + bank.WDFMODS, 'nothing else in the liability bank changes')
    yield from bank_frame(c, 'asset', bank.LEDGER + bank.WDFMODS + ('collected_liquidation_fees',), 'nothing else in the asset bank changes')
    yield 'nothing else in the liqee account changes', A.kept(c, [('TokenPosition', ei), ('TokenPosition', ej)], 5, ('being_liquidated',))
    yield 'nothing else in the liqor account changes', A.kept(c, [('TokenPosition', ri), ('TokenPosition', rj)], 3)
    o, n = c.old(5).fixed.being_liquidated, c.new(5).fixed.being_liquidated
    yield 'the liquidation flag is cleared exactly if liquidation end health has recovered', eq(n, ite(and_(eq(o, 1), lt(-ONE, A.health(c.ex, 2))), 0, o))
    N = c.new(7).token_infos
    yield 'the health cache follows the liqee balances', and_(eq(N[kl].balance_spot, K[kl].balance_spot + bank.native(L1, T1[ej].indexed_position) - ln), eq(N[ka].balance_spot, K[ka].balance_spot + bank.native(A1, T1[ei].indexed_position) - an))
# ---- inputs to start the search for a failing input from: a liquidation that goes through
def fx(rng, lo, hi): return int(rng.uniform(lo, hi) * ONE)
def sample_bank(m, rng, n, idx, price):
    q = n + '*.'; g = lambda lo, hi: fx(rng, lo, hi)
    m.update({q + 'token_index': idx, q + 'deposit_index.bits': g(1, 2), q + 'borrow_index.bits': g(1, 2), q + 'init_liab_weight.bits': g(1.1, 1.5), q + 'maint_liab_weight.bits': g(1.05, 1.1),
              q + 'init_asset_weight.bits': g(.5, .8), q + 'maint_asset_weight.bits': g(.8, .95), q + 'liquidation_fee.bits': g(0, .1), q + 'platform_liquidation_fee.bits': g(0, .1),
              q + 'loan_origination_fee_rate.bits': g(0, .05), q + 'stable_price_model.stable_price': F(price, ONE), q + 'net_borrow_limit_window_size_ts': 86400, q + 'last_net_borrows_window_start_ts': 0,
              q + 'net_borrow_limit_per_window_quote': -1, q + 'indexed_deposits.bits': g(1000, 2000), q + 'indexed_borrows.bits': g(100, 1000), n + '_price.bits': price,
              q + 'deposit_weight_scale_start_quote': F(1 << 60), q + 'borrow_weight_scale_start_quote': F(1 << 60), q + 'mint_decimals': 6})
def sample_tokens(m, rng, acc, toks):
    """toks: {token index: native position}; in random slots"""
    q = acc + '*.dyn.token'; n = rng.randint(max(1, len(toks)), 5); m[acc + '*.header*.token_count'] = n; d = m.setdefault('*default', {}); d[q + '[].token_index'] = A.FREE16
    for s, (x, v) in zip(rng.sample(range(n), len(toks)), toks.items()):
        m[(q + '[].token_index', s)] = x; m[(q + '[].indexed_position.bits', s)] = v; m[(q + '[].in_use_count', s)] = rng.choice([0, 0, 1])
def sample_cache(m, rng, acc, toks, prices, perps=2):
    q = acc + '*.token_infos'; m[q + '.len'] = len(toks); xs = list(toks); rng.shuffle(xs)
    for i, x in enumerate(xs):
        e = q + '.elem[].'
        for n, v in (('token_index', x), ('balance_spot.bits', toks[x]), ('prices.oracle.bits', prices[x]), ('prices.stable.bits', prices[x]), ('init_liab_weight.bits', fx(rng, 1.1, 1.5)), ('maint_liab_weight.bits', fx(rng, 1.05, 1.1)),
                     ('init_asset_weight.bits', fx(rng, .5, .8)), ('maint_asset_weight.bits', fx(rng, .8, .95)), ('allow_asset_liquidation', 1)): m[(e + n, i)] = v
    q = acc + '*.perp_infos'; n = rng.randint(0, perps); m[q + '.len'] = n
    for i in range(n):
        e = q + '.elem[].'
        for f, v in (('perp_market_index', i), ('settle_token_index', rng.choice(xs)), ('quote.bits', fx(rng, -8, 8)), ('base_lot_size', 1), ('prices.oracle.bits', ONE), ('prices.stable.bits', ONE),
                     ('init_overall_asset_weight.bits', ONE), ('maint_overall_asset_weight.bits', ONE)): m[(e + f, i)] = v
def l01_sample(rng):
    la, aa, lo = rng.sample([0, 1, 2, 3, 7], 3); pl, pa = fx(rng, .5, 3), fx(rng, .5, 3); m = {}
    sample_bank(m, rng, 'liab', la, pl); sample_bank(m, rng, 'asset', aa, pa)
    toks = {la: -fx(rng, 5, 20), aa: fx(rng, 5, 20), lo: fx(rng, -5, 5)}
    sample_tokens(m, rng, 'liqee', toks); sample_tokens(m, rng, 'liqor', {x: v for x, v in ((la, fx(rng, -10, 40)), (aa, fx(rng, -10, 20))) if rng.random() < .7})
    m['liqor*.header*.token_count'] += 2
    sample_cache(m, rng, 'liqee_health_cache', {la: toks[la], aa: toks[aa], lo: toks[lo]}, {la: pl, aa: pa, lo: ONE})
    m.update({'liab_token_index': la, 'asset_token_index': aa, 'now_ts': rng.choice([0, 1000, 100000]), 'max_liab_transfer.bits': fx(rng, 0, 30), 'liqee_liq_end_health.bits': -fx(rng, 0, 15),
              'liqee*.fixed.being_liquidated': 1, 'health.LiquidationEnd': fx(rng, -3, 2)})
    return m
def L01():
    q = {}; q.update(bank_specs()); q.update(acct_specs()); q.update(health_specs())
    return Prop('L01', [Unit(LA, l01_req, l01, name='token liquidation_action', contracts=q, overrides={RETR: retrieve}, setup=banks_setup({1: 'liab', 2: 'asset'}), sample=l01_sample)])
PROPS = {'L01': L01}
