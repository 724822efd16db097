"""Contracts of the health cache (health/cache.rs)."""
from .lib import *
HC = 'mango_v4::health::cache::'
F = t.Fraction
_raw = [0]
def opq(c, name, formula, *args):
    """a defined function: its formula on concrete values and where the definition itself is checked, otherwise an abbreviation"""
    if _raw[0] or conc(c): return formula(*args)
    return t.app('def.' + name, args)
def raw(ens):
    """the contract with every abbreviation spelled out"""
    def f(c):
        _raw[0] += 1
        try: return iter(list(ens(c)))
        finally: _raw[0] -= 1
    return f

# ---- prices and weights by health type (d: 0 Init, 1 Maint, 2 LiquidationEnd)
INIT, MAINT, LEND = 0, 1, 2
def liab(p, d): return ite(eq(d, INIT), tmax(p.oracle, p.stable), p.oracle)
def asset(p, d): return ite(eq(d, INIT), tmin(p.oracle, p.stable), p.oracle)
def aw(ti, d): return ite(eq(d, INIT), ti.init_scaled_asset_weight, ite(eq(d, LEND), ti.init_asset_weight, ti.maint_asset_weight))
def lw(ti, d): return ite(eq(d, INIT), ti.init_scaled_liab_weight, ite(eq(d, LEND), ti.init_liab_weight, ti.maint_liab_weight))
def awp(ti, d): return fxmul(aw(ti, d), asset(ti.prices, d))
def lwp(ti, d): return fxmul(lw(ti, d), liab(ti.prices, d))
def contrib(ti, d, b): return fxmul(b, ite(lt(b, 0), lwp(ti, d), awp(ti, d)))

def taken_facts(h, s, a, l, r):
    yield 'nothing may be taken at no health', implies(le(h, 0), eq(r, 0))
    yield 'never negative', le(0, r)
    # taking r: deposits lose the asset price, beyond them the liability price
    cost = ite(le(r, s), mul(r, a), ite(lt(0, s), mul(s, a) + mul(r - s, l), mul(r, l)))
    yield 'health stays at or above zero (up to one unit of rounding)', implies(lt(0, h), le(cost, (h + 1) * ONE))
    yield 'no more could be taken', implies(and_(lt(0, h), lt(0, ite(lt(r, s), a, l))), lt((h - 1) * ONE, cost + ite(lt(0, s), a, 0) + l + a))
def taken_req(c): yield 'weighted prices are not negative', and_(le(0, c.arg(2)), le(0, c.arg(3)))
def taken(c): yield from taken_facts(*[c.arg(i) for i in range(4)], c.okval())
def h01():
    P = HC + 'Prices::'; TI = HC + 'TokenInfo::'
    def price(f, lab):
        def e(c): yield lab, eq(c.ret, f(c.arg(0), c.arg(1).d))
        return e
    def hc(c): yield 'balance times weighted price: liability weight and price for borrows, asset weight and price for deposits', eq(c.ret, contrib(c.arg(0), c.arg(1).d, c.arg(2)))
    return Prop('H01', [Unit(P + 'liab', None, price(liab, 'oracle price; the higher of oracle and stable price for initial health')),
        Unit(P + 'asset', None, price(asset, 'oracle price; the lower of oracle and stable price for initial health')),
        Unit(TI + 'asset_weighted_price', None, price(awp, 'asset weight of the health type times its asset price')),
        Unit(TI + 'liab_weighted_price', None, price(lwp, 'liability weight of the health type times its liability price')),
        Unit(TI + 'health_contribution', None, hc), Unit(HC + 'spot_amount_taken_for_health_zero', taken_req, taken)])

# ---- perp positions
def case(p, d, orders, price):
    net = mul(p.base_lots + orders, p.base_lot_size) * ONE; ng = lt(net, 0)
    w = ite(eq(d, MAINT), ite(ng, p.maint_base_liab_weight, p.maint_base_asset_weight), ite(ng, p.init_base_liab_weight, p.init_base_asset_weight))
    bp = ite(ng, liab(p.base_prices, d), asset(p.base_prices, d))
    return fxmul(fxmul(net, w), bp) + fxmul(neg(mul(orders, p.base_lot_size)) * ONE, price)
def uhupnl(p, d): return p.quote + tmin(case(p, d, p.bids_base_lots, liab(p.base_prices, d)), case(p, d, neg(p.asks_base_lots), asset(p.base_prices, d)))
def overall(p, d, u): return ite(lt(0, u), fxmul(ite(eq(d, MAINT), p.maint_overall_asset_weight, p.init_overall_asset_weight), u), u)
def hupnl(p, d): return overall(p, d, uhupnl(p, d))
PF = ('maint_base_asset_weight', 'init_base_asset_weight', 'maint_base_liab_weight', 'init_base_liab_weight', 'maint_overall_asset_weight', 'init_overall_asset_weight', 'base_lot_size', 'base_lots', 'bids_base_lots', 'asks_base_lots', 'quote')
def hupnl_(c, p, d):
    """the health unsettled pnl as an abbreviation"""
    if _raw[0] or conc(c): return hupnl(p, d)
    return t.app('def.hupnl', tuple(getattr(p, f) for f in PF) + (p.base_prices.oracle, p.base_prices.stable, d))
def h02():
    PI = HC + 'PerpInfo::'
    def u(c): yield 'quote plus the worse of all bids and all asks executing', eq(c.ret, uhupnl(c.arg(0), c.arg(1).d))
    def h(c): yield 'positive results count with the overall asset weight, negative ones fully', eq(c.ret, hupnl(c.arg(0), c.arg(1).d))
    return Prop('H02', [Unit(PI + 'unweighted_health_unsettled_pnl', None, u), Unit(PI + 'health_unsettled_pnl', None, h)])

# ---- open orders on spot markets
SR = ('reserved_base', 'reserved_quote', 'reserved_base_as_quote_lowest_ask', 'reserved_quote_as_base_highest_bid')
def fdiv64(a, b):
    """the quotient computed with floating point numbers, taken as exact, rounded down"""
    a, b = [mul(t.toreal(x), F(1, ONE)) for x in (a, b)]
    if isc(b): q = mul(a, F(1) / F(b)) if b else F(0)
    else: q = t.app('rdiv', (a, b), 'Real')
    return t.floor_(mul(q, F(ONE)))
def res_(reserved, other, limit, p, by):
    """reserved tokens plus the other side's reserved tokens converted at the oracle price, or at the best order price if that gives less"""
    at_oracle = fdiv64(fxmul(other, p), by)
    return reserved + ite(eq(limit, 0), at_oracle, tmin(at_oracle, limit))
def res_base(c, s, q, b, d): return opq(c, 'reserved', res_, s.reserved_base, s.reserved_quote, s.reserved_quote_as_base_highest_bid, asset(q.prices, d), liab(b.prices, d))
def res_quote(c, s, q, b, d): return opq(c, 'reserved', res_, s.reserved_quote, s.reserved_base, s.reserved_base_as_quote_lowest_ask, asset(b.prices, d), liab(q.prices, d))
def effect_(res, bal, mx, aw, lw, ap, lp):
    m = bal + mx
    a = ite(le(res, m), res, ite(lt(m, 0), 0, m)); l = ite(le(res, m), 0, ite(lt(m, 0), res, res - m))
    return fxmul(fxmul(a, aw), ap) + fxmul(fxmul(l, lw), lp)
def effect(c, ti, d, bal, mx, res): return opq(c, 'effect', effect_, res, bal, mx, aw(ti, d), lw(ti, d), asset(ti.prices, d), liab(ti.prices, d))
def scontrib(c, b, q, d, bb, bq, mb, mq, rb, rq):
    """the worse of everything turning into base and everything turning into quote tokens"""
    return ite(or_(eq(rb, 0), eq(rq, 0)), 0, tmin(effect(c, b, d, bb, mb, rb), effect(c, q, d, bq, mq, rq)))
def contrib_(c, ti, d, b): return opq(c, 'contrib', lambda l, a, b: fxmul(b, ite(lt(b, 0), l, a)), lwp_(c, ti, d), awp_(c, ti, d), b)
def awp_(c, ti, d): return opq(c, 'wprice', fxmul, aw(ti, d), asset(ti.prices, d))
def lwp_(c, ti, d): return opq(c, 'wprice', fxmul, lw(ti, d), liab(ti.prices, d))

# ---- sums over the account
class H:
    """what the health cache h amounts to for health type d"""
    def __init__(self, c, h, d):
        self.c = c; self.h = h; self.d = d; self.T = h.token_infos; self.P = h.perp_infos; self.S = h.serum3_infos
        self.nt, self.np, self.ns = self.T.len(), self.P.len(), self.S.len()
    def distinct(self):
        return all_(0, self.nt, lambda i: all_(0, self.nt, lambda j: implies(eq(self.T[i].token_index, self.T[j].token_index), eq(i, j))))
    def perps(self, j, n, ign=False):
        """health unsettled pnl of the first n perp positions that settle in token j"""
        def f(j, k):
            p = self.P[k]; x = hupnl_(self.c, p, self.d)
            return ite(and_(eq(p.settle_token_index, self.T[j].token_index), lt(0, x) if ign is True else or_(not_(ign), lt(0, x))), x, 0)
        return sum_(self.c, 'perps', n, f, (j,))
    def eff(self, j, ign=False): return self.T[j].balance_spot + self.perps(j, self.np, ign)
    def sides(self, k):
        s = self.S[k]; return s, self.T[s.base_info_index], self.T[s.quote_info_index]
    def known(self, k):
        s = self.S[k]; return and_(between(0, s.base_info_index, self.nt - 1), between(0, s.quote_info_index, self.nt - 1))
    def rb(self, k): s, b, q = self.sides(k); return res_base(self.c, s, q, b, self.d)
    def rq(self, k): s, b, q = self.sides(k); return res_quote(self.c, s, q, b, self.d)
    def maxres(self, j, n):
        """what the orders of the first n markets could turn into of token j"""
        def f(j, k):
            s = self.S[k]; return ite(eq(s.base_info_index, j), self.rb(k), 0) + ite(eq(s.quote_info_index, j), self.rq(k), 0)
        return sum_(self.c, 'maxres', n, f, (j,))
    def tokens(self, n, bal):
        """health of the first n tokens given the balances"""
        return sum_(self.c, 'tokens', n, lambda j: contrib_(self.c, self.T[j], self.d, bal(j)))
    def orders(self, n, bal):
        """health of the orders of the first n markets given the balances"""
        def f(k):
            s, b, q = self.sides(k); i, j = s.base_info_index, s.quote_info_index
            return scontrib(self.c, b, q, self.d, bal(i), bal(j), self.maxres(i, self.ns), self.maxres(j, self.ns), self.rb(k), self.rq(k))
        return sum_(self.c, 'orders', n, f)
    def health(self, ign=False):
        b = lambda j: self.eff(j, ign)
        return self.tokens(self.nt, b) + self.orders(self.ns, b)
def balances_ens(c):
    g = H(c, c.old(0), c.arg(1).d); r = c.ret
    ign = c.arg(2) if len(c.args) > 2 else False
    yield 'one balance per token', eq(r.len(), g.nt)
    yield 'balance plus health pnl of the perp markets that settle in the token', all_(0, g.nt, lambda j: eq(r[j].spot_and_perp, g.eff(j, ign)))
def reserve_ens(c):
    g = H(c, c.old(0), c.arg(1).d); m, r = c.ret._0, c.ret._1
    yield 'one entry per token and one per market', and_(eq(m.len(), g.nt), eq(r.len(), g.ns))
    yield 'all reserved as base / as quote, by market', all_(0, g.ns, lambda k: and_(eq(r[k].all_reserved_as_base, g.rb(k)), eq(r[k].all_reserved_as_quote, g.rq(k))))
    yield 'markets refer to known tokens', all_(0, g.ns, g.known)
    yield 'the most the orders could turn into of each token', all_(0, g.nt, lambda j: eq(m[j].max_serum_reserved, g.maxres(j, g.ns)))
def distinct_req(c): yield 'token infos are distinct', H(c, c.arg(0), 0).distinct()
def h03_specs():
    q = {}
    def add(name, ens, req=None): q[name] = FnSpec(name, requires=req, ensures=ens)
    def val(name, f): q[name] = FnSpec(name, value=f)
    val(HC + 'PerpInfo::health_unsettled_pnl', lambda c: hupnl_(c, c.arg(0), c.arg(1).d))
    val(HC + 'TokenInfo::health_contribution', lambda c: contrib_(c, c.arg(0), c.arg(1).d, c.arg(2)))
    val(HC + 'TokenInfo::asset_weighted_price', lambda c: awp_(c, c.arg(0), c.arg(1).d))
    val(HC + 'TokenInfo::liab_weighted_price', lambda c: lwp_(c, c.arg(0), c.arg(1).d))
    def hc(c):
        s, d, T, B, M, R = c.arg(0), c.arg(1).d, c.arg(2), c.arg(3), c.arg(4), c.arg(5); i, j = s.base_info_index, s.quote_info_index
        return scontrib(c, T[i], T[j], d, B[i].spot_and_perp, B[j].spot_and_perp, M[i].max_serum_reserved, M[j].max_serum_reserved, R.all_reserved_as_base, R.all_reserved_as_quote)
    val(HC + 'Serum3Info::health_contribution', hc)
    add(HC + 'HealthCache::effective_token_balances', balances_ens, distinct_req)
    add(HC + 'HealthCache::effective_token_balances_internal', balances_ens, distinct_req)
    add(HC + 'HealthCache::compute_serum3_reservations', reserve_ens)
    add(HC + 'spot_amount_taken_for_health_zero', taken, taken_req)
    val(HC + 'Serum3Info::all_reserved_as_base', lambda c: res_base(c, c.arg(0), c.arg(2), c.arg(3), c.arg(1).d))
    val(HC + 'Serum3Info::all_reserved_as_quote', lambda c: res_quote(c, c.arg(0), c.arg(2), c.arg(3), c.arg(1).d))
    return q
def h03():
    G = {}
    def keep(req=None, **kw):
        def f(c):
            G.clear(); G['c'] = c; G.update(kw)
            if req: yield from req(c)
        return f
    def g(c, d=None):
        c0 = G['c']; return H(c0, c0.arg(0), G['d'] if 'd' in G else c0.arg(1).d), c0
    def inv_perp(c):
        x, c0 = g(c); pos, end = visited(c, 'PerpInfo')
        yield 'in range', le(pos, end)
        ign = c0.arg(2) if len(c0.args) > 2 else False
        for o, n in changed_vecs(c, 'TokenBalance'):
            yield 'balances count the perp positions visited so far', all_(0, x.nt, lambda j: eq(n[j].spot_and_perp, o[j].spot_and_perp + x.perps(j, pos, ign)))
    def inv_tok(c):
        x, c0 = g(c); pos, end = visited(c, 'TokenInfo')
        yield 'in range', le(pos, end)
        for o, n in changed_vecs(c, 'TokenBalance'):
            yield 'balances count the tokens visited so far', all_(0, x.nt, lambda j: eq(n[j].spot_and_perp, o[j].spot_and_perp + ite(lt(j, pos), x.T[j].balance_spot, 0)))
        for o, n in accumulators(c):
            yield 'the total counts the tokens visited so far', eq(n, o + x.tokens(pos, lambda j: x.eff(j, G.get('ign', False))))
    def inv_ser(c):
        x, c0 = g(c); pos, end = visited(c, 'Serum3Info')
        yield 'in range', le(pos, end)
        for o, n in changed_vecs(c, 'TokenMaxReserved'):
            yield 'reserved amounts count the markets visited so far', all_(0, x.nt, lambda j: eq(n[j].max_serum_reserved, o[j].max_serum_reserved + x.maxres(j, pos)))
        for o, n in changed_vecs(c, 'Serum3Reserved'):
            yield 'markets visited so far refer to known tokens', all_(0, pos, x.known)
            yield 'one entry per market visited so far', eq(n.len(), pos)
            yield 'entries of the markets visited so far', all_(0, pos, lambda k: and_(eq(n[k].all_reserved_as_base, x.rb(k)), eq(n[k].all_reserved_as_quote, x.rq(k))))
        for o, n in accumulators(c):
            yield 'the total counts the markets visited so far', eq(n, o + x.orders(pos, lambda j: x.eff(j, G.get('ign', False))))
    def over(ty): return lambda c: bool(visited(c, ty))
    loops = {'*': [(over('PerpInfo'), LoopSpec(inv_perp)), (over('TokenInfo'), LoopSpec(inv_tok)), (over('Serum3Info'), LoopSpec(inv_ser))]}
    Q = h03_specs()
    U = []
    for n, lab in (('all_reserved_as_base', 'reserved base plus reserved quote converted at the oracle price or best bid'),
                   ('all_reserved_as_quote', 'reserved quote plus reserved base converted at the oracle price or best ask'),
                   ('health_contribution', 'the worse of all orders turning into base and all turning into quote')):
        n = HC + 'Serum3Info::' + n; U.append(Unit(n, None, raw(lambda c, n=n, lab=lab: iter([(lab, eq(c.ret, Q[n].value(c)))]))))
    H_ = HC + 'HealthCache::'
    U.append(Unit(H_ + 'effective_token_balances_internal', keep(distinct_req), balances_ens, contracts=Q, loops=loops))
    U.append(Unit(H_ + 'effective_token_balances', keep(distinct_req), balances_ens, contracts=Q, loops=loops))
    U.append(Unit(H_ + 'compute_serum3_reservations', keep(), reserve_ens, contracts=Q, loops=loops))
    def health_ens(c): yield 'token health plus open order health', eq(c.ret, H(c, c.old(0), c.arg(1).d).health())
    U.append(Unit(H_ + 'health', keep(distinct_req), health_ens, contracts=Q, loops=loops))
    def settle_req(c):
        yield from distinct_req(c)
        x = H(c, c.arg(0), MAINT)
        yield 'maintenance weights and prices are not negative', all_(0, x.nt, lambda j: and_(le(0, awp_(c, x.T[j], MAINT)), le(0, lwp_(c, x.T[j], MAINT))))
    def settle_ens(c):
        x = H(c, c.old(0), MAINT); r = c.okval(); h = x.health(True)
        def at(j):
            ti = x.T[j]; return [g for l, g in taken_facts(h, x.eff(j, True), awp_(c, ti, MAINT), lwp_(c, ti, MAINT), r)]
        for k, lab in enumerate(('nothing may be settled without health that ignores negative perp positions', 'never negative', 'settling the amount keeps that health at or above zero (up to rounding)', 'no more could be settled')):
            yield lab, all_(0, x.nt, lambda j: implies(eq(x.T[j].token_index, c.arg(1)), at(j)[k]))
        yield 'the token is known', some_(0, x.nt, lambda j: eq(x.T[j].token_index, c.arg(1)))
    U.append(Unit(H_ + 'perp_max_settle', keep(settle_req, d=MAINT, ign=True), settle_ens, contracts=Q, loops=loops))
    def pot_ens(c):
        x = H(c, c.old(0), c.arg(1).d); r = c.okval()
        def tot(j):
            def f(j, k):
                s = x.S[k]; return ite(eq(s.quote_info_index, j), x.rq(k), ite(eq(s.base_info_index, j), x.rb(k), 0))
            return sum_(c, 'potential', x.ns, f, (j,))
        yield 'everything reserved on the markets of the token, in that token', all_(0, x.nt, lambda j: implies(eq(x.T[j].token_index, c.arg(2)), eq(r, tot(j))))
    U.append(Unit(H_ + 'total_serum3_potential', keep(distinct_req), pot_ens, contracts=Q, loops=loops))
    return Prop('H03', U)
# ---- liquidation phases
def h04():
    H_ = HC + 'HealthCache::'; Q = {n: f for n, f in h03_specs().items() if 'effective_token' in n}
    class Ph:
        def __init__(self, c, h):
            x = self.x = H(c, h, LEND); T, P, S = x.T, x.P, x.S
            self.assets = some_(0, x.nt, lambda j: and_(le(ONE, T[j].balance_spot), le(ONE, x.eff(j)), T[j].allow_asset_liquidation))
            self.borrows = some_(0, x.nt, lambda j: and_(lt(T[j].balance_spot, 0), lt(x.eff(j), 0)))
            self.spot = and_(self.assets, self.borrows)
            self.funds = some_(0, x.ns, lambda k: not_(S[k].has_zero_funds))
            self.orders = some_(0, x.np, lambda k: P[k].has_open_orders)
            self.base = some_(0, x.np, lambda k: ne(P[k].base_lots, 0))
            self.fills = some_(0, x.np, lambda k: P[k].has_open_fills)
            self.pospnl = some_(0, x.np, lambda k: and_(eq(P[k].base_lots, 0), lt(0, P[k].quote)))
            self.negpnl = some_(0, x.np, lambda k: and_(eq(P[k].base_lots, 0), lt(P[k].quote, 0)))
            self.p1 = or_(self.funds, self.orders)
            self.p2 = or_(self.spot, self.base, self.fills, self.pospnl)
            self.p3 = or_(self.borrows, self.negpnl)
    def flag(n, lab, f):
        def e(c): yield lab, iff(c.ret, f(Ph(c, c.arg(0))))
        return Unit(H_ + n, distinct_req, e, contracts=Q)
    def req(n, lab, f):
        def e(c): yield lab, iff(c.is_ok(), f(Ph(c, c.arg(0))))
        return Unit(H_ + n, distinct_req, e, contracts=Q, on_err=True)
    return Prop('H04', [
        flag('has_liq_spot_assets', 'a token the liquidator may take: a deposit and an effective balance of at least one native token', lambda p: p.assets),
        flag('has_liq_spot_borrows', 'a borrow with a negative effective balance', lambda p: p.borrows),
        flag('has_possible_spot_liquidations', 'both a liquidatable asset and a liquidatable borrow', lambda p: p.spot),
        flag('has_serum3_open_orders_funds', 'an open orders account that is not empty', lambda p: p.funds),
        flag('has_perp_open_orders', 'a perp position with open orders', lambda p: p.orders),
        flag('has_perp_base_positions', 'a perp position with base lots', lambda p: p.base),
        flag('has_perp_open_fills', 'a perp position with unprocessed fills', lambda p: p.fills),
        flag('has_perp_positive_pnl_no_base', 'a perp position without base and with positive quote', lambda p: p.pospnl),
        flag('has_perp_negative_pnl_no_base', 'a perp position without base and with negative quote', lambda p: p.negpnl),
        flag('has_phase1_liquidatable', 'phase 1: open orders or unsettled funds', lambda p: p.p1),
        flag('in_phase1_liquidation', 'phase 1 comes first', lambda p: p.p1),
        flag('has_phase2_liquidatable', 'phase 2: spot liquidations, perp base, unprocessed fills, positive perp pnl', lambda p: p.p2),
        flag('in_phase2_liquidation', 'phase 2 only after phase 1', lambda p: and_(not_(p.p1), p.p2)),
        flag('has_phase3_liquidatable', 'phase 3: borrows or negative perp pnl', lambda p: p.p3),
        flag('in_phase3_liquidation', 'bankruptcy only after phases 1 and 2', lambda p: and_(not_(p.p1), not_(p.p2), p.p3)),
        req('require_after_phase1_liquidation', 'passes exactly when nothing of phase 1 is left', lambda p: not_(p.p1)),
        req('require_after_phase2_liquidation', 'passes exactly when nothing of phases 1 and 2 is left', lambda p: and_(not_(p.p1), not_(p.p2)))])
# ---- updates of a health cache
def siaw_(w, start, idx, dep, pot, p):
    """initial asset weight, scaled down once the deposits are worth more than the limit"""
    q = mul(mul(t.toreal(fxmul(idx, dep)), F(1, ONE)) + t.toreal(pot), mul(t.toreal(p), F(1, ONE)))
    return ite(or_(eq(start, F_MAX), le(q, start)), w, fxmul(w, t.floor_(mul(fdiv_(start, q), F(ONE)))))
def silw_(w, start, idx, bor, p):
    q = mul(mul(t.toreal(fxmul(idx, bor)), F(1, ONE)), mul(t.toreal(p), F(1, ONE)))
    return ite(or_(eq(start, F_MAX), le(q, start)), w, ite(eq(start, F(0)), I80MAX, fxmul(w, t.floor_(mul(fdiv_(q, start), F(ONE))))))
def fdiv_(a, b):
    if isc(b): return mul(a, F(1) / F(b)) if b else F(0)
    return t.app('rdiv', (t.toreal(a), t.toreal(b)), 'Real')
import sys as _sys
F_MAX = F(_sys.float_info.max)
def siaw(c, B, p): return opq(c, 'siaw', siaw_, B.init_asset_weight, B.deposit_weight_scale_start_quote, B.indexed_deposits, B.deposit_index, B.potential_serum_tokens, p)
def silw(c, B, p): return opq(c, 'silw', silw_, B.init_liab_weight, B.borrow_weight_scale_start_quote, B.indexed_borrows, B.borrow_index, p)
BK = 'mango_v4::state::bank::Bank::'
def weight_specs():
    return {BK + 'scaled_init_asset_weight': FnSpec(BK + 'scaled_init_asset_weight', value=lambda c: siaw(c, c.arg(0), c.arg(1))),
            BK + 'scaled_init_liab_weight': FnSpec(BK + 'scaled_init_liab_weight', value=lambda c: silw(c, c.arg(0), c.arg(1)))}
def same_elems(c, o, n, skip=None):
    """the vectors hold the same elements (apart from the position skip)"""
    ok = eq(o.len(), n.len())
    def f(j):
        same = deep_eq(c.ex, o[j]._v, n[j]._v)
        return same if skip is None else or_(skip(j), same)
    return and_(ok, all_(0, o.len(), f))
def serum_facts(n, so, oo, base, quote):
    rb, rq = [mul(x, ONE) for x in (oo['rb'], oo['rq'])]
    fl = lambda x: t.floor_(mul(x, F(ONE)))
    return and_(eq(n.reserved_base, rb), eq(n.reserved_quote, rq), eq(n.reserved_base_as_quote_lowest_ask, fxmul(rb, fl(so.lowest_placed_ask))),
        eq(n.reserved_quote_as_base_highest_bid, fxmul(rq, fl(so.highest_placed_bid_inv))), eq(n.base_info_index, base), eq(n.quote_info_index, quote),
        eq(n.market_index, so.market_index), iff(n.has_zero_funds, oo['zero']))
def slim(o): return {'rb': o.native_coin_total - o.native_coin_free, 'rq': o.native_pc_total - o.native_pc_free,
                     'zero': and_(eq(o.native_coin_total, 0), eq(o.native_pc_total, 0), eq(o.referrer_rebates_accrued, 0))}
def funding(p, m):
    return ite(lt(0, p.base_position_lots), fxmul(m.long_funding - p.long_settled_funding, mul(p.base_position_lots, ONE)), ite(lt(p.base_position_lots, 0), fxmul(m.short_funding - p.short_settled_funding, mul(p.base_position_lots, ONE)), 0))
MKF = ('perp_market_index', 'settle_token_index', 'init_base_asset_weight', 'init_base_liab_weight', 'maint_base_asset_weight', 'maint_base_liab_weight', 'init_overall_asset_weight', 'maint_overall_asset_weight', 'base_lot_size')
def perp_facts(n, p, m, oracle, stable):
    return and_(*[eq(getattr(n, f), getattr(m, f)) for f in MKF], eq(n.base_lots, p.base_position_lots + p.taker_base_lots), eq(n.bids_base_lots, p.bids_base_lots), eq(n.asks_base_lots, p.asks_base_lots),
        eq(n.quote, p.quote_position_native - funding(p, m) + mul(mul(p.taker_quote_lots, m.quote_lot_size), ONE)), eq(n.base_prices.oracle, oracle), eq(n.base_prices.stable, stable),
        iff(n.has_open_orders, or_(ne(p.bids_base_lots, 0), ne(p.asks_base_lots, 0))), iff(n.has_open_fills, or_(ne(p.taker_base_lots, 0), ne(p.taker_quote_lots, 0))))
def h05():
    H_ = HC + 'HealthCache::'; W = weight_specs()
    def adj(c):
        o, n, B = c.old(0), c.new(0), c.arg(1); T, N = o.token_infos, n.token_infos
        hit = lambda j: eq(T[j].token_index, B.token_index)
        yield 'the token is known', some_(0, T.len(), hit)
        def e(j):
            a, b = T[j], N[j]
            return implies(hit(j), and_(eq(b.balance_spot, a.balance_spot + c.arg(2)), eq(b.init_scaled_asset_weight, siaw(c, B, asset(a.prices, INIT))), eq(b.init_scaled_liab_weight, silw(c, B, liab(a.prices, INIT))),
                *[eq(getattr(b, f), getattr(a, f)) for f in ('token_index', 'maint_asset_weight', 'init_asset_weight', 'maint_liab_weight', 'init_liab_weight', 'allow_asset_liquidation')],
                eq(a.prices.oracle, b.prices.oracle), eq(a.prices.stable, b.prices.stable)))
        yield 'the balance changes by the amount and the scaled weights are those of the bank now', all_(0, T.len(), e)
        yield 'no other token info changes', same_elems(c, T, N, hit)
        yield 'orders and perp positions do not change', and_(same_elems(c, o.serum3_infos, n.serum3_infos), same_elems(c, o.perp_infos, n.perp_infos))
    def ser_req(c):
        S = c.arg(0).serum3_infos
        yield 'markets are distinct', all_(0, S.len(), lambda i: all_(0, S.len(), lambda j: implies(eq(S[i].market_index, S[j].market_index), eq(i, j))))
    def ser(c):
        o, n, so, oo = c.old(0), c.new(0), c.arg(1), slim(c.arg(2)); S, N = o.serum3_infos, n.serum3_infos; T, M = o.token_infos, n.token_infos
        hit = lambda k: eq(S[k].market_index, so.market_index)
        yield 'the market is known', some_(0, S.len(), hit)
        yield 'the entry is computed from the open orders account', and_(eq(S.len(), N.len()), all_(0, S.len(), lambda k: implies(hit(k), serum_facts(N[k], so, oo, S[k].base_info_index, S[k].quote_info_index))))
        yield 'no other market changes', same_elems(c, S, N, hit)
        def bal(k):
            return implies(hit(k), all_(0, T.len(), lambda j: eq(M[j].balance_spot, T[j].balance_spot + ite(eq(S[k].base_info_index, j), c.arg(3), 0) + ite(eq(S[k].quote_info_index, j), c.arg(4), 0))))
        yield 'the free amounts are added to the token balances', all_(0, S.len(), bal)
        yield 'nothing else of the tokens changes', and_(eq(T.len(), M.len()), all_(0, T.len(), lambda j: and_(*[eq(getattr(M[j], f), getattr(T[j], f)) for f in ('token_index', 'maint_asset_weight', 'init_asset_weight', 'init_scaled_asset_weight', 'maint_liab_weight', 'init_liab_weight', 'init_scaled_liab_weight', 'allow_asset_liquidation')], eq(M[j].prices.oracle, T[j].prices.oracle), eq(M[j].prices.stable, T[j].prices.stable))))
        yield 'perp positions do not change', same_elems(c, o.perp_infos, n.perp_infos)
    def perp_req(c):
        P = c.arg(0).perp_infos
        yield 'markets are distinct', all_(0, P.len(), lambda i: all_(0, P.len(), lambda j: implies(eq(P[i].perp_market_index, P[j].perp_market_index), eq(i, j))))
    def perp(c):
        o, n, p, m = c.old(0), c.new(0), c.arg(1), c.arg(2); P, N = o.perp_infos, n.perp_infos
        hit = lambda k: eq(P[k].perp_market_index, m.perp_market_index)
        yield 'the market is known', some_(0, P.len(), hit)
        yield 'the entry is computed from position and market, at the cached prices', and_(eq(P.len(), N.len()), all_(0, P.len(), lambda k: implies(hit(k), perp_facts(N[k], p, m, P[k].base_prices.oracle, P[k].base_prices.stable))))
        yield 'no other market changes', same_elems(c, P, N, hit)
        yield 'tokens and orders do not change', and_(same_elems(c, o.token_infos, n.token_infos), same_elems(c, o.serum3_infos, n.serum3_infos))
    def idx(c):
        T = c.arg(0).token_infos; k = c.okval()
        yield 'the entry of the token', and_(le(0, k), lt(k, T.len()), eq(T[k].token_index, c.arg(1)))
    def has(c):
        T = c.arg(0).token_infos; yield 'there is an entry of the token', iff(c.ret, some_(0, T.len(), lambda j: eq(T[j].token_index, c.arg(1))))
    def tinfo(c): yield 'the entry of the token', eq(c.okval().token_index, c.arg(1))
    def pinfo(c): yield 'the entry of the market', eq(c.okval().perp_market_index, c.arg(1))
    def weight(n, f, lab):
        def e(c): yield lab, eq(c.ret, f(c, c.arg(0), c.arg(1)))
        return Unit(BK + n, None, raw(e))
    return Prop('H05', [Unit(H_ + 'adjust_token_balance', distinct_req, adj, contracts=W), Unit(H_ + 'recompute_serum3_info', ser_req, ser), Unit(H_ + 'recompute_perp_info', perp_req, perp),
        Unit(H_ + 'token_info_index', None, idx), Unit(H_ + 'has_token_info', None, has), Unit(H_ + 'token_info', None, tinfo), Unit(H_ + 'perp_info', None, pinfo),
        weight('scaled_init_asset_weight', siaw, 'initial asset weight, scaled down beyond the deposit limit'), weight('scaled_init_liab_weight', silw, 'initial liability weight, scaled up beyond the borrow limit')])
PROPS = {'H05': h05, 'H04': h04, 'H01': h01, 'H02': h02, 'H03': h03}
