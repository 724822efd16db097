"""Contracts of perp positions and perp markets."""
from .lib import *
PP = 'mango_v4::state::mango_account_components::PerpPosition::'
PM = 'mango_v4::state::perp_market::PerpMarket::'
F = t.Fraction
SIDE_BID = 0
def r(x): return t.toreal(x) * F(1, ONE)
def stable(m): return t.floor_(m.stable_price_model.stable_price * ONE)
def fac(m): return t.floor_(m.settle_pnl_limit_factor * ONE)
def sgn(x): return ite(lt(x, 0), -1, ite(lt(0, x), 1, 0))
def pm_ok(c, i=1):
    m = c.arg(i)
    yield 'lot sizes are positive', and_(lt(0, m.base_lot_size), lt(0, m.quote_lot_size))
    yield 'stable price is not negative', le(F(0), m.stable_price_model.stable_price)

# ---------------------------------------------------------------- P01: trades
def trade_req(c):
    p = c.arg(0)
    yield from pm_ok(c)
    yield 'average entry price is not negative', le(F(0), p.avg_entry_price_per_base_lot)
    # buying costs quote, selling earns it
    yield 'quote moves against base', and_(implies(lt(0, c.arg(2)), le(c.arg(3), 0)), implies(lt(c.arg(2), 0), le(0, c.arg(3))))
def trade(c):
    o, n = c.old(0), c.new(0); M, M2 = c.old(1), c.new(1); b, q = c.arg(2), c.arg(3)
    P, N = o.base_position_lots, n.base_position_lots
    yield 'base position moves by the trade', eq(N, P + b)
    yield 'quote position moves by the trade', eq(n.quote_position_native, o.quote_position_native + q)
    yield 'open interest counts the absolute position', eq(M2.open_interest - M.open_interest, tabs(N) - tabs(P))
    yield 'nothing else in the market changes', frame(c, 1, ('open_interest',))[1]
    yield frame(c, 0, ('base_position_lots', 'quote_position_native', 'avg_entry_price_per_base_lot', 'quote_running_native', 'realized_pnl_for_position_native', 'recurring_settle_pnl_allowance', 'deprecated_realized_trade_pnl_native'))
    a, a2 = o.avg_entry_price_per_base_lot, n.avg_entry_price_per_base_lot
    noop = eq(b, 0); close = and_(not_(noop), eq(N, 0))
    flip = and_(not_(noop), not_(close), ne(sgn(P), sgn(N)))
    inc = and_(not_(noop), not_(close), not_(flip), eq(sgn(b), sgn(P))); dec = and_(not_(noop), not_(close), not_(flip), ne(sgn(b), sgn(P)))
    yield 'closing clears the entry price', implies(close, and_(eq(a2, F(0)), eq(n.quote_running_native, 0)))
    yield 'reducing keeps the entry price', implies(or_(dec, noop), eq(a2, a))
    yield 'flipping (or opening) takes the trade price as entry price', implies(flip, eq(a2 * t.toreal(tabs(b)), r(tabs(q))))
    yield 'increasing averages the entry price by lots', implies(inc, eq(a2 * t.toreal(tabs(N)), t.toreal(tabs(P)) * a + r(tabs(q))))
    af = t.floor_(a * ONE)
    yield 'closing and reducing realize pnl against the entry price', implies(or_(close, dec), eq(c.ret, q + b * af))
    yield 'increasing realizes nothing', implies(or_(inc, noop), eq(c.ret, 0))
    yield 'flipping realizes the old position at the trade price', implies(flip, eq(c.ret, t.floor_(t.toreal(P) * (a2 - a) * ONE)))
    yield 'realized pnl for the position accumulates while it is reduced', implies(dec, eq(n.realized_pnl_for_position_native, o.realized_pnl_for_position_native + c.ret))
    yield 'realized pnl for the position restarts with a new position', implies(or_(close, flip), eq(n.realized_pnl_for_position_native, 0))
    yield 'only the own market is traded', eq(o.market_index, M.perp_market_index)
def qdelta(i, sign, extra, allow=True):
    def e(c):
        o, n = c.old(0), c.new(0)
        yield 'quote position moves by the amount', eq(n.quote_position_native, o.quote_position_native + sign * c.arg(i))
        if allow: yield 'the settle allowance moves along', eq(n.oneshot_settle_pnl_allowance, o.oneshot_settle_pnl_allowance + sign * c.arg(i))
        yield frame(c, 0, ('quote_position_native', 'oneshot_settle_pnl_allowance') + extra)
    return e
def fee(c):
    yield from qdelta(1, -1, ('realized_pnl_for_position_native',))(c)
    yield 'the fee counts against realized pnl', eq(c.new(0).realized_pnl_for_position_native, c.old(0).realized_pnl_for_position_native - c.arg(1))
def takeover(c):
    o, n = c.old(0), c.new(0)
    yield 'quote position moves by the amount', eq(n.quote_position_native, o.quote_position_native + c.arg(1))
    yield 'recurring allowance is handed over', eq(n.recurring_settle_pnl_allowance, o.recurring_settle_pnl_allowance + c.arg(2))
    yield 'one-shot allowance is handed over', eq(n.oneshot_settle_pnl_allowance, o.oneshot_settle_pnl_allowance + c.arg(3) * ONE)
    yield frame(c, 0, ('quote_position_native', 'oneshot_settle_pnl_allowance', 'recurring_settle_pnl_allowance'))
def taker(c):
    o, n = c.old(0), c.new(0); bid = eq(c.arg(1).d, SIDE_BID); s = ite(bid, 1, -1)
    yield 'taker base lots follow the side', eq(n.taker_base_lots, o.taker_base_lots + ite(bid, c.arg(2), neg(c.arg(2))))
    yield 'taker quote lots go the other way', eq(n.taker_quote_lots, o.taker_quote_lots - ite(bid, c.arg(3), neg(c.arg(3))))
    yield frame(c, 0, ('taker_base_lots', 'taker_quote_lots'))
def untaker(c):
    o, n = c.old(0), c.new(0)
    yield 'the fill is taken off', and_(eq(n.taker_base_lots, o.taker_base_lots - c.arg(1)), eq(n.taker_quote_lots, o.taker_quote_lots - c.arg(2)))
    yield frame(c, 0, ('taker_base_lots', 'taker_quote_lots'))
def maker(c):
    o, n = c.old(0), c.new(0); bid = eq(c.arg(1).d, SIDE_BID)
    yield 'lots on the order side', eq(n.bids_base_lots, o.bids_base_lots + ite(bid, c.arg(2), 0))
    yield 'lots on the other side', eq(n.asks_base_lots, o.asks_base_lots + ite(bid, 0, c.arg(2)))
    yield frame(c, 0, ('bids_base_lots', 'asks_base_lots'))
def upnl(c):
    p, m = c.arg(0), c.arg(1)
    yield 'unsettled pnl is quote plus base at the price', eq(c.okval(), p.quote_position_native + p.base_position_lots * m.base_lot_size * c.arg(2))
def p01():
    return Prop('P01', [Unit(PP + 'record_trade', trade_req, trade, name='record_trade', feas_ms=100), Unit(PP + 'record_trading_fee', None, fee, name='record_trading_fee'),
        Unit(PP + 'record_liquidation_quote_change', None, qdelta(1, 1, ()), name='record_liquidation_quote_change'), Unit(PP + 'record_liquidation_pnl_takeover', None, takeover, name='record_liquidation_pnl_takeover'),
        Unit(PP + 'add_taker_trade', None, taker, name='add_taker_trade'), Unit(PP + 'remove_taker_trade', None, untaker, name='remove_taker_trade'),
        Unit(PP + 'adjust_maker_lots', None, maker, name='adjust_maker_lots'), Unit(PP + 'unsettled_pnl', None, upnl, name='unsettled_pnl')])

# ---------------------------------------------------------------- P02: funding
def funding_due(p, m):
    b = p.base_position_lots
    return ite(lt(0, b), (m.long_funding - p.long_settled_funding) * b, ite(lt(b, 0), (m.short_funding - p.short_settled_funding) * b, 0))
def impact_apply(ex, st, args, info):
    """the book side's impact price is any price or none; which side was asked is recorded in ghost state"""
    v = ex.fresh_val(info.dty, 'impact')
    side = 'bid' if 'bids' in repr(args[0]) else 'ask'
    st.ghost = dict(st.ghost)
    w = View(ex, st, v, info.dty)
    st.ghost[side + '.some'] = ite(w.some, 1, 0); st.ghost[side + '.price'] = w.as_('Some')
    st.ghost[side + '.qty'] = args[1]
    return [(st, v)]
IMPACT = FnSpec('mango_v4::state::orderbook::bookside::BookSide::impact_price', apply=impact_apply, concrete=True, note='any price or none')
def unset(c):
    yield 'funding due', eq(c.ret, funding_due(c.arg(0), c.arg(1)))
def settle(c):
    o, n, m = c.old(0), c.new(0), c.old(1)
    f = funding_due(o, m)
    yield 'the position pays the funding due', eq(n.quote_position_native, o.quote_position_native - f)
    yield 'settled up to now (longs)', eq(n.long_settled_funding, m.long_funding)
    yield 'settled up to now (shorts)', eq(n.short_settled_funding, m.short_funding)
    yield 'nothing is due afterwards', eq(funding_due(n, m), 0)
    yield 'the settle allowance moves along', eq(n.oneshot_settle_pnl_allowance, o.oneshot_settle_pnl_allowance - f)
    yield 'funding counts as realized pnl', eq(n.realized_pnl_for_position_native, o.realized_pnl_for_position_native - f)
    yield frame(c, 0, ('quote_position_native', 'oneshot_settle_pnl_allowance', 'realized_pnl_for_position_native', 'long_settled_funding', 'short_settled_funding', 'cumulative_long_funding', 'cumulative_short_funding'))
def p02():
    def ureq(c):
        m = c.arg(0); s = c.arg(2)
        yield from pm_ok(c, 0)
        yield 'oracle price in range', between(1, s.price, 1 << 100)
        yield 'funding bounds are ordered and at most 100% per day', and_(le(m.min_funding, m.max_funding), le(-ONE, m.min_funding), le(m.max_funding, ONE))
    def upd(c):
        o, n = c.old(0), c.new(0); s = c.old(2); now = c.arg(3)
        dl, ds = n.long_funding - o.long_funding, n.short_funding - o.short_funding
        idle = le(now, o.funding_last_updated)
        yield 'longs and shorts are charged the same delta', eq(dl, ds)
        yield 'nothing happens twice for the same time', implies(idle, and_(eq(dl, 0), eq(n.funding_last_updated, o.funding_last_updated), eq(n.stable_price_model.stable_price, o.stable_price_model.stable_price)))
        yield 'the update time is recorded', implies(not_(idle), eq(n.funding_last_updated, now))
        T = tmin(now - o.funding_last_updated, 3600)
        unit = fxmul(s.price, o.base_lot_size * ONE)
        tf = fxdiv(T * ONE, 86400 * ONE)
        yield 'the delta is at most max_funding for at most one hour', implies(not_(idle), le(dl, fxmul(fxmul(unit, tmax(o.max_funding, 0)), tf)))
        yield 'the delta is at least min_funding for at most one hour', implies(not_(idle), le(fxmul(fxmul(unit, tmin(o.min_funding, 0)), tf), dl))
        g = c.st.ghost.get
        b, a, bp, ap = eq(g('bid.some', 0), 1), eq(g('ask.some', 0), 1), g('bid.price', 0), g('ask.price', 0)
        book = fxdiv(tdiv(bp + ap, 2) * o.quote_lot_size * ONE, o.base_lot_size * ONE)
        pays = lambda rate: eq(dl, fxmul(fxmul(unit, rate), tf))
        yield 'with both sides of the book the rate is its clamped premium over the oracle', implies(and_(not_(idle), a, b), pays(tmin(tmax(fxdiv(book, s.price) - ONE, o.min_funding), o.max_funding)))
        yield 'without asks longs pay the maximal rate', implies(and_(not_(idle), b, not_(a)), pays(o.max_funding))
        yield 'without bids the rate is minimal', implies(and_(not_(idle), a, not_(b)), pays(o.min_funding))
        yield 'an empty book has no funding', implies(and_(not_(idle), not_(a), not_(b)), eq(dl, 0))
        yield 'the book is asked for the configured impact quantity', implies(not_(idle), and_(eq(g('bid.qty', 0), o.impact_quantity), eq(g('ask.qty', 0), o.impact_quantity)))
        yield frame(c, 0, ('long_funding', 'short_funding', 'funding_last_updated'))
    def soc(c):
        o, n = c.old(0), c.new(0); l = c.arg(1); s = c.okval()
        yield 'losses are not positive', le(l, 0)
        yield 'nobody pays without open interest', implies(eq(o.open_interest, 0), eq(s, 0))
        yield 'the loss is spread over the open interest', implies(lt(0, o.open_interest), and_(le(l, s * o.open_interest), lt(s * o.open_interest, l + o.open_interest), le(s, 0)))
        yield 'longs pay their share', eq(n.long_funding, o.long_funding - s)
        yield 'shorts pay their share', eq(n.short_funding, o.short_funding + s)
        yield frame(c, 0, ('long_funding', 'short_funding'))
    def sreq(c): yield 'open interest is not negative', le(0, c.arg(0).open_interest)
    return Prop('P02', [Unit(PP + 'unsettled_funding', None, unset, name='unsettled_funding'), Unit(PP + 'settle_funding', None, settle, name='settle_funding'),
        Unit(PM + 'update_funding_and_stable_price', ureq, upd, name='update_funding_and_stable_price', contracts={IMPACT.name: IMPACT}),
        Unit(PM + 'socialize_loss', sreq, soc, name='socialize_loss')])

# ---------------------------------------------------------------- P03: settle limits
def p03():
    def lim(p, m):
        pv = stable(m) * (p.base_position_lots * m.base_lot_size)
        unreal = clampf(m.settle_pnl_limit_factor * r(tabs(pv)))
        upnl = fceil(tabs(p.quote_position_native + pv))
        both = unreal + tmin(tabs(p.recurring_settle_pnl_allowance), upnl)
        one = p.oneshot_settle_pnl_allowance
        mx = ite(le(0, one), sat(both + clamp_i64(fceil(one))), both)
        mn = ite(le(0, one), neg(both), sat(neg(both) + clamp_i64(ffloor(one))))
        return tmin(mn, 0), tmax(mx, 0)
    def clampf(x): return tmax(-(1 << 63), tmin((1 << 63) - 1, ite(le(F(0), x), t.floor_(x), neg(t.floor_(neg(x))))))
    def sat(x): return clamp_i64(x)
    def off(m): return lt(m.settle_pnl_limit_factor, F(0))
    def sreq(c): yield from pm_ok(c)
    def sl(c):
        p, m = c.arg(0), c.arg(1); mn, mx = lim(p, m); R = c.ret
        yield 'the limits straddle zero', and_(le(R._0, 0), le(0, R._1))
        yield 'losing limit', implies(not_(off(m)), eq(R._0, mn))
        yield 'winning limit', implies(not_(off(m)), eq(R._1, mx))
        yield 'no limit when switched off', implies(off(m), and_(eq(R._0, -(1 << 63)), eq(R._1, (1 << 63) - 1)))
    def asl(c):
        p, m = c.arg(0), c.arg(1); mn, mx = lim(p, m); R = c.ret; u = p.settle_pnl_limit_settled_in_current_window_native
        yield 'losing limit less what was used', implies(not_(off(m)), eq(R._0, tmin(sat(mn - u), 0)))
        yield 'winning limit less what was used', implies(not_(off(m)), eq(R._1, tmax(sat(mx - u), 0)))
        yield 'no limit when switched off', implies(off(m), and_(eq(R._0, -(1 << 63)), eq(R._1, (1 << 63) - 1)))
    def apl(c):
        p, m, x = c.arg(0), c.arg(1), c.arg(2); mn, mx = lim(p, m); u = p.settle_pnl_limit_settled_in_current_window_native
        yield 'never more than asked for and never of the other sign', ite(lt(x, 0), between(x, c.ret, 0), between(0, c.ret, x))
        yield 'winnings stay within what is left of the limit', implies(and_(not_(off(m)), le(0, x)), eq(c.ret, tmin(x, tmax(sat(mx - u), 0) * ONE)))
        yield 'losses stay within what is left of the limit', implies(and_(not_(off(m)), lt(x, 0)), eq(c.ret, tmax(x, tmin(sat(mn - u), 0) * ONE)))
        yield 'unlimited when switched off', implies(off(m), eq(c.ret, x))
    def win(c):
        o, n, m = c.old(0), c.new(0), c.old(1); now = c.arg(2); W = m.settle_pnl_limit_window_size_ts
        s = o.settle_pnl_limit_window * W
        fresh = or_(lt(now, s), le(s + W, now))
        yield 'inside the window the used amount is kept', implies(not_(fresh), and_(eq(n.settle_pnl_limit_settled_in_current_window_native, o.settle_pnl_limit_settled_in_current_window_native), eq(n.settle_pnl_limit_window, o.settle_pnl_limit_window)))
        yield 'a new window starts with nothing used', implies(fresh, eq(n.settle_pnl_limit_settled_in_current_window_native, 0))
        yield 'the window contains now', and_(le(n.settle_pnl_limit_window * W, now), lt(now, n.settle_pnl_limit_window * W + W))
        yield frame(c, 0, ('settle_pnl_limit_settled_in_current_window_native', 'settle_pnl_limit_window'))
    def wreq(c): yield 'window size is positive', lt(0, c.arg(1).settle_pnl_limit_window_size_ts)
    def rec(c):
        o, n, m = c.old(0), c.new(0), c.old(2); s = c.arg(1); one = o.oneshot_settle_pnl_allowance
        yield 'settled pnl leaves the quote position', eq(n.quote_position_native, o.quote_position_native - s)
        red = ite(lt(0, s), tmax(tmin(s, one), 0), tmin(tmax(s, one), 0))
        yield 'the one-shot allowance is used up first', eq(n.oneshot_settle_pnl_allowance, one - red)
        pv = stable(m) * (o.base_position_lots * m.base_lot_size)
        upnl = fceil(tabs(o.quote_position_native - s + pv))
        rec0 = tabs(o.recurring_settle_pnl_allowance)
        yield 'the recurring allowance shrinks to the remaining pnl', eq(n.recurring_settle_pnl_allowance, tmin(rec0, upnl))
        x = s - red
        used = clamp_i64(ite(le(0, x), ffloor(x), neg(ffloor(neg(x)))))
        ch = tmax(rec0 - upnl, 0)
        net = ite(lt(0, used), tmax(used - ch, 0), tmin(used + ch, 0))
        yield 'the rest counts against the window', eq(n.settle_pnl_limit_settled_in_current_window_native, o.settle_pnl_limit_settled_in_current_window_native + ite(eq(ch, 0), used, net))
        yield frame(c, 0, ('quote_position_native', 'oneshot_settle_pnl_allowance', 'recurring_settle_pnl_allowance', 'settle_pnl_limit_settled_in_current_window_native', 'deprecated_realized_trade_pnl_native'))
    def rreq(c): yield from pm_ok(c, 2)
    def treq(c): yield from pm_ok(c)
    def trade(c):
        o, n, m = c.old(0), c.new(0), c.old(1)
        pv = stable(m) * (n.base_position_lots * m.base_lot_size)
        yield 'after a trade the recurring allowance is within the unsettled pnl', between(0, n.recurring_settle_pnl_allowance, fceil(tabs(n.quote_position_native + pv)))
        yield 'a trade leaves the one-shot allowance and the window alone', and_(eq(n.oneshot_settle_pnl_allowance, o.oneshot_settle_pnl_allowance), eq(n.settle_pnl_limit_settled_in_current_window_native, o.settle_pnl_limit_settled_in_current_window_native))
        P, N = o.base_position_lots, n.base_position_lots
        rec0 = tabs(o.recurring_settle_pnl_allowance); cap = fceil(tabs(n.quote_position_native + pv))
        def grants(dec): return eq(n.recurring_settle_pnl_allowance, tmin(tmax(rec0 - clamp_i64(trz(fxmul(fxmul(dec * m.base_lot_size * ONE, stable(m)), fac(m)))), 0), cap))
        b = c.arg(2); go = ne(b, 0)
        yield 'without a change of base only the unsettled pnl limits the recurring allowance', implies(eq(b, 0), eq(n.recurring_settle_pnl_allowance, tmin(rec0, cap)))
        what = 'the recurring allowance changes by the limit factor times the change of the absolute position '
        yield what + '(long stays long)', implies(and_(go, lt(0, P), lt(0, N)), grants(N - P))
        yield what + '(short stays short)', implies(and_(go, lt(P, 0), lt(N, 0)), grants(P - N))
        yield what + '(long closes or turns short)', implies(and_(go, le(0, P), le(N, 0)), grants(neg(N) - P))
        yield what + '(short closes or turns long)', implies(and_(go, le(P, 0), le(0, N)), grants(N + P))
    def trz(x): return ffloor(x)
    AV = FnSpec(PP + 'available_settle_limit', requires=sreq, ensures=asl)
    return Prop('P03', [Unit(PP + 'settle_limit', sreq, sl, name='settle_limit'), Unit(PP + 'available_settle_limit', sreq, asl, name='available_settle_limit'),
        Unit(PP + 'apply_pnl_settle_limit', sreq, apl, name='apply_pnl_settle_limit', contracts={AV.name: AV}), Unit(PP + 'update_settle_limit', wreq, win, name='update_settle_limit'),
        Unit(PP + 'record_settle', rreq, rec, name='record_settle'), Unit(PP + 'record_trade', treq, trade, name='record_trade', feas_ms=100, secs=120)])

# ---------------------------------------------------------------- P05: prices, lots and the settle fee
def p05():
    def fee_req(c):
        m = c.arg(0)
        yield 'fee settings are not negative', and_(le(F(0), m.settle_fee_flat), le(F(0), m.settle_fee_fraction_low_health), le(F(0), m.settle_fee_amount_threshold))
        yield 'settlement is positive', lt(0, c.arg(1))
    def fee(c):
        m = c.arg(0); s, pnl, pv, le_h, mh = [c.arg(i) for i in range(1, 6)]; f = c.okval()
        flat = t.floor_(m.settle_fee_flat * ONE); thr = m.settle_fee_amount_threshold; frac = t.floor_(m.settle_fee_fraction_low_health * ONE)
        yield 'the fee is not negative and at most the settlement', between(0, f, s)
        small = le(100 * pnl, pv)
        yield 'no fee for pnl below one percent of the position', implies(small, eq(f, 0))
        big = le(thr, r(s))
        yield 'large settlements pay the flat fee', implies(and_(not_(small), big), eq(f, tmin(flat, s)))
        yield 'small settlements of healthy accounts pay nothing', implies(and_(not_(small), not_(big), le(0, le_h)), eq(f, 0))
        yield 'small settlements pay at most twice the flat fee', implies(and_(not_(small), not_(big)), le(f, 2 * flat))
        yield 'small settlements pay at most the low-health fraction', implies(and_(not_(small), not_(big)), le(f, fxmul(s, frac)))
        yield 'a liquidatable account pays the full low-health fraction', implies(and_(not_(small), not_(big), lt(mh, 0)), eq(f, tmin(tmin(fxmul(s, frac), 2 * flat), s)))
    def inside(c):
        m = c.arg(0); bid = eq(c.arg(1).d, 0)
        yield 'bids up to the liability weight times the oracle, asks down to the asset weight times the oracle', iff(c.ret, ite(bid, le(c.arg(2), fxmul(m.maint_base_liab_weight, c.arg(3))), le(fxmul(m.maint_base_asset_weight, c.arg(3)), c.arg(2))))
    def l2n(c):
        m = c.arg(0)
        yield 'native price of a lot price', eq(c.ret, tdiv(c.arg(1) * m.quote_lot_size * ONE, m.base_lot_size))
    def n2l(c):
        m = c.arg(0)
        yield 'lot price of a native price rounds down', and_(le(c.ret * m.quote_lot_size * ONE, c.arg(1) * m.base_lot_size), lt(c.arg(1) * m.base_lot_size, (c.ret * ONE + ONE) * m.quote_lot_size))
    def lots(c): yield from pm_ok(c, 0)
    def lots2(c):
        yield from pm_ok(c, 0)
        yield 'price is not negative', le(0, c.arg(1))
    def key(c):
        o, n = c.old(0), c.new(0)
        yield 'every order gets a new sequence number', eq(n.seq_num, o.seq_num + 1)
        lo = ite(eq(c.arg(1).d, 0), (1 << 64) - 1 - n.seq_num, n.seq_num)
        yield 'the key holds the price and the (for bids inverted) sequence number', eq(c.ret, c.arg(2) * (1 << 64) + lo)
        yield frame(c, 0, ('seq_num',))
    return Prop('P05', [Unit(PM + 'compute_settle_fee', fee_req, fee, name='compute_settle_fee'), Unit(PM + 'inside_price_limit', None, inside, name='inside_price_limit'),
        Unit(PM + 'lot_to_native_price', lots, l2n, name='lot_to_native_price'), Unit(PM + 'native_price_to_lot', lots2, n2l, name='native_price_to_lot'),
        Unit(PM + 'gen_order_id', None, key, name='gen_order_id')])
PROPS = {'P01': p01, 'P02': p02, 'P03': p03, 'P05': p05}
