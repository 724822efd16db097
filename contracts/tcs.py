"""Contracts of token conditional swaps (state/token_conditional_swap.rs)."""
from .lib import *
T = 'mango_v4::state::token_conditional_swap::TokenConditionalSwap::'; F = t.Fraction; U64MAX = (1 << 64) - 1
def expired(s, now): return le(s.expiry_timestamp, now)
def in_range(s, p): return and_(le(s.price_lower_limit, p), le(p, s.price_upper_limit))
def started(s, now): return and_(lt(0, s.start_timestamp), le(s.start_timestamp, now))

def c01():
    def b(f, lab):
        def e(c): yield lab, iff(c.ret, f(c.arg(0), *[c.arg(i) for i in range(1, len(c.args))]))
        return e
    def n(f, lab):
        def e(c): yield lab, eq(c.ret, f(c.arg(0), *[c.arg(i) for i in range(1, len(c.args))]))
        return e
    def rem(mx, used):
        def e(c):
            s = c.arg(0)
            yield 'what is left of the limit', and_(eq(c.ret, getattr(s, mx) - getattr(s, used)), le(getattr(s, used), getattr(s, mx)))
        return e
    def prem(c):
        s, base, now = c.arg(0), c.arg(1), c.arg(2); r = c.ret; ty = s.tcs_type
        rate, lo, hi, D = s.price_premium_rate, s.price_lower_limit, s.price_upper_limit, s.duration_seconds
        e1 = ite(lt(0, s.start_timestamp), now - s.start_timestamp, 0)
        x1 = e1
        yield 'fixed premium: oracle price plus the premium rate', implies(eq(ty, 0), eq(r, base * (F(1) + rate)))
        # premium auction: progress = min(elapsed / duration, 1)
        full = base * (F(1) + rate)
        yield 'premium auction: full premium from the end on', implies(and_(eq(ty, 1), lt(0, D), le(D, x1)), eq(r, full))
        yield 'premium auction: linear in time before', implies(and_(eq(ty, 1), lt(0, D), le(x1, D)), eq((r - base) * t.toreal(D), base * rate * t.toreal(x1)))
        x2 = now - s.start_timestamp
        yield 'linear auction: only once started', implies(eq(ty, 2), started(s, now))
        yield 'linear auction: end price from the end on', implies(and_(eq(ty, 2), le(D, x2)), eq(r, hi))
        yield 'linear auction: linear in time between the limits', implies(and_(eq(ty, 2), lt(x2, D)), eq((r - lo) * t.toreal(D), (hi - lo) * t.toreal(x2)))
        yield 'linear auction: never outside the limits', implies(and_(eq(ty, 2), le(lo, hi)), and_(le(lo, r), le(r, hi)))
    def mk(c): yield 'premium price plus the maker fee', eq(c.ret, c.arg(1) * (F(1) + c.arg(0).maker_fee_rate))
    def tk(c): yield 'premium price less the taker fee', eq(c.ret, c.arg(1) * (F(1) - c.arg(0).taker_fee_rate))
    def fee(fld):
        def e(c):
            rate = t.floor_(getattr(c.arg(0), fld) * F(ONE))
            yield 'fee rate times the base amount, rounded down', eq(c.ret, ffloor(fxmul(c.arg(1), rate)))
        return e
    def st_ok(s, p, now): return and_(not_(expired(s, now)), eq(s.start_timestamp, 0), eq(s.tcs_type, 1), in_range(s, p))
    def startable(c):
        yield 'only unexpired premium auctions in their price range that have not started', iff(c.is_ok(), st_ok(c.arg(0), c.arg(1), c.arg(2)))
    def tr_ok(s, p, now): return and_(not_(expired(s, now)), ite(eq(s.tcs_type, 0), in_range(s, p), started(s, now)))
    def trigger(c):
        yield 'only unexpired swaps in range (fixed premium) or started (auctions)', iff(c.is_ok(), tr_ok(c.arg(0), c.arg(1), c.arg(2)))
    def isst(c): yield 'as check_startable', iff(c.ret, st_ok(c.arg(0), c.arg(1), c.arg(2)))
    def istr(c): yield 'as check_triggerable', iff(c.ret, tr_ok(c.arg(0), c.arg(1), c.arg(2)))
    def valid(c): yield 'a known swap type', le(c.arg(0).tcs_type, 2)
    def u64(x): return tmax(0, tmin(x, U64MAX))
    def maxbuy(c):
        s, p, bk = c.arg(0), c.arg(1), c.arg(2)
        free = and_(eq(s.allow_creating_deposits, 1), ne(bk.reduce_only, 1))
        yield 'never above what is left, and only repays borrows where deposits may not be created', eq(c.ret, tmin(s.max_buy - s.bought, ite(free, U64MAX, u64(fceil(neg(p))))))
    def maxsell(c):
        s, p, bk = c.arg(0), c.arg(1), c.arg(2)
        free = and_(eq(s.allow_creating_borrows, 1), ne(bk.reduce_only, 1), ne(bk.reduce_only, 2))
        yield 'never above what is left, and only sells deposits where borrows may not be created', eq(c.ret, tmin(s.max_sell - s.sold, ite(free, U64MAX, u64(ffloor(p)))))
    TR = 'mango_v4::instructions::token_conditional_swap_trigger::'
    def max_amounts(c):
        s, price, lim_b, lim_s, qb, qs, rb, rs, bb, sb = [c.arg(i) for i in range(10)]
        mb = tmin(lim_b, tmin(s.max_buy - s.bought, ite(and_(eq(s.allow_creating_deposits, 1), ne(bb.reduce_only, 1)), U64MAX, u64(fceil(neg(qb))))))
        mb = tmin(mb, ite(or_(eq(bb.reduce_only, 1), eq(bb.reduce_only, 2)), u64(ffloor(rb)), U64MAX))
        ms = tmin(lim_s, tmin(s.max_sell - s.sold, ite(and_(eq(s.allow_creating_borrows, 1), ne(sb.reduce_only, 1), ne(sb.reduce_only, 2)), U64MAX, u64(ffloor(qs)))))
        ms = tmin(ms, ite(eq(sb.reduce_only, 1), u64(fceil(neg(rs))), U64MAX))
        return price, mb, ms
    def tamount(c):
        price, mb, ms = max_amounts(c); b, s = c.ret._0, c.ret._1
        yield 'never buys more than the limits of the swap, the reduce-only rules and the caller allow', and_(le(0, b), le(b, mb))
        yield 'never sells more than the limits of the swap, the reduce-only rules and the caller allow', and_(le(0, s), le(s, ms))
        yield 'never pays more than the price', le(s * ONE, b * price)
        yield 'pays the price up to rounding, or the whole sell limit', or_(eq(s, ms), lt(b * price, (s + 1) * ONE))
        yield 'both sides trade or none', iff(lt(0, b), lt(0, s))
    def tareq(c): yield 'positive price', lt(0, c.arg(1))
    return Prop('C01', [Unit(TR + 'trade_amount', tareq, tamount), Unit(T + 'premium_price', valid, prem), Unit(T + 'maker_price', None, mk), Unit(T + 'taker_price', None, tk), Unit(T + 'maker_fee', None, fee('maker_fee_rate')), Unit(T + 'taker_fee', None, fee('taker_fee_rate')),
        Unit(T + 'check_startable', valid, startable, on_err=True), Unit(T + 'check_triggerable', valid, trigger, on_err=True), Unit(T + 'is_startable', valid, isst), Unit(T + 'is_triggerable', valid, istr),
        Unit(T + 'max_buy_for_position', None, maxbuy), Unit(T + 'max_sell_for_position', None, maxsell), Unit(T + 'remaining_buy', None, rem('max_buy', 'bought')), Unit(T + 'remaining_sell', None, rem('max_sell', 'sold')),
        Unit(T + 'is_expired', None, b(lambda s, now: expired(s, now), 'from the expiry time on')), Unit(T + 'passed_start', None, b(lambda s, now: started(s, now), 'from a set start time on'))])
PROPS = {'C01': c01}
