"""Contracts of the token bank (programs/mango-v4/src/state/bank.rs)."""
from .lib import *
BK = 'mango_v4::state::bank::Bank::'
YEAR = 31536000

# ---------------------------------------------------------------- shared preconditions
def idx_ok(c, b=0, lo=ONE, hi=1 << 90):
    B = c.arg(b)
    yield 'deposit index in range', between(lo, B.deposit_index, hi)
    yield 'borrow index in range', between(lo, B.borrow_index, hi)
    yield 'the loan origination fee rate is not negative', le(0, B.loan_origination_fee_rate)
def value(B, p):
    """exact native value of an indexed position, in units of 2**-96"""
    return p * ite(le(0, p), B.deposit_index, B.borrow_index)

# ---------------------------------------------------------------- B01: the ledger
LEDGER = ('indexed_deposits', 'indexed_borrows')
def ledger(poss, mods):
    """the bank totals move by exactly what the positions move"""
    def ens(c):
        o, n = c.old(0), c.new(0)
        dd = db = 0
        for p in poss:
            a, b = c.old(p).indexed_position, c.new(p).indexed_position
            dd = dd + (pos(b) - pos(a)); db = db + (negp(b) - negp(a))
        yield 'total deposits move with the positions', eq(n.indexed_deposits - o.indexed_deposits, dd)
        yield 'total borrows move with the positions', eq(n.indexed_borrows - o.indexed_borrows, db)
        yield frame(c, 0, LEDGER + tuple(mods))
        for p in poss: yield frame(c, p, ('indexed_position', 'previous_index', 'cumulative_deposit_interest', 'cumulative_borrow_interest'))
    return ens
NB = ('net_borrows_in_window', 'last_net_borrows_window_start_ts')
OPS = [('deposit', NB + ('dust',)), ('deposit_with_dusting', NB + ('dust',)), ('withdraw_without_fee', NB + ('dust',)),
       ('withdraw_without_fee_with_dusting', NB + ('dust',)), ('withdraw_with_fee', NB + ('dust', 'collected_fees_native')),
       ('withdraw_loan_origination_fee', NB + ('dust', 'collected_fees_native')),
       ('change_without_fee', NB + ('dust',)), ('change_with_fee', NB + ('dust', 'collected_fees_native'))]
def b01():
    us = [Unit(BK + n, idx_ok, ledger([1], m), name=n) for n, m in OPS]
    us.append(Unit(BK + 'dust_if_possible', idx_ok, ledger([1], NB + ('dust',)), name='dust_if_possible'))
    us.append(Unit(BK + 'checked_transfer_with_fee', idx_ok, ledger([1, 3], NB + ('dust', 'collected_fees_native')), name='checked_transfer_with_fee',
        contracts={BK + 'deposit': callee('deposit', ledger([1], DEPMODS), DEPMODS), BK + 'withdraw_with_fee': callee('withdraw_with_fee', ledger([1], WDFMODS), WDFMODS)}))
    return Prop('B01', us)

# ---------------------------------------------------------------- B02: value
def moved(c, p=1, credit=0, lab=''):
    """value + dust change by `credit` up to rounding of a few raw units of native value and one raw unit of the index"""
    o, n = c.old(0), c.new(0)
    d = value(n, c.new(p).indexed_position) - value(o, c.old(p).indexed_position) + (n.dust - o.dust) * ONE
    tol = o.deposit_index + o.borrow_index + 2 * ONE
    yield lab + 'value moved >= amount - rounding', le(credit * ONE - tol, d)
    yield lab + 'value moved <= amount + rounding', le(d, credit * ONE + tol)
def dusting(c, active, always=False, p=1):
    o, n = c.old(0), c.new(0)
    P, Q = c.old(p), c.new(p)
    dd = n.dust - o.dust
    if not always: yield 'a position in use is never dusted', implies(lt(0, P.in_use_count), eq(dd, 0))
    yield 'dusting empties the position', implies(ne(dd, 0), eq(Q.indexed_position, 0))
    yield 'dust is less than one native unit', and_(le(-(o.borrow_index + o.deposit_index + 2 * ONE), dd * ONE), lt(dd, ONE))
    yield 'an inactive position is empty and unused', implies(not_(active), and_(eq(Q.indexed_position, 0), eq(Q.in_use_count, 0)))
TPF = ('indexed_position', 'previous_index', 'cumulative_deposit_interest', 'cumulative_borrow_interest')
def callee(name, ens, mods):
    """the contract of a bank operation, as used at its call sites; its frame is what B01 proves"""
    return FnSpec(BK + name, requires=idx_ok, ensures=ens, modifies=[(0, (f,)) for f in LEDGER + tuple(mods)] + [(1, (f,)) for f in TPF])
DEPMODS = NB + ('dust',); WDFMODS = NB + ('dust', 'collected_fees_native')
def dip(c):
    yield from moved(c, credit=0); yield from dusting(c, c.okval())
def dep(c):
    yield from moved(c, credit=c.arg(2)); yield from dusting(c, c.okval())
    yield 'amount is not negative', le(0, c.arg(2))
def depd(c):
    yield from moved(c, credit=c.arg(2)); yield from dusting(c, c.okval(), True)
def wd(c):
    yield from moved(c, credit=neg(c.arg(2))); yield from dusting(c, c.okval())
    yield 'amount is not negative', le(0, c.arg(2))
def wdd(c):
    yield from moved(c, credit=neg(c.arg(2))); yield from dusting(c, c.okval(), True)
def wdf(c):
    r = c.okval()
    yield from moved(c, credit=neg(c.arg(2) + r.loan_origination_fee)); yield from dusting(c, r.position_is_active)
    yield 'amount is not negative', le(0, c.arg(2))
def b02():
    def lof(c):
        r = c.okval()
        yield from moved(c, credit=neg(r.loan_origination_fee)); yield from dusting(c, r.position_is_active)
    def chf(c):
        r = c.okval()
        yield from moved(c, credit=c.arg(2) - r.loan_origination_fee); yield from dusting(c, r.position_is_active)
    def xfer(c):
        r = c.okval(); o, n = c.old(0), c.new(0)
        tol = 2 * (o.deposit_index + o.borrow_index + 2 * ONE)
        d1 = value(n, c.new(1).indexed_position) - value(o, c.old(1).indexed_position)
        d2 = value(n, c.new(3).indexed_position) - value(o, c.old(3).indexed_position)
        d = d1 + d2 + (n.dust - o.dust) * ONE
        want = (c.arg(4) - c.arg(2) - r.loan_origination_fee) * ONE
        yield 'transfer creates no value', between(want - tol, d, want + tol)
        yield 'source loses its amount plus the fee', between((neg(c.arg(2)) - r.loan_origination_fee) * ONE - tol - ONE * ONE, d1, (neg(c.arg(2)) - r.loan_origination_fee) * ONE + tol)
        yield 'target gains its amount', between(c.arg(4) * ONE - tol - ONE * ONE, d2, c.arg(4) * ONE + tol)
    us = [Unit(BK + 'deposit', idx_ok, dep, name='deposit'), Unit(BK + 'deposit_with_dusting', idx_ok, depd, name='deposit_with_dusting'),
          Unit(BK + 'withdraw_without_fee', idx_ok, wd, name='withdraw_without_fee'), Unit(BK + 'withdraw_without_fee_with_dusting', idx_ok, wdd, name='withdraw_without_fee_with_dusting'),
          Unit(BK + 'withdraw_with_fee', idx_ok, wdf, name='withdraw_with_fee'), Unit(BK + 'withdraw_loan_origination_fee', idx_ok, lof, name='withdraw_loan_origination_fee'),
          Unit(BK + 'change_without_fee', idx_ok, dep_or(), name='change_without_fee'), Unit(BK + 'change_with_fee', idx_ok, chf, name='change_with_fee'),
          Unit(BK + 'dust_if_possible', idx_ok, dip, name='dust_if_possible'), Unit(BK + 'checked_transfer_with_fee', idx_ok, xfer, name='checked_transfer_with_fee', contracts={BK + 'deposit': callee('deposit', dep, DEPMODS), BK + 'withdraw_with_fee': callee('withdraw_with_fee', wdf, WDFMODS)})]
    return Prop('B02', us)
def dep_or():
    def f(c):
        yield from moved(c, credit=c.arg(2)); yield from dusting(c, c.okval())
    return f

# ---------------------------------------------------------------- B03: loan origination fee
def native(B, p): return ite(lt(0, p), fxmul(p, B.deposit_index), fxmul(p, B.borrow_index))
def wf(c, amt=None):
    o, n = c.old(0), c.new(0); r = c.okval(); a = c.arg(2) if amt is None else amt
    nat = native(o, c.old(1).indexed_position)
    newb = ite(lt(nat, 0), tmax(a, 0), tmax(a - nat, 0))         # what is newly borrowed
    fee = fxmul(o.loan_origination_fee_rate, newb)
    yield 'fee is the rate times the newly borrowed amount', eq(r.loan_origination_fee, fee)
    yield 'fee is credited to the collected fees', eq(n.collected_fees_native, o.collected_fees_native + fee)
    yield 'the loan is the borrowed amount plus the fee', eq(r.loan_amount, newb + fee)
def b03():
    def cwf(c):
        yield from wf(c, ite(lt(c.arg(2), 0), neg(c.arg(2)), 0))
    def lof(c):
        o, n = c.old(0), c.new(0); r = c.okval()
        fee = fxmul(o.loan_origination_fee_rate, c.arg(2))
        yield 'fee is the rate times the borrowed amount', eq(r.loan_origination_fee, fee)
        yield 'fee is credited to the collected fees', eq(n.collected_fees_native, o.collected_fees_native + fee)
        tol = o.deposit_index + o.borrow_index + 2 * ONE
        d = value(n, c.new(1).indexed_position) - value(o, c.old(1).indexed_position) + (n.dust - o.dust) * ONE
        yield 'the position pays the fee', between(neg(fee) * ONE - tol, d, neg(fee) * ONE + tol)
    def nofee(c):
        yield 'no fee is collected', eq(c.new(0).collected_fees_native, c.old(0).collected_fees_native)
    def xf(c):
        o, n = c.old(0), c.new(0); r = c.okval(); a = c.arg(2)
        nat = native(o, c.old(1).indexed_position)
        newb = ite(eq(a, 0), 0, ite(lt(nat, 0), tmax(a, 0), tmax(a - nat, 0)))
        fee = fxmul(o.loan_origination_fee_rate, newb)
        yield 'fee is the rate times the newly borrowed amount', eq(r.loan_origination_fee, fee)
        yield 'fee is credited to the collected fees', eq(n.collected_fees_native, o.collected_fees_native + fee)
        yield 'the loan is the borrowed amount plus the fee', eq(r.loan_amount, newb + fee)
    us = [Unit(BK + 'withdraw_with_fee', idx_ok, wf, name='withdraw_with_fee'), Unit(BK + 'change_with_fee', idx_ok, cwf, name='change_with_fee'),
          Unit(BK + 'withdraw_loan_origination_fee', idx_ok, lof, name='withdraw_loan_origination_fee'), Unit(BK + 'checked_transfer_with_fee', idx_ok, xf, name='checked_transfer_with_fee', contracts={BK + 'deposit': callee('deposit', nofee, DEPMODS), BK + 'withdraw_with_fee': callee('withdraw_with_fee', wf, WDFMODS)})]
    us += [Unit(BK + n, idx_ok, nofee, name=n) for n in ('withdraw_without_fee', 'withdraw_without_fee_with_dusting', 'deposit', 'deposit_with_dusting', 'change_without_fee', 'dust_if_possible')]
    return Prop('B03', us)

# ---------------------------------------------------------------- B04: net borrow limit
def nb_update(o, n, delta, now, touched):
    """delta: signed integer change, touched: whether anything was borrowed or repaid"""
    W = o.net_borrow_limit_window_size_ts
    new_window = le(o.last_net_borrows_window_start_ts + W, now)
    yield 'net borrows of the window', implies(touched, eq(n.net_borrows_in_window, ite(new_window, 0, o.net_borrows_in_window) + delta))
    yield 'nothing borrowed, nothing counted', implies(not_(touched), and_(eq(n.net_borrows_in_window, o.net_borrows_in_window), eq(n.last_net_borrows_window_start_ts, o.last_net_borrows_window_start_ts)))
    yield 'the window only moves when it is over', implies(not_(new_window), eq(n.last_net_borrows_window_start_ts, o.last_net_borrows_window_start_ts))
    yield 'a new window contains now and is aligned', implies(and_(touched, new_window), and_(le(n.last_net_borrows_window_start_ts, now), lt(now, n.last_net_borrows_window_start_ts + W), eq(n.last_net_borrows_window_start_ts, tdiv(now, W) * W)))
def win(c):
    yield from idx_ok(c)
    yield 'window size is positive', lt(0, c.arg(0).net_borrow_limit_window_size_ts)
def price_of(B): return B.stable_price_model.stable_price
def remaining(B, price):
    """limit - price * net borrows, raw bits; price is the larger of oracle and stable price"""
    return B.net_borrow_limit_per_window_quote * ONE - tmax(price, sp(B)) * B.net_borrows_in_window
def sp(B): return t.floor_(price_of(B) * ONE)
def b04():
    def upd(c):
        yield from nb_update(c.old(0), c.new(0), clamp_i64(fceil(c.arg(1))), c.arg(2), True)
        yield frame(c, 0, NB)
    def wd(c, amt=None):
        o, n = c.old(0), c.new(0); a = c.arg(2)
        nat = native(o, c.old(1).indexed_position)
        newb = ite(lt(nat, 0), a, tmax(a - nat, 0))
        touched = or_(lt(nat, 0), lt(nat, a))
        yield from nb_update(o, n, clamp_i64(fceil(newb)), c.arg(3), touched)
    def wdf(c):
        o, n = c.old(0), c.new(0); a = c.arg(2)
        nat = native(o, c.old(1).indexed_position)
        newb = ite(lt(nat, 0), a, tmax(a - nat, 0)); newb = newb + fxmul(o.loan_origination_fee_rate, newb)
        touched = or_(lt(nat, 0), lt(nat, a))
        yield from nb_update(o, n, clamp_i64(fceil(newb)), c.arg(3), touched)
    def dep(c):
        o, n = c.old(0), c.new(0); a = c.arg(2)
        nat = native(o, c.old(1).indexed_position)
        yield from nb_update(o, n, clamp_i64(fceil(tmax(nat, neg(a)))), c.arg(3), lt(nat, 0))
    def rem(c):
        B = c.arg(0)
        off = or_(lt(B.net_borrows_in_window, 0), lt(B.net_borrow_limit_per_window_quote, 0))
        yield 'no limit when net borrows are negative or the limit is off', implies(off, eq(c.ret, I80MAX))
        yield 'what remains', implies(not_(off), eq(c.ret, remaining(B, c.arg(1))))
    def chk(c):
        B = c.arg(0)
        off = or_(lt(B.net_borrows_in_window, 0), lt(B.net_borrow_limit_per_window_quote, 0))
        yield 'accepts only within the limit', implies(c.is_ok(), or_(off, le(0, remaining(B, c.arg(1)))))
        yield 'rejects only beyond the limit', implies(not_(c.is_ok()), and_(not_(off), lt(remaining(B, c.arg(1)), 0)))
    def xf(c):
        o, n = c.old(0), c.new(0)
        off = or_(lt(n.net_borrows_in_window, 0), lt(n.net_borrow_limit_per_window_quote, 0))
        yield 'a transfer that grows borrows stays within the limit', implies(lt(o.indexed_borrows + 1, n.indexed_borrows), or_(off, le(0, remaining(n, c.arg(6)))))
    def price_rng(c): yield 'stable price is positive', between(0, price_of(c.arg(0)), 1 << 60)
    def winp(c):
        yield from win(c); yield from price_rng(c)
    def win0(c): yield 'window size is positive', lt(0, c.arg(0).net_borrow_limit_window_size_ts)
    return Prop('B04', [Unit(BK + 'update_net_borrows', win0, upd, name='update_net_borrows'),
        Unit(BK + 'withdraw_without_fee', win, wd, name='withdraw_without_fee'), Unit(BK + 'withdraw_without_fee_with_dusting', win, wd, name='withdraw_without_fee_with_dusting'),
        Unit(BK + 'withdraw_with_fee', win, wdf, name='withdraw_with_fee'),
        Unit(BK + 'deposit', win, dep, name='deposit'), Unit(BK + 'deposit_with_dusting', win, dep, name='deposit_with_dusting'),
        Unit(BK + 'remaining_net_borrows_quote', price_rng, rem, name='remaining_net_borrows_quote'),
        Unit(BK + 'check_net_borrows', price_rng, chk, name='check_net_borrows', on_err=True),
        Unit(BK + 'checked_transfer_with_fee', winp, xf, name='checked_transfer_with_fee')])

# ---------------------------------------------------------------- B05: deposit limit, utilization, reduce-only
def nd(B): return fxmul(B.indexed_deposits, B.deposit_index)
def nbr(B): return fxmul(B.indexed_borrows, B.borrow_index)
def f2fx(x): return t.floor_(x * ONE)
def limit_ok(B): return or_(eq(B.deposit_limit, 0), le(nd(B) + B.potential_serum_tokens * ONE, B.deposit_limit * ONE))
def b05():
    def rem(c):
        B = c.arg(0)
        tot = fxmul(B.indexed_deposits + 1, B.deposit_index) + B.potential_serum_tokens * ONE
        yield 'no limit: everything remains', implies(eq(B.deposit_limit, 0), eq(c.ret, I80MAX))
        yield 'what remains never exceeds limit - deposits - order tokens', implies(ne(B.deposit_limit, 0), le(c.ret, B.deposit_limit * ONE - nd(B) - B.potential_serum_tokens * ONE))
        yield 'what remains is limit - deposits - order tokens up to one raw index unit', implies(ne(B.deposit_limit, 0), eq(c.ret, B.deposit_limit * ONE - tot))
    def chk(c):
        yield 'accepts exactly within the limit', iff(c.is_ok(), limit_ok(c.arg(0)))
    def maxu(c):
        B = c.arg(0)
        yield 'accepts exactly up to the utilization limit', iff(c.is_ok(), le(nbr(B), fxmul(ONE - f2fx(B.min_vault_to_deposits_ratio), nd(B))))
    def b_lte_d(c):
        yield 'accepts exactly when borrows <= deposits', iff(c.is_ok(), le(nbr(c.arg(0)), nd(c.arg(0))))
    def pot(c):
        o, n = c.old(0), c.new(0)
        yield 'order tokens follow the orders', eq(n.potential_serum_tokens, ite(le(c.arg(1), c.arg(2)), o.potential_serum_tokens + (c.arg(2) - c.arg(1)), tmax(0, o.potential_serum_tokens - (c.arg(1) - c.arg(2)))))
        yield frame(c, 0, ('potential_serum_tokens',))
    def xf(c):
        o, n = c.old(0), c.new(0)
        yield 'a transfer that grows deposits stays within the deposit limit', implies(lt(o.indexed_deposits + 1, n.indexed_deposits), limit_ok(n))
        r = o.reduce_only
        yield 'reduce-only: the source does not end up borrowing', implies(and_(or_(eq(r, 1), eq(r, 2)), ne(c.arg(2), 0)), le(0, c.new(1).indexed_position))
        yield 'deposits reduce-only: the target does not end up with deposits', implies(and_(eq(r, 1), ne(c.arg(4), 0)), le(c.new(3).indexed_position, 0))
    def flag(f):
        def e(c): yield 'flag', iff(c.ret, f(c.arg(0)))
        return e
    ratio = lambda c: [('vault ratio is between 0 and 1', between(t.Fraction(0), c.arg(0).min_vault_to_deposits_ratio, t.Fraction(1)))]
    us = [Unit(BK + 'remaining_deposits_until_limit', idx_ok, rem, name='remaining_deposits_until_limit'),
          Unit(BK + 'check_deposit_and_oo_limit', None, chk, name='check_deposit_and_oo_limit', on_err=True),
          Unit(BK + 'enforce_max_utilization_on_borrow', ratio, maxu, name='enforce_max_utilization_on_borrow', on_err=True),
          Unit(BK + 'enforce_borrows_lte_deposits', None, b_lte_d, name='enforce_borrows_lte_deposits', on_err=True),
          Unit(BK + 'update_potential_serum_tokens', None, pot, name='update_potential_serum_tokens'),
          Unit(BK + 'checked_transfer_with_fee', idx_ok, xf, name='checked_transfer_with_fee')]
    for n, f in (('are_deposits_reduce_only', lambda B: eq(B.reduce_only, 1)), ('are_borrows_reduce_only', lambda B: or_(eq(B.reduce_only, 1), eq(B.reduce_only, 2))),
                 ('is_force_close', lambda B: eq(B.force_close, 1)), ('is_force_withdraw', lambda B: eq(B.force_withdraw, 1)), ('allows_asset_liquidation', lambda B: eq(B.disable_asset_liquidation, 0))):
        us.append(Unit(BK + n, None, flag(f), name=n))
    return Prop('B05', us)

# ---------------------------------------------------------------- B06: indexes and interest
def rates_ok(c):
    B = c.arg(0)
    yield from idx_ok(c, hi=1 << 90)
    yield 'configured rates as verify() accepts them', and_(le(0, B.zero_util_rate), le(0, B.util0), le(B.util0, B.util1), le(B.util1, ONE), le(0, B.rate0), le(0, B.rate1), le(0, B.max_rate), le(0, B.loan_fee_rate), le(t.Fraction(1), B.interest_curve_scaling))
def totals(c):
    yield from rates_ok(c)
    yield 'totals are not negative', and_(le(0, c.arg(1)), le(0, c.arg(2)))
RATE = FnSpec(BK + 'interest_rate_curve_calculator', requires=lambda c: [('knots in order', and_(le(0, c.arg(2)), le(c.arg(2), c.arg(4)), le(c.arg(4), ONE))), ('rates are not negative', and_(le(0, c.arg(1)), le(0, c.arg(3)), le(0, c.arg(5)), le(0, c.arg(6)), le(t.Fraction(0), c.arg(7))))],
              ensures=lambda c: [('rate is not negative', le(0, c.ret))])
def util_of(dep, bor): return ite(eq(dep, 0), 0, tmin(tmax(fxdiv(bor, dep), 0), ONE))
def b06():
    def ci(c):
        B = c.arg(0); r = c.okval()
        di, bi, fees, brate, drate = r._0, r._1, r._2, r._3, r._4
        dep, bor = fxmul(B.deposit_index, c.arg(1)), fxmul(B.borrow_index, c.arg(2))
        u = util_of(dep, bor); dt = c.arg(3)
        yield 'deposit rate is the borrow rate times the utilization', eq(drate, fxmul(brate, u))
        yield 'depositors never earn a higher rate than borrowers pay', le(drate, brate)
        yield 'deposit index never falls', implies(le(0, dt), le(B.deposit_index, di))
        yield 'borrow index never falls', implies(le(0, dt), le(B.borrow_index, bi))
        yield 'deposit index grows by the deposit rate', eq(di, fxdiv(fxmul(fxmul(B.deposit_index, drate), dt), YEAR * ONE) + B.deposit_index)
        yield 'borrow index grows by the borrow rate plus the loan fee rate', eq(bi, fxdiv(fxmul(fxmul(B.borrow_index, brate + B.loan_fee_rate), dt), YEAR * ONE) + B.borrow_index)
        yield 'fees are the loan fee rate on the borrows', eq(fees, fxdiv(fxmul(fxmul(bor, B.loan_fee_rate), dt), YEAR * ONE))
    def curve(c):
        yield 'rate is not negative', le(0, c.ret)
    def curve_req(c):
        for l, g in RATE.requires(c): yield l, g
    def avg(c):
        B = c.arg(0); now = c.arg(3)
        dep, bor = fxmul(B.deposit_index, c.arg(1)), fxmul(B.borrow_index, c.arg(2))
        u = util_of(dep, bor)
        t0, t1 = B.bank_rate_last_updated, B.index_last_updated
        yield 'average utilization is the time weighted average', implies(and_(ne(now, 0), lt(t0, now)), eq(c.ret, fxdiv(B.avg_utilization * (t1 - t0) + u * (now - t1), (now - t0) * ONE)))
        yield 'it stays between 0 and 1', implies(and_(le(0, B.avg_utilization), le(B.avg_utilization, ONE)), between(0, c.ret, ONE))
    def avg_req(c):
        yield from totals(c)
        yield 'time does not run backwards', and_(le(c.arg(0).bank_rate_last_updated, c.arg(0).index_last_updated), or_(eq(c.arg(3), 0), le(c.arg(0).index_last_updated, c.arg(3))), lt(c.arg(3), 1 << 40))
    def sc(c):
        o, n = c.old(0), c.new(0); s, s2 = o.interest_curve_scaling, n.interest_curve_scaling
        F = t.Fraction; adj = t.toreal(o.adjustment_factor) * F(1, ONE)
        u = t.toreal(tmin(tmax(o.avg_utilization, 0), ONE)) * F(1, ONE)
        tg = o.interest_target_utilization
        yield 'scaling stays at least 1', le(F(1), s2)
        yield 'above target the scaling does not fall', implies(and_(lt(tg, u), le(F(1), s)), le(s, s2))
        yield 'below target the scaling does not rise', implies(and_(le(u, tg), le(F(1), s)), le(s2, s))
        yield 'one update changes the scaling by at most the adjustment factor', implies(le(F(1), s), and_(le(s2, s * (F(1) + adj)), or_(le(s * (F(1) - adj), s2), eq(s2, F(1)))))
        yield frame(c, 0, ('interest_curve_scaling',))
    def sc_req(c):
        B = c.arg(0); F = t.Fraction
        yield 'target strictly between 0 and 1', and_(lt(F(0), B.interest_target_utilization), lt(B.interest_target_utilization, F(1)))
        yield 'adjustment factor between 0 and 1', between(0, B.adjustment_factor, ONE)
        yield 'scaling at least 1', le(F(1), B.interest_curve_scaling)
    return Prop('B06', [Unit(BK + 'compute_index', totals, ci, name='compute_index', contracts={RATE.name: RATE}),
                        Unit(BK + 'interest_rate_curve_calculator', curve_req, curve, name='interest_rate_curve_calculator'),
                        Unit(BK + 'compute_new_avg_utilization', avg_req, avg, name='compute_new_avg_utilization'),
                        Unit(BK + 'update_interest_rate_scaling', sc_req, sc, name='update_interest_rate_scaling')])

# ---------------------------------------------------------------- B07: the rate curve
def b07():
    def req(c):
        u, z, u0, r0, u1, r1, mx, s = [c.arg(i) for i in range(8)]
        yield 'knots strictly in order', and_(lt(1 << 20, u0), lt(u0 + (1 << 20), u1), lt(u1 + (1 << 20), ONE))
        yield 'rates not negative and bounded', and_(le(0, z), le(0, r0), le(0, r1), le(0, mx), *[le(x, 1 << 60) for x in (z, r0, r1, mx)])
        yield 'scaling not negative', and_(le(t.Fraction(0), s), le(s, t.Fraction(1 << 20)))
    def ens(c):
        u, z, u0, r0, u1, r1, mx, s = [c.arg(i) for i in range(8)]
        uu = tmin(tmax(u, 0), ONE)
        sc = ite(eq(s, t.Fraction(0)), ONE, f2fx(s))
        a = z + fxmul(fxdiv(r0 - z, u0), uu); b = r0 + fxmul(fxdiv(r1 - r0, u1 - u0), uu - u0); d = r1 + fxmul(fxdiv(mx - r1, ONE - u1), uu - u1)
        v = ite(le(uu, u0), a, ite(le(uu, u1), b, d))
        yield 'rate is linear between the configured points, times the scaling', eq(c.ret, ite(eq(s, t.Fraction(0)), v, fxmul(v, f2fx(s))))
        lo = lambda x, y: tmin(x, y) - 2 ; hi = lambda x, y: tmax(x, y) + 2
        nosc = eq(s, t.Fraction(0))
        yield 'first segment stays between its end rates', implies(and_(nosc, le(uu, u0)), between(lo(z, r0), c.ret, hi(z, r0)))
        yield 'second segment stays between its end rates', implies(and_(nosc, lt(u0, uu), le(uu, u1)), between(lo(r0, r1), c.ret, hi(r0, r1)))
        yield 'third segment stays between its end rates', implies(and_(nosc, lt(u1, uu)), between(lo(r1, mx), c.ret, hi(r1, mx)))
    def cir(c):
        B = c.arg(0)
        yield 'uses the configured curve', True
    return Prop('B07', [Unit(BK + 'interest_rate_curve_calculator', req, ens, name='interest_rate_curve_calculator')])

# ---------------------------------------------------------------- B09: weights
def b09():
    F = t.Fraction
    def mreq(c):
        B = c.arg(0)
        yield 'weights not negative and bounded', and_(*[between(0, x, 1 << 60) for x in (B.maint_asset_weight, B.maint_liab_weight, B.maint_weight_shift_asset_target, B.maint_weight_shift_liab_target)])
        yield 'the inverse duration matches the window', between(0, B.maint_weight_shift_duration_inv * (B.maint_weight_shift_end - B.maint_weight_shift_start), ONE)
        yield 'inverse duration not negative', le(0, B.maint_weight_shift_duration_inv)
        yield 'window in order', le(B.maint_weight_shift_start, B.maint_weight_shift_end)
    def mens(c):
        B = c.arg(0); r = c.ret; now = c.arg(1); a, l = r._0, r._1
        A0, A1, L0, L1 = B.maint_asset_weight, B.maint_weight_shift_asset_target, B.maint_liab_weight, B.maint_weight_shift_liab_target
        off = or_(eq(B.maint_weight_shift_duration_inv, 0), le(now, B.maint_weight_shift_start))
        yield 'before the shift, or without one, the weights are the old ones', implies(off, and_(eq(a, A0), eq(l, L0)))
        done = and_(not_(off), le(B.maint_weight_shift_end, now))
        yield 'after the shift the weights are the targets', implies(done, and_(eq(a, A1), eq(l, L1)))
        mid = and_(not_(off), not_(done))
        s = (now - B.maint_weight_shift_start) * B.maint_weight_shift_duration_inv
        yield 'in between the asset weight is interpolated linearly', implies(mid, eq(a, A0 + fxmul(s, A1 - A0)))
        yield 'in between the liability weight is interpolated linearly', implies(mid, eq(l, L0 + fxmul(s, L1 - L0)))
        yield 'the asset weight stays between old and target', implies(mid, between(tmin(A0, A1) - 1, a, tmax(A0, A1)))
        yield 'the liability weight stays between old and target', implies(mid, between(tmin(L0, L1) - 1, l, tmax(L0, L1)))
    def sreq(c):
        B = c.arg(0)
        yield from idx_ok(c)
        yield 'totals and weights not negative', and_(le(0, B.indexed_deposits), le(0, B.indexed_borrows), le(0, B.init_asset_weight), le(0, B.init_liab_weight), lt(0, c.arg(1)))
        yield 'scale starts as verify() accepts them', and_(lt(F(0), B.deposit_weight_scale_start_quote), lt(F(0), B.borrow_weight_scale_start_quote))
    r = lambda x: t.toreal(x) * F(1, ONE)
    MAXF = None
    def asset(c):
        B = c.arg(0); p = c.arg(1); w = c.ret
        dq = (r(nd(B)) + t.toreal(B.potential_serum_tokens)) * r(p); st = B.deposit_weight_scale_start_quote
        yield 'the asset weight is never raised', le(w, B.init_asset_weight)
        yield 'the asset weight is not negative', le(0, w)
        yield 'unscaled below the limit', implies(le(dq, st), eq(w, B.init_asset_weight))
        yield 'beyond the limit weighted deposits do not exceed the weighted limit', or_(le(r(w) * dq, r(B.init_asset_weight) * st), eq(st, F_MAX()), le(dq, st))
        yield 'beyond the limit the weight is scaled by limit / deposits', or_(le(dq, st), eq(st, F_MAX()), le(r(B.init_asset_weight) * st, (r(w) + r(B.init_asset_weight) * F(1, ONE) + F(2, ONE)) * dq))
    def liab(c):
        B = c.arg(0); p = c.arg(1); w = c.ret
        bq = r(nbr(B)) * r(p); st = B.borrow_weight_scale_start_quote
        yield 'the liability weight is never lowered', le(B.init_liab_weight, w)
        yield 'unscaled below the limit', implies(le(bq, st), eq(w, B.init_liab_weight))
        yield 'beyond the limit the weight is scaled by borrows / limit', or_(le(bq, st), eq(st, F_MAX()), and_(le(r(w) * st, r(B.init_liab_weight) * bq), le(r(B.init_liab_weight) * bq, (r(w) + r(B.init_liab_weight) * F(1, ONE) + F(2, ONE)) * st)))
    return Prop('B09', [Unit(BK + 'maint_weights', mreq, mens, name='maint_weights'),
                        Unit(BK + 'scaled_init_asset_weight', sreq, asset, name='scaled_init_asset_weight'),
                        Unit(BK + 'scaled_init_liab_weight', sreq, liab, name='scaled_init_liab_weight')])
def F_MAX():
    import sys
    return t.Fraction(sys.float_info.max)

# ---------------------------------------------------------------- B08: the stable price
SP = 'mango_v4::state::stable_price::StablePriceModel::'
def b08():
    F = t.Fraction
    def req(c):
        m = c.arg(0); p = c.arg(2)
        i = t.var('spi')
        yield 'prices not negative', and_(le(F(0), m.stable_price), le(F(0), p))
        yield 'growth limits are sane', and_(between(F(0), m.delay_growth_limit, F(1)), between(F(0), m.stable_growth_limit, F(1)))
        yield 'interval index in range', and_(lt(m.last_delay_interval_index, 24), lt(0, m.delay_interval_seconds))
        yield 'delay prices not negative', and_(*[le(F(0), m.delay_prices[k]) for k in range(24)])
        yield 'time in range', and_(le(c.arg(1), 1 << 40), le(m.last_update_timestamp, 1 << 40), eq(m.reset_on_nonzero_price, ite(eq(m.stable_price, F(0)), 1, 0)) if False else True)
        yield 'accumulator is consistent', and_(le(F(0), m.delay_accumulator_price), le(m.delay_accumulator_time, (1 << 31)))
    def ens(c):
        o, n = c.old(0), c.new(0); now, p = c.arg(1), c.arg(2)
        reset = and_(eq(o.reset_on_nonzero_price, 1), lt(F(0), p))
        dt = tmax(now - o.last_update_timestamp, 0); dtl = t.toreal(tmin(dt, 600))
        idle = and_(not_(reset), lt(dt, 10))
        go = and_(not_(reset), le(10, dt))
        s, s2 = o.stable_price, n.stable_price
        yield 'a pending reset jumps to the first price', implies(reset, and_(eq(s2, p), eq(n.last_update_timestamp, now)))
        yield 'updates less than ten seconds apart change nothing', implies(idle, and_(eq(s2, s), eq(n.last_update_timestamp, o.last_update_timestamp), eq(n.delay_accumulator_price, o.delay_accumulator_price)))
        yield 'the stable price rises at most by the growth limit per second', implies(go, le(s2 - s, s * o.stable_growth_limit * dtl))
        yield 'the stable price falls at most by the growth limit per second', implies(go, le(s - s2, s * o.stable_growth_limit * dtl))
        yield 'the stable price moves towards the oracle price and not past it', implies(go, and_(le(tmin(s, p), s2), le(s2, tmax(s, p))))
        yield 'the stable price stays not negative', le(F(0), s2)
        li = o.last_delay_interval_index
        prev = ite(eq(li, 0), o.delay_prices[23], o.delay_prices[0])
        for k in range(1, 24): prev = ite(eq(li, k), o.delay_prices[k - 1], prev)
        g = o.delay_growth_limit
        for k in range(24):
            a, b = o.delay_prices[k], n.delay_prices[k]
            yield 'a delay price only changes within the growth limit of the previous one [%d]' % k, implies(go, or_(eq(a, b), and_(le(prev * (F(1) - g), b), le(b, prev * (F(1) + g)))))
        yield 'the update time is recorded', implies(go, eq(n.last_update_timestamp, now))
        yield 'the interval index is the one of now', implies(go, eq(n.last_delay_interval_index, fmod_(tdiv(now, o.delay_interval_seconds))))
    def creq(c):
        m = c.arg(0); p = c.arg(2)
        yield 'constant history', and_(lt(F(0), p), eq(m.stable_price, p), *[eq(m.delay_prices[k], p) for k in range(24)])
        yield 'the accumulator holds the constant price', eq(m.delay_accumulator_price, p * t.toreal(m.delay_accumulator_time))
        yield from req(c)
    def cens(c):
        n = c.new(0); p = c.arg(2)
        yield 'a constant price leaves the stable price alone', eq(n.stable_price, p)
        yield 'a constant price leaves the delay prices alone', and_(*[eq(n.delay_prices[k], p) for k in range(24)])
        yield 'the accumulator keeps averaging to the constant price', eq(n.delay_accumulator_price, p * t.toreal(n.delay_accumulator_time))
    def fmod_(x): return x - fdiv(x, 24) * 24
    return Prop('B08', [Unit(SP + 'update', req, ens, name='stable price update'), Unit(SP + 'update', creq, cens, name='stable price update at a constant price')])

# ---------------------------------------------------------------- B10: configuration
def b10():
    F = t.Fraction
    RESET0 = ('indexed_deposits', 'indexed_borrows', 'collected_fees_native', 'collected_liquidation_fees', 'collected_collateral_fees', 'fees_withdrawn', 'dust', 'flash_loan_approved_amount', 'net_borrows_in_window', 'potential_serum_tokens')
    OTHER = ('vault', 'bank_num', 'bump', 'flash_loan_token_account_initial', 'reserved')
    def ens(c):
        o, r = c.old(0), c.ret
        for f in RESET0: yield 'the new bank starts with zero ' + f, eq(getattr(r, f), 0)
        yield 'no flash loan is pending', eq(r.flash_loan_token_account_initial, (1 << 64) - 1)
        yield 'own bank number', eq(r.bank_num, c.arg(2))
        for f in fields_of(c.ex, c.ret_ty):
            if f in RESET0 or f in OTHER: continue
            yield 'the new bank keeps ' + f, same_field(r, o, f)
    def ver(c):
        B = c.arg(0)
        z = lambda x: le(0, x)
        yield 'rate curve points are ordered', and_(z(B.util0), le(B.util0, B.util1), le(B.util1, ONE))
        yield 'rates are not negative', and_(z(B.zero_util_rate), z(B.rate0), z(B.rate1), z(B.max_rate), z(B.adjustment_factor), z(B.loan_fee_rate), z(B.loan_origination_fee_rate), z(B.liquidation_fee), z(B.platform_liquidation_fee))
        yield 'init asset weight <= maint asset weight', and_(z(B.init_asset_weight), le(B.init_asset_weight, B.maint_asset_weight))
        yield 'maint liability weight <= init liability weight', and_(z(B.maint_liab_weight), le(B.maint_liab_weight, B.init_liab_weight))
        yield 'shift targets are not negative', and_(z(B.maint_weight_shift_duration_inv), z(B.maint_weight_shift_asset_target), z(B.maint_weight_shift_liab_target))
        yield 'vault ratio between 0 and 1', between(F(0), B.min_vault_to_deposits_ratio, F(1))
        yield 'scaling and target in range', and_(le(F(1), B.interest_curve_scaling), between(F(0), B.interest_target_utilization, F(1)))
        yield 'fee rates are not negative', and_(le(F(0), B.token_conditional_swap_taker_fee_rate), le(F(0), B.token_conditional_swap_maker_fee_rate), le(F(0), B.flash_loan_swap_fee_rate), le(F(0), B.collateral_fee_per_day))
        yield 'weight scaling starts are positive', and_(lt(F(0), B.deposit_weight_scale_start_quote), lt(F(0), B.borrow_weight_scale_start_quote))
        yield 'reduce-only mode exists', le(B.reduce_only, 2)
        yield 'an asset that cannot be liquidated carries no maint weight and cannot be borrowed', implies(ne(B.disable_asset_liquidation, 0), and_(eq(B.maint_asset_weight, 0), or_(eq(B.reduce_only, 1), eq(B.reduce_only, 2))))
        yield 'forced withdraws need no deposits and no collateral value', implies(eq(B.force_withdraw, 1), and_(eq(B.reduce_only, 1), ne(B.disable_asset_liquidation, 0), eq(B.maint_asset_weight, 0)))
    return Prop('B10', [Unit(BK + 'from_existing_bank', None, ens, name='from_existing_bank'), Unit(BK + 'verify', None, ver, name='verify')])
PROPS = {'B01': b01, 'B02': b02, 'B03': b03, 'B04': b04, 'B05': b05, 'B06': b06, 'B07': b07, 'B08': b08, 'B09': b09, 'B10': b10}
