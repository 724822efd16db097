"""Contracts of price oracles (state/oracle.rs, Bank::oracle_price, PerpMarket::oracle_state)."""
from .lib import *
from mirv.intr import pk_same
O = 'mango_v4::state::oracle::'; OS = O + 'OracleState::'; U64MAX = (1 << 64) - 1
BK = 'mango_v4::state::bank::Bank::oracle_price'; PM = 'mango_v4::state::perp_market::PerpMarket::oracle_state'
def stale(s, cfg, slot, ts):
    ms = cfg.max_staleness_slots
    by_slot = lt(tmin(s.last_update_slot + ms, U64MAX), slot)
    by_time = and_(s.last_update_time.some, lt(s.last_update_time.as_('Some') * 1000, pos(ts * 1000 - ms * 450)))
    return and_(le(0, ms), or_(by_slot, by_time))
def unsure(s, cfg): return lt(fxmul(cfg.conf_filter, s.price), s.deviation)
def valid(s, cfg, now):
    n = now.as_('Some')
    return and_(not_(unsure(s, cfg)), implies(now.some, not_(stale(s, cfg, n._1, n._0))))
def times(c, now):
    n = now.as_('Some')
    return n
def o_state(tag):
    """the raw oracle reading: any value, or an error; one value per account"""
    def apply(ex, st, args, info):
        ty = ex.T[info.dty]; ok = ty['variants'][0]['fields'][0][1]; er = ty['variants'][1]['fields'][0][1]
        s2 = st.copy(); s2.assume(t.var(tag + '_unreadable', 'Bool')); st.assume(not_(t.var(tag + '_unreadable', 'Bool')))
        return [(st, Enum(info.dty, 0, {0: (ex.u.sym(ok, tag),)})), (s2, Enum(info.dty, 1, {1: (ex.fresh_val(er, tag + '.err'),)}))]
    return apply
def key_of(M, pat):
    ks = [k for k in M.fns('^' + pat.replace('::', '::') + '::<')]
    return [k for k in ks if '{closure' not in M.bodies[k]['name']][0]
def r01():
    def ok(f, lab):
        def e(c): yield lab, iff(c.is_ok(), f(c))
        return e
    def st(c): yield 'refused exactly when staleness is limited and the last update is too old in slots or, if known, in time', iff(c.is_ok(), not_(stale(c.arg(0), c.arg(1), c.arg(2), c.arg(3))))
    def streq(c): yield 'times in range', and_(le(c.arg(3), 1 << 50), implies(c.arg(0).last_update_time.some, le(c.arg(0).last_update_time.as_('Some'), 1 << 50)), le(c.arg(1).max_staleness_slots, 1 << 50))
    def cf(c): yield 'refused exactly when the deviation exceeds the filter share of the price', iff(c.is_ok(), not_(unsure(c.arg(0), c.arg(1))))
    def both_req(c):
        n = c.arg(2).as_('Some')
        yield 'times in range', and_(le(n._0, 1 << 50), implies(c.arg(0).last_update_time.some, le(c.arg(0).last_update_time.as_('Some'), 1 << 50)), le(c.arg(1).max_staleness_slots, 1 << 50))
    def both(c): yield 'accepts exactly sure and (if asked) fresh prices', iff(c.is_ok(), valid(c.arg(0), c.arg(1), c.arg(2)))
    def view(c, ty, name): return View(c.ex, c.st, c.ex.u.sym(c.ex.mir.find_ty(ty), name), c.ex.mir.find_ty(ty))
    def price_req(c):
        n = c.arg(2).as_('Some'); g = [le(n._0, 1 << 50), le(c.arg(0).oracle_config.max_staleness_slots, 1 << 50)]
        for nm in ('primary', 'fallback'):
            s = view(c, 'state::oracle::OracleState', nm)
            g.append(implies(s.last_update_time.some, le(s.last_update_time.as_('Some'), 1 << 50)))
        yield 'times in range', and_(*g)
    def keyeq(c, bank_key, info): return pk_same(c.ex, bank_key, info)
    def okey(c, bank, acc, fld='key'):
        v = acc
        r = field(v, 'key')
        while isinstance(r, (Ref, Choice)): r = c.ex.read(c.st, r)
        return r
    def price(c):
        b, a, now = c.arg(0), c.arg(1), c.arg(2)
        P = view(c, 'state::oracle::OracleState', 'primary'); Fb = view(c, 'state::oracle::OracleState', 'fallback')
        cfg = b.oracle_config; pv = valid(P, cfg, now); fv = valid(Fb, cfg, now); has = a.fallback_opt.some
        yield 'the account read is the oracle of the bank', pk_same(c.ex, field(b, 'oracle'), okey(c, b, a.oracle))
        yield 'a valid primary price is used', implies(pv, eq(c.okval(), P.price))
        yield 'otherwise only a valid price of the fallback oracle of the bank', implies(not_(pv), and_(has, fv, eq(c.okval(), Fb.price), implies(has, pk_same(c.ex, field(b, 'fallback_oracle'), okey(c, b, a.fallback_opt.as_('Some'))))))
    def pstate(c):
        b, a, now = c.arg(0), c.arg(1), c.arg(2)
        P = view(c, 'state::oracle::OracleState', 'primary')
        yield 'the account read is the oracle of the market', pk_same(c.ex, field(b, 'oracle'), okey(c, b, a.oracle))
        yield 'only a valid price is accepted', valid(P, b.oracle_config, now)
        yield 'the state read is returned', deep_eq(c.ex, c.okval()._v, P._v)
    def pprice(c):
        b, a, now = c.arg(0), c.arg(1), c.arg(2)
        P = view(c, 'state::oracle::OracleState', 'primary')
        yield 'only a valid price is accepted', and_(valid(P, b.oracle_config, now), eq(c.okval(), P.price))
    def conf(c):
        r = c.ret; p = c.arg(0)
        yield 'the limits are taken over', and_(eq(r.conf_filter, t.floor_(p.conf_filter * t.Fraction(ONE))), eq(r.max_staleness_slots, ite(p.max_staleness_slots.some, p.max_staleness_slots.as_('Some'), -1)))
    def pyth(c):
        a = c.arg(1); live = a.agg.status.is_('Trading'); p = c.ret._0; f = field
        yield 'the current price only while trading, else the last trading price', and_(eq(p.price, ite(live, a.agg.price, a.prev_price)), eq(p.conf, ite(live, a.agg.conf, a.prev_conf)), eq(c.ret._1, ite(live, a.agg.pub_slot, a.prev_slot)))
        yield 'with its own publish time and exponent', and_(eq(p.expo, a.expo), eq(p.publish_time, ite(live, a.timestamp, a.prev_timestamp)))
    prim = FnSpec(O + 'oracle_state_unchecked', apply=o_state('primary'), trusted=True, concrete=True, note='an oracle account yields an arbitrary reading, or an error')
    fall = FnSpec(O + 'fallback_oracle_state_unchecked', apply=o_state('fallback'), trusted=True, concrete=True, note='an oracle account yields an arbitrary reading, or an error')
    cs = {s.name: s for s in (prim, fall)}
    return Prop('R01', [Unit(OS + 'check_staleness', streq, st, on_err=True), Unit(OS + 'check_confidence', None, cf, on_err=True), Unit(OS + 'check_confidence_and_maybe_staleness', both_req, both, on_err=True),
        Unit(BK, price_req, price, contracts=cs, key=lambda M: key_of(M, BK), name='Bank::oracle_price'), Unit(PM, price_req, pstate, contracts=cs, key=lambda M: key_of(M, PM), name='PerpMarket::oracle_state'),
        Unit(PM, price_req, pprice, contracts=cs, key=lambda M: key_of(M, PM.replace('state', 'price')) if False else [k for k in M.fns('^mango_v4::state::perp_market::PerpMarket::oracle_price::<')][0], name='PerpMarket::oracle_price'),
        Unit(O + 'OracleConfigParams::to_oracle_config', None, conf), Unit(O + 'pyth_get_price', None, pyth)])
PROPS = {'R01': r01}
