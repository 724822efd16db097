"""Contracts of the MangoAccount: fixed part, slots, health checks (state/mango_account.rs)."""
from .lib import *
from mirv.dyna import KINDS, COUNTS
MA = 'mango_v4::state::mango_account::'
FX = MA + 'MangoAccountFixed::'
FREE16 = 65535
def method(name, prefer='RefMut<'):
    """some instance of a method of DynamicAccount (they differ in how the account is borrowed only)"""
    def key(M):
        ks = [k for k, b in M.bodies.items() if b['name'].startswith(MA + '<impl mango_v4::state::dynamic_account::DynamicAccount<') and b['name'].endswith('>>::' + name) and b.get('body')]
        if not ks: raise KeyError('no instance of ' + name)
        ks.sort(key=lambda k: (prefer not in M.bodies[k]['name'], '&mut' not in M.bodies[k]['name'], k))
        return ks[0]
    return key
def M_(name, req, ens, **kw): return Unit(MA + 'DynamicAccount::' + name, req, ens, name=name, key=method(name), **kw)
def dynval(v):
    """the dynamic part of an account View (in that View's state)"""
    r = field(v, 'dynamic')
    return v._e.read(v._s, Ref(r.cell, r.path))
class Slots:
    """the slots of one kind"""
    def __init__(self, v, k):
        self.v = v; self.kind = k; self.k = KINDS.index(k); self.arr = dynval(v).fs[self.k]; self.n = getattr(v.header, COUNTS[self.k])
    def __getitem__(self, i): return View(self.v._e, self.v._s, self.v._e.u.arr_get(self.arr, i), self.arr.ety)
    def id(self, i): return getattr(self[i], ('token_index', 'market_index', 'market_index', 'market')[self.k])
    def active(self, i): return ne(self.id(i), FREE16)
    def same(self, o, i): return deep_eq(self.v._e, self.v._e.u.arr_get(self.arr, i), self.v._e.u.arr_get(o.arr, i))
    def has(self, x): return some_(0, self.n, lambda j: eq(self.id(j), x))
    def unique(self):
        """no two active slots for the same token or market"""
        return all_(0, self.n, lambda i: all_(0, self.n, lambda j: implies(and_(self.active(i), eq(self.id(i), self.id(j))), eq(i, j))))
def tokens(v): return Slots(v, 'TokenPosition')
def serums(v): return Slots(v, 'Serum3Orders')
def perps(v): return Slots(v, 'PerpPosition')
def orders(v): return Slots(v, 'PerpOpenOrder')
def swaps(v): return Slots(v, 'TokenConditionalSwap')
def kept(c, at=(), i=0, fixed=(), skipkinds=()):
    """every slot that is not listed [(kind, number)], every count and the fixed part (but for some fields) are unchanged"""
    o, n = c.old(i), c.new(i); gs = []
    for k in KINDS:
        a, b = Slots(o, k), Slots(n, k); ex = [x for kk, x in at if kk == k]
        if not isinstance(a.arr, ArrV): continue
        gs.append(eq(a.n, b.n))
        if k in skipkinds: continue
        if a.arr is b.arr or (not ex and deep_eq_arr(a, b)): continue
        gs.append(all_(0, a.n, lambda j: or_(*[eq(j, x) for x in ex], a.same(b, j))))
    gs.append(fixed_same(c, i, fixed))
    return and_(*gs)
def deep_eq_arr(a, b): return a.arr.base == b.arr.base and a.arr.writes == b.arr.writes
def fixed_same(c, i, skip):
    o, n = c.old(i).fixed, c.new(i).fixed
    if not isinstance(o, View): return True
    return and_(*[same_field(o, n, f) for f in fields_of(c.ex, o._t) if f not in skip])
def whole(c, i=0): return 'nothing else in the account changes', kept(c, (), i)

# ---------------------------------------------------------------- A02: token, spot and perp slots
def valid(c): yield 'the index is not the one that marks free slots', lt(c.arg(1), FREE16)
def found(kind, pos, idx, want=1):
    """a lookup: Ok exactly if there is a slot for the index, and then that slot"""
    def e(c):
        a = Slots(c.old(0), kind); x = c.arg(want)
        yield 'it is found exactly if the account has it', iff(c.is_ok(), a.has(x))
        r = View(c.ex, c.st, c._ret, c.ret_ty).val() if False else c.okval()
        yield 'the slot found is the one for the index', implies(c.is_ok(), eq(pos(r), x))
        if idx:
            i = idx(r)
            yield 'its number is the number of its slot', implies(c.is_ok(), and_(between(0, i, a.n - 1), eq(a.id(i), x)))
        yield 'a lookup changes nothing', kept(c)
    return e
def ensure_token(c):
    a, b = tokens(c.old(0)), tokens(c.new(0)); x = c.arg(1); r = c.okval(); i = r._1; p = r._0; z = b[i]
    yield 'the slot exists and is for the token', and_(between(0, i, a.n - 1), eq(b.id(i), x), eq(p.token_index, x))
    yield 'an existing position is returned as it is', implies(a.has(x), and_(eq(a.id(i), x), a.same(b, i)))
    yield 'otherwise a free slot is used', implies(not_(a.has(x)), not_(a.active(i)))
    yield 'a new position is empty', implies(not_(a.has(x)), empty_token(z))
    yield 'still at most one position per token', implies(a.unique(), b.unique())
    yield 'the other slots and the rest of the account are unchanged', kept(c, [('TokenPosition', i)])
    yield 'the active index counts the active positions before the slot', eq(r._2, count(c, a, i))
def count(c, a, n): return sum_(c, 'active' + a.kind, n, lambda k: ite(a.active(k), 1, 0))
F = t.Fraction
ENT = {}
def entering(req):
    """remember the function's own arguments for the loop invariants"""
    def f(c):
        ENT['c'] = c
        if req: yield from req(c)
    return f
def ensure_token_inv(c):
    c0 = ENT['c']; a = tokens(View(c.ex, c.st, c0.args[0], c0.tys[1])); x = c0.arg(1)
    k, n = visited(c, None)
    yield 'range', and_(between(0, k, n), eq(n, a.n))
    yield from counters(c)
    yield 'not yet found', all_(0, k, lambda j: ne(a.id(j), x))
    for _, act in changed(c, 'usize'): yield 'counted', eq(act, count(c, a, k))
    for _, m in changed(c, 'std::option::Option<(usize, usize)>'):
        yield 'no free slot so far', implies(not_(m.some), all_(0, k, lambda j: a.active(j)))
        r, b = m.val()._0, m.val()._1
        yield 'first free slot', implies(m.some, and_(between(0, r, k - 1), not_(a.active(r)), all_(0, r, lambda j: a.active(j)), eq(b, count(c, a, r))))
def ensure_apply(ex, st, args, info):
    """ensure_token_position by its contract; the result refers to the slot"""
    from mirv.exec import CallCtx
    c = CallCtx(ex, info.key, st, st.copy(), args, None); a = tokens(c.arg(0)); x = c.arg(1)
    ex.oblige(st, info.fr.def_ if info.fr else '?', 'the index is not the one that marks free slots', lt(x, FREE16), 'pre')
    rty = info.dty if info.dty is not None else info.b['abi_ret']; ty = ex.T[rty]; out = []
    r = field(c.arg(0), 'dynamic'); i = t.fresh('slot'); b = t.ranged(t.fresh('active_index'), 0, None)
    slot = Ref(r.cell, r.path + (('f', 0, None), ('idx', i))); tup = ty['variants'][0]['fields'][0][1]
    ok = Enum(rty, 0, {0: (Agg(tup, (slot, i, b)),)})
    s = st.copy(); s.assume(and_(between(0, i, a.n - 1), eq(a.id(i), x), eq(b, count(c, a, i)))); out.append((s, ok))
    s = st.copy(); s.assume(and_(not_(a.has(x)), between(0, i, a.n - 1), not_(a.active(i)), eq(b, count(c, a, i))))
    new = ex.fresh_val(a.arr.ety, 'newpos'); ex.write(s, slot, new); z = View(ex, s, new, a.arr.ety)
    s.assume(and_(eq(z.token_index, x), empty_token(z))); out.append((s, ok))
    s = st.copy(); s.assume(and_(not_(a.has(x)), all_(0, a.n, a.active)))
    out.append((s, Enum(rty, 1, {1: (ex.fresh_val(ty['variants'][1]['fields'][0][1], 'err'),)})))
    return out
def empty_token(z): return and_(eq(z.indexed_position, 0), eq(z.in_use_count, 0), eq(z.previous_index, 0), eq(z.cumulative_deposit_interest, F(0)), eq(z.cumulative_borrow_interest, F(0)))
def spec_of(name, **kw):
    """contract of a method of the account, for every way it is borrowed"""
    n = MA + '<impl mango_v4::state::dynamic_account::DynamicAccount<Header, Fixed, Dynamic>>::' + name
    return {n: FnSpec(n, **kw)}
ENSURE = spec_of('ensure_token_position', apply=ensure_apply)
def empty_perp(z):
    return and_(*[eq(getattr(z, f), 0) for f in ('base_position_lots', 'quote_position_native', 'quote_running_native', 'bids_base_lots', 'asks_base_lots', 'taker_base_lots', 'taker_quote_lots',
        'long_settled_funding', 'short_settled_funding', 'oneshot_settle_pnl_allowance', 'recurring_settle_pnl_allowance', 'realized_pnl_for_position_native', 'settle_pnl_limit_settled_in_current_window_native', 'settle_pnl_limit_window')],
        eq(z.avg_entry_price_per_base_lot, F(0)))
def only_field(a, b, i, f):
    """slot i changed in field f only"""
    x, y = a[i], b[i]
    return and_(*[same_field(x, y, g) for g in fields_of(a.v._e, a.arr.ety) if g != f])
def pvalid(c):
    yield 'the market index is not the one that marks free slots', lt(c.arg(1), FREE16)
    yield 'the token index is not the one that marks free slots', lt(c.arg(2), FREE16)
def ensure_perp(c):
    o, n = c.old(0), c.new(0); a, b = perps(o), perps(n); x, y = c.arg(1), c.arg(2); r = c.okval(); i = r._1; T0, T1 = tokens(o), tokens(n)
    yield 'the slot exists and is for the market', and_(between(0, i, a.n - 1), eq(b.id(i), x), eq(r._0.market_index, x))
    yield 'an existing position is returned and nothing changes', implies(a.has(x), and_(eq(a.id(i), x), kept(c)))
    yield 'otherwise a free slot becomes an empty position', implies(not_(a.has(x)), and_(not_(a.active(i)), empty_perp(b[i])))
    yield 'the other perp slots keep their contents', all_(0, a.n, lambda j: or_(eq(i, j), a.same(b, j)))
    yield 'still at most one position per market', implies(a.unique(), b.unique())
    yield 'a new perp position keeps its settle token in use', implies(and_(not_(a.has(x)), T0.unique()), all_(0, T0.n, lambda j: implies(eq(T1.id(j), y), eq(T1[j].in_use_count, ite(eq(T0.id(j), y), T0[j].in_use_count, 0) + 1))))
    yield 'the settle token has a position', implies(not_(a.has(x)), T1.has(y))
    yield 'other token positions are unchanged', all_(0, T0.n, lambda j: or_(eq(T1.id(j), y), T0.same(T1, j)))
    yield 'nothing else in the account changes', kept(c, skipkinds=('PerpPosition', 'TokenPosition'))
def create_serum(c):
    o, n = c.old(0), c.new(0); a, b = serums(o), serums(n); x = c.arg(1)
    yield 'there was no entry for the market', not_(a.has(x))
    yield 'now there is', b.has(x)
    yield 'only a free slot is used', all_(0, a.n, lambda j: or_(a.same(b, j), and_(not_(a.active(j)), eq(b.id(j), x))))
    yield 'still at most one entry per market', implies(a.unique(), b.unique())
    yield 'nothing else in the account changes', kept(c, skipkinds=('Serum3Orders',))
def deact(kind, idx, f):
    """the slot of that number / for that index becomes free, nothing else changes"""
    def e(c):
        o, n = c.old(0), c.new(0); a, b = Slots(o, kind), Slots(n, kind); hit = idx(c, a)
        yield 'the slot becomes free', all_(0, a.n, lambda j: implies(hit(j), and_(not_(b.active(j)), only_field(a, b, j, f))))
        yield 'the other slots keep their contents', all_(0, a.n, lambda j: or_(hit(j), a.same(b, j)))
        yield 'nothing else in the account changes', kept(c, skipkinds=(kind,))
    return e
def deact_token(c):
    a = tokens(c.old(0))
    yield 'a position in use is not deactivated', eq(a[c.arg(1)].in_use_count, 0)
    yield from deact('TokenPosition', lambda c, a: lambda j: eq(j, c.arg(1)), 'token_index')(c)
def deact_serum(c):
    a = serums(c.old(0))
    yield 'there was an entry for the market', a.has(c.arg(1))
    yield from deact('Serum3Orders', lambda c, a: lambda j: eq(a.id(j), c.arg(1)), 'market_index')(c)
def deact_perp(c):
    o, n = c.old(0), c.new(0); a, b = perps(o), perps(n); x, y = c.arg(1), c.arg(2); T0, T1 = tokens(o), tokens(n)
    yield 'there was a position for the market', a.has(x)
    yield 'the slot becomes free', all_(0, a.n, lambda j: implies(eq(a.id(j), x), and_(not_(b.active(j)), only_field(a, b, j, 'market_index'))))
    yield 'the other perp slots keep their contents', all_(0, a.n, lambda j: or_(eq(a.id(j), x), a.same(b, j)))
    yield 'the settle token is one use less in use', all_(0, T0.n, lambda j: implies(eq(T0.id(j), y), and_(eq(T1[j].in_use_count, tmax(T0[j].in_use_count - 1, 0)), only_field(T0, T1, j, 'in_use_count'))))
    yield 'the settle token has a position', T0.has(y)
    yield 'other token positions are unchanged', all_(0, T0.n, lambda j: or_(eq(T0.id(j), y), T0.same(T1, j)))
    yield 'nothing else in the account changes', kept(c, skipkinds=('PerpPosition', 'TokenPosition'))
def uniq(kind):
    def f(c): yield 'at most one slot per index', Slots(c.arg(0), kind).unique()
    return f
def both(*fs):
    def f(c):
        for g in fs: yield from g(c)
    return f
def raw_index(kind):
    def f(c): yield 'the slot exists', between(0, c.arg(1), Slots(c.arg(0), kind).n - 1)
    return f
def dust(c):
    from . import bank
    o, n = c.old(0), c.new(0); T0, T1 = tokens(o), tokens(n); y = c.old(1).token_index
    used = lambda j: tmax(T0[j].in_use_count - 1, 0)
    yield 'a position that stays is one use less in use', all_(0, T0.n, lambda j: implies(and_(eq(T0.id(j), y), T1.active(j)), and_(eq(T1[j].in_use_count, used(j)), eq(T1.id(j), y))))
    yield 'a position is closed only when it is unused and empty', all_(0, T0.n, lambda j: implies(and_(eq(T0.id(j), y), not_(T1.active(j))), and_(eq(used(j), 0), eq(T1[j].indexed_position, 0))))
    yield 'a position still in use keeps its balance', all_(0, T0.n, lambda j: implies(and_(eq(T0.id(j), y), lt(0, used(j))), and_(eq(T1[j].indexed_position, T0[j].indexed_position), T1.active(j))))
    yield 'other token positions are unchanged', all_(0, T0.n, lambda j: or_(eq(T0.id(j), y), T0.same(T1, j)))
    yield 'nothing else in the account changes', kept(c, skipkinds=('TokenPosition',))
def a02():
    from . import bank
    mx = lambda c: (yield 'the index is not the one that marks free slots', lt(c.arg(1).token_index, FREE16))
    dip = bank.callee('dust_if_possible', lambda c: both(bank.dip, keepuse)(c), bank.NB + ('dust',))
    def keepuse(c):
        yield 'a position in use is left alone', implies(lt(0, c.old(1).in_use_count), and_(eq(c.new(1).indexed_position, c.old(1).indexed_position), c.okval()))
    dep = {dip.name: dip}
    U = [M_('token_position_mut', valid, found('TokenPosition', lambda r: r._0.token_index, lambda r: r._1), on_err=True),
         M_('token_position_and_raw_index', valid, found('TokenPosition', lambda r: r._0.token_index, lambda r: r._1), on_err=True),
         M_('token_position', valid, found('TokenPosition', lambda r: r.token_index, None), on_err=True),
         M_('serum3_orders', valid, found('Serum3Orders', lambda r: r.market_index, None), on_err=True),
         M_('serum3_orders_mut', valid, found('Serum3Orders', lambda r: r.market_index, None), on_err=True),
         M_('perp_position', valid, found('PerpPosition', lambda r: r.market_index, None), on_err=True),
         M_('perp_position_mut', valid, found('PerpPosition', lambda r: r.market_index, None), on_err=True),
         M_('ensure_token_position', entering(valid), ensure_token, loops={'*': [(lambda c: True, LoopSpec(ensure_token_inv))]}),
         M_('ensure_perp_position', pvalid, ensure_perp, contracts=ENSURE),
         M_('create_serum3_orders', valid, create_serum), M_('deactivate_serum3_orders', both(valid, uniq('Serum3Orders')), deact_serum),
         M_('deactivate_token_position_and_log', raw_index('TokenPosition'), deact_token),
         M_('deactivate_perp_position_and_log', both(pvalid, uniq('PerpPosition'), uniq('TokenPosition')), deact_perp),
         M_('token_decrement_dust_deactivate', lambda c: both(lambda c: bank.idx_ok(c, 1), mx, uniq('TokenPosition'))(c), dust, contracts=dep),
         Unit(bank.BK + 'dust_if_possible', bank.idx_ok, keepuse)]
    return Prop('A02', U)

# ---------------------------------------------------------------- A03: who may act, and the health gates
def now(c):
    """the cluster clock (seconds)"""
    ty = next(i for i, x in enumerate(c.ex.T) if x.get('disp') == 'anchor_lang::prelude::Clock')
    return View(c.ex, c.st, c.ex.u.sym(ty, 'clock'), ty).unix_timestamp
def pk(v): return pk_int(v._e, v._v)
def FXU(name, ens, req=None, **kw): return Unit(FX + name, req, ens, **kw)
def setter(f, val, skip=()):
    def e(c):
        yield 'the flag', eq(getattr(c.new(0), f), val(c))
        yield 'nothing else changes', and_(*[same_field(c.old(0), c.new(0), g) for g in fields_of(c.ex, c.old(0)._t) if g != f])
    return e
def bit(b): return ite(b, 1, 0)
def recover(c):
    o, n = c.old(0), c.new(0); b = and_(eq(o.being_liquidated, 1), lt(-ONE, c.arg(1)))
    yield 'it tells whether the account recovered', iff(c.ret, b)
    yield 'the flag is cleared exactly then', eq(n.being_liquidated, ite(b, 0, o.being_liquidated))
    yield 'nothing else changes', and_(*[same_field(o, n, g) for g in fields_of(c.ex, o._t) if g != 'being_liquidated'])
def delegate(c):
    a = c.old(0); k = pk(c.arg(1))
    return or_(eq(pk(a.delegate), k), and_(eq(pk(a.temporary_delegate), k), le(now(c), a.temporary_delegate_expiry)))
def operational(c): yield 'exactly when the freeze has ended', iff(c.ret, lt(c.arg(0).frozen_until, now(c)))
def isdel(c): yield 'exactly the delegate, and the temporary delegate until it expires', iff(c.ret, delegate(c))
def isowner(c): yield 'exactly the owner and the delegates', iff(c.ret, or_(eq(pk(c.arg(0).owner), pk(c.arg(1))), delegate(c)))
HTY = ['Init', 'Maint', 'LiquidationEnd']
def health(ex, d):
    """the health of the account, by health type: any number"""
    vs = [hvar(ex, n) for n in HTY]
    return ite(eq(d, 0), vs[0], ite(eq(d, 1), vs[1], vs[2]))
def hvar(ex, n):
    if getattr(ex, 'concrete', False):
        k = 'health.' + n; v = int(ex.u.model.get(k, 0)); ex.u.used_inputs[k] = v
        return v
    return t.ranged(t.var('health.' + n), I80MIN, I80MAX)
HEALTH = {'mango_v4::health::cache::HealthCache::health': FnSpec('mango_v4::health::cache::HealthCache::health', value=lambda c: health(c.ex, c.arg(1).d), concrete=True)}
def flag(c, v, ok=True):
    yield 'the liquidation flag', implies(ok, eq(c.new(0).fixed.being_liquidated, v))
    yield 'nothing else in the account changes', implies(ok, kept(c, fixed=('being_liquidated',)))
def pre_ok(c, init):
    o = c.old(0).fixed; rec = or_(lt(-ONE, init), lt(-ONE, health(c.ex, 2)))
    b = or_(ne(o.being_liquidated, 1), rec)
    return b, ite(eq(o.being_liquidated, 1), 0, o.being_liquidated)
def pre_checks(c):
    b, v = pre_ok(c, c.arg(2))
    yield 'refused exactly while the account is being liquidated and has not recovered', iff(c.is_ok(), b)
    yield from flag(c, v, c.is_ok())
def pre(c):
    h = health(c.ex, 0); b, v = pre_ok(c, h)
    yield 'refused exactly while the account is being liquidated and has not recovered', iff(c.is_ok(), b)
    yield 'it returns the initial health', implies(c.is_ok(), eq(c.okval(), h))
    yield from flag(c, v, c.is_ok())
def post_ok(a, b): return or_(le(0, b), ite(lt(b, -1000 * ONE), le(fceil(a), fceil(b)), le(a, b)))
def post_checks(c):
    yield 'passes exactly if health is not negative or has not decreased', iff(c.is_ok(), post_ok(c.arg(1), c.arg(2)))
    yield whole(c)
def post(c):
    h = health(c.ex, 0)
    yield 'passes exactly if health is not negative or has not decreased', iff(c.is_ok(), post_ok(c.arg(2), h))
    yield 'it returns the initial health', implies(c.is_ok(), eq(c.okval(), h))
    yield whole(c)
def strict(c):
    yield 'passes exactly if health is not negative', iff(c.is_ok(), le(0, c.arg(1)))
    yield whole(c)
def liquidatable(c):
    o = c.old(0).fixed.being_liquidated; n = c.new(0).fixed.being_liquidated; r = c.okval()
    stay = and_(eq(o, 1), le(health(c.ex, 2), -ONE)); start = and_(ne(o, 1), lt(health(c.ex, 1), 0))
    yield 'liquidatable exactly from negative maintenance health until liquidation end health has recovered', iff(r.is_('Liquidatable'), or_(stay, start))
    yield 'an account that recovers is told apart', iff(r.is_('BecameNotLiquidatable'), and_(eq(o, 1), not_(stay)))
    yield 'the flag is kept accordingly', eq(n, ite(or_(stay, start), 1, ite(eq(o, 1), 0, o)))
    yield 'nothing else in the account changes', kept(c, fixed=('being_liquidated',))
def a03():
    setb = lambda f: FXU('set_' + f, setter(f, lambda c: bit(c.arg(1))))
    is_ = lambda n, f: FXU(n, lambda c: iter([('exactly when the flag is set', iff(c.ret, eq(getattr(c.arg(0), f), 1)))]))
    g = lambda n, e, **kw: M_(n, None, e, contracts=HEALTH, on_err=True, **kw)
    U = [FXU('is_operational', operational), FXU('is_delegate', isdel), FXU('is_owner_or_delegate', isowner),
         setb('being_liquidated'), setb('in_health_region'), is_('being_liquidated', 'being_liquidated'), is_('is_in_health_region', 'in_health_region'),
         FXU('maybe_recover_from_being_liquidated', recover),
         g('check_health_pre', pre), g('check_health_pre_checks', pre_checks), g('check_health_post', post), g('check_health_post_checks', post_checks),
         g('check_health_post_checks_strict', strict), M_('check_liquidatable', None, liquidatable, contracts=HEALTH)]
    return Prop('A03', U)
# ---------------------------------------------------------------- D01: fees that can be bought back
def bb(c, cur, prev, exp):
    n = c.new(0)
    yield 'current amount', eq(n.buyback_fees_accrued_current, cur)
    yield 'previous amount', eq(n.buyback_fees_accrued_previous, prev)
    yield 'expiry', eq(n.buyback_fees_expiry_timestamp, exp)
    yield 'nothing else changes', and_(*[same_field(c.old(0), n, g) for g in fields_of(c.ex, n._t) if not g.startswith('buyback_fees_')])
U64 = (1 << 64) - 1
def expire(c):
    o = c.old(0); ts, iv = c.arg(1), c.arg(2); e = o.buyback_fees_expiry_timestamp
    off = or_(eq(iv, 0), lt(ts, e)); cur, prev = o.buyback_fees_accrued_current, o.buyback_fees_accrued_previous
    yield from bb(c, ite(off, cur, 0), ite(off, prev, ite(lt(ts, e + iv), cur, 0)), ite(off, e, (tdiv(ts, ite(eq(iv, 0), 1, iv)) + 1) * iv))
    n = c.new(0).buyback_fees_expiry_timestamp
    yield 'the new expiry is the end of the interval that contains now', implies(not_(off), and_(lt(ts, n), le(n, ts + iv)))
def accrue(c):
    o = c.old(0)
    yield from bb(c, tmin(o.buyback_fees_accrued_current + c.arg(1), U64), o.buyback_fees_accrued_previous, o.buyback_fees_expiry_timestamp)
def reduce(c):
    o = c.old(0); a = c.arg(1); p_ = o.buyback_fees_accrued_previous; cu = o.buyback_fees_accrued_current
    yield 'no more than there was', le(a, p_ + cu)
    yield from bb(c, cu - tmax(a - p_, 0), p_ - tmin(a, p_), o.buyback_fees_expiry_timestamp)
def accrued(c): yield 'current and previous amount', eq(c.ret, tmin(c.arg(0).buyback_fees_accrued_current + c.arg(0).buyback_fees_accrued_previous, U64))
def d01():
    return Prop('D01', [FXU('expire_buyback_fees', expire), FXU('accrue_buyback_fees', accrue), FXU('reduce_buyback_fees_accrued', reduce), FXU('buyback_fees_accrued', accrued)])
# ---------------------------------------------------------------- A04: order slots and fills of perp orders
from . import perp
def lots_on(side_bid, p, dq):
    """order lots of a position after the lots on one side change"""
    return p.bids_base_lots + ite(side_bid, dq, 0), p.asks_base_lots + ite(side_bid, 0, dq)
def order_free(z): return and_(eq(z.market, FREE16), eq(z.side_and_tree, 0), eq(z.id, 0), eq(z.client_id, 0), eq(z.quantity, 0))
def but(a, b, i, fs, j=None):
    """slot i of a and b differ in the fields fs at most"""
    x, y = a[i], b[i if j is None else j]
    return and_(*[same_field(x, y, g) for g in fields_of(a.v._e, a.arr.ety) if g not in fs])
OO = ('side_and_tree', 'market', 'client_id', 'id', 'quantity')
def orders_kept(c, i):
    a, b = orders(c.old(0)), orders(c.new(0))
    yield 'the other order slots are unchanged', all_(0, a.n, lambda j: or_(eq(j, i), a.same(b, j)))
def maker_lots(c, market, bid, dq):
    """the order lots of the position in the market change by dq on one side, nothing else does"""
    a, b = perps(c.old(0)), perps(c.new(0))
    yield 'there is a position for the market', a.has(market)
    yield 'the order lots of the position change on the side of the order', all_(0, a.n, lambda j: implies(eq(a.id(j), market), and_(*[eq(x, y) for x, y in zip((b[j].bids_base_lots, b[j].asks_base_lots), lots_on(bid, a[j], dq))])))
    yield 'the rest of the position is unchanged', all_(0, a.n, lambda j: implies(eq(a.id(j), market), but(a, b, j, ('bids_base_lots', 'asks_base_lots'))))
    yield 'the other positions are unchanged', all_(0, a.n, lambda j: or_(eq(a.id(j), market), a.same(b, j)))
def rest(c, fixed=()): yield 'nothing else in the account changes', kept(c, skipkinds=('PerpPosition', 'PerpOpenOrder'), fixed=fixed)
def add_order(c):
    b = orders(c.new(0)); l = c.arg(4); i = l.owner_slot; z = b[i]; side, tree = c.arg(2).d, c.arg(3).d
    yield 'the slot exists', lt(i, b.n)
    yield 'the order is recorded in its slot', and_(eq(z.market, c.arg(1)), eq(z.id, l.key), eq(z.client_id, l.client_order_id), eq(z.quantity, l.quantity), eq(z.side_and_tree, side + 2 * tree))
    yield from orders_kept(c, i)
    yield from maker_lots(c, c.arg(1), eq(side, 0), l.quantity)
    yield from rest(c)
def remove_order(c):
    a, b = orders(c.old(0)), orders(c.new(0)); i = c.arg(1)
    yield 'there was an order in the slot', and_(lt(i, a.n), ne(a[i].market, FREE16))
    yield 'the slot is free', order_free(b[i])
    yield from orders_kept(c, i)
    yield from maker_lots(c, a[i].market, or_(eq(a[i].side_and_tree, 0), eq(a[i].side_and_tree, 2)), neg(c.arg(2)))
    yield from rest(c)
def matches(z, market, oid): return and_(eq(z.market, market), or_(eq(oid, 0), eq(z.id, oid)))
def out_event(c):
    a, b = orders(c.old(0)), orders(c.new(0)); i = c.arg(3); hit = matches(a[i], c.arg(1), c.arg(5))
    yield 'the slot is freed if it still holds the order', implies(hit, order_free(b[i]))
    yield 'a slot that holds another order or none is left alone', implies(not_(hit), a.same(b, i))
    yield from orders_kept(c, i)
    yield from maker_lots(c, c.arg(1), eq(c.arg(2).d, 0), neg(c.arg(4)))
    yield from rest(c)
def fill_req(i, k):
    def f(c):
        l = c.arg(k)
        yield 'the market index is not the one that marks free slots', lt(c.arg(1), FREE16)
        yield 'fills have a price and a quantity', and_(le(0, l.price), le(0, l.quantity))
        yield 'the side is valid', between(0, l.taker_side, 1)
        yield from perp.pm_ok(c, i)
        yield 'average entry prices are not negative', all_(0, perps(c.arg(0)).n, lambda j: le(F(0), perps(c.arg(0))[j].avg_entry_price_per_base_lot))
        yield from uniq('PerpPosition')(c)
    return f
TRADED = ('base_position_lots', 'quote_position_native', 'avg_entry_price_per_base_lot', 'quote_running_native', 'realized_pnl_for_position_native', 'recurring_settle_pnl_allowance', 'oneshot_settle_pnl_allowance',
          'long_settled_funding', 'short_settled_funding', 'cumulative_long_funding', 'cumulative_short_funding', 'deprecated_realized_trade_pnl_native', 'settle_pnl_limit_window', 'settle_pnl_limit_settled_in_current_window_native')
def traded(c, bid, l, fees, extra):
    """a fill on the position: funding is settled, base and quote move, fees are paid, realized pnl is returned"""
    m0, m1 = c.old(2), c.new(2); a, b = perps(c.old(0)), perps(c.new(0)); x = c.arg(1)
    db = ite(bid, l.quantity, neg(l.quantity)); q = neg(db) * l.price * m0.quote_lot_size * ONE
    mine = lambda f: all_(0, a.n, lambda j: implies(eq(a.id(j), x), f(a[j], b[j])))
    yield 'there is a position for the market', a.has(x)
    yield 'it is the market of the index', implies(True, eq(m0.perp_market_index, x))
    yield 'the base position moves by the filled lots', mine(lambda o, n: eq(n.base_position_lots, o.base_position_lots + db))
    val = l.quantity * l.price * m0.quote_lot_size * ONE
    yield 'the quote position pays funding, price and fees (buying)', mine(lambda o, n: implies(bid, eq(n.quote_position_native, o.quote_position_native - perp.funding_due(o, m0) - val - fees)))
    yield 'the quote position pays funding and fees, gets the price (selling)', mine(lambda o, n: implies(not_(bid), eq(n.quote_position_native, o.quote_position_native - perp.funding_due(o, m0) + val - fees)))
    yield 'funding is settled', mine(lambda o, n: and_(eq(n.long_settled_funding, m0.long_funding), eq(n.short_settled_funding, m0.short_funding)))
    yield 'open interest counts the absolute position', mine(lambda o, n: eq(m1.open_interest - m0.open_interest, tabs(n.base_position_lots) - tabs(o.base_position_lots)))
    yield 'the realized pnl of a reduced or closed position is returned', mine(lambda o, n: implies(and_(ne(db, 0), or_(eq(n.base_position_lots, 0), and_(lt(0, n.base_position_lots), lt(db, 0)), and_(lt(n.base_position_lots, 0), lt(0, db)))), eq(c.okval(), q + db * t.floor_(o.avg_entry_price_per_base_lot * ONE))))
    yield 'adding to a position realizes nothing', mine(lambda o, n: implies(or_(eq(db, 0), and_(lt(0, o.base_position_lots), lt(0, db)), and_(lt(o.base_position_lots, 0), lt(db, 0))), eq(c.okval(), 0)))
    yield from extra(mine, tabs(q))
    yield 'the other positions are unchanged', all_(0, a.n, lambda j: or_(eq(a.id(j), x), a.same(b, j)))
    yield frame(c, 2, ('open_interest',))
def maker(c):
    l = c.arg(3); bid = eq(l.taker_side, 1); i = l.maker_slot; m0 = c.old(2); g = c.arg(4); f0, f1 = c.old(0).fixed, c.new(0).fixed
    a, b = orders(c.old(0)), orders(c.new(0))
    absq = tabs(ite(bid, neg(l.price) * l.quantity, l.price * l.quantity) * m0.quote_lot_size * ONE); fees = fxmul(absq, t.floor_(l.maker_fee * ONE))
    def extra(mine, aq):
        yield 'the maker volume grows', mine(lambda o, n: eq(n.maker_volume, o.maker_volume + tdiv(aq, ONE)))
        yield 'the filled lots are no longer on the order side', mine(lambda o, n: and_(*[eq(x, y) for x, y in zip((n.bids_base_lots, n.asks_base_lots), lots_on(bid, o, neg(l.quantity)))]))
        x, y = perps(c.old(0)), perps(c.new(0))
        yield 'the rest of the position is unchanged', all_(0, x.n, lambda j: implies(eq(x.id(j), c.arg(1)), but(x, y, j, TRADED + ('maker_volume', 'bids_base_lots', 'asks_base_lots'))))
    yield from traded(c, bid, l, fees, extra)
    hit = matches(a[i], c.arg(1), l.maker_order_id); out = eq(l.maker_out, 1)
    yield 'the order slot exists', lt(i, a.n)
    yield 'an order that is used up frees its slot', implies(and_(hit, out), order_free(b[i]))
    yield 'otherwise what was filled is taken off the order', implies(and_(hit, not_(out)), and_(eq(b[i].quantity, tmax(a[i].quantity - l.quantity, 0)), but(a, b, i, ('quantity',))))
    yield 'a slot that holds another order or none is left alone', implies(not_(hit), a.same(b, i))
    yield from orders_kept(c, i)
    ts, iv = now(c), g.buyback_fees_expiry_interval; e = f0.buyback_fees_expiry_timestamp; paid = lt(0, fees)
    off = or_(eq(iv, 0), lt(ts, e)); cur = f0.buyback_fees_accrued_current
    yield 'paid fees can be bought back', implies(paid, and_(eq(f1.buyback_fees_accrued_current, tmin(ite(off, cur, 0) + ffloor(fees), U64)), eq(f1.buyback_fees_accrued_previous, ite(off, f0.buyback_fees_accrued_previous, ite(lt(ts, e + iv), cur, 0)))))
    yield 'without paid fees nothing changes there', implies(not_(paid), fixed_same(c, 0, ()))
    yield from rest(c, ('buyback_fees_accrued_current', 'buyback_fees_accrued_previous', 'buyback_fees_expiry_timestamp'))
def taker(c):
    l = c.arg(3); bid = eq(l.taker_side, 0)
    def extra(mine, aq):
        db = ite(bid, l.quantity, neg(l.quantity))
        yield 'the taker volume grows', mine(lambda o, n: eq(n.taker_volume, o.taker_volume + tdiv(aq, ONE)))
        yield 'the fill is no longer unprocessed', mine(lambda o, n: and_(eq(n.taker_base_lots, o.taker_base_lots - db), eq(n.taker_quote_lots, o.taker_quote_lots + db * l.price)))
        x, y = perps(c.old(0)), perps(c.new(0))
        yield 'the rest of the position is unchanged', all_(0, x.n, lambda j: implies(eq(x.id(j), c.arg(1)), but(x, y, j, TRADED + ('taker_volume', 'taker_base_lots', 'taker_quote_lots'))))
    yield from traded(c, bid, l, 0, extra)
    yield 'order slots and the rest of the account are unchanged', kept(c, skipkinds=('PerpPosition',))
def next_slot(c):
    a = orders(c.old(0)); i = c.okval()
    yield 'a free slot is found exactly if there is one', iff(c.is_ok(), some_(0, a.n, lambda j: eq(a[j].market, FREE16)))
    yield 'the slot found is free', implies(c.is_ok(), and_(between(0, i, a.n - 1), eq(a[i].market, FREE16)))
def find_order(f):
    def e(c):
        a = orders(c.old(0)); R = c.ret; i = R.val()._0
        hit = lambda j: and_(eq(a[j].market, c.arg(1)), eq(getattr(a[j], f), c.arg(2)))
        yield 'an order is found exactly if there is one', iff(R.some, some_(0, a.n, hit))
        yield 'the order found is the one asked for', implies(R.some, and_(between(0, i, a.n - 1), hit(i)))
    return e
def a04():
    SETTLE = FnSpec(perp.PP + 'settle_funding', ensures=perp.settle, modifies=[(0, (f,)) for f in ('quote_position_native', 'oneshot_settle_pnl_allowance', 'realized_pnl_for_position_native', 'long_settled_funding', 'short_settled_funding', 'cumulative_long_funding', 'cumulative_short_funding')])
    TRADE = FnSpec(perp.PP + 'record_trade', requires=perp.trade_req, ensures=perp.trade, modifies=[(0, (f,)) for f in ('base_position_lots', 'quote_position_native', 'avg_entry_price_per_base_lot', 'quote_running_native', 'realized_pnl_for_position_native', 'recurring_settle_pnl_allowance', 'deprecated_realized_trade_pnl_native')] + [(1, ('open_interest',))])
    FEE = FnSpec(perp.PP + 'record_trading_fee', ensures=perp.fee, modifies=[(0, (f,)) for f in ('quote_position_native', 'oneshot_settle_pnl_allowance', 'realized_pnl_for_position_native')])
    dep = {x.name: x for x in (SETTLE, TRADE, FEE)}
    mk = lambda c: (yield 'the market index is not the one that marks free slots', lt(c.arg(1), FREE16))
    def slot(get):
        def f(c): yield 'the slot exists', lt(get(c), orders(c.arg(0)).n)
        return f
    side = lambda c: (yield 'the tree is valid', between(0, orders(c.arg(0))[c.arg(1)].side_and_tree, 3))
    return Prop('A04', [M_('add_perp_order', both(mk, slot(lambda c: c.arg(4).owner_slot), uniq('PerpPosition')), add_order), M_('remove_perp_order', both(side, uniq('PerpPosition')), remove_order),
        M_('execute_perp_out_event', both(mk, slot(lambda c: c.arg(3)), uniq('PerpPosition')), out_event),
        M_('execute_perp_maker', both(fill_req(2, 3), slot(lambda c: c.arg(3).maker_slot)), maker, contracts=dep), M_('execute_perp_taker', fill_req(2, 3), taker, contracts=dep),
        M_('perp_next_order_slot', None, next_slot, on_err=True), M_('perp_find_order_with_order_id', mk, find_order('id')), M_('perp_find_order_with_client_order_id', mk, find_order('client_id'))])
# ---------------------------------------------------------------- A01: layout of the dynamic part
MAC = MA + 'MangoAccount::'; HD = MA + 'MangoAccountDynamicHeader::'
def ssize(c, k):
    from mirv.dyna import tids
    return c.ex.T[tids(c.ex.u)[KINDS[k]]]['size']
def section(c, counts, k):
    """offset of the padding and length in front of section k: behind the slots of the section before it"""
    off = 8
    for j in range(k): off = off + 8 + ssize(c, j) * counts[j]
    return off
def a01():
    def vec(k):
        def e(c):
            off = section(c, [c.arg(j) for j in range(k)], k)
            yield 'the section starts where the one before it ends (after 4 bytes of padding)', eq(c.ret, off + 4)
        return e
    def tail(extra, first=0):
        def e(c):
            ns = [c.arg(j) for j in range(5)]; fx = next(x['size'] for x in c.ex.T if x and x.get('name') == 'mango_v4::state::mango_account::MangoAccountFixed')
            yield 'all sections fit', eq(c.ret, section(c, ns, 5) + extra + (fx if first else 0))
        return e
    def hcounts(c): return [getattr(c.arg(0), n) for n in COUNTS]
    def off(k):
        def e(c):
            base = section(c, hcounts(c), k) + 8; i = c.arg(1)
            yield 'slots follow the length of their section without gaps', eq(c.ret, base + i * ssize(c, k))
            end = section(c, hcounts(c), k + 1)
            yield 'an existing slot lies in its section', implies(lt(i, hcounts(c)[k]), and_(le(base, c.ret), le(c.ret + ssize(c, k), end)))
            yield 'slots are aligned', eq(fmod(c.ret, 8), 0)
        return e
    def setup(ex, st, args, M, key): ex.raw_offsets = True
    def size(c):
        ns = hcounts(c); fx = next(x['size'] for x in c.ex.T if x and x.get('name') == 'mango_v4::state::mango_account::MangoAccountFixed')
        yield 'discriminator, fixed part, all sections and the reserved bytes', eq(c.ret, 8 + fx + section(c, ns, 5) + 64)
    def exp(v): return 2 * v.token_count + v.serum3_count + 2 * v.perp_count
    def expd(c): yield 'two accounts per token and perp position, one per spot market', eq(c.ret, exp(c.arg(0)))
    def resize(c):
        n, p = c.arg(0), c.arg(1)
        yield 'refused exactly if a limit is exceeded by something that grows', iff(c.is_ok(), and_(or_(le(exp(n), exp(p)), le(exp(n), 28)),
            or_(le(n.perp_oo_count, p.perp_oo_count), le(n.perp_oo_count, 64)), or_(le(n.token_conditional_swap_count, p.token_conditional_swap_count), le(n.token_conditional_swap_count, 64))))
    V = ['dynamic_token_vec_offset', 'dynamic_serum3_vec_offset', 'dynamic_perp_vec_offset', 'dynamic_perp_oo_vec_offset', 'dynamic_token_conditional_swap_vec_offset']
    from mirv.dyna import OFFS
    return Prop('A01', [Unit(MAC + n, None, vec(k)) for k, n in enumerate(V)] + [Unit(MAC + 'dynamic_reserved_bytes_offset', None, tail(0)), Unit(MAC + 'dynamic_size', None, tail(64)), Unit(MAC + 'space', None, tail(8 + 64, 1))]
        + [Unit(HD + n, None, off(k), setup=setup) for k, n in enumerate(OFFS)] + [Unit(HD + 'account_size', None, size), Unit(HD + 'expected_health_accounts', None, expd), Unit(HD + 'check_resize_from', None, resize, on_err=True)])
PROPS = {'A01': a01, 'A02': a02, 'A03': a03, 'A04': a04, 'D01': d01}
