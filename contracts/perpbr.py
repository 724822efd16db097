"""Contract of the liquidation of negative perp pnl and of perp bankruptcy (instructions/perp_liq_negative_pnl_or_bankruptcy.rs)."""
from .lib import *
from . import bank, perp, account as A, health as Hh
from .liq import pick, ensure, wkey, fx, sample_bank, sample_tokens, okerr
from .settle import IX, PP, PM, F, rec, who, px, q, spec, sample_perps, FUND, WIN, APL, RECS, UPNL, DEP, WD, U1, U2, n_apl, n_set, n_bank
from .token import sym, both_ways
from .match import claim
from .bankrupt import key_of
from mirv.exec import CallCtx
from mirv.intr import mkfx
import re
NS = {8: 'liqor', 10: 'liqee'}
LQ = spec(U1['record_liquidation_quote_change'], ('quote_position_native', 'oneshot_settle_pnl_allowance'))
SOC = spec(U2['socialize_loss'], ('long_funding', 'short_funding'))
GH = {k: 0 for k in ('lim:liqee', 'limx:liqee', 'set:liqee', 'took', 'adj', 'adjn', 'soc', 'socn', 'share', 'w:settle:liqee', 'w:settle:liqor', 'w:ins:liqor', 'w:ins:liqee', 'wn', 'maxn')}
GH.update({'bad': (), 'effect': False, 'acct_havoc': ()})
class Acc:
    """a context whose argument 0 is one of the two accounts"""
    def __init__(self, c, i): self.c = c; self.i = i; self.ex = c.ex; self.st = c.st; self.old_st = c.old_st
    def old(self, _=0): return self.c.old(self.i)
    def new(self, _=0): return self.c.new(self.i)
    arg = old
def place(c, i, kind, x):
    a, b = A.Slots(c.old(i), kind), A.Slots(c.new(i), kind)
    if conc(c): return a, b, next((j for S in (a, b) for j in range(a.n) if S.id(j) == x), 0)
    return a, b, c.st.ghost.get(wkey(c.old(i), x))
def bank_of(ex, v):
    """which bank a reference is to: [(condition, name)]"""
    if isinstance(v, Ref): return [(True, ex.bk[v.cell])] if v.cell in ex.bk else None
    if not isinstance(v, Choice): return None
    out = []; no = True
    for cond, r in v.alts:
        b = bank_of(ex, r)
        if b is None: return None
        out += [(and_(no, cond, k), n) for k, n in b]; no = and_(no, not_(cond))
    return out
def balances(ex, st): return View(ex, st, ex.u.sym(ex.baltys, 'balances'), ex.baltys)
def tinfo(ex): return ex.u.leaf({'k': 'int', 'bits': 64, 'signed': False}, 'tinfo', ())
def unit_(ex, info, st): return okerr(ex, info, st, None if getattr(ex, 'concrete', False) else st.copy(), lambda ty: ex.fresh_val(ty, 'unit'))
class V:
    """what the instruction is to do, from its arguments and the limit and maximum it was given"""
    def __init__(self, c, g):
        ex = c.ex; self.M, self.B, self.max = c.old(1), c.old(3), c.old(15); M, B = self.M, self.B; self.x, self.y = M.perp_market_index, M.settle_token_index; pr, sp, ip = c.old(2), c.old(4), c.old(6)
        S = {n: place(c, i, 'PerpPosition', self.x) for i, n in NS.items()}; self.S = S
        self.ok = all(s[2] is not None for s in S.values())
        if not self.ok: return
        self.p = {n: (s[0][s[2]], s[1][s[2]]) for n, s in S.items()}; self.fund = {n: perp.funding_due(p[0], M) for n, p in self.p.items()}
        e = self.p['liqee'][0]; self.pnl = e.quote_position_native - self.fund['liqee'] + e.base_position_lots * M.base_lot_size * pr
        # each amount by the ones before it, as they were moved; the claims are that each is what it is to be
        r = c.okval(); self.s, self.pay = r._0, r._1; self.il = neg(g['took']) - self.s; self.soc = neg(g['soc'])
        self.m = tmax(tmin(px(ex, 'max_settle'), neg(g['lim:liqee'])), 0); self.s_ = tmax(tmin(self.m, self.max * ONE), 0)
        self.left = self.pnl + self.s; self.br = and_(eq(self.s, self.m), lt(self.left, 0))
        self.D = tmax(tmin(neg(self.left), px(ex, 'for_health')), 0); Q = tmax(tmin(self.D, self.max * ONE - self.s), 0)
        self.vault = ite(eq(M.group_insurance_fund, 1), c.old(7)._0.amount, 0); rate = fxmul(sp, ONE + M.base_liquidation_fee)
        self.pay_ = ite(self.br, tmin(fceil(fxdiv(fxmul(Q, rate), ip)), self.vault), 0)
        self.il_ = ite(self.br, tmin(fxdiv(fxmul(self.pay * ONE, ip), rate), Q), 0)
        self.soc_ = ite(and_(self.br, eq(self.pay, self.vault), lt(0, self.D - self.il)), self.D - self.il, 0)
# ---- health
def max_settle(ex, st, args, info):
    c = CallCtx(ex, info.key, st, st, args, None)
    claim(ex, st, 'the liqee pays out of its own assets in the settle token', and_(eq(c.arg(1), ex.top.old(1).settle_token_index), eq(st.ghost['adjn'], 0)))
    rs = sym('max_settle')(ex, st, args, info); rs[0][0].ghost['maxn'] = 1
    return rs
def effective(ex, st, args, info):
    c = CallCtx(ex, info.key, st, st, args, None); claim(ex, st, 'balances for liquidation end, before anything moves', and_(eq(c.arg(1).d, 2), eq(st.ghost['adjn'], 0)))
    return [(st, balances(ex, st)._v)]
def info_index(ex, st, args, info):
    claim(ex, st, 'the balance of the settle token', eq(args[1], ex.top.old(1).settle_token_index))
    return okerr(ex, info, st, None if getattr(ex, 'concrete', False) else st.copy(), lambda ty: tinfo(ex))
def adjust(ex, st, args, info):
    c = CallCtx(ex, info.key, st, st, args, None); g = st.ghost
    claim(ex, st, 'the cache follows the settle token', eq(c.arg(1).token_index, ex.top.old(3).token_index))
    g['adj'] = g['adj'] + c.arg(2); g['adjn'] = g['adjn'] + 1
    return unit_(ex, info, st)
def for_health(ex, st, args, info):
    c = CallCtx(ex, info.key, st, st, args, None); t_ = ex.top; B, sp = t_.old(3), t_.old(4)
    claim(ex, st, 'how much pnl restores liquidation end health, by the weights of the settle token', and_(eq(c.arg(0), t_.old(13)), eq(c.arg(1), balances(ex, st)[tinfo(ex)].spot_and_perp), eq(c.arg(2), fxmul(sp, B.init_asset_weight)), eq(c.arg(3), fxmul(sp, B.init_liab_weight))))
    return both_ways(lambda ex, st, args, info, ty: mkfx(ex, ty, px(ex, 'for_health')))(ex, st, args, info)
# ---- what moves
def b_note(sign):
    def f(c, g):
        b, w = bank_of(c.ex, c.args[0]), who(c.ex, c.args[1])
        if b is None or w is None: claim(c.ex, c.st, 'nothing else moves', False); return
        x = c.arg(2) if sign > 0 else neg(c.arg(2)); g['wn'] = g['wn'] + 1
        for k, n in b: g['w:%s:%s' % (n, w)] = g['w:%s:%s' % (n, w)] + ite(k, x, 0)
    return f
def n_took(c, g):
    claim(c.ex, c.st, 'the liqor takes over pnl', who(c.ex, c.args[0]) == 'liqor'); g['took'] = g['took'] + c.arg(1)
def n_settle(c, g):
    claim(c.ex, c.st, 'the liqee settles', who(c.ex, c.args[0]) == 'liqee'); n_set(c, g)
def n_soc(c, g):
    g['soc'] = g['soc'] + c.arg(1); g['socn'] = g['socn'] + 1
    if c.is_ok() is not False: g['share'] = g['share'] + c.okval()
# ---- the claims
def req(c):
    M, B, o = c.arg(1), c.arg(3), c.arg(5)
    yield 'market', and_(lt(0, M.base_lot_size), lt(0, M.quote_lot_size), le(F(0), M.stable_price_model.stable_price), lt(M.perp_market_index, A.FREE16), lt(M.settle_token_index, A.FREE16), lt(0, M.settle_pnl_limit_window_size_ts), le(0, M.base_liquidation_fee), le(0, M.open_interest))
    yield 'prices', and_(le(0, c.arg(2)), lt(0, c.arg(4)), lt(0, c.arg(6)))
    for b in (B, insb(c, c.st)): yield 'bank', and_(between(ONE, b.deposit_index, 1 << 90), between(ONE, b.borrow_index, 1 << 90), le(0, b.loan_origination_fee_rate), lt(b.token_index, A.FREE16))
    yield 'the bank of the settle token', eq(B.token_index, M.settle_token_index)
    for i in NS:
        P = A.perps(c.arg(i)); yield 'at most one position per market and token', and_(P.unique(), A.tokens(c.arg(i)).unique(), all_(0, P.n, lambda j: le(F(0), P[j].avg_entry_price_per_base_lot)))
    yield 'the settle token has a health entry', between(0, tinfo(c.ex), balances(c.ex, c.st).len() - 1)
def insb(c, st):
    v, ty = c.ex.extra['ins']; w = View(c.ex, st, v, ty); return w._wrap(v, ty)
def l03(c):
    ex = c.ex; g = c.st.ghost; v = V(c, g); M, M1, B, B1 = c.old(1), c.new(1), c.old(3), c.new(3); S, p = v.S, getattr(v, 'p', None); I, I1 = insb(c, c.old_st), insb(c, c.st); own = c.old(5).some
    for b in g['bad']: yield b, False
    if not v.ok: yield 'both have a position in the market', False; return
    yield 'both have a position in the market', and_(*[eq(S[n][0].id(S[n][2]), v.x) for n in S])
    yield 'only pnl that is negative after funding', lt(v.pnl, 0)
    yield 'the settle limit is asked for it', eq(g['limx:liqee'], v.pnl)
    W = M.settle_pnl_limit_window_size_ts; e1 = p['liqee'][1]; k = e1.settle_pnl_limit_window
    yield 'of the current window', and_(le(k * W, c.old(14)), lt(c.old(14), k * W + W))
    yield 'and what the liqee can pay', eq(g['maxn'], 1)
    yield 'as much is settled as the limit, the means of the liqee and the maximum allow', and_(eq(v.s, v.s_), eq(g['w:settle:liqee'], neg(v.s)), eq(g['adj'], neg(v.s)), eq(g['adjn'], ite(lt(0, v.s), 1, 0)))
    yield 'never more than the loss', and_(le(0, v.s), le(v.s, neg(v.pnl)))
    yield 'only then bankruptcy: the insurance fund pays for what the liqor takes over, up to all it has', eq(v.pay, v.pay_)
    yield 'the rest is socialized once the insurance fund is used up', and_(eq(v.soc, v.soc_), eq(g['socn'], ite(lt(0, v.soc), 1, 0)))
    yield 'the liqor takes over what was settled and what it is paid for', eq(v.il, v.il_)
    yield 'the liqee loses that and what is socialized', eq(g['set:liqee'], neg(v.s + v.il + v.soc))
    yield 'bankruptcy restores health at most to zero and pnl at most to zero', implies(v.br, le(v.il + v.soc, v.D))
    for n, d in (('liqee', v.s + v.il + v.soc), ('liqor', neg(v.s + v.il))):
        a, b = p[n]; yield 'the perp position pays funding and what moves: ' + n, and_(eq(b.quote_position_native, a.quote_position_native - v.fund[n] + d), eq(b.base_position_lots, a.base_position_lots))
    yield 'tokens: the liqor gets what it settled and the insurance', and_(eq(g['w:settle:liqor'], v.s + ite(own, 0, v.pay * ONE)), eq(g['w:ins:liqor'], ite(own, v.pay * ONE, 0)), eq(g['w:ins:liqee'], 0), eq(g['wn'], ite(lt(0, v.s), 2, 0) + ite(lt(0, v.pay), 1, 0)))
    yield 'the insurance is in the token of the insurance vault', or_(eq(v.pay, 0), eq(ite(own, key_of(I.mint), key_of(B.mint)), key_of(c.old(7)._0.mint)))
    yield 'nothing else in the banks changes', and_(*[same_field(x, y, f) for x, y in ((B, B1), (I, I1)) for f in fields_of(ex, B._t) if f not in bank.LEDGER + bank.DEPMODS])
    dl, ds = M1.long_funding - M.long_funding, M1.short_funding - M.short_funding; oi = M.open_interest
    sh = g['share']; yield 'longs and shorts bear the loss by open interest', and_(eq(dl, neg(sh)), eq(ds, sh), implies(lt(0, oi), and_(le(g['soc'], sh * oi), le(sh * oi, g['soc'] + oi))), implies(eq(oi, 0), eq(sh, 0)))
    yield 'nothing else in the market changes', and_(*[same_field(M, M1, f) for f in fields_of(ex, M._t) if f not in ('long_funding', 'short_funding')])
    si = tdiv(v.s, ONE)
    for i, n, d in ((8, 'liqor', si), (10, 'liqee', neg(si))):
        f0, f1 = c.old(i).fixed, c.new(i).fixed; a, b = p[n]
        yield 'transfers are counted: ' + n, and_(eq(b.perp_spot_transfers, a.perp_spot_transfers + d), eq(f1.perp_spot_transfers, f0.perp_spot_transfers + d))
        toks = [place(c, i, 'TokenPosition', x)[2] for x in (v.y, B.token_index, ite(own, I.token_index, B.token_index))]
        yield 'nothing else in the account changes: ' + n, A.kept(c, [('PerpPosition', S[n][2])] + [('TokenPosition', j) for j in toks if j is not None], i, ('perp_spot_transfers',))
def setup(ex, st, args, M, key):
    for b in M.bodies.values():
        for r, g in OVR:
            if re.search(r, b['name']): ex.overrides[b['name']] = g
    c = CallCtx(ex, key, st, st, args, None); ex.top = c; ex.cells = {field(c.arg(i), 'dynamic').cell: n for i, n in NS.items()}
    o = c.arg(5); ft = ex.T[o._t]['variants'][1]['fields'][0][1]; i = ex.u.get(args[5], (('d', 1), ('f', 0, ft)))
    ex.extra = {'ins': (i, ft)}; ex.bk = {args[3].cell: 'settle', i.cell: 'ins'}
    ex.baltys = next(i for i, x in enumerate(ex.T) if x.get('disp') == 'std::vec::Vec<health::cache::TokenBalance>')
OVR = [(r'HealthCache::perp_max_settle$', max_settle), (r'HealthCache::effective_token_balances$', effective), (r'HealthCache::token_info_index$', info_index), (r'HealthCache::adjust_token_balance$', adjust), (r'::spot_amount_given_for_health_zero$', for_health),
       (r'PerpPosition::settle_funding$', rec(lambda c, g: None, FUND)), (r'PerpPosition::unsettled_pnl$', rec(lambda c, g: None, UPNL)), (r'PerpPosition::update_settle_limit$', rec(lambda c, g: None, WIN)), (r'PerpPosition::apply_pnl_settle_limit$', rec(n_apl, APL)),
       (r'PerpPosition::record_settle$', rec(n_settle, RECS)), (r'PerpPosition::record_liquidation_quote_change$', rec(n_took, LQ)), (r'PerpMarket::socialize_loss$', rec(n_soc, SOC)), (r'bank::Bank::deposit$', rec(b_note(1), DEP)), (r'bank::Bank::withdraw_without_fee$', rec(b_note(-1), WD))]
def specs():
    s = {}; s.update(A.spec_of('ensure_token_position', apply=ensure)); s.update(A.spec_of('token_position_mut', apply=pick('TokenPosition', 1))); s.update(A.spec_of('token_position', apply=pick('TokenPosition', 0)))
    s.update(A.spec_of('perp_position', apply=pick('PerpPosition', 0))); s.update(A.spec_of('perp_position_mut', apply=pick('PerpPosition', 0)))
    return s
# ---- how much of a token restores health
def taken(h, b, aw, lw):
    first = and_(lt(0, aw), le(fxdiv(h, aw), b)); h2 = ite(lt(0, b), h - fxmul(b, aw), h)
    return ite(le(h, 0), 0, ite(and_(lt(0, b), first), fxdiv(h, aw), tmax(b, 0) + ite(lt(0, h2), fxdiv(h2, lw), 0)))
def tk(c): yield 'deposits count at the asset weight, what is borrowed beyond at the liability weight', eq(c.okval(), taken(c.arg(0), c.arg(1), c.arg(2), c.arg(3)))
def gv(c): yield 'what is owed counts at the liability weight, what is deposited beyond at the asset weight', eq(c.okval(), taken(neg(c.arg(0)), neg(c.arg(1)), c.arg(3), c.arg(2)))
# ---- inputs to start from
def l03_sample(rng):
    m = {}; pr, sp, ip = fx(rng, .5, 3), fx(rng, .5, 2), fx(rng, .5, 2); y = rng.choice([0, 1, 2]); z = 0
    base = rng.choice([0, 0, rng.randint(-5, 5)])
    for n in NS.values(): sample_perps(m, rng, n, 3, base if n == 'liqee' else rng.randint(-5, 5), fx(rng, -100, -5) if n == 'liqee' else fx(rng, -20, 20))
    sample_tokens(m, rng, 'liqee', {y: fx(rng, -20, 60)}); sample_tokens(m, rng, 'liqor', {y: fx(rng, 0, 50), **({z: fx(rng, 0, 5)} if z != y and rng.random() < .6 else {})}); m['liqor*.header*.token_count'] += 1
    sample_bank(m, rng, 'settle_bank', y, sp); sample_bank(m, rng, 'insurance_bank_opt.Some.0', z, ip); m['insurance_bank_opt.d'] = int(y != z or rng.random() < .3)
    b = 'perp_market*.'
    m.update({b + 'perp_market_index': 3, b + 'base_lot_size': rng.choice([1, 10]), b + 'quote_lot_size': 1, b + 'stable_price_model.stable_price': F(pr, ONE), b + 'settle_pnl_limit_window_size_ts': rng.choice([50, 1000]), b + 'settle_pnl_limit_factor': F(rng.choice([-1, 1, 2]), 5),
              b + 'settle_token_index': y, b + 'open_interest': rng.choice([0, 7, 1000]), b + 'group_insurance_fund': int(rng.random() < .8), b + 'base_liquidation_fee.bits': fx(rng, 0, .2), b + 'long_funding.bits': fx(rng, -2, 2), b + 'short_funding.bits': fx(rng, -2, 2),
              'perp_oracle_price.bits': pr, 'settle_token_oracle_price.bits': sp, 'insurance_token_oracle_price.bits': ip, 'max_settle.bits': rng.choice([0, fx(rng, -5, 30), fx(rng, 0, 100)]), 'for_health.bits': rng.choice([fx(rng, 0, 150), 1000 * ONE]),
              'liqee_liq_end_health.bits': -fx(rng, 1, 50), 'now_ts': rng.randint(0, 20000), 'max_liab_transfer': rng.choice([0, rng.randint(0, 60), 1000]), 'insurance_vault*.0.amount': rng.choice([0, rng.randint(1, 40), 10000]),
              'tinfo': 1, 'balances.len': 2, ('balances.elem[].spot_and_perp.bits', 1): fx(rng, -60, 10)})
    if rng.random() < .35:        # a fund that is just, or just not, used up
        k = rng.randint(1, 12); m.update({b + 'base_liquidation_fee.bits': 0, 'settle_token_oracle_price.bits': ip, 'max_settle.bits': 0, 'for_health.bits': 1000 * ONE, 'max_liab_transfer': k, b + 'group_insurance_fund': 1, 'insurance_vault*.0.amount': max(0, k + rng.choice([-1, 0, 1, 1, 2]))})
    return m
def L03():
    return Prop('L03', [Unit(IX + 'perp_liq_negative_pnl_or_bankruptcy::liquidation_action', req, l03, name='perp negative pnl liquidation_action', contracts=specs(), ghost=GH, setup=setup, sample=l03_sample, feas_ms=100),
        Unit(Hh.HC + 'spot_amount_taken_for_health_zero', None, tk, name='spot_amount_taken_for_health_zero'), Unit(Hh.HC + 'spot_amount_given_for_health_zero', None, gv, name='spot_amount_given_for_health_zero')])
PROPS = {'L03': L03}
