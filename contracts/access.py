"""What must be true of the account list, and of the accounts' contents, whenever an instruction succeeds.

The table gives for each instruction (name of its handler in lib.rs):
  gate  number of the group's gate bit that must be clear ('a|b': one of them)
  live  MangoAccounts that must not be frozen
  own   account/signer: the signer is the account's owner;   act  account/signer: owner, delegate or a temporary delegate
  admin the admin signer must be the group's admin ('fast': or the fast listing admin, 'sec': or the security admin)
  test  the group must be a testing group
  rel   relations: 'a.f' = field f of account a is the key of account f; 'a.f=b.g' = equal fields ('key' = address);
        '!a=b' = different addresses;  'a.f=3' = number
"""
from .lib import *
from mirv.entry import EntryUnit
from mirv.acct import ata
from mirv.intr import pk_int
from mirv.term import ge

def bit(g, k): return t.fmod(t.fdiv(g.ix_gate, 1 << k), 2)
def raw(v): return v._v if hasattr(v, '_v') else v

PM = 'account.group perp_market.group perp_market.bids perp_market.asks'
SM = 'account.group serum_market.group serum_market.serum_program serum_market.serum_market_external'
LIQ = 'liqor.group liqee.group'
PO = dict(gate=22, live='account', act='account/owner', rel=PM + ' perp_market.event_queue perp_market.oracle')
BNK = 'account.group bank.group bank.vault bank.oracle'
SB = 'perp_market.group perp_market.oracle settle_bank.group settle_bank.token_index=perp_market.settle_token_index settle_vault.key=settle_bank.vault settle_oracle.key=settle_bank.oracle'
NEG = dict(gate=21, live='liqor liqee', act='liqor/liqor_owner', rel='group.insurance_vault ' + LIQ + ' ' + SB)
TLB = dict(gate=42, live='liqor liqee', act='liqor/liqor_owner', rel='group.insurance_vault liab_mint_info.group ' + LIQ)
TLT = dict(gate=43, live='liqor liqee', act='liqor/liqor_owner', rel=LIQ)
TCC = dict(live='account', act='account/authority', rel='account.group buy_bank.group sell_bank.group')
TCT = dict(gate=53, live='liqor liqee', act='liqor/liqor_authority', rel=LIQ)
SPO = dict(live='account', act='account/owner', rel=SM + ' payer_bank.group payer_oracle.key=payer_bank.oracle')
TUI = dict(gate=46, rel='mint_info.oracle mint_info.group')
EXP = dict(gate=3, live='account', own='account/owner', rel='account.group')
FL = dict(live='account', act='account/owner')
IX = {
 'account_create': dict(gate=1, sign='owner payer'),
 'account_create_v2': dict(gate=1, sign='owner payer'),
 'account_close': dict(gate=0, live='account', own='account/owner', rel='account.group'),
 'account_edit': dict(gate=2, live='account', own='account/owner', rel='account.group'),
 'account_expand': EXP, 'account_expand_v2': EXP,
 'account_size_migration': dict(gate=67, rel='account.group'),
 'account_toggle_freeze': dict(gate=4, admin='', rel='account.group'),
 'account_buyback_fees_with_mngo': dict(gate=48, live='account dao_account', act='account/owner',
    rel='account.group dao_account.group dao_account.key=group.buyback_fees_swap_mango_account mngo_bank.group mngo_bank.token_index=group.mngo_token_index '
        '!mngo_bank.token_index=0 mngo_oracle.key=mngo_bank.oracle fees_bank.group fees_bank.token_index=0 fees_oracle.key=fees_bank.oracle group.buyback_fees=1'),
 'admin_perp_withdraw_fees': dict(gate=66, admin='', rel='perp_market.group bank.group bank.vault bank.token_index=perp_market.settle_token_index'),
 'admin_token_withdraw_fees': dict(gate=65, admin='', rel='bank.group bank.vault'),
 'alt_extend': dict(gate=5, admin=''), 'alt_set': dict(gate=6, admin=''),
 'flash_loan_begin': FL, 'flash_loan_swap_begin': FL, 'flash_loan_end_v2': FL,
 'group_change_insurance_fund': dict(gate=76, admin='', rel='group.insurance_vault'),
 'group_close': dict(gate=8, admin='', test=1, rel='group.insurance_vault'),
 'group_create': dict(sign='creator payer'),
 'group_edit': dict(admin=''),
 'group_withdraw_insurance_fund': dict(gate=51, admin='', rel='group.insurance_vault'),
 'health_check': dict(gate=74, live='account', rel='account.group'),
 'health_region_begin': dict(gate=10, live='account', rel='account.group'),
 'health_region_end': dict(live='account'),
 'ix_gate_set': dict(admin='sec'),
 'perp_cancel_all_orders': dict(gate=11, act='account/owner', rel=PM),
 'perp_cancel_all_orders_by_side': dict(gate=12, live='account', act='account/owner', rel=PM),
 'perp_cancel_order': dict(gate=13, live='account', act='account/owner', rel=PM),
 'perp_cancel_order_by_client_order_id': dict(gate=14, act='account/owner', rel=PM),
 'perp_close_market': dict(gate=15, admin='', test=1, rel='perp_market.group perp_market.bids perp_market.asks perp_market.event_queue'),
 'perp_consume_events': dict(gate=16, rel='perp_market.group perp_market.event_queue'),
 'perp_create_market': dict(gate=17, admin=''),
 'perp_deactivate_position': dict(gate=18, live='account', act='account/owner', rel='account.group perp_market.group'),
 'perp_edit_market': dict(admin='sec', rel='perp_market.group'),
 'perp_force_close_position': dict(gate=50, live='account_a account_b',
    rel='perp_market.group perp_market.oracle perp_market.force_close=1 account_a.group account_b.group !account_a=account_b'),
 'perp_liq_base_or_positive_pnl': dict(gate=19, live='liqor liqee', act='liqor/liqor_owner', rel=LIQ + ' ' + SB),
 'perp_liq_force_cancel_orders': dict(gate=20, rel=PM),
 'perp_liq_negative_pnl_or_bankruptcy_v2': dict(NEG, rel=NEG['rel'] + ' insurance_bank.group insurance_bank.mint=insurance_vault.mint '
    'insurance_bank_vault.key=insurance_bank.vault insurance_oracle.key=insurance_bank.oracle'),
 'perp_place_order': PO, 'perp_place_order_v2': PO, 'perp_place_order_pegged': PO, 'perp_place_order_pegged_v2': PO,
 'perp_settle_fees': dict(gate=23, live='account', rel='perp_market.group perp_market.oracle account.group settle_bank.group settle_oracle.key=settle_bank.oracle'),
 'perp_settle_pnl': dict(gate=24, live='settler account_a account_b', act='settler/settler_owner',
    rel='settler.group account_a.group account_b.group perp_market.group perp_market.oracle settle_bank.group settle_oracle.key=settle_bank.oracle'),
 'perp_update_funding': dict(gate=25, rel='perp_market.group perp_market.bids perp_market.asks perp_market.oracle'),
 'sequence_check': dict(gate=73, live='account', own='account/owner', rel='account.group'),
 'serum3_cancel_all_orders': dict(gate=26, live='account', act='account/owner', rel=SM),
 'serum3_cancel_order': dict(gate=27, live='account', act='account/owner', rel=SM),
 'serum3_cancel_order_by_client_order_id': dict(gate=27, live='account', act='account/owner', rel=SM),
 'serum3_close_open_orders': dict(gate=28, live='account', act='account/owner', unless='serum_market.force_close', rel=SM),
 'serum3_create_open_orders': dict(gate=29, live='account', act='account/owner', rel=SM),
 'serum3_deregister_market': dict(gate=30, admin='', test=1, rel='serum_market.group index_reservation.group serum_market.market_index=index_reservation.market_index'),
 'serum3_edit_market': dict(admin='sec', rel='market.group'),
 'serum3_liq_force_cancel_orders': dict(gate=32, rel=SM + ' quote_bank.group base_bank.group'),
 'serum3_place_order': dict(SPO, gate='33|71'), 'serum3_place_order_v2': dict(SPO, gate=71),
 'serum3_register_market': dict(gate=34, admin='fast', rel='quote_bank.group base_bank.group'),
 'serum3_settle_funds_v2': dict(gate=35, live='account', act='account/owner', rel=SM + ' quote_bank.group base_bank.group '
    'quote_oracle.key=quote_bank.oracle base_oracle.key=base_bank.oracle'),
 'stub_oracle_close': dict(gate=36, admin='', test=1, rel='oracle.group'),
 'stub_oracle_create': dict(gate=37, admin=''),
 'stub_oracle_set': dict(gate=38, admin='', rel='oracle.group'),
 'stub_oracle_set_test': dict(gate=38, admin='', rel='oracle.group'),
 'token_add_bank': dict(gate=39, admin='', test=1, rel='existing_bank.group existing_bank.mint mint_info.group mint_info.mint existing_bank.token_index=mint_info.token_index'),
 'token_charge_collateral_fees': dict(live='account', rel='account.group'),
 'token_conditional_swap_cancel': dict(gate=54, live='account', act='account/authority', rel='account.group buy_bank.group sell_bank.group'),
 'token_conditional_swap_create': dict(TCC, gate=52), 'token_conditional_swap_create_v2': dict(TCC, gate=52),
 'token_conditional_swap_create_premium_auction': dict(TCC, gate=69), 'token_conditional_swap_create_linear_auction': dict(TCC, gate=70),
 'token_conditional_swap_start': dict(gate=68, live='liqor liqee', act='liqor/liqor_authority', rel=LIQ + ' !liqor=liqee'),
 'token_conditional_swap_trigger': TCT, 'token_conditional_swap_trigger_v2': TCT,
 'token_deposit_into_existing': dict(gate=40, live='account', rel=BNK, sign='token_authority'),
 'token_deposit': dict(gate=40, live='account', act='account/owner', rel=BNK, sign='token_authority'),
 'token_deregister': dict(gate=41, admin='', test=1, rel='mint_info.group'),
 'token_edit': dict(admin='sec', rel='mint_info.group'),
 'token_force_close_borrows_with_token': dict(gate=49, live='liqor liqee', act='liqor/liqor_owner', rel=LIQ),
 'token_force_withdraw': dict(gate=72, live='account', rel=BNK + ' @ata alternate_owner_token_account.owner=account.owner'),
 'token_liq_bankruptcy': TLB, 'liq_token_bankruptcy': TLB,
 'token_liq_with_token': TLT, 'liq_token_with_token': TLT,
 'token_register': dict(gate=44, admin=''),
 'token_register_trustless': dict(gate=45, admin='fast'),
 'token_update_index_and_rate': TUI, 'token_update_index_and_rate_resilient': TUI,
 'token_withdraw': dict(gate=47, live='account', act='account/owner', rel=BNK),
}

def val(a, e):
    """value of 'acct.field' at the start of the instruction"""
    if e.lstrip('-').isdigit(): return int(e)
    n, f = e.split('.')
    if f == 'key': return getattr(a, n).key
    v = raw(field(getattr(a, n).data, f))
    return v if isinstance(v, (t.Term, int)) else pk_int(a.ex, v)
def gates(a, s):
    k = s.get('gate')
    if k is not None: yield 'gate %s is open' % k, t.or_(*(eq(bit(a.group.data, int(b)), 0) for b in str(k).split('|')))
def acts(a, s):
    # the signer's authority must be owner, delegate or live temporary delegate
    for kind in ('own', 'act'):
        for p in s.get(kind, '').split():
            n, sg = p.split('/'); acc = getattr(a, n).data; k = getattr(a, sg).key
            yield '%s has signed' % sg, getattr(a, sg).signed
            un = s.get('unless')
            o = eq(val(a, n + '.owner'), k)
            if kind == 'act':
                o = t.or_(o, eq(val(a, n + '.delegate'), k), t.and_(eq(val(a, n + '.temporary_delegate'), k), ge(field(acc, 'temporary_delegate_expiry'), a.now())))
            if un: o = t.or_(o, eq(val(a, un), 1))
            yield '%s is allowed to act for %s' % (sg, n), o
    for n in s.get('sign', '').split(): yield n + ' has signed', getattr(a, n).signed
def live(a, s):
    for n in s.get('live', '').split(): yield n + ' is not frozen', lt(field(getattr(a, n).data, 'frozen_until'), a.now())
def users(a, s):
    yield from live(a, s)
    yield from acts(a, s)
def admins(a, s):
    if 'admin' in s:
        yield 'admin has signed', a.admin.signed
        k = a.admin.key
        o = eq(val(a, 'group.admin'), k)
        if s['admin'] == 'fast': o = t.or_(o, eq(val(a, 'group.fast_listing_admin'), k))
        if s['admin'] == 'sec': o = t.or_(o, eq(val(a, 'group.security_admin'), k))
        yield 'admin is an admin of the group', o
    if s.get('test'): yield 'testing group', eq(a.group.data.testing, 1)
def rels(a, s):
    for r in s.get('rel', '').split():
        if r == '@ata':
            yield 'owner_ata is the owner\'s token account', eq(a.owner_ata_token_account.key, ata(a.ex, val(a, 'account.owner'), val(a, 'vault.mint'))); continue
        neg = r.startswith('!'); e = r.lstrip('!')
        x, _, y = e.partition('=')
        if '.' not in x: x += '.key'; y += '.key'
        if not y: y = x.split('.')[1] + '.key'
        g = eq(val(a, x), val(a, y))
        yield r, t.not_(g) if neg else g

def prop(pid, gen, keys):
    def mk():
        us = []
        for ix, s in IX.items():
            if any(k in s for k in keys): us.append(EntryUnit(ix, lambda a, s=s: gen(a, s)))
        return Prop(pid, us)
    return mk
PROPS = {'X01': prop('X01', gates, ['gate']), 'X02': prop('X02', users, ['live', 'own', 'act', 'sign']),
         'X03': prop('X03', admins, ['admin', 'test']), 'X04': prop('X04', rels, ['rel'])}
