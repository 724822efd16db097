"""Edit rights: what the security admin may change without the group's admin."""
from .lib import *
from mirv.entry import HandlerUnit
from mirv.intr import pk_int
from mirv.term import ge
from .access import bit, raw
from mirv.acct import Acct
from mirv.val import Ref, Unsupported, UNDEF

def changed(ex, o, n, f):
    return t.not_(deep_eq(ex, raw(field(o, f)), raw(field(n, f))))
def signer_is(c, f):
    a = c.old(0).accounts
    g = a.group.data
    return eq(pk_int(c.ex, raw(field(g, f))), a.admin.key)
def only(c, name, allowed, what):
    """unless the group's admin signed, fields of the account change only as allowed says"""
    o = getattr(c.old(0).accounts, name).data; n = getattr(c.new(0).accounts, name).data
    adm = signer_is(c, 'admin')
    for f in fields_of(c.ex, o._t):
        if f.startswith(('padding', 'reserved')): continue
        ch = changed(c.ex, o, n, f)
        if ch is False: continue
        ok = allowed[f](getattr(o, f), getattr(n, f)) if f in allowed else False
        yield '%s: %s' % (what, f), implies(ch, t.or_(adm, ok))
def gate(c):
    o = c.old(0).accounts.group.data; n = c.new(0).accounts.group.data; adm = signer_is(c, 'admin')
    for k in range(128):
        yield 'gate bit %d is reopened by the admin only' % k, implies(t.and_(eq(bit(o, k), 1), eq(bit(n, k), 0)), adm)
    yield 'gate bits are set as asked', eq(n.ix_gate, c.arg(1))
def perp(c):
    yield from only(c, 'perp_market', {'init_overall_asset_weight': lambda o, n: eq(n, 0), 'reduce_only': lambda o, n: eq(n, 1)}, 'perp market')
def serum(c):
    yield from only(c, 'market', {'reduce_only': lambda o, n: eq(n, 1)}, 'serum market')

RED = {'init_asset_weight': lambda o, n: eq(n, 0), 'platform_liquidation_fee': lambda o, n: eq(n, 0), 'collateral_fee_per_day': lambda o, n: eq(n, 0),
       # stricter: 1 forbids deposits and borrows, 2 only borrows
       'reduce_only': lambda o, n: t.and_(t.not_(eq(n, 0)), t.not_(t.and_(eq(o, 1), eq(n, 2)))),
       'maint_asset_weight': lambda o, n: True, 'maint_liab_weight': lambda o, n: True, 'maint_weight_shift_start': lambda o, n: eq(n, 0),
       'maint_weight_shift_end': lambda o, n: eq(n, 0), 'maint_weight_shift_duration_inv': lambda o, n: eq(n, 0),
       'maint_weight_shift_asset_target': lambda o, n: eq(n, 0), 'maint_weight_shift_liab_target': lambda o, n: eq(n, 0)}
I = 'mango_v4::instructions::'
def token_step(head, c):
    """ghost: some bank so far was changed in a way only the group's admin may"""
    ex = c.ex; viol = c.st.ghost['viol']
    for k, cell in ex.u.acct_cells.items():
        if len(k) > 3 and k[0].startswith('ctx.remaining') and cell in c.st.cells and cell not in head.cells:
            o = ex.u.sym(k[3], 'hv.acct%d' % cell); n = c.st.cells[cell]
            for lab, g in banks(View(ex, head, o, k[3]), View(ex, c.st, n, k[3])): viol = t.or_(viol, t.not_(g))
    c.st.ghost['viol'] = viol
def token_inv(c):
    """the flags of the loop say so when a bank or the mint info was changed beyond the security admin's rights"""
    flags = []
    for n, ps in c.nm.items():
        for p in ps:
            if len(p) == 1 and p[0] > c.fr.body['args'] and c.ex.T[c.fr.body['locals'][p[0]]]['k'] == 'bool' and c.ent.cells.get(c.fr.loc[p[0]]) is False:
                v = c.st.cells.get(c.fr.loc[p[0]])
                if v is not None and v is not UNDEF: flags.append(v)
    o = View(c.ex, c.fr.entry, c.ex.read(c.fr.entry, Ref(c.fr.loc[1])), c.fr.body['locals'][1]).accounts.mint_info.data
    n = View(c.ex, c.st, c.ex.read(c.fr.entry, Ref(c.fr.loc[1])), c.fr.body['locals'][1]).accounts.mint_info.data
    f = t.or_(*flags)
    return [('unauthorised changes are flagged', implies(c.st.ghost['viol'], f)),
            ('changes of the mint info are flagged', implies(t.not_(deep_eq(c.ex, o._v, n._v)), f))]
def banks(o, n):
    for f in fields_of(o._e, o._t):
        if f.startswith(('padding', 'reserved')): continue
        ch = changed(o._e, o, n, f)
        if ch is False: continue
        yield f, implies(ch, RED[f](getattr(o, f), getattr(n, f)) if f in RED else False)
def token(c):
    yield from only(c, 'mint_info', {}, 'mint info')
    yield 'banks are only restricted', t.or_(signer_is(c, 'admin'), t.not_(c.st.ghost['viol']))
def mk():
    return Prop('X05', [
        HandlerUnit(I + 'ix_gate_set::ix_gate_set', gate, loops={(I + 'ix_gate_set::ix_gate_set', None): LoopSpec(unroll=130)}),
        HandlerUnit(I + 'perp_edit_market::perp_edit_market', perp),
        HandlerUnit(I + 'token_edit::token_edit', token, loops={(I + 'token_edit::token_edit', None): LoopSpec(token_inv, ghost={'viol': 'Bool'}, step=token_step)}, ghost={'viol': False}),
        HandlerUnit(I + 'serum3_edit_market::serum3_edit_market', serum),
    ])
PROPS = {'X05': mk}
