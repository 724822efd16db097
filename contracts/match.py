"""Contract of order matching and posting (state/orderbook/book.rs)."""
from .lib import *
from . import bank, perp, account as A, book as Bk
from .liq import pick, okerr, wkey, fx
from .settle import px, rec, sample_perps
from mirv.exec import CallCtx
from mirv.intr import mkfx, pk_int
import re
OB = 'mango_v4::state::orderbook::book::Orderbook::'; F = t.Fraction
I64MAX = Bk.I64MAX
# ghost: what was traded and done so far.  n: orders of the book seen; the one that is looked at is number n - 1
CUR = ('fill', 'out', 'chg', 'del')           # of the order that is looked at: filled, told out, quantity changed, taken off
SUMS = {'fb': 'Int', 'fq': 'Int', 'db': 'Int', 'dq': 'Int', 'nf': 'Int', 'n': 'Int', 'part': 'Int', 'gone': 'Int', 'at': 'Bool', 'over': 'Bool', 'q': 'Int', 'rest': 'Int', 'fill': 'Int', 'out': 'Int', 'chg': 'Int', 'del': 'Int'}
GH = dict({k: 0 for k in SUMS}, at=False, over=False); GH.update({k: 0 for k in ('due', 'd:slot', 'd:owner', 'd:quantity', 'd:key', 'ins', 'add', 'worst', 'slot', 'oid', 'odata', 'oside', 'end:chg', 'end:del', 'ap:on', 'ap:done', 'ap:a', 'ap:b')}); GH.update({'bad': (), 'effect': False, 'acct_havoc': (), 'ap:cell': 0, 'worst:price': 0})
def claim(ex, st, label, goal):
    """holds at this point of the execution"""
    if getattr(ex, 'concrete', False):
        if goal is False: st.ghost['bad'] = st.ghost['bad'] + (label,)
        return
    ex.oblige(st, 'new_order', label, goal, 'claim')
class G:
    """the order that is matched, and the book as far as it has been seen"""
    def __init__(self, ex, st): self.ex = ex; self.st = st; self.g = st.ghost; c = ex.top; self.o = c.arg(1); self.m = c.arg(2); self.pk = pk_of(c.arg(6)); self.now = c.arg(7); self.limit = c.arg(8); self.oracle = c.arg(4)
    def bid(self): return eq(self.o.side.d, 0)
    @property
    def cur(self): return item(self.ex, self.st, self.g['n'] - 1)
    def valid(self): return eq(self.cur.state.d, 0)
    def within(self, p): return ite(self.bid(), le(p, self.price), le(self.price, p))
    def self_trade(self): return eq(pk_of(self.cur.node.owner), self.pk)
    def behave(self, i): return eq(self.o.self_trade_behavior.d, i)
    @property
    def post_only(self):
        P = self.o.params
        return or_(and_(P.is_('Fixed'), PO(P.as_('Fixed', 1))), and_(P.is_('OraclePegged'), PO(P.as_('OraclePegged', 1))))
    @property
    def price(self):
        """the price limit of the order"""
        P, b, ol = self.o.params, self.bid(), self.ex.olots
        best = self.ex.best; slide = lambda p, ot: ite(and_(SLIDE(ot), best.some), ite(b, tmin(p, best.val() - 1), tmax(p, best.val() + 1)), p)
        return ite(P.is_('Market'), ite(b, I64MAX, 1), ite(P.is_('ImmediateOrCancel'), P.as_('ImmediateOrCancel', 0), ite(P.is_('Fixed'), slide(P.as_('Fixed', 0), P.as_('Fixed', 1)), slide(ol + P.as_('OraclePegged', 0), P.as_('OraclePegged', 1)))))
    def handled(self):
        g = self.g
        return and_(eq(g['chg'] + g['del'], tmax(g['fill'], g['out'])), implies(eq(g['out'], 1), eq(g['del'], 1)), implies(eq(g['chg'], 1), and_(eq(g['fill'], 1), lt(0, g['rest']), eq(g['rest'], self.cur.node.quantity - g['q']))), implies(eq(g['del'], 1), or_(eq(g['out'], 1), and_(eq(g['fill'], 1), eq(g['q'], self.cur.node.quantity)))))
    def passed(self):
        g = self.g
        return or_(not_(g['at']), not_(self.valid()), eq(g['fill'], 1), eq(g['out'], 1))
    def stopped(self):
        """matching ends when the book is through, nothing is left, or the next order cannot be matched"""
        g = self.g; o = self.o; c = self.cur
        return or_(g['over'], le(o.max_base_lots, g['fb']), le(o.max_quote_lots, g['fq']), le(self.limit, g['nf']), and_(g['at'], self.valid(), eq(g['fill'], 0), eq(g['out'], 0), or_(not_(self.within(c.price_lots)), self.post_only, lt(o.max_quote_lots - g['fq'], c.price_lots))))
def SLIDE(ot): return ot.is_('PostOnlySlide')
def PO(ot): return or_(ot.is_('PostOnly'), ot.is_('PostOnlySlide'))
def pk_of(v): return pk_int(v._e, v._v)
def item(ex, st, k): return View(ex, st, ex.u.sym(ex.item_ty, 'resting', (k,)), ex.item_ty)
def length(ex): return ex.u.leaf({'k': 'int', 'bits': 16, 'signed': False}, 'orders', ())
def side_of(ref):
    """which side of the book a reference points into"""
    r = repr(ref)
    return 0 if 'bids' in r else 1 if 'asks' in r else None
def book_is(ex, st, label, ref, other):
    s = side_of(ref)
    if s is None: raise Unsupported('which side of the book: %r' % (ref,))
    d = ex.top.arg(1).side.d
    claim(ex, st, label, eq(d, 1 - s if other else s))
def ty_of(info): return info.dty if info.dty is not None else info.b['abi_ret']
# ---- the book
def it_new(ex, st, args, info):
    book_is(ex, st, 'orders are matched against the other side of the book', args[0], True); o = G(ex, st)
    claim(ex, st, 'at the current time and oracle price', and_(eq(args[1], o.now), eq(args[2], ex.olots)))
    return [(st, ex.u.sym(ty_of(info), 'book_iter'))]
def it_next(ex, st, args, info):
    """the next order of the book: any order, at a positive price and of positive quantity"""
    ty = ty_of(info); g = st.ghost; o = G(ex, st)
    claim(ex, st, 'an order that was matched is changed or taken off the book, one told out is taken off', o.handled())
    claim(ex, st, 'no order is passed over', o.passed())
    k = g['n']; more = lt(k, length(ex)); out = []
    s, e = st.copy(), st.copy()
    s.assume(more); e.assume(not_(more))
    for x in (s, e):
        x.ghost.update({k_: 0 for k_ in CUR}); x.ghost['q'] = 0
    s.ghost['n'] = k + 1; s.ghost['at'] = True; e.ghost['at'] = False; e.ghost['over'] = True
    c = G(ex, s).cur
    s.assume(and_(lt(0, c.price_lots), lt(0, c.node.quantity), lt(c.state.d, 2)))
    if more is not False: out.append((s, Enum(ty, 1, {1: (c._v,)})))
    if more is not True: out.append((e, Enum(ty, 0, {0: ()})))
    return out
def cast(ex, st, args, info):
    v = ex.u.sym(ty_of(info), 'event', (len(ex.casts),)); ex.casts.append((v, args[0], info.atys[0]))
    return [(st, v)]
def push_event(ex, st, args, info):
    v, ety = next(((w, ty) for a, w, ty in reversed(ex.casts) if a is args[1]), (None, None))
    if v is None: raise Unsupported('an unknown event')
    e = View(ex, st, v, ety); o = G(ex, st); g = st.ghost; c = o.cur
    if 'FillEvent' in ex.T[ety]['disp']:
        claim(ex, st, 'only valid orders are filled', and_(g['at'], o.valid()))
        claim(ex, st, 'at their price', eq(e.price, c.price_lots))
        claim(ex, st, 'which is within the limit of the order', o.within(c.price_lots))
        claim(ex, st, 'as much as the order, the other order and the quote limit allow', and_(lt(0, e.quantity), eq(e.quantity, tmin(tmin(o.o.max_base_lots - g['fb'], c.node.quantity), tdiv(o.o.max_quote_lots - g['fq'], c.price_lots)))))
        claim(ex, st, 'orders are filled once', and_(eq(g['fill'], 0), eq(g['out'], 0)))
        claim(ex, st, 'post only orders are not filled', not_(o.post_only))
        claim(ex, st, 'no more fills than the limit', lt(g['nf'], o.limit))
        claim(ex, st, 'own orders are only filled when taking is decremented', implies(o.self_trade(), o.behave(0)))
        claim(ex, st, 'fees are those of the market, and none for own orders', and_(eq(e.maker_fee, ite(o.self_trade(), F(0), fee_float(o.m.maker_fee))), eq(e.taker_fee, ite(o.self_trade(), F(0), fee_float(o.m.taker_fee)))))
        claim(ex, st, 'the fill names both orders', and_(eq(e.taker_side, o.o.side.d), eq(pk_of(e.maker), pk_of(c.node.owner)), eq(pk_of(e.taker), o.pk), eq(e.maker_order_id, c.node.key), eq(e.maker_slot, c.node.owner_slot), eq(e.maker_client_order_id, c.node.client_order_id), eq(e.taker_client_order_id, o.o.client_order_id), eq(e.timestamp, o.now), eq(e.maker_timestamp, c.node.timestamp)))
        claim(ex, st, 'the fill says whether the other order is done', eq(e.maker_out, ite(eq(e.quantity, c.node.quantity), 1, 0)))
        v_ = e.quantity * c.price_lots; own = o.self_trade()
        g['fb'] = g['fb'] + e.quantity; g['fq'] = g['fq'] + v_; g['nf'] = g['nf'] + 1; g['db'] = g['db'] + ite(own, e.quantity, 0); g['dq'] = g['dq'] + ite(own, v_, 0); g['fill'] = g['fill'] + 1; g['q'] = e.quantity
    else:
        due = eq(g['due'], 1); same = lambda n, f: eq(n, ite(due, g['d:' + f], pk_of(c.node.owner) if f == 'owner' else {'slot': c.node.owner_slot, 'quantity': c.node.quantity, 'key': c.node.key}[f]))
        claim(ex, st, 'orders are told out that are dropped, invalid, or own orders that would be matched', or_(due, and_(g['at'], eq(g['out'], 0), eq(g['fill'], 0), or_(not_(o.valid()), and_(o.self_trade(), o.behave(1), o.within(c.price_lots), not_(o.post_only))))))
        claim(ex, st, 'the out event names the order', and_(same(e.owner_slot, 'slot'), same(pk_of(e.owner), 'owner'), same(e.quantity, 'quantity'), same(e.order_id, 'key'), eq(e.side, ite(due, o.o.side.d, 1 - o.o.side.d)), eq(e.timestamp, o.now)))
        g['out'] = g['out'] + ite(due, 0, 1); g['due'] = 0
    ty = ty_of(info)
    return [(st, Enum(ty, 0, {0: (ex.fresh_val(ex.T[ty]['variants'][0]['fields'][0][1], 'unit'),)}))]
def fee_float(bits): return fee_float(bits)
def fee_float(b): return t.mul(t.toreal(b), F(1, ONE))
# ---- lists of the orders to change and to take off: what is put in is right, and what is taken out is applied
def kind_of(info): return 'chg' if 'BookSideOrderHandle, i64)' in info.name else 'del'
def parts(ex, st, v, k):
    if isinstance(v, Ref): v = ex.read(st, v)
    h = View(ex, st, v.fs[0], ex.handle_ty if k == 'chg' else ex.tree_ty)
    return (h.node if k == 'chg' else h.d), v.fs[1]
def through(ex, st, info, args):
    s0 = ex.skip; ex.skip = info.def_
    try: return ex.call_key(st, info, args)
    finally: ex.skip = s0
def vec_push(ex, st, args, info):
    k = kind_of(info); o = G(ex, st); g = st.ghost; c = o.cur; x, y = parts(ex, st, args[1], k)
    if k == 'chg':
        claim(ex, st, 'an order that was filled in part keeps the rest', and_(g['at'], eq(x, c.handle.node)))
        g['part'] = g['part'] + 1; g['rest'] = y
    else:
        claim(ex, st, 'orders are taken off when they are filled or told out', and_(g['at'], eq(x, c.handle.order_tree.d), eq(y, c.node.key)))
        g['gone'] = g['gone'] + 1
    g[k] = g[k] + 1
    return through(ex, st, info, args) if getattr(ex, 'concrete', False) else [(st, Agg(info.dty, ()))]
def applied(ex, st, k):
    """the entry that was taken from the list last was applied to the book"""
    g = st.ghost; ok = eq(g['ap:done'], 1)
    if k == 'chg' and g['ap:cell'] != 0: ok = and_(ok, eq(View(ex, st, ex.cell(st, g['ap:cell']), ex.leaf_ty).quantity, g['ap:b']))
    claim(ex, st, 'changes are written to the book' if k == 'chg' else 'removals are done on the book', or_(eq(g['ap:on'], 0), ok))
def list_next(ex, st, args, info):
    k = kind_of(info); g = st.ghost; ty = ty_of(info)
    applied(ex, st, k)
    if getattr(ex, 'concrete', False): rs = through(ex, st, info, args)
    else:
        e = st.copy(); ety = ex.T[ty]['variants'][1]['fields'][0][1]
        if 'slice::Iter' in info.name:
            cell = ex.u.new_cell(('entry',)); st.cells[cell] = ex.fresh_val(ex.T[ety]['to'], 'entry'); v = Ref(cell, ())
        else: v = ex.fresh_val(ety, 'entry')
        rs = [(st, Enum(ty, 1, {1: (v,)})), (e, Enum(ty, 0, {0: ()}))]
    for s, v in rs:
        if v.d == 1:
            x, y = parts(ex, s, v.vs[1][0], k); s.ghost.update({'ap:on': 1, 'ap:done': 0, 'ap:a': x, 'ap:b': y, 'ap:cell': 0})
        else: s.ghost.update({'ap:on': 0, 'ap:done': 0, 'ap:cell': 0, 'end:' + k: 1})
    return rs
def list_step(head, c):
    ex, st = c.ex, c.st
    applied(ex, st, 'chg' if st.ghost['ap:cell'] != 0 else 'del')
def node_mut(ex, st, args, info):
    g = st.ghost; book_is(ex, st, 'changes are made on the other side of the book', args[0], True); ty = ty_of(info)
    claim(ex, st, 'to the order that is in the list', and_(eq(g['ap:on'], 1), eq(g['ap:done'], 0), eq(args[1], g['ap:a'])))
    cell = ex.u.new_cell(('leaf',)); st.cells[cell] = ex.u.sym(ex.leaf_ty, 'leaf%d' % cell); g['ap:cell'] = cell; g['ap:done'] = 1
    return [(st, Enum(ty, 1, {1: (Ref(cell, ()),)}))]
def as_leaf_mut(ex, st, args, info): return [(st, Enum(ty_of(info), 1, {1: (args[0],)}))]
def remove_by_key(ex, st, args, info):
    g = st.ghost; book_is(ex, st, 'orders are taken off the other side of the book', args[0], True); ty = ty_of(info)
    claim(ex, st, 'orders are taken off that are in the list', and_(eq(g['ap:on'], 1), eq(g['ap:done'], 0), eq(CallCtx(ex, info.key, st, st, args, None).arg(1).d, g['ap:a']), eq(args[2], g['ap:b'])))
    g['ap:done'] = 1
    return [(st, Enum(ty, 1, {1: (ex.fresh_val(ex.leaf_ty, 'removed'),)}))]
# ---- posting
def drop(ex, st, leaf):
    g = st.ghost; v = View(ex, st, leaf, ex.leaf_ty)
    claim(ex, st, 'one dropped order at a time', eq(g['due'], 0))
    g.update({'due': 1, 'd:slot': v.owner_slot, 'd:owner': pk_of(v.owner), 'd:quantity': v.quantity, 'd:key': v.key})
def tree_of(o): return ite(o.o.params.is_('Fixed'), 0, 1)
def remove_one_expired(ex, st, args, info):
    book_is(ex, st, 'expired orders are dropped from the side of the order', args[0], False); ty = ty_of(info); o = G(ex, st)
    claim(ex, st, 'at the current time', eq(args[2], o.now))
    s, e = st.copy(), st.copy(); some = ex.u.leaf({'k': 'bool'}, 'has_expired', ()); v = ex.u.sym(ex.leaf_ty, 'expired'); s.assume(some); e.assume(not_(some)); drop(ex, s, v); out = []
    if some is not False: out.append((s, Enum(ty, 1, {1: (v,)})))
    if some is not True: out.append((e, Enum(ty, 0, {0: ()})))
    return out
def full(ex): return ex.u.leaf({'k': 'bool'}, 'book_full', ())
def is_full(ex, st, args, info):
    book_is(ex, st, 'the side of the order must have room', args[0], False)
    return [(st, full(ex))]
def remove_worst(ex, st, args, info):
    book_is(ex, st, 'the worst order is dropped from the side of the order', args[0], False); ty = ty_of(info); o = G(ex, st); g = st.ghost
    claim(ex, st, 'the worst at the current time and oracle price', and_(full(ex), eq(args[1], o.now), eq(args[2], ex.olots)))
    v = ex.u.sym(ex.leaf_ty, 'worst'); p = ex.u.leaf({'k': 'int', 'bits': 64, 'signed': True}, 'worst_price', ()); drop(ex, st, v); g['worst'] = 1; g['worst:price'] = p
    return [(st, Enum(ty, 1, {1: (Agg(ex.T[ty]['variants'][1]['fields'][0][1], (v, p)),)}))]
def best_price(ex, st, args, info):
    book_is(ex, st, 'the best price of the other side', args[0], True); o = G(ex, st)
    claim(ex, st, 'the best price at the current time and oracle price', and_(eq(args[1], o.now), eq(args[2], ex.olots)))
    return [(st, ex.best._v)]
def price_to_lot(ex, st, args, info):
    claim(ex, st, 'lots of the oracle price', eq(CallCtx(ex, info.key, st, st, args, None).arg(1), ex.top.arg(4)))
    return [(st, ex.olots)]
def next_slot(ex, st, args, info):
    v = ex.u.leaf({'k': 'int', 'bits': 8, 'signed': False}, 'slot', ()); st.ghost['slot'] = v
    return okerr(ex, info, st, None if getattr(ex, 'concrete', False) else st.copy(), lambda ty: v)
def n_id(c, g): g['oid'] = c.ret; g['odata'] = c.arg(2); g['oside'] = c.arg(1).d
def leaf_ok(o, l):
    P = o.o.params; pegged = P.is_('OraclePegged')
    yield 'what is posted carries the new order id', and_(eq(l.key, o.g['oid']), eq(o.g['oside'], o.o.side.d))
    yield 'the id holds the price of the order', eq(o.g['odata'], ite(pegged, o.price - o.ex.olots + (1 << 63), o.price))
    yield 'what is posted belongs to the account', and_(eq(pk_of(l.owner), o.pk), eq(l.owner_slot, o.g['slot']), eq(l.client_order_id, o.o.client_order_id))
    yield 'what is posted expires as asked for', and_(eq(l.timestamp, o.now), eq(l.time_in_force, o.o.time_in_force), eq(l.peg_limit, ite(pegged, P.as_('OraclePegged', 2), -1)))
    yield 'only what was not traded is posted', and_(lt(0, l.quantity), eq(l.quantity, tmin(o.o.max_base_lots - o.g['fb'], tdiv(o.o.max_quote_lots - o.g['fq'], o.price))))
def insert_leaf(ex, st, args, info):
    o = G(ex, st); g = st.ghost; c = CallCtx(ex, info.key, st, st, args, None); P = o.o.params; m = o.m; l = c.arg(2); cur = o.cur
    book_is(ex, st, 'orders are posted on their own side', args[0], False)
    for lab, x in leaf_ok(o, l): claim(ex, st, lab, x)
    claim(ex, st, 'only orders that may rest are posted, in their tree', and_(or_(P.is_('Fixed'), P.is_('OraclePegged')), eq(c.arg(1).d, tree_of(o)), eq(g['ins'], 0)))
    np = tdiv(o.price * m.quote_lot_size * ONE, m.base_lot_size)
    claim(ex, st, 'only within the price band around the oracle', ite(o.bid(), le(np, fxmul(m.maint_base_liab_weight, o.oracle)), le(fxmul(m.maint_base_asset_weight, o.oracle), np)))
    claim(ex, st, 'a posted order does not cross an order that stays on the other side', and_(eq(g['part'], 0), or_(not_(g['at']), not_(o.valid()), not_(o.within(cur.price_lots)), eq(g['del'], 1))))
    claim(ex, st, 'a full book drops its worst order for a better one only', or_(not_(full(ex)), and_(eq(g['worst'], 1), Bk.better(o.o.side, o.price, g['worst:price']))))
    g['ins'] = g['ins'] + 1
    return okerr(ex, info, st, None if getattr(ex, 'concrete', False) else st.copy(), lambda ty: ex.fresh_val(ty, 'inserted'))
def add_order(ex, st, args, info):
    o = G(ex, st); g = st.ghost; c = CallCtx(ex, info.key, st, st, args, None)
    claim(ex, st, 'the posted order is recorded in the account', and_(eq(g['ins'], 1), eq(c.arg(1), o.m.perp_market_index), eq(c.arg(2).d, o.o.side.d), eq(c.arg(3).d, tree_of(o)), *[x for _, x in leaf_ok(o, c.arg(4))]))
    g['add'] = g['add'] + 1
    return okerr(ex, info, st, None if getattr(ex, 'concrete', False) else st.copy(), lambda ty: ex.fresh_val(ty, 'unit'))
# ---- the loops
def inv(c):
    ex, st = c.ex, c.st; o = G(ex, st); g = st.ghost; mb, mq = o.o.max_base_lots, o.o.max_quote_lots
    yield 'fills stay within the order', and_(between(0, g['fb'], mb), between(0, g['fq'], mq), between(0, g['dq'], g['fq']), between(0, g['db'], g['fb']), le(0, g['part']), le(0, g['gone']), between(0, g['n'], length(ex)), between(0, g['nf'], o.limit))
    yield 'nothing traded, nothing paid', implies(eq(g['nf'], 0), and_(eq(g['fb'], 0), eq(g['fq'], 0)))
    yield 'post only orders do not trade', implies(o.post_only, eq(g['nf'], 0))
    yield 'no order is passed over', o.passed()
    yield 'the book is not through', not_(g['over'])
    yield 'orders seen are handled', and_(o.handled(), *[between(0, g[k], 1) for k in CUR])
    for i, cell in enumerate(c.fr.loc):
        if i not in c.used and i > c.fr.body['args']: continue
        v, e = st.cells.get(cell), c.ent.cells.get(cell); ty = ex.T[c.fr.body['locals'][i]]
        if isinstance(v, Enum) and 'BookSideOrderTree' in ty.get('disp', '') and 'Option' in ty.get('disp', '') and any(m[0] == cell for m in c.mods):
            yield 'nothing is posted when an order was filled in part', implies(lt(0, g['part']), eq(v.d, 0))
            if isinstance(e, Enum): yield 'or it is posted where it was to be', eq(v.d, 0) if e.d == 0 else or_(eq(v.d, 0), and_(eq(v.d, e.d), eq(*[View(ex, x, y, c.fr.body['locals'][i]).val().d for x, y in ((st, v), (c.ent, e))])))
            continue
        if v is None or e is None or ty['k'] not in ('int', 'uint') or (cell, ()) not in c.mods: continue
        nm = next((n for n, ps in c.nm.items() if [i] in ps), '')
        if e is o.o.max_base_lots or eq(e, mb) is True: yield 'base lots left', eq(v, mb - g['fb'])
        elif eq(e, mq) is True: yield 'quote lots left', eq(v, mq - g['fq'])
        elif eq(e, o.limit) is True: yield 'matches left', eq(v, o.limit - g['nf'])
        elif e == 0 and ('quote' in nm or 'base' in nm) and ty.get('bits') == 64 and ty.get('signed'): yield 'own ' + ('quote' if 'quote' in nm else 'base') + ' lots', eq(v, g['dq'] if 'quote' in nm else g['db'])
def has(c, w): return any(w in c.ex.T[ty].get('disp', '') for i, ty in enumerate(c.fr.body['locals']) if i in c.used)
LOOPS = {'*': [(lambda c: has(c, 'BookSideIterItem'), LoopSpec(lambda c: list(inv(c)), ghost=SUMS)),
               (lambda c: has(c, 'std::vec::IntoIter<') or has(c, 'std::slice::Iter<'), LoopSpec(lambda c: [], step=list_step))]}
# ---- the claim
def req(c):
    o, m = c.arg(1), c.arg(2)
    yield 'lots', and_(le(0, o.max_base_lots), le(0, o.max_quote_lots), lt(0, m.base_lot_size), lt(0, m.quote_lot_size), lt(m.perp_market_index, A.FREE16), le(0, c.arg(4)), le(F(0), m.stable_price_model.stable_price))
    yield 'at most one position per market', A.perps(c.arg(5)).unique()
U64 = (1 << 64) - 1
def new_order(c):
    ex = c.ex; o = G(ex, c.st); g = c.st.ghost; M, M1 = c.old(2), c.new(2); R = c.okval(); S0, S1 = A.perps(c.old(5)), A.perps(c.new(5)); x = M.perp_market_index
    for b in g['bad']: yield b, False
    i = next((j for j in range(S0.n) if S0.id(j) == x), 0) if conc(c) else g[wkey(c.arg(5), x)]
    p0, p1 = S0[i], S1[i]; fb, fq = g['fb'], g['fq']
    yield 'orders that were matched are changed or taken off the book', o.handled()
    yield 'matching goes on while it can', o.stopped()
    yield 'all of them', and_(or_(eq(g['part'], 0), eq(g['end:chg'], 1)), or_(eq(g['gone'], 0), eq(g['end:del'], 1)))
    yield 'dropped orders are told out', eq(g['due'], 0)
    yield 'an order id is returned exactly for a posted order', and_(iff(R.some, eq(g['ins'], 1)), implies(R.some, eq(R.val(), g['oid'])), eq(g['add'], g['ins']))
    yield 'the taker position gets what was traded', and_(eq(p1.taker_base_lots, p0.taker_base_lots + ite(o.bid(), fb, neg(fb))), eq(p1.taker_quote_lots, p0.taker_quote_lots - ite(o.bid(), fq, neg(fq))))
    ioc = o.o.params.is_('ImmediateOrCancel'); pen = ite(ioc, t.floor_(t.mul(M.fee_penalty, F(ONE))), 0)
    paid = M.quote_lot_size * (fq - g['dq']) * ONE; tf, mf = fxmul(paid, M.taker_fee), fxmul(paid, M.maker_fee)
    yield 'and pays the taker fee on what was not its own, and the penalty', eq(p1.quote_position_native, p0.quote_position_native - tf - pen)
    yield 'the market accrues the fees of both sides', eq(M1.fees_accrued, M.fees_accrued + tf + mf + pen)
    dao = tmax(tf + tmin(mf, 0), 0); f0, f1 = c.old(5).fixed, c.new(5).fixed
    yield 'fees that can be bought back', eq(f1.buyback_fees_accrued_current, tmin(U64, tmin(U64, f0.buyback_fees_accrued_current + ite(ioc, fdiv(pen, ONE), 0)) + fdiv(dao, ONE)))
    yield 'nothing else in the market changes', and_(*[same_field(M, M1, f) for f in fields_of(ex, M._t) if f not in ('fees_accrued', 'seq_num')])
    yield 'nothing else in the position changes', and_(*[same_field(p0, p1, f) for f in fields_of(ex, p0._t) if f not in ('taker_base_lots', 'taker_quote_lots', 'quote_position_native', 'oneshot_settle_pnl_allowance', 'realized_pnl_for_position_native', 'taker_volume', 'quote_running_native')])
    yield 'nothing else in the account changes', A.kept(c, [('PerpPosition', i)], 5, ('buyback_fees_accrued_current',))
def setup(ovr, side):
    def f(ex, st, args, M, key):
        a = args[1]; a = ex.u.sym(a.ty, a.name, a.idx) if hasattr(a, 'idx') and not hasattr(a, 'fs') else a; fi, ft = ex.mir.fidx(a.ty, 'side'); fs = list(a.fs); fs[fi] = Enum(ft, side, {side: ()}); args = list(args); args[1] = Agg(a.ty, tuple(fs))
        for b in M.bodies.values():
            for r, g in ovr:
                if re.search(r, b['name']): ex.overrides[b['name']] = g
        ex.top = CallCtx(ex, key, st, st, args, None); ex.casts = []; ty = lambda d: next(i for i, x in enumerate(ex.T) if x.get('disp') == 'state::orderbook::' + d)
        ex.item_ty, ex.handle_ty, ex.tree_ty, ex.leaf_ty = ty("bookside_iterator::BookSideIterItem<'_>"), ty('bookside::BookSideOrderHandle'), ty('bookside::BookSideOrderTree'), ty('nodes::LeafNode')
        ex.olots = ex.u.leaf({'k': 'int', 'bits': 64, 'signed': True}, 'oracle_lots', ()); st.assume(le(0, ex.olots))
        oty = next(i for i, x in enumerate(ex.T) if x.get('disp') == 'std::option::Option<i64>'); ex.best = View(ex, st, ex.u.sym(oty, 'best_price'), oty)
        st.assume(implies(ex.best.some, between(1, ex.best.val(), I64MAX - 1)))
        return args
    return f
from .settle import U5, spec, acc_specs
OVR = [(r'BookSide::iter_all_including_invalid$', it_new), (r'<.*BookSideIter<.*> as std::iter::Iterator>::next$', it_next), (r'^bytemuck::cast::<.*AnyEvent>$', cast), (r'EventQueue::push_back$', push_event),
       (r'^std::vec::Vec::<\(.*(BookSideOrderHandle, i64|BookSideOrderTree, u128)\)>::push$', vec_push), (r'^<std::(vec::IntoIter|slice::Iter)<.*\(.*(BookSideOrderHandle, i64|BookSideOrderTree, u128)\)> as std::iter::Iterator>::next$', list_next),
       (r'BookSide::node_mut$', node_mut), (r'AnyNode::as_leaf_mut$', as_leaf_mut), (r'BookSide::remove_by_key$', remove_by_key), (r'BookSide::remove_one_expired$', remove_one_expired), (r'BookSide::is_full$', is_full),
       (r'BookSide::remove_worst$', remove_worst), (r'BookSide::insert_leaf$', insert_leaf), (r'BookSide::best_price$', best_price), (r'PerpMarket::native_price_to_lot$', price_to_lot), (r'::perp_next_order_slot$', next_slot), (r'::add_perp_order$', add_order),
       (r'PerpMarket::gen_order_id$', rec(n_id, spec(U5['gen_order_id'], ('seq_num',))))]
def sample(side):
    def f(rng):
        b = side == 0; kind = rng.choice([0, 1, 2, 2, 3, 3]); ot = rng.choice([0, 0, 0, 1, 2]); ol = rng.randint(8, 14); m = {}; d = m.setdefault('*default', {})
        sample_perps(m, rng, 'mango_account', 3, rng.randint(-3, 20), fx(rng, -50, 50)); m['perp_market*.perp_market_index'] = 3
        lim = max(1, ol + rng.randint(-3, 3)) if rng.random() < .8 else 2; prices = sorted((max(1, lim + rng.randint(-4, 4)) for _ in range(8)), reverse=not b)
        m.update({'order.params.d': kind, 'order.params.Fixed.price_lots': lim, 'order.params.ImmediateOrCancel.price_lots': lim, 'order.params.OraclePegged.price_offset_lots': lim - ol, 'order.params.OraclePegged.peg_limit': -1,
                  'order.params.Fixed.order_type.d': ot, 'order.params.OraclePegged.order_type.d': ot, 'order.self_trade_behavior.d': rng.choice([0, 0, 1, 2]), 'order.max_base_lots': rng.randint(1, 12), 'order.max_quote_lots': rng.choice([1000, rng.randint(1, 120), rng.randint(1, 20)]),
                  'order.client_order_id': 77, 'order.time_in_force': rng.choice([0, 10]), 'oracle_lots': ol, 'oracle_price.bits': ol << 48, 'now_ts': 1000, 'limit': rng.choice([0, 1, 2, 8, 8, 8]), 'orders': rng.randint(0, 4), 'best_price.d': 1, 'best_price.Some.0': prices[0],
                  'has_expired': rng.choice([False, False, True]), 'book_full': rng.choice([False, False, True]), 'worst_price': lim + (-1 if b else 1) * rng.choice([1, 1, -1]), 'slot': 2, 'perp_market*.base_lot_size': rng.choice([1, 10]), 'perp_market*.quote_lot_size': rng.choice([1, 10]),
                  'perp_market*.maker_fee.bits': fx(rng, -.01, .02), 'perp_market*.taker_fee.bits': fx(rng, .02, .05), 'perp_market*.fee_penalty': F(rng.randint(0, 6), 2), 'perp_market*.stable_price_model.stable_price': F(10),
                  'perp_market*.maint_base_liab_weight.bits': rng.choice([1, 20]) * ONE * 11 // 10, 'perp_market*.maint_base_asset_weight.bits': ONE // rng.choice([1, 20])})
        if rng.random() < .15: m['order.max_base_lots'] = 12; m['order.max_quote_lots'] = prices[0] * rng.randint(0, 3) + rng.randint(1, prices[0])
        many = rng.random() < .2            # (more invalid orders than are dropped at once)
        if many: m['orders'] = rng.randint(6, 8)
        for k in range(8):
            p = 'resting.'; m[(p + 'price_lots', k)] = prices[k]; m[(p + 'state.d', k)] = int(rng.random() < (.9 if many else .25)); m[(p + 'node*.quantity', k)] = rng.randint(1, 5); m[(p + 'node*.key', k)] = 100 + k; m[(p + 'handle.order_tree.d', k)] = rng.randint(0, 1)
            m[(p + 'handle.node', k)] = 10 + k; m[(p + 'node*.owner_slot', k)] = k; m[(p + 'node*.client_order_id', k)] = 50 + k; m[(p + 'node*.timestamp', k)] = 900 + k
        return m
    return f
def o03():
    cs = dict(acc_specs()); l2n, ins = spec(U5['lot_to_native_price']), spec(U5['inside_price_limit']); cs[l2n.name] = l2n; cs[ins.name] = ins
    return Prop('O03', [Unit(OB + 'new_order', req, new_order, name='new_order (%s)' % n, key=lambda M: next(k for k, b in M.bodies.items() if re.search(r'book::Orderbook::<.*>::new_order$', b['name'])), contracts=cs, loops=LOOPS, ghost=GH, setup=setup(OVR, i), feas_ms=100, sample=sample(i)) for i, n in enumerate(('bid', 'ask'))])
PROPS = {'O03': o03}
