"""Contracts of the order book (state/orderbook)."""
from .lib import *
N = 'mango_v4::state::orderbook::nodes::'; BI = 'mango_v4::state::orderbook::bookside_iterator::'
SD = 'mango_v4::state::orderbook::order_type::Side::'; OT = 'mango_v4::state::orderbook::order_type::SideAndOrderTree::'
W64 = 1 << 64; I64MAX = (1 << 63) - 1; I64MIN = -(1 << 63)
def bid(s): return eq(s.d, 0)
def better(s, a, b): return ite(bid(s), lt(b, a), lt(a, b))

def pegged(oracle, offset, limit, side):
    """(state, price): 0 valid, 1 invalid, 2 skipped"""
    p = clamp_i64(oracle + offset)
    ok = and_(le(1, p), lt(p, I64MAX))
    state = ite(ok, ite(and_(ne(limit, -1), better(side, p, limit)), 1, 0), 2)
    return state, ite(ok, p, tmax(p, 1))
def offset_of(price_data): return price_data - (1 << 63)
def expired(n, now): return and_(lt(0, n.time_in_force), le(n.timestamp + n.time_in_force, now))

def o01():
    def key(c):
        lo = ite(bid(c.arg(0)), W64 - 1 - c.arg(2), c.arg(2))
        yield 'key = price, then sequence number (inverted for bids)', eq(c.ret, c.arg(1) * W64 + lo)
    def pdat(c):
        yield 'pegged price data is order preserving and loses nothing', eq(c.ret, c.arg(0) + (1 << 63))
    def poff(c):
        yield 'the offset is recovered', eq(c.ret, c.arg(0) - (1 << 63))
    def fdat(c):
        yield 'only positive prices', le(1, c.arg(0))
        yield 'the price is kept', eq(c.okval(), c.arg(0))
    def flot(c): yield 'the price is recovered', eq(c.ret, c.arg(0))
    def lpd(c): yield 'the price is the upper half of the key', eq(c.ret, fdiv(c.arg(0).key, W64))
    def exp(c):
        n = c.arg(0)
        yield 'orders without a time in force never expire, others at placement plus time in force', eq(c.ret, ite(eq(n.time_in_force, 0), W64 - 1, n.timestamp + n.time_in_force))
    def isexp(c): yield 'expired from placement plus time in force on', iff(c.ret, expired(c.arg(0), c.arg(1)))
    def cmp(f):
        def e(c): yield 'comparison', iff(c.ret, f(c))
        return e
    def inv(c): yield 'the other side', iff(bid(c.ret), not_(bid(c.arg(0))))
    # rank_orders(side, fixed, pegged, return_worse, now, oracle price)
    def rreq(c):
        f = c.arg(1)
        yield 'fixed orders have a positive price', implies(f.some, and_(le(1, fdiv(f.as_('Some')._1.key, W64)), lt(fdiv(f.as_('Some')._1.key, W64), 1 << 63)))
    def rank(c):
        s, f, o, worse, now, oracle = [c.arg(i) for i in range(6)]
        F, O = f.as_('Some'), o.as_('Some'); R = c.ret; r = R.as_('Some')
        fk, ok = F._1.key, O._1.key
        fp, fs = fdiv(fk, W64), fmod(fk, W64)
        st, op = pegged(oracle, offset_of(fdiv(ok, W64)), O._1.peg_limit, s)
        os_ = fmod(ok, W64)
        both = and_(f.some, o.some)
        fbetter = or_(better(s, fp, op), and_(eq(fp, op), better(s, fs, os_)))
        fixed = or_(and_(f.some, not_(o.some)), and_(both, iff(fbetter, not_(worse))))
        peg = or_(and_(o.some, not_(f.some)), and_(both, not_(iff(fbetter, not_(worse)))))
        yield 'an item as long as either tree has one', iff(R.some, or_(f.some, o.some))
        isf = eq(r.handle.order_tree.d, 0)
        yield 'the better (or worse) order by price, then sequence number, is chosen', and_(implies(fixed, isf), implies(peg, not_(isf)))
        yield 'the chosen fixed order is returned', implies(fixed, and_(eq(r.handle.node, F._0), eq(r.node.key, fk), eq(r.price_lots, fp)))
        yield 'the chosen pegged order is returned', implies(peg, and_(eq(r.handle.node, O._0), eq(r.node.key, ok), eq(r.price_lots, op)))
        yield 'expired fixed orders are invalid', implies(fixed, eq(r.state.d, ite(expired(F._1, now), 1, 0)))
        yield 'expired and out-of-limit pegged orders are invalid', implies(peg, eq(r.state.d, ite(expired(O._1, now), 1, st)))
    return Prop('O01', [Unit(N + 'new_node_key', None, key), Unit(N + 'oracle_pegged_price_data', None, pdat), Unit(N + 'oracle_pegged_price_offset', None, poff),
        Unit(N + 'fixed_price_data', None, fdat), Unit(N + 'fixed_price_lots', None, flot), Unit(N + 'LeafNode::price_data', None, lpd), Unit(N + 'LeafNode::expiry', None, exp), Unit(N + 'LeafNode::is_expired', None, isexp),
        Unit(SD + 'is_price_data_better', None, cmp(lambda c: better(c.arg(0), c.arg(1), c.arg(2)))), Unit(SD + 'is_price_better', None, cmp(lambda c: better(c.arg(0), c.arg(1), c.arg(2)))),
        Unit(SD + 'is_price_within_limit', None, cmp(lambda c: not_(better(c.arg(0), c.arg(1), c.arg(2))) )), Unit(SD + 'invert_side', None, inv),
        Unit(BI + 'rank_orders', rreq, rank)])

# ---------------------------------------------------------------- O04: event queue
Q = 'mango_v4::state::orderbook::queue::'; EQ = Q + 'EventQueue::'; NQ = 488
def q_ok(c):
    h = c.arg(0).header
    yield 'head and count are in range', and_(le(0, h.head), lt(h.head, NQ), le(0, h.count), le(h.count, NQ))
def q_at(q, i): return View_raw(q, fmod(q.header.head + i, NQ))
def View_raw(q, i): return q._e.u.arr_get(field(q, 'buf'), i)
def q_kept(c, o, n, frm, to, shift=0):
    "entry i+shift of the old queue is entry i of the new queue, for frm <= i < to"
    i = t.fresh('i')
    return implies(and_(le(frm, i), lt(i, to)), deep_eq(c.ex, q_at(o, i + shift), q_at(n, i)))
def o04():
    def push(c):
        o, n = c.old(0), c.new(0); H, H2 = o.header, n.header; full = eq(H.count, NQ)
        yield 'only a full queue refuses', iff(c.is_ok(), not_(full))
        yield 'a refused push hands the event back and changes nothing', implies(full, and_(eq(H2.count, H.count), eq(H2.seq_num, H.seq_num), eq(H2.head, H.head), deep_eq(c.ex, field(o, 'buf'), field(n, 'buf')), deep_eq(c.ex, c.args[1], c.ret.as_('Err')._v)))
        ok = not_(full)
        yield 'the event is the last one', implies(ok, and_(eq(H2.count, H.count + 1), eq(H2.head, H.head), deep_eq(c.ex, q_at(n, H.count), c.args[1])))
        yield 'no queued event is lost or changed', implies(ok, q_kept(c, o, n, 0, H.count))
        yield 'the sequence number advances', implies(ok, eq(H2.seq_num, H.seq_num + 1))
        yield 'stays in range', and_(lt(H2.head, NQ), le(H2.count, NQ))
    def pop(c):
        o, n = c.old(0), c.new(0); H, H2 = o.header, n.header
        yield 'there was an event', lt(0, H.count)
        yield 'the oldest event is returned', deep_eq(c.ex, c.okval()._v, q_at(o, 0))
        yield 'the others keep their order', and_(eq(H2.count, H.count - 1), q_kept(c, o, n, 0, H.count - 1, 1))
        yield 'the sequence number stays', eq(H2.seq_num, H.seq_num)
        yield 'stays in range', and_(lt(H2.head, NQ), le(H2.count, NQ))
    def peek(c):
        o = c.old(0); H = o.header
        yield 'nothing only if the queue is empty', iff(c.ret.some, lt(0, H.count))
        yield 'the oldest event', implies(lt(0, H.count), deep_eq(c.ex, c.ret.as_('Some')._v, q_at(o, 0)))
    def revert(c):
        o, n = c.old(0), c.new(0); H, H2 = o.header, n.header
        yield 'only drops events', le(c.arg(1), H.count)
        yield 'the oldest events stay', and_(eq(H2.count, c.arg(1)), q_kept(c, o, n, 0, c.arg(1)))
        yield 'the sequence number goes back with them', eq(H2.seq_num, H.seq_num - (H.count - c.arg(1)))
        yield 'stays in range', and_(lt(H2.head, NQ), le(H2.count, NQ))
    def it_req(c):
        h = c.arg(0).queue.header
        yield 'queue in range', and_(le(0, h.head), lt(h.head, NQ), le(0, h.count), le(h.count, NQ), le(c.arg(0).index, h.count))
    def it(c):
        o, n = c.old(0), c.new(0); more = lt(o.index, o.queue.header.count)
        yield 'every queued event is visited', and_(iff(c.ret.some, more), eq(n.index, ite(more, o.index + 1, o.index)))
        yield 'in queue order', implies(more, deep_eq(c.ex, c.ret.as_('Some')._v, q_at(o.queue, o.index)))
    def size(f):
        def e(c): yield 'size', (iff if f is not None else eq)(c.ret, f(c.arg(0).header.count) if f else c.arg(0).header.count)
        return e
    def change(c):
        f = c.arg(0); b = bid(c.arg(1))
        yield 'a bid receives base and pays price times quantity, an ask the opposite', and_(eq(c.ret._0, ite(b, f.quantity, neg(f.quantity))), eq(c.ret._1, ite(b, neg(f.price * f.quantity), f.price * f.quantity)))
    def fill(c):
        r = c.ret; f32 = lambda x: x
        m = [('taker_side', c.arg(0).d), ('maker_slot', c.arg(2)), ('timestamp', c.arg(3)), ('seq_num', c.arg(4)), ('maker_order_id', c.arg(6)), ('maker_client_order_id', c.arg(7)), ('maker_timestamp', c.arg(9)), ('taker_client_order_id', c.arg(11)), ('price', c.arg(13)), ('quantity', c.arg(14))]
        for n, v in m: yield 'records the %s' % n, eq(getattr(r, n), v)
        yield 'is marked as a fill', eq(r.event_type, 0)
        yield 'records whether the maker order is done', eq(r.maker_out, ite(c.arg(1), 1, 0))
        yield 'records maker and taker', and_(deep_eq(c.ex, field(r, 'maker'), c.args[5]), deep_eq(c.ex, field(r, 'taker'), c.args[10]))
    def out(c):
        r, n = c.ret, c.arg(3)
        yield 'is marked as an out event', eq(r.event_type, 1)
        yield 'records the order', and_(eq(r.side, c.arg(0).d), eq(r.timestamp, c.arg(1)), eq(r.seq_num, c.arg(2)), eq(r.owner_slot, n.owner_slot), eq(r.quantity, n.quantity), eq(r.order_id, n.key), deep_eq(c.ex, field(r, 'owner'), field(n, 'owner')))
    return Prop('O04', [Unit(EQ + 'push_back', q_ok, push, on_err=True), Unit(EQ + 'pop_front', q_ok, pop), Unit(EQ + 'peek_front', q_ok, peek), Unit(EQ + 'peek_front_mut', q_ok, peek),
        Unit(EQ + 'revert_pushes', q_ok, revert), Unit('<' + Q + "EventQueueIterator<'a> as std::iter::Iterator>::next", it_req, it, name='iter::next'),
        Unit(EQ + 'len', q_ok, size(None)), Unit(EQ + 'is_empty', q_ok, size(lambda n: eq(n, 0))), Unit(EQ + 'full', q_ok, size(lambda n: eq(n, NQ))),
        Unit(Q + 'FillEvent::base_quote_change', None, change), Unit(Q + 'FillEvent::new', None, fill), Unit(Q + 'OutEvent::from_leaf_node', None, out)])
PROPS = {'O01': o01, 'O04': o04}
