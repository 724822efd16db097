OBN = 'state/orderbook/nodes.rs'; OBI = 'state/orderbook/bookside_iterator.rs'; OBT = 'state/orderbook/order_type.rs'; OBQ = 'state/orderbook/queue.rs'
p('O01', 'Book orders rank by price, then time, with valid pegged and expiry semantics',
  'Order keys put better prices first and, at equal price, earlier sequence numbers first, on both sides; prices and peg offsets are recovered from a key without loss. A pegged order\'s price is the oracle price plus its offset, is invalid beyond its peg limit and skipped outside the price range; an order with a time in force expires exactly when it is over. When the fixed and the pegged tree both have a next order, the better (or, on request, the worse) one by price, then sequence number, is returned with its correct price and validity.',
  'all keys, prices, offsets, limits, times and oracle prices', 'Ranking compares two encodings over the full integer range; tests use a few small prices.',
  [OBN, OBI, OBT], [('new_node_key, price data, expiry', OBN), ('rank_orders', OBI), ('Side::is_price_better, is_price_within_limit', OBT)], NOTE)
p('O04', 'The event queue keeps every event exactly once and in order',
  'Pushing appends the event at the end, or hands it back unchanged when the queue is full; popping removes and returns the oldest; peeking and iterating show the queued events in order; reverting pushes removes only the newest. No other event is lost, changed or reordered, the sequence number counts the pushes, and head and count stay in range. Fill and out events record exactly the sides, orders, owners, prices and quantities they are made from, and a fill moves base and quote by quantity and price times quantity with the taker\'s side.',
  'all queue states including wrap-around, hence all histories', 'Wrap-around of a 488 entry ring with every head and count; tests use few pushes.',
  [OBQ], [('EventQueue::push_back, pop_front, peek_front, revert_pushes', OBQ), ('EventQueueIterator::next', OBQ), ('FillEvent::new, base_quote_change, OutEvent::from_leaf_node', OBQ)], NOTE + 'Events are opaque records; their bytes are compared as values.')
p('O03', 'Order matching respects price, size, self-trade and price band rules',
  'A new order is matched with the orders of the other side in book order: valid ones within its price limit, at their price, each for as much as both orders and its base and quote limits allow, none passed over, until nothing can be matched or the fill limit is reached; invalid orders are never filled and post-only orders never match. An own order is filled without fees, taken off the book, or aborts, as asked. Every fill and dropped order has an event that names it truly, and is changed or removed on the book. The taker position gets the base and quote traded and pays the taker fee and the penalty; the market accrues the fees of both sides. Only the untraded remainder of a limit order is posted, at its price in its own tree, with its own id recorded in the account, within the price band, never crossing an order that stays; a full side drops its worst order only for a better one.',
  'all books, orders, accounts, limits, oracle prices and fees', 'The loop over an arbitrary book is decided by an invariant; tests match a few orders.',
  ['state/orderbook/book.rs', 'state/orderbook/order.rs'], [('Orderbook::new_order', 'state/orderbook/book.rs'), ('Order::price, post_target', 'state/orderbook/order.rs')], NOTE + 'The book is an arbitrary sequence of orders: the tree behind it, the event queue and the insertion of leaves are recorded calls (ranking and queue are O01, O04). A defect found here (crossing remainder of an ask with a quote limit) is fixed in /repo.')
