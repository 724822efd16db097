ANOTE = NOTE + 'Every account size is covered: slots are quantified over, searches by loop invariants. The dynamic part of the account is modelled as one sequence of slots per kind of position; A01 shows that the slots are separate memory. '
p('A01', 'The slots of a mango account are laid out in order and never overlap',
  'In the dynamic part of a mango account the sections for token positions, spot open orders, perp positions, perp orders and token conditional swaps follow each other in this order, each preceded by four bytes of padding and a four byte length, with its slots adjacent; every existing slot lies inside its section, and the account size covers the discriminator, the fixed part, all sections and 64 reserved bytes. A resize is refused exactly when it lets the number of accounts needed for health grow beyond 28 (two per token and perp position, one per spot market) or perp orders or token conditional swaps grow beyond 64.',
  'all slot counts and slot numbers', 'All five counts are free; tests build one or two account sizes.',
  [ACC], [('dynamic_*_offset, space', ACC), ('MangoAccountDynamicHeader::*_offset, account_size', ACC), ('check_resize_from, expected_health_accounts', ACC)], NOTE + 'Slot sizes are those of the compiler the MIR is taken from. resize_dynamic_content itself (moving the bytes) is not covered.')
p('A02', 'Looking up, opening and closing position slots is exact and unique per index',
  'Looking up a token position, spot open orders entry or perp position by index succeeds exactly if the account has an active slot for that index, returns that slot and changes nothing. Ensuring a token or perp position returns the existing slot unchanged or turns a free slot into an empty position for the index, creating a spot entry is refused if there is one and uses a free slot otherwise; at most one slot per index is kept, and a new perp position marks its settle token as in use. Deactivating frees exactly the slot concerned (a token position only when it is not in use), releases the settle token of a perp position, and leaves all other slots and the rest of the account alone. Decrementing a token\'s use closes its position only if it is unused and empty afterwards.',
  'all accounts with any number of slots in any state', 'Quantifies over all slots; tests use accounts with a handful of slots.',
  [ACC], [('token_position*, serum3_orders*, perp_position*', ACC), ('ensure_token_position, ensure_perp_position, create_serum3_orders', ACC), ('deactivate_*, token_decrement_dust_deactivate', ACC)], ANOTE)
p('A03', 'Only the owner or a delegate acts, and the health gates decide exactly',
  'An account is operational exactly when its freeze has ended before now; its signer may be the owner, the delegate, or the temporary delegate until that expires. The check before an action refuses an account exactly while it is being liquidated and neither its initial nor its liquidation end health is above minus one native unit; otherwise the liquidation flag is cleared. The check after an action passes exactly when initial health is not negative or has not decreased (compared in whole native units below minus 1000); the strict check only when it is not negative. Liquidation starts exactly at negative maintenance health and goes on until liquidation end health is above minus one native unit, which is reported and clears the flag. Nothing else in the account changes.',
  'all accounts, signers, times and healths', 'Boundaries of flags, times and three health values.',
  [ACC], [('is_operational, is_owner_or_delegate, is_delegate', ACC), ('check_health_pre*, check_health_post*', ACC), ('check_liquidatable, maybe_recover_from_being_liquidated', ACC)], ANOTE + 'Health is an arbitrary function of the health type here (H03 specifies it).')
p('A04', 'Perp orders and fills are booked to the right slot and position exactly once',
  'Placing a perp order records market, side, tree, id and quantity in its slot and adds its lots to the order lots of the position; removing it frees the slot and takes the given lots off the side of the order. An out event takes its lots off and frees the slot exactly if the slot still holds that order of that market. A fill settles funding, moves base by the filled lots and quote by price times lots (the maker also pays its fee), updates open interest and volume and returns the realized pnl; for the maker the filled lots leave the order lots and the order slot is reduced or, when the order is used up, freed, only if it still holds that order; paid maker fees accrue for buyback. For the taker the fill is taken off the unprocessed amounts. All other slots, positions and the rest of the account are unchanged. A free order slot or an order with a given id is found exactly if there is one.',
  'all accounts, markets, fills and events', 'Delayed events meet freed and reused slots; tests walk one sequence.',
  [ACC, COMP], [('add_perp_order, remove_perp_order', ACC), ('execute_perp_maker, execute_perp_taker, execute_perp_out_event', ACC), ('perp_next_order_slot, perp_find_order_with_*', ACC)], ANOTE + 'Assumes slots of events exist, prices and quantities of fills are not negative and one position per market; record_trade, settle_funding and record_trading_fee are used by their contracts (P01, P02).')
p('D01', 'Fees that can be bought back expire in stages and are spent once',
  'Buyback fees accrue to the current amount (saturating). When the expiry time is reached, the current amount becomes the previous amount, or both are dropped if a whole further interval has passed, and the expiry moves to the end of the interval that contains now; before that, or without an interval, nothing changes. Spending takes from the previous amount first, then the current, and never more than there is. Nothing else in the account changes.',
  'all amounts, times and intervals', 'Time boundaries; the test walks one sequence.',
  [ACC], [('expire_buyback_fees, accrue_buyback_fees', ACC), ('reduce_buyback_fees_accrued, buyback_fees_accrued', ACC)], NOTE)
