TCSF = 'state/token_conditional_swap.rs'; TRG = 'instructions/token_conditional_swap_trigger.rs'; ORC = 'state/oracle.rs'
p('C01', 'Conditional swaps trade only in their window and within price and limits',
  'A token conditional swap can be started only if it is an unexpired, not yet started premium auction whose price is in its range, and triggered only if it is unexpired and either (fixed premium) its price is in its range or (auctions) it has started. Its premium price is the oracle price plus the fixed premium, the premium growing linearly with elapsed time up to its full rate, or a linear walk from the lower to the upper limit; maker and taker fees apply the configured rates. A trade never buys or sells more than what is left of its limits, what the caller allows and what the positions permit (no new deposits or borrows where disallowed or reduce-only), never pays more than the price, and has both sides or none.',
  'all swaps, prices, times, positions and caller limits', 'Auction prices depend on time and three swap types; amounts on four limits, rounding and bank modes; tests sample few combinations.',
  [TCSF, TRG], [('TokenConditionalSwap::check_startable, check_triggerable, premium_price, maker_price, taker_price, fees', TCSF), ('max_buy_for_position, max_sell_for_position, remaining_buy, remaining_sell', TCSF), ('trade_amount', TRG)], NOTE + 'f64 is treated as a real number; swap types are 0..2 and prices positive.')
p('R01', 'Only fresh and confident prices of the configured oracle are used',
  'An oracle reading is accepted exactly when its deviation is within the configured share of its price and, where staleness is checked and limited, it is not too old in slots nor, if its update time is known, in time (at 450 ms per slot). The price of a bank comes from the bank\'s own oracle account when that reading is acceptable, else only from an acceptable reading of the bank\'s own fallback oracle account, else it is an error; a perp market only uses an acceptable reading of its own oracle. Configuration parameters are taken over unchanged, and a Pyth account that is not trading yields its last trading price, confidence and slot.',
  'all readings, configurations, slots and times', 'Staleness and confidence thresholds combine with the fallback choice; tests read a few recorded accounts.',
  [ORC, BANK, PMK], [('OracleState::check_staleness, check_confidence, check_confidence_and_maybe_staleness', ORC), ('Bank::oracle_price', BANK), ('PerpMarket::oracle_state, oracle_price', PMK), ('OracleConfigParams::to_oracle_config, pyth_get_price', ORC)], NOTE + 'Decoding an oracle account yields an arbitrary reading or an error (assumed contract on oracle_state_unchecked and fallback_oracle_state_unchecked); times and staleness limits up to 2^50.')
