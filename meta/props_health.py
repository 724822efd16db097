CACHE = 'health/cache.rs'
HNOTE = NOTE + 'Floating point numbers are treated as real numbers. Every account size (number of tokens, markets and perp positions) is covered: sums are partial sums with loop invariants, not unrolled. Token infos are assumed distinct. '
p('H01', 'Health weighs deposits and borrows with the price and weight of its health type',
  'Initial health values assets at the lower and liabilities at the higher of oracle and stable price, the other health types use the oracle price. A token contributes its balance times asset weight and asset price if the balance is not negative and times liability weight and liability price otherwise, with the scaled initial weights for initial health, the unscaled initial weights for liquidation end health and the maintenance weights for maintenance health. The amount that may be taken until health reaches zero never makes health negative (up to rounding), is zero without positive health, and leaves no more that could be taken.',
  'all prices, weights, balances and health types', 'The tests compute health for a few accounts; the choice of weight and price depends on the health type and on signs.',
  [CACHE], [('Prices, TokenInfo', CACHE), ('spot_amount_taken_for_health_zero', CACHE)], HNOTE)
p('H02', 'Perp positions count for health with the worst case of their open orders',
  'The health unsettled pnl of a perp position is its quote plus the smaller of the outcomes that all bids execute and that all asks execute: the resulting base position is weighed with the asset or liability weight and price of its own sign, executed orders pay the order price of the health type. A positive result is multiplied with the overall asset weight of the health type, a negative one counts fully.',
  'all positions, orders, prices, weights and health types', 'Sign changes between position, bids and asks select the weights; tests sample a few positions.',
  [CACHE], [('PerpInfo::unweighted_health_unsettled_pnl, health_unsettled_pnl', CACHE)], HNOTE)
p('H03', 'Account health is the sum over all tokens, open orders and perp positions',
  'The effective balance of a token is its balance plus the health unsettled pnl of all perp positions that settle in it. Health is the sum of the token contributions of the effective balances and of the contributions of the spot markets with open orders, where a market contributes the worse of all its reserved funds turning into base and all turning into quote, converted at oracle price or the best order price, on top of everything the orders of all markets could turn into of that token. The amount of pnl that may be settled is what can be taken of the settle token until the maintenance health that ignores negative perp positions is zero. The potential tokens in open orders are everything reserved on the markets of the token.',
  'all health caches with any number of tokens, markets and perp positions', 'Sums over arbitrary account contents; tests use two or three positions.',
  [CACHE], [('health, health_sum', CACHE), ('effective_token_balances', CACHE), ('compute_serum3_reservations', CACHE), ('Serum3Info::health_contribution', CACHE), ('perp_max_settle, total_serum3_potential', CACHE)], HNOTE)
p('H04', 'Liquidation proceeds in phases: orders first, then positions, bankruptcy last',
  'An account is in the first phase while an open orders account has funds or a perp position has open orders; in the second when nothing of the first is left and it has both a liquidatable deposit and a liquidatable borrow, perp base lots, unprocessed perp fills, or a perp position without base and with positive quote; in bankruptcy only when nothing of the first two phases is left and it has a borrow or a perp position without base and with negative quote. Liquidatable spot assets need a deposit and an effective balance of at least one native token in a token that allows asset liquidation, borrows a negative balance and effective balance. The checks that a phase is over pass exactly when nothing of it and of the phases before it is left.',
  'all health caches with any number of tokens, markets and perp positions', 'The flags quantify over all positions of the account.',
  [CACHE], [('has_*, in_phase*_liquidation', CACHE), ('require_after_phase1_liquidation, require_after_phase2_liquidation', CACHE)], HNOTE)
p('H05', 'Updating a health cache changes exactly the entry concerned, consistently',
  'Adjusting a token balance changes the balance of that token by the amount and takes over the scaled weights of the bank (which are the configured initial weights, scaled by the limit once deposits or borrows exceed it), and nothing else. Recomputing a spot market takes over the reserved amounts, extreme order prices and whether the open orders account has any funds or rebates, adds the free amounts to its two tokens, and changes nothing else. Recomputing a perp market takes over position, unsettled funding, unprocessed fills, orders and the weights and lot size of the market at the cached prices, and changes nothing else.',
  'all health caches, banks, positions and amounts', 'Frame conditions over the whole cache; tests compare one number.',
  [CACHE, BANK], [('adjust_token_balance', CACHE), ('recompute_serum3_info, Serum3Info::new', CACHE), ('recompute_perp_info, PerpInfo::new', CACHE)], HNOTE)
