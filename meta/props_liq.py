IXD = 'instructions/'
LNOTE = NOTE + 'Banks, accounts and the health cache are used by their contracts (B01-B03, A02, A03, H05); which slot or entry a callee picks is a ghost witness. '
p('L01', 'Token liquidation moves what restores health at the oracle price plus fees',
  'The liqee must have deposits of the asset, which must allow liquidation, and borrows of the liability, counting both its position and the effective balance with perp pnl. The liability amount moved is the smallest of what brings liquidation end health to zero, what the collateral that counts can pay for, what is owed and what the liqor asked for, and never negative. The liqee pays the asset at the oracle price times all fee factors, the liqor receives it times the liquidator fee factors, and the difference is collected as fees of the asset bank. The liqor takes over the liability and pays the loan fee on what it newly borrows. Bank totals move with the positions, up to rounding and dust of at most one native unit; the cached health follows the balances, and the liquidation flag is cleared exactly if liquidation end health has recovered. Nothing else in the accounts and banks changes.',
  'all banks, prices, fees, positions, accounts and health caches', 'Which limit binds and which side of zero each position is on select the amounts; the tests walk a table of cases.',
  [IXD + 'token_liq_with_token.rs', BANK, CACHE], [('liquidation_action', IXD + 'token_liq_with_token.rs')], LNOTE + 'Assumes indexes are at least one, fees not negative, positive oracle prices and at most one position per token. Init health after the liquidation is an arbitrary number here (H03 specifies it).')
p('L02', 'A token bankruptcy is paid by the insurance fund, then by all depositors alike',
  'Only a debt negative both in position and in effective health balance, after the other liquidations, by another account that is not being liquidated. The loss is the smaller of both. The insurance fund (if the token may use it) pays the loss or the requested maximum at the oracle price plus liquidation fee, rounded up, at most all it has, to the vault of the insurance token. The liqee is credited what was paid for; the liqor gets the insurance tokens, takes over the liability, and has init health afterwards; if the debt is in the insurance token itself the liqor is not involved. Only when the fund is used up is the rest socialized: every bank of the token, and no other, gets the same lower deposit index, by the rest divided by all indexed deposits, and the liqee is credited the rest, at most the borrows of each bank, until the debt is gone. The cached health follows the position, and the liquidation flag is cleared exactly if liquidation end health has recovered.',
  'all accounts, banks (any number and totals), prices, fees and insurance funds', 'Several banks and partly covered losses only show up in sequences the tests (one bank, one program test) do not reach.',
  [IXD + 'token_liq_bankruptcy.rs', BANK], [('token_liq_bankruptcy', IXD + 'token_liq_bankruptcy.rs')], LNOTE + 'Health is an arbitrary number per account and type; transfers, health caches, oracle reading and the check of the bank list are recorded calls; the banks loaded in the loops are arbitrary, also after the changes made before (so the loss is spread by the totals the banks then have). A defect found here (banks after the last one credited kept the old index) is fixed in /repo.')
p('L03', 'Negative perp pnl is settled first, then insured, and only the rest socialized',
  'Only pnl that is negative after funding is taken over. First the liqor settles it: as much as the settle limit of the liqee, what the liqee can pay in the settle token and the requested maximum allow, never more than the loss; the liqee pays and the liqor is credited that amount of the settle token, and the cached health follows. Bankruptcy starts only if all that could be settled was settled and a loss is left. Then at most the rest of the loss, at most what brings liquidation end health to zero, is lifted off the liqee: the liqor takes over up to the rest of its maximum and is paid for it by the insurance fund (if the market may use it) at the oracle prices plus liquidation fee, rounded up, at most all the fund has; only if the fund is used up the remainder is socialized over the open interest, longs and shorts alike. Quote positions, settle limits and transfer counters follow exactly these amounts after funding; nothing else in the accounts, banks and market changes. The amount of a token that restores health values what is owed at the liability weight and the rest at the asset weight.',
  'all accounts, positions, markets, banks, prices, fees, requests and insurance funds', 'Which limit binds (settle limit, own assets, request, health, fund) selects the path; the tests walk a table with equal rounding and one lot size.',
  [IXD + 'perp_liq_negative_pnl_or_bankruptcy.rs', CACHE], [('liquidation_action', IXD + 'perp_liq_negative_pnl_or_bankruptcy.rs'), ('spot_amount_taken_for_health_zero, spot_amount_given_for_health_zero', CACHE)], LNOTE + 'Covers the inner function with all its arguments; perp positions and the market are used by their contracts (P01-P03). What the liqee can pay at most (H04) and its effective balances (H02) are arbitrary numbers here. Assumes a fee and open interest that are not negative, positive prices and the settle bank of the market.')
