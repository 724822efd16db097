TNOTE = NOTE + 'Bank and account helpers are used by their contracts (B01, B02, B05-B07, A02, A03); health values are an arbitrary function of the change of the token balance, the transfer is recorded with its accounts and amount, the oracle reading is arbitrary. '
p('T01', 'A deposit credits exactly what is transferred in and respects all deposit limits',
  'A deposit transfers the amount from the token account into the vault of the bank once, signed by the depositor, and credits the position with the same amount; bank totals move with the position. With reduce only (of the call or of the bank) it takes no more than what is owed, rounded up, and a bank in reduce only mode rejects asking for more without the reduce only flag of the call. A deposit that leaves a positive balance stays within the deposit limit of the bank, and the account within the deposit limit of the group. A new position is opened only if the oracle price is valid. An account being liquidated (outside a health region) must recover by the deposit, which clears its flag. Net deposits follow. Only an empty, unused position is closed, and never by the deposit anyone may make; nothing else in the account and in the bank changes.',
  'all banks, accounts, amounts, oracle readings and health values', 'Rounding, reduce only, limits, liquidation and health regions interact; the program tests deposit a few amounts.',
  [IXD + 'token_deposit.rs', BANK, ACC], [('token_deposit, token_deposit_into_existing', IXD + 'token_deposit.rs')], TNOTE + 'Assumes bank indexes of at least one, fee rates not negative and at most one position per token.')
p('T02', 'A withdrawal charges what is paid out and cannot evade borrow limits or health',
  'A withdrawal pays out of the vault of the bank once, to the given token account, what was asked for (or, asking for all without borrowing, the deposits rounded down) and charges the position the same plus the loan fee on what is newly borrowed; bank totals move with the position. Borrowing needs the flag of the call, a bank that allows borrows, a confident and recent oracle price, and stays within the utilization and net borrow limits; a withdrawal that borrows nothing may not leave borrows above deposits. Outside a health region, init health computed with the position before and adjusted by the change of the balance stays positive or does not fall; if the health accounts do not cover the token, nothing may be borrowed and init health is not negative. An account being liquidated must have recovered first. A delegate withdraws only to the associated token account of the owner and only the whole position. Net deposits follow; only an empty, unused position is closed; nothing else changes.',
  'all banks, accounts, amounts, oracle readings and health values', 'The checks depend on borrow, delegate, health region, liquidation and health cache coverage in combination; the program tests sample a few.',
  [IXD + 'token_withdraw.rs', BANK, ACC], [('token_withdraw', IXD + 'token_withdraw.rs')], TNOTE + 'Assumes bank indexes of at least one, fee rates not negative and at most one position per token.')
SNOTE = NOTE + 'Perp position, market, bank and account helpers are used by their contracts (P01-P03, P05, B01, B02, A02, A03); oracle prices are arbitrary non-negative numbers. '
p('P04', 'Settling perp pnl moves one amount between profit and loss and creates no money',
  'Settling pnl takes two different accounts with positions in the market and its settle token, the first with a profit and the second with a loss after funding is settled. The amount settled is positive and the smallest of the two settle limits (of the current window, for the unsettled pnl) and of what the second account can pay out of its own assets by its health cache, so it never exceeds the profit or the loss. The perp quote positions move by funding and by exactly that amount in opposite directions; in the bank of the settle token (no other is accepted) the first account is credited the amount less the fee, the second charged the amount without a loan fee, and the settler credited the fee, which lies between zero and the amount and is computed from the health, unsettled profit and position value of the first account. Bank totals move with the positions; transfer statistics follow; nothing else in the accounts and the bank changes.',
  'all markets, banks, accounts, prices, health values and times', 'Limits, health, funding and fees interact; program tests settle a few positions.',
  [IXD + 'perp_settle_pnl.rs', COMP, PMK], [('perp_settle_pnl', IXD + 'perp_settle_pnl.rs')], SNOTE + 'Health values and the payable amount are arbitrary here (H04 specifies them); the settler account is taken to be different memory from the other two.')
p('P06', 'Forced closing nets a long against a short at the oracle price',
  'The first account must be long and the second short in the market. As many lots are closed as both have, so neither is flipped, as one trade each in opposite directions, paid for at a recent oracle price: the quote positions move by exactly lots times lot size times price, in opposite directions, and open interest falls by both. Nothing else in the market and the accounts changes.',
  'all markets, positions and oracle prices', 'The program test closes one pair of equal positions.',
  [IXD + 'perp_force_close_position.rs', COMP], [('perp_force_close_position', IXD + 'perp_force_close_position.rs')], SNOTE + 'How the trade changes entry prices and allowances is P01 and P03.')
p('P07', 'Settling fees takes a loss up to the fees accrued and keeps init health',
  'Settling fees of a perp market against an account first settles its funding. If its settle limit for the unsettled pnl allows a loss and the market has accrued fees, the smallest of that limit, the fees accrued and the maximum of the caller (which must be positive) is settled, so never more than the loss: the perp quote position is credited it, its token position in the bank of the settle token is charged the same with the totals of the bank, the fees of the market move from accrued to settled, and the transfers counted for position and account fall by it rounded. Init health of the account, computed after all that, must not be negative. Otherwise only funding is settled; nothing else in market, bank and account changes.',
  'all markets, banks, accounts, prices and health values', 'The program test settles a few amounts in one account.',
  [IXD + 'perp_settle_fees.rs', COMP, PMK], [('perp_settle_fees', IXD + 'perp_settle_fees.rs')], SNOTE + 'Health values are arbitrary here.')
