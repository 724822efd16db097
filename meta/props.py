"""The properties: writes properties.jsonl and MANIFEST.json (python3 meta/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'programs/mango-v4/src/'
P = []      # (id, title, statement, over, quantifier text, why, files, mechanism, level_note)
def p(id, title, statement, text, why, files, mech, note, over=('inputs', 'histories')):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=list(over), text=' '.join(text.split()), why=' '.join(why.split()),
                  files=[S + f for f in files], mech=[dict(name=a, where=S + b) for a, b in mech], note=' '.join(note.split())))
BANK = 'state/bank.rs'; COMP = 'state/mango_account_components.rs'; PMK = 'state/perp_market.rs'; ACC = 'state/mango_account.rs'
NOTE = 'Proof of every listed contract clause on the MIR of the current source, for all inputs that meet the stated precondition; partial correctness (an error or panic rolls the transaction back). '

p('B01', 'Bank totals are exactly the sums of the token positions',
  'Whenever a deposit, withdrawal, fee charge, dusting or transfer changes token positions, the bank\'s total deposits change by exactly the change of the positive parts of those positions and its total borrows by exactly the change of the negative parts. No other balance field of the bank moves except the net borrow window, the dust and the collected fees.',
  'all bank states with indexes >= 1, all positions, all amounts, all times; by induction over operations, all histories', 'The bank tests sample a dozen start values; the sum invariant is over every position and every sequence of operations.',
  [BANK], [('deposit/withdraw/change/transfer', BANK), ('dust_if_possible', BANK)], NOTE + 'The step from per-operation deltas to the global sum is the usual induction over operations; assumes 1 <= index <= 2^42.')
p('B02', 'Balance changes move exactly the requested value and dust is never minted',
  'A deposit, withdrawal, signed change or transfer changes the native value of the position by the requested amount (less the loan origination fee), up to a few units of the smallest fixed-point step; nothing is minted or lost except the remainder of less than one native unit that moves into the bank\'s dust when a position is emptied. A position that is in use is never dusted by the operations that respect use, and a position reported inactive is empty and unused.',
  'all bank states with indexes >= 1, all positions and amounts', 'Rounding and dusting depend on the exact index and the sign change of the position; tests sample a few indexes.',
  [BANK], [('deposit_internal, withdraw_internal', BANK), ('dust_if_possible', BANK), ('checked_transfer_with_fee', BANK)], NOTE + 'Tolerance: one raw unit of each index plus two raw units of native value. checked_transfer_with_fee is verified against the contracts of its callees.')
p('B03', 'The loan origination fee is the rate times the newly borrowed amount',
  'When a withdrawal, a transfer or an explicit charge makes a position borrow, the fee is the loan origination fee rate times the newly borrowed part only, is charged to that position and credited once to the collected fees, and the reported loan is the borrowed part plus the fee. Deposits and the fee-free operations never charge it.',
  'all bank states, positions and amounts', 'Tests sample few positions; which part is newly borrowed depends on the sign and size of the position at the current index.',
  [BANK], [('withdraw_internal', BANK), ('withdraw_loan_origination_fee', BANK)], NOTE)
p('B04', 'The net borrow limit of the window is counted and enforced',
  'Every newly borrowed native amount (rounded up, including the fee) is added to and every repaid amount is taken off the net borrows of the current window, which restarts at zero only when the window is over and is aligned to its length. The limit check accepts exactly when net borrows, valued at the larger of oracle and stable price, are within the limit (or the limit is off or net borrows are negative), and a transfer that grows borrows is only accepted within the limit.',
  'all bank states, amounts and times, hence all histories within and across windows', 'Depends on history and time; tests walk one sequence.',
  [BANK], [('update_net_borrows', BANK), ('check_net_borrows', BANK), ('remaining_net_borrows_quote', BANK)], NOTE + 'Time plus window length does not overflow u64.')
p('B05', 'Deposit limits, utilization limits and reduce-only modes are enforced',
  'The deposit limit check accepts exactly when native deposits plus tokens possibly held in open orders are within the limit (zero meaning none), the utilization check exactly when native borrows are within the configured share of deposits, and the amount reported as remaining never exceeds the limit. A token transfer inside the protocol that grows deposits is accepted only within the deposit limit, leaves no borrow at the source when borrowing is disabled and no deposit at the target when deposits are disabled.',
  'all bank states, positions and amounts', 'Tests sample single points of the limits; boundary and rounding cases are not reached.',
  [BANK], [('check_deposit_and_oo_limit, remaining_deposits_until_limit', BANK), ('enforce_max_utilization_on_borrow', BANK), ('checked_transfer_with_fee', BANK)], NOTE)
p('B06', 'Interest indexes never fall and depositors earn no more than borrowers pay',
  'For every configuration that verification accepts, updating the indexes never lowers the deposit or the borrow index; the deposit rate is the borrow rate times the utilization, the loan fee is charged on top and equals the fee rate on the native borrows for the elapsed time. The average utilization stays between 0 and 1, and an interest rate scaling step moves towards the target utilization by at most the adjustment factor and never below 1.',
  'all bank states, totals and elapsed times', 'Rates, utilization and rounding interact over the whole range of totals and time; tests sample a handful.',
  [BANK], [('compute_index', BANK), ('compute_interest_rate, interest_rate_curve_calculator', BANK), ('compute_new_avg_utilization', BANK), ('update_interest_rate_scaling', BANK)], NOTE + 'f64 scaling is treated as a real number.')
p('B07', 'The borrow rate follows the configured curve',
  'The borrow rate is the piecewise linear function of utilization (clamped to 0..1) through the configured points, with the configured end rates, times the rate scaling when one is set. Within a segment it never leaves the range of that segment\'s end rates by more than rounding.',
  'all utilizations, all ordered curves, all scalings', 'A curve has unboundedly many points; tests check a few.',
  [BANK], [('interest_rate_curve_calculator', BANK)], NOTE, over=('inputs', 'configurations'))
p('B08', 'The stable price moves only within its growth limits',
  'An update moves the stable price towards the oracle price, never past it and by no more than the configured growth rate for the elapsed time (at most ten minutes count); updates less than ten seconds apart change nothing, and a pending reset jumps to the first positive price. Delay prices change only within the delay growth limit of the previous interval\'s price, and a constant oracle price leaves the stable price and every delay price unchanged.',
  'all model states, prices and times: every history of updates', 'The model is a history-dependent filter; tests replay three fixed price paths.',
  ['state/stable_price.rs'], [('StablePriceModel::update', 'state/stable_price.rs')], NOTE + 'f64 arithmetic is treated as real arithmetic. A defect found here (delay average over unclamped time) is fixed in /repo.')
p('B09', 'Asset and liability weights shift and scale only within their configured bounds',
  'The maintenance weights equal the old ones before a weight shift starts, the targets after it ends, and the linear interpolation (never outside old and target) in between. The scaled init asset weight never exceeds the configured one and equals it times limit/deposits once total deposits (valued at the price) exceed the scaling limit; the scaled init liability weight is never below the configured one and equals it times borrows/limit beyond the borrow scaling limit.',
  'all bank states, prices and times', 'The weights are functions of totals, prices and time over their whole ranges; tests check few points.',
  [BANK], [('maint_weights', BANK), ('scaled_init_asset_weight, scaled_init_liab_weight', BANK)], NOTE + 'f64 treated as real.')
p('B10', 'Bank configuration is consistent and is inherited completely by further banks',
  'Bank verification accepts only configurations with ordered rate curve points, non-negative rates and fees, init asset weight <= maint asset weight, maint liability weight <= init liability weight, utilization target and vault ratio in 0..1, positive weight scaling starts, and the extra requirements of reduce-only, liquidation-disabled and force-withdraw modes. A further bank for the same token takes over every setting, oracle, index and model of the existing one and starts with zero balances, fees, dust, window and flash loan state.',
  'all configurations, all source banks', 'Every field matters; tests build one bank.',
  [BANK], [('verify', BANK), ('from_existing_bank', BANK)], NOTE + 'A defect found here (fallback oracle not inherited) is fixed in /repo.', over=('inputs', 'configurations'))
p('P01', 'Perp trades keep positions, entry price and open interest consistent',
  'A trade moves base and quote by exactly the traded amounts and the market\'s open interest by the change of the absolute base position. Increasing averages the entry price by lots, reducing keeps it, closing clears it, flipping restarts it at the trade price; reducing, closing and flipping realize exactly the pnl against the entry price. Fees, liquidation transfers and pnl takeovers move quote and allowances by exactly their amount, taker and maker lots are booked on the right side, and unsettled pnl is quote plus base valued at the price.',
  'all positions and trades, hence all trade histories', 'Sign combinations of position and trade with arbitrary sizes; tests sample about ten.',
  [COMP, PMK], [('PerpPosition::record_trade', COMP), ('record_trading_fee, record_liquidation_*', COMP), ('add_taker_trade, remove_taker_trade, adjust_maker_lots', COMP)], NOTE + 'f64 entry price treated as real.')
p('P02', 'Funding is charged symmetrically, bounded, once per elapsed time',
  'Settling funding charges a position exactly its base lots times the funding accrued since it last settled, for longs and shorts by their own index, and leaves nothing due. A funding update charges longs and shorts the same delta, for at most one hour, at the premium of the order book over the oracle clamped to the configured bounds (maximal without asks, minimal without bids, zero with an empty book), and nothing for time already charged. A socialized loss is spread over the open interest, increasing longs\' and decreasing shorts\' funding by the same share.',
  'all market states, positions, prices and times', 'History and clamping; the two existing tests sample one position each.',
  [PMK, COMP], [('update_funding_and_stable_price', PMK), ('socialize_loss', PMK), ('settle_funding, unsettled_funding', COMP)], NOTE + 'The book side\'s impact price is an arbitrary price or none (assumed contract).')
p('P03', 'Perp pnl settlement is limited by the settle allowances',
  'The settleable pnl is the recurring allowance (never above unsettled pnl) plus the limit factor on the stable-price position value, plus the one-shot allowance in its own direction, less what was settled in the current window; the limits always straddle zero. A settlement is capped to that without changing sign, uses the one-shot allowance first and the window after it, and the window restarts only when it is over. Trades that close or reduce a position grant recurring allowance proportional to the reduced position value, and opening takes it away.',
  'all positions, markets, prices and times', 'Saturating arithmetic over three allowances, two signs and a time window; tests sample points.',
  [COMP], [('settle_limit, available_settle_limit, apply_pnl_settle_limit', COMP), ('update_settle_limit, record_settle', COMP), ('update_trade_stats/record_trade', COMP)], NOTE)
p('P05', 'Settle fee, price limits, lot conversion and order ids follow the market rules',
  'The settle fee is between zero and the settlement, zero for dust pnl and for healthy accounts below the threshold, and bounded by the flat fee (or twice of it) and the low-health fraction, reaching the full fraction for a liquidatable account. Resting bids are allowed exactly up to the maint liability weight times the oracle price and asks exactly down to the maint asset weight times it. Lot and native prices convert exactly (down-rounding), and every new order gets the next sequence number with a key of price and (for bids inverted) sequence number.',
  'all markets, prices, amounts and healths', 'Arithmetic over full ranges; unit tests are absent for most of these.',
  [PMK], [('compute_settle_fee', PMK), ('inside_price_limit', PMK), ('lot_to_native_price, native_price_to_lot', PMK), ('gen_order_id', PMK)], NOTE)

NA = [] # (id, reason)
import importlib.util, sys
for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if f.startswith('props_') and f.endswith('.py'): exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), f)).read())

na = dict(NA)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'], 'text': x['text']}, 'why_tests_cant': x['why'],
                            'anchors': {'files': x['files'], 'mechanism': x['mech']}}) + '\n')
man = {'version': 1, 'setup_cmd': './setup.sh',
       'hooks': {'guard': 'none: no hook was added to /repo', 'enable': 'not needed: the checks read the compiler\'s MIR of /repo\'s unchanged source', 'source_commits': []},
       'checks': [{'property': x['id'], 'quick_cmd': './check %s quick' % x['id'], 'thorough_cmd': './check %s thorough' % x['id'],
                   'technique': 'contract-based deductive verification: contracts on the real functions, verification conditions from rustc MIR, discharged by z3/cvc5',
                   'level': 'proof', 'level_note': x['note']} for x in P if x['id'] not in na],
       'not_applicable': [{'property': k, 'reason': v} for k, v in NA]}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(man['checks']), 'checks')
