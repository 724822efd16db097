LIB = 'lib.rs'; AIX = 'accounts_ix/'; INS = 'instructions/'
ENT = ('Proof over the dispatch function, account validation and handler of each instruction (extracted MIR); calls outside the checked part are arbitrary (any result, any new contents of what they can write, by call-graph analysis), so nothing is assumed of them. '
       'Trusted: anchor\'s account wrappers (type, owner program and signer flag checks), distinct accounts are distinct memory, CPIs do not change mango-owned account data. ')
ALLI = 'all account lists, account contents, signers, clock values and instruction data'
p('X01', 'An instruction whose gate is closed never succeeds',
  '''Every instruction that has a bit in the group's instruction gate returns Ok with an effect only if that bit (its own, as numbered in IxGate) is open in the group account it was called with: account, deposit, withdraw, liquidation, perp, serum,
  token conditional swap, fee, oracle stub, registration and admin instructions. The v1 serum order instruction needs its v1 or its v2 gate. Flash loans (whose group is found among the remaining accounts), edit instructions and
  token_charge_collateral_fees are not covered by this claim.''',
  ALLI, 'There are 75 gated entry points, each with its own check; tests never run with a closed gate for most of them.',
  [LIB, 'state/group.rs', AIX + 'mod.rs', INS + 'mod.rs'], [('dispatch of each instruction and its account constraints', AIX + 'mod.rs'), ('Group::is_ix_enabled', 'state/group.rs'), ('inline gate checks', INS + 'serum3_place_order.rs')], ENT, over=('inputs', 'configurations'))
p('X02', 'Only owner or delegate act for an account, and frozen accounts are left alone',
  '''Every instruction that moves an account's funds, places or cancels its orders, edits or closes it, or uses it as liquidator succeeds with an effect only if the named authority signed and is that account's owner, its delegate or its unexpired temporary delegate
  (for close, edit, expand and sequence check: its owner), and, where the instruction works on an operational account, only if the account is not frozen at the current time (cancelling perp orders other than by side works on frozen accounts too). This includes
  liquidator and liquidatee, both sides of settlement and force close, and the DAO account of a fee buyback. When a serum market is force-closed anyone may close its empty open orders. Deposits into existing accounts need the token authority's signature only.''',
  ALLI, 'Tests sign with the right owner; every instruction has its own check and the wrong account may be checked.',
  [LIB, ACC, AIX + 'mod.rs', INS + 'mod.rs'], [('account constraints', AIX + 'mod.rs'), ('is_owner_or_delegate, is_operational', ACC), ('owner checks in the handlers', INS + 'mod.rs')], ENT + 'A defect found here (a frozen DAO account was used in a buyback) is fixed in /repo.', over=('inputs', 'configurations'))
p('X03', 'Admin instructions need the right admin, and destructive ones a testing group',
  '''Group, token, market, oracle stub and insurance fund administration succeeds only if the admin signed and is the admin of the passed group; token_register_trustless and serum3_register_market also accept the fast listing admin, and gate setting and the
  edit instructions also accept the security admin, and nobody else. Closing a group, closing a perp market, deregistering a token or serum market, adding a bank and closing an oracle stub work only in a testing group.''',
  ALLI, 'Tests only try the right admin.', [LIB, AIX + 'mod.rs', INS + 'token_edit.rs', INS + 'perp_edit_market.rs'],
  [('account constraints', AIX + 'mod.rs'), ('admin checks in handlers', INS + 'token_edit.rs')], ENT, over=('inputs', 'configurations'))
p('X04', 'The accounts of an instruction belong together',
  '''Every account an instruction relies on is tied to the others before it is used: mango accounts, banks, markets, mint infos and reservations belong to the group passed; vaults and oracles are the ones named by their bank or market; bids, asks, event queue, serum
  program and serum market are the ones named by the market; settle, fee and insurance banks hold the right token; the insurance vault is the group's; swap and settlement partners that must differ do differ; a forced withdrawal only goes to the owner's own or
  associated token account, and a forced perp close only in a force-close market. The exact relations per instruction are listed in contracts/access.py.''',
  ALLI, 'Passing a foreign account is an attack no happy-path test performs; there are about 250 relations.',
  [LIB, AIX + 'mod.rs', INS + 'mod.rs'], [('has_one, address and constraint clauses', AIX + 'mod.rs'), ('inline checks', INS + 'mod.rs')], ENT, over=('inputs', 'configurations'))
p('X05', 'The security admin can only restrict; everything else needs the group admin',
  '''If the signer is not the group's admin, ix_gate_set never reopens a gate that was closed; editing a token changes nothing of the mint info and of any bank except setting the init asset weight, the platform liquidation fee or the collateral fee to zero, making
  reduce-only stricter, and aborting a maint weight shift; editing a perp market changes nothing but setting the overall init asset weight to zero or turning reduce-only on; editing a serum market only turns reduce-only on. ix_gate_set stores exactly the given gates.''',
  'all edits, i.e. all combinations of options, all banks of the token, all previous contents', 'About 60 optional edits, each needs its own flag; a forgotten one is invisible to tests.',
  [INS + 'ix_gate_set.rs', INS + 'token_edit.rs', INS + 'perp_edit_market.rs', INS + 'serum3_edit_market.rs'],
  [('ix_gate_set', INS + 'ix_gate_set.rs'), ('token_edit', INS + 'token_edit.rs'), ('perp_edit_market', INS + 'perp_edit_market.rs'), ('serum3_edit_market', INS + 'serum3_edit_market.rs')], ENT + 'The loop over the banks has an invariant over a ghost flag, so any number of banks is covered.', over=('inputs', 'configurations'))
