From f2cf3c45883c8d05d383abfb195fa15b3004fd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 1/5] fix: average the delay price over the time that was
 accumulated

StablePriceModel::update() limits the weight of one update in the price
accumulator to ten minutes but added the full elapsed time to the time
accumulator, so after any longer gap the average (and then the delay price)
was too low even when the oracle price never moved.
---
 programs/mango-v4/src/state/stable_price.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/state/stable_price.rs b/programs/mango-v4/src/state/stable_price.rs
index c70caa1..77999b9 100644
--- a/programs/mango-v4/src/state/stable_price.rs
+++ b/programs/mango-v4/src/state/stable_price.rs
@@ -133,7 +133,7 @@ impl StablePriceModel {
         //
         // Update delay price
         //
-        self.delay_accumulator_time += dt as u32;
+        self.delay_accumulator_time += dt_limited as u32;
         self.delay_accumulator_price += oracle_price * dt_limited;
 
         let delay_interval_index = self.delay_interval_index(now_ts);
-- 
2.43.0


From 741ed229bdad7fb94a68493dc1c99eeb597e1408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 2/5] fix: a bank added to a token keeps the token's fallback
 oracle

Bank::from_existing_bank() copied the primary oracle into fallback_oracle.
---
 programs/mango-v4/src/state/bank.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/state/bank.rs b/programs/mango-v4/src/state/bank.rs
index 827f8ca..221f12e 100644
--- a/programs/mango-v4/src/state/bank.rs
+++ b/programs/mango-v4/src/state/bank.rs
@@ -377,7 +377,7 @@ impl Bank {
             maint_weight_shift_duration_inv: existing_bank.maint_weight_shift_duration_inv,
             maint_weight_shift_asset_target: existing_bank.maint_weight_shift_asset_target,
             maint_weight_shift_liab_target: existing_bank.maint_weight_shift_liab_target,
-            fallback_oracle: existing_bank.oracle,
+            fallback_oracle: existing_bank.fallback_oracle,
             deposit_limit: existing_bank.deposit_limit,
             zero_util_rate: existing_bank.zero_util_rate,
             platform_liquidation_fee: existing_bank.platform_liquidation_fee,
-- 
2.43.0


From db4012cd447fddd0521bfb50969376e2494e24dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:55 +0000
Subject: [PATCH 3/5] fix: a frozen DAO account cannot take part in a fee
 buyback

---
 .../mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs b/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs
index 6b28381..b6362fa 100644
--- a/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs
+++ b/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs
@@ -22,7 +22,7 @@ pub struct AccountBuybackFeesWithMngo<'info> {
     #[account(
         mut,
         has_one = group,
-        constraint = account.load()?.is_operational() @ MangoError::AccountIsFrozen,
+        constraint = dao_account.load()?.is_operational() @ MangoError::AccountIsFrozen,
         address = group.load()?.buyback_fees_swap_mango_account
     )]
     pub dao_account: AccountLoader<'info, MangoAccountFixed>,
-- 
2.43.0


From 3c196221a3347158ed080d800bb1ed388723c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:07 +0000
Subject: [PATCH 4/5] fix: don't post a remainder that crosses an order staying
 on the book

---
 programs/mango-v4/src/state/orderbook/book.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/mango-v4/src/state/orderbook/book.rs b/programs/mango-v4/src/state/orderbook/book.rs
index ff5b7ad..74da9a0 100644
--- a/programs/mango-v4/src/state/orderbook/book.rs
+++ b/programs/mango-v4/src/state/orderbook/book.rs
@@ -122,6 +122,8 @@ impl<'a> Orderbook<'a> {
 
             let max_match_by_quote = remaining_quote_lots / best_opposing_price;
             if max_match_by_quote == 0 {
+                // don't post a remainder that crosses the order that stays on the book
+                post_target = None;
                 break;
             }
 
@@ -168,6 +170,8 @@ impl<'a> Orderbook<'a> {
                 orders_to_delete.push((best_opposing.handle.order_tree, best_opposing.node.key));
             } else {
                 orders_to_change.push((best_opposing.handle, new_best_opposing_quantity));
+                // base or quote lots are used up: don't post a remainder that crosses this order
+                post_target = None;
             }
 
             // order_would_self_trade is only true in the DecrementTake case, in which we don't charge fees
-- 
2.43.0


From 0dadcb4c237d2da62dc88e592af8b3fd3c279740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:07 +0000
Subject: [PATCH 5/5] fix: lower the deposit index of every bank when a loss is
 socialized

---
 programs/mango-v4/src/instructions/token_liq_bankruptcy.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs b/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
index 430b3b0..f919084 100644
--- a/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
+++ b/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
@@ -265,9 +265,6 @@ pub fn token_liq_bankruptcy(
                 liqee_liab_active =
                     bank.deposit_with_dusting(liqee_liab, amount_for_bank, now_ts)?;
                 amount_to_credit -= amount_for_bank;
-                if amount_to_credit <= 0 {
-                    break;
-                }
             }
         }
 
-- 
2.43.0

