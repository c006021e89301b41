From e2d9386840d632c76a2dc24d43e5d09e3e6c82f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 1/4] fix: pool with worthless scaled supply no longer divides
 by zero

After bad debt wipes out the supply index, the scaled supply can be non-zero
while its value rounds to zero; every later accrual then reverted with a
division by zero and the market was stuck for good.
---
 common/rates/src/rates.rs        | 4 ++++
 liquidity_layer/src/cache/mod.rs | 7 ++++---
 liquidity_layer/src/utils.rs     | 4 ++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/common/rates/src/rates.rs b/common/rates/src/rates.rs
index 9dc0e35..da3a15f 100644
--- a/common/rates/src/rates.rs
+++ b/common/rates/src/rates.rs
@@ -203,6 +203,10 @@ pub trait InterestRates: common_math::SharedMathModule {
         if supplied != self.ray_zero() && rewards_increase != self.ray_zero() {
             let total_supplied_with_interest =
                 self.mul_half_up(&supplied, &old_supply_index, RAY_PRECISION);
+            // Scaled supply can be worth nothing once bad debt has wiped out the supply index.
+            if total_supplied_with_interest == self.ray_zero() {
+                return old_supply_index;
+            }
             let rewards_ratio = self.div_half_up(
                 &rewards_increase,
                 &total_supplied_with_interest,
diff --git a/liquidity_layer/src/cache/mod.rs b/liquidity_layer/src/cache/mod.rs
index d899b48..c3909ae 100644
--- a/liquidity_layer/src/cache/mod.rs
+++ b/liquidity_layer/src/cache/mod.rs
@@ -134,11 +134,12 @@ where
     ///
     /// **Security Tip**: Handles division-by-zero by returning 0 when `supplied` is zero.
     pub fn calculate_utilization(&self) -> ManagedDecimal<C::Api, NumDecimals> {
-        if self.supplied_ray == self.sc_ref.ray_zero() {
+        let total_borrowed = self.calculate_original_borrow_ray(&self.borrowed_ray);
+        let total_supplied = self.calculate_original_supply_ray(&self.supplied_ray);
+        // The value, not the scaled amount, is the divisor: it can be zero while scaled supply is not.
+        if total_supplied == self.sc_ref.ray_zero() {
             self.sc_ref.ray_zero()
         } else {
-            let total_borrowed = self.calculate_original_borrow_ray(&self.borrowed_ray);
-            let total_supplied = self.calculate_original_supply_ray(&self.supplied_ray);
             self.sc_ref
                 .div_half_up(&total_borrowed, &total_supplied, RAY_PRECISION)
         }
diff --git a/liquidity_layer/src/utils.rs b/liquidity_layer/src/utils.rs
index e9305d3..5f4ad5e 100644
--- a/liquidity_layer/src/utils.rs
+++ b/liquidity_layer/src/utils.rs
@@ -68,6 +68,10 @@ pub trait UtilsModule:
     ) {
         // Calculate total supplied value in RAY precision
         let total_supplied_value_ray = cache.calculate_original_supply_ray(&cache.supplied_ray);
+        // Nothing left to absorb the loss
+        if total_supplied_value_ray == self.ray_zero() {
+            return;
+        }
         // Convert bad debt to RAY precision
         // Cap bad debt to available value (prevent negative results)
         let capped_bad_debt_ray = self.min(bad_debt_amount_ray, total_supplied_value_ray.clone());
-- 
2.43.0


From 4d3b72878bcaee8f93a087aec0b53eb948925957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 2/4] fix: repeated liquidation payments of one token share its
 outstanding debt

---
 controller/src/positions/liquidation.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/controller/src/positions/liquidation.rs b/controller/src/positions/liquidation.rs
index 42fe9f1..0345239 100644
--- a/controller/src/positions/liquidation.rs
+++ b/controller/src/positions/liquidation.rs
@@ -549,6 +549,12 @@ pub trait PositionLiquidationModule:
     ) {
         let mut total_repaid = self.ray_zero();
         let mut repaid_tokens = ManagedVec::new();
+        // EGLD value of each debt already covered by earlier payments of the same token
+        let mut covered_debts: ManagedMapEncoded<
+            Self::Api,
+            EgldOrEsdtTokenIdentifier,
+            ManagedDecimal<Self::Api, NumDecimals>,
+        > = ManagedMapEncoded::new();
         for payment_ref in repayments {
             let token_price_feed = self.token_price(&payment_ref.token_identifier, cache);
             let original_borrow_position =
@@ -560,8 +566,22 @@ pub trait PositionLiquidationModule:
                 self.token_egld_value_ray(&payment_amount_decimal, &token_price_feed.price_wad);
 
             let outstanding_debt_ray = self.total_amount_ray(&original_borrow_position, cache);
-            let outstanding_debt_egld_ray =
+            let total_debt_egld_ray =
                 self.token_egld_value_ray(&outstanding_debt_ray, &token_price_feed.price_wad);
+            let covered_debt_egld_ray = if covered_debts.contains(&payment_ref.token_identifier) {
+                covered_debts.get(&payment_ref.token_identifier)
+            } else {
+                self.ray_zero()
+            };
+            let outstanding_debt_egld_ray = total_debt_egld_ray - covered_debt_egld_ray.clone();
+            covered_debts.put(
+                &payment_ref.token_identifier,
+                &(covered_debt_egld_ray
+                    + self.min(
+                        payment_egld_value_ray.clone(),
+                        outstanding_debt_egld_ray.clone(),
+                    )),
+            );
             let mut adjusted_payment = payment_ref.clone();
             if payment_egld_value_ray > outstanding_debt_egld_ray {
                 let excess_egld_ray = payment_egld_value_ray - outstanding_debt_egld_ray.clone();
-- 
2.43.0


From c4edc543becbf5dcfa042fd6be96058b33301199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 3/4] fix: liquidation payments worth nothing no longer seize
 collateral

---
 controller/src/positions/liquidation.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/controller/src/positions/liquidation.rs b/controller/src/positions/liquidation.rs
index 0345239..116f822 100644
--- a/controller/src/positions/liquidation.rs
+++ b/controller/src/positions/liquidation.rs
@@ -106,6 +106,11 @@ pub trait PositionLiquidationModule:
             map_debt_indexes,
             cache,
         );
+        // Only an estimation comes without payments; payments worth nothing seize nothing
+        require!(
+            debt_payments.is_empty() || debt_payment_in_egld_ray > self.ray_zero(),
+            ERROR_NO_DEBT_PAYMENTS_TO_PROCESS
+        );
 
         let (liquidation_collateral, total_collateral, _) =
             self.calculate_collateral_values(&deposit_positions, cache);
-- 
2.43.0


From 8e80fbbe47b8918c23c9ba4c8df7fe7cd73a5751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 4/4] fix: isolated debt tracker starts in WAD whatever the
 asset decimals

---
 controller/src/router.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/controller/src/router.rs b/controller/src/router.rs
index 722bd17..f13acd7 100644
--- a/controller/src/router.rs
+++ b/controller/src/router.rs
@@ -198,9 +198,11 @@ pub trait RouterModule:
         self.pools_map(&base_asset).set(address.clone());
         self.pools().insert(address.clone());
 
-        // Init ManagedDecimal for future usage and avoiding storage decode errors for checks
+        // Init ManagedDecimal for future usage and avoiding storage decode errors for checks.
+        // The tracker holds USD in WAD whatever the decimals of the asset, since its updates keep this scale.
+        let _ = asset_decimals;
         self.isolated_asset_debt_usd(&base_asset)
-            .set(self.to_decimal(BigUint::zero(), asset_decimals));
+            .set(self.wad_zero());
 
         require!(
             liquidation_threshold_bps > ltv,
-- 
2.43.0

