From f36833d1b650583d90a05b21760bb9fb3fdfc59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 1/9] fix: refuse single-sided deposits on curves that do not
 allow deposits

process_deposit_all_token_types checks allows_deposits(), the single-sided
deposit did not, so anyone could deposit into an offset pool (and into a
linear pool whose LP supply was burned to zero).
---
 programs/token-bonding-curve/src/processor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/token-bonding-curve/src/processor.rs b/programs/token-bonding-curve/src/processor.rs
index 57efa87..b6d976c 100644
--- a/programs/token-bonding-curve/src/processor.rs
+++ b/programs/token-bonding-curve/src/processor.rs
@@ -740,6 +740,10 @@ impl Processor {
         let token_program_info = next_account_info(account_info_iter)?;
 
         let token_swap = SwapVersion::unpack(&swap_info.data.borrow())?;
+        let calculator = &token_swap.swap_curve().calculator;
+        if !calculator.allows_deposits() {
+            return Err(SwapError::UnsupportedCurveOperation.into());
+        }
         let source_account =
             Self::unpack_token_account(source_info, token_swap.token_program_id())?;
         let swap_token_a =
-- 
2.43.0


From f97065f5bd91de1279771a8463242ba61e597e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 2/9] fix: charge the trade fee on single-sided withdrawals
 instead of crediting it

The trade fee on half of the withdrawn amount was subtracted before the
amount was converted to pool tokens, so a withdrawer burned fewer pool tokens
than the amount was worth and other holders paid the difference.  Owner trade
fees went through the same function and were converted short, or refused when
the amount became zero.
---
 .../token-bonding-curve/src/curve/base.rs     |  9 ++++--
 .../token-bonding-curve/src/curve/fees.rs     | 28 +++++++++++++++++++
 programs/token-bonding-curve/src/processor.rs | 28 +++++++++++--------
 3 files changed, 51 insertions(+), 14 deletions(-)

diff --git a/programs/token-bonding-curve/src/curve/base.rs b/programs/token-bonding-curve/src/curve/base.rs
index 7a52fb7..49d20bd 100644
--- a/programs/token-bonding-curve/src/curve/base.rs
+++ b/programs/token-bonding-curve/src/curve/base.rs
@@ -153,9 +153,12 @@ impl SwapCurve {
         // Get the trading fee incurred if *half* the source amount is swapped
         // for the other side. Reference at:
         // https://github.com/balancer-labs/balancer-core/blob/f4ed5d65362a8d6cec21662fb6eae233b0babc1f/contracts/BMath.sol#L117
-        let half_source_amount = std::cmp::max(1, source_amount.checked_div(2)?);
-        let trade_fee = fees.trading_fee(half_source_amount)?;
-        let source_amount = source_amount.checked_sub(trade_fee)?;
+        // The fee is added, so that the withdrawer pays for it in pool tokens.
+        let half_source_amount = source_amount.checked_add(1)?.checked_div(2)?;
+        let pre_fee_source_amount = fees.pre_trading_fee_amount(half_source_amount)?;
+        let source_amount = source_amount
+            .checked_sub(half_source_amount)?
+            .checked_add(pre_fee_source_amount)?;
         self.calculator.withdraw_single_token_type_exact_out(
             source_amount,
             swap_token_a_amount,
diff --git a/programs/token-bonding-curve/src/curve/fees.rs b/programs/token-bonding-curve/src/curve/fees.rs
index 53fcad2..8ebf894 100644
--- a/programs/token-bonding-curve/src/curve/fees.rs
+++ b/programs/token-bonding-curve/src/curve/fees.rs
@@ -61,6 +61,25 @@ pub fn calculate_fee(
     }
 }
 
+/// Helper function for calculating the amount that leaves `post_fee_amount`
+/// once the fee is taken out of it
+fn pre_fee_amount(
+    post_fee_amount: u128,
+    fee_numerator: u128,
+    fee_denominator: u128,
+) -> Option<u128> {
+    if fee_numerator == 0 || fee_denominator == 0 || post_fee_amount == 0 {
+        Some(post_fee_amount)
+    } else {
+        let denominator = fee_denominator.checked_sub(fee_numerator)?;
+        post_fee_amount
+            .checked_mul(fee_denominator)?
+            .checked_add(denominator)?
+            .checked_sub(1)?
+            .checked_div(denominator)
+    }
+}
+
 fn validate_fraction(numerator: u64, denominator: u64) -> Result<(), SwapError> {
     if denominator == 0 && numerator == 0 {
         Ok(())
@@ -90,6 +109,15 @@ impl Fees {
         )
     }
 
+    /// Calculate the amount whose trading fee leaves `post_fee_amount`
+    pub fn pre_trading_fee_amount(&self, post_fee_amount: u128) -> Option<u128> {
+        pre_fee_amount(
+            post_fee_amount,
+            u128::try_from(self.trade_fee_numerator).ok()?,
+            u128::try_from(self.trade_fee_denominator).ok()?,
+        )
+    }
+
     /// Calculate the owner trading fee in trading tokens
     pub fn owner_trading_fee(&self, trading_tokens: u128) -> Option<u128> {
         calculate_fee(
diff --git a/programs/token-bonding-curve/src/processor.rs b/programs/token-bonding-curve/src/processor.rs
index b6d976c..22646be 100644
--- a/programs/token-bonding-curve/src/processor.rs
+++ b/programs/token-bonding-curve/src/processor.rs
@@ -423,17 +423,23 @@ impl Processor {
             to_u64(result.source_amount_swapped)?,
         )?;
 
-        let mut pool_token_amount = token_swap
-            .swap_curve()
-            .withdraw_single_token_type_exact_out(
-                result.owner_fee,
-                swap_token_a_amount,
-                swap_token_b_amount,
-                to_u128(pool_mint.supply)?,
-                trade_direction,
-                token_swap.fees(),
-            )
-            .ok_or(SwapError::FeeCalculationFailure)?;
+        // the owner fee was already taken from the trade, so it is converted to
+        // pool tokens as is, with no further trade fee
+        let mut pool_token_amount = if result.owner_fee > 0 {
+            token_swap
+                .swap_curve()
+                .calculator
+                .withdraw_single_token_type_exact_out(
+                    result.owner_fee,
+                    swap_token_a_amount,
+                    swap_token_b_amount,
+                    to_u128(pool_mint.supply)?,
+                    trade_direction,
+                )
+                .ok_or(SwapError::FeeCalculationFailure)?
+        } else {
+            0
+        };
 
         if pool_token_amount > 0 {
             // Allow error to fall through
-- 
2.43.0


From 26e37837179f581277d1901a677f8f73c9d5d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 3/9] fix: sqrt_u64 no longer panics when rounding up carries
 out of 64 bits

---
 programs/token-bonding-curve/src/dfs_precise_number.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/programs/token-bonding-curve/src/dfs_precise_number.rs b/programs/token-bonding-curve/src/dfs_precise_number.rs
index f36c2bd..42b5c4a 100644
--- a/programs/token-bonding-curve/src/dfs_precise_number.rs
+++ b/programs/token-bonding-curve/src/dfs_precise_number.rs
@@ -297,7 +297,9 @@ impl DFSPreciseNumber {
 
             // we're implicitly multiplying by ONE here (since we converted self.value to u128 directly)
             // so `padded_u128 = real_value * 2^pad_bits / ONE`
-            let padded_u128 = padded_value.as_u64();
+            // (rounding up can carry out of 64 bits; the square root of 2^64 - 1 rounds up to the
+            // same number as the square root of 2^64)
+            let padded_u128 = std::cmp::min(padded_value, InnerUint::from(u64::MAX)).as_u64();
 
             // `sqrt_padded_u128 = real_sqrt * sqrt(2^pad_bits) / sqrt(ONE)`
             let sqrt_padded_u128 = Self::sqrt_babylonian(padded_u128, should_round_up)?;
-- 
2.43.0


From c46fcd6599deba518281cb83918035c6f917849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 4/9] fix: to_spl_precise_number no longer counts decimals of a
 half or more twice

---
 programs/token-bonding-curve/src/dfs_precise_number.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/token-bonding-curve/src/dfs_precise_number.rs b/programs/token-bonding-curve/src/dfs_precise_number.rs
index 42b5c4a..1b99b2d 100644
--- a/programs/token-bonding-curve/src/dfs_precise_number.rs
+++ b/programs/token-bonding-curve/src/dfs_precise_number.rs
@@ -177,7 +177,8 @@ impl DFSPreciseNumber {
     }
 
     pub fn to_spl_precise_number(&self) -> Option<spl_math::precise_number::PreciseNumber> {
-        let value_u128 = self.to_imprecise()?;
+        // take the whole part only, to_imprecise would round decimals of a half or more up
+        let value_u128 = self.floor()?.to_imprecise()?;
         let spl_number = spl_math::precise_number::PreciseNumber::new(value_u128)?;
 
         // add on the decimals manually
-- 
2.43.0


From ce30f8c6f1b3eada9be625a553babbf13bfcc33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 5/9] fix: constant price pool token conversion refuses amounts
 over 128 bits instead of panicking

---
 .../src/curve/constant_price.rs                 | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/programs/token-bonding-curve/src/curve/constant_price.rs b/programs/token-bonding-curve/src/curve/constant_price.rs
index 61b9f16..2a02035 100644
--- a/programs/token-bonding-curve/src/curve/constant_price.rs
+++ b/programs/token-bonding-curve/src/curve/constant_price.rs
@@ -13,6 +13,7 @@ use {
         program_pack::{IsInitialized, Pack, Sealed},
     },
     spl_math::{checked_ceil_div::CheckedCeilDiv, precise_number::PreciseNumber, uint::U256},
+    std::convert::TryFrom,
 };
 
 /// Get the amount of pool tokens for the given amount of token A or B.
@@ -39,19 +40,19 @@ pub fn trading_tokens_to_pool_tokens(
         .checked_add(U256::from(swap_token_a_amount))?;
     let pool_supply = U256::from(pool_supply);
     match round_direction {
-        RoundDirection::Floor => Some(
+        RoundDirection::Floor => u128::try_from(
             pool_supply
                 .checked_mul(given_value)?
-                .checked_div(total_value)?
-                .as_u128(),
-        ),
-        RoundDirection::Ceiling => Some(
+                .checked_div(total_value)?,
+        )
+        .ok(),
+        RoundDirection::Ceiling => u128::try_from(
             pool_supply
                 .checked_mul(given_value)?
                 .checked_ceil_div(total_value)?
-                .0
-                .as_u128(),
-        ),
+                .0,
+        )
+        .ok(),
     }
 }
 
-- 
2.43.0


From 10b98b8459f3de38e15bb719be31f139e7e19995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 6/9] fix: packing a swap into an empty account is an error
 instead of a panic

---
 programs/token-bonding-curve/src/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/programs/token-bonding-curve/src/state.rs b/programs/token-bonding-curve/src/state.rs
index 842b179..89c9b0b 100644
--- a/programs/token-bonding-curve/src/state.rs
+++ b/programs/token-bonding-curve/src/state.rs
@@ -57,8 +57,11 @@ impl SwapVersion {
     pub fn pack(src: Self, dst: &mut [u8]) -> Result<(), ProgramError> {
         match src {
             Self::SwapV1(swap_info) => {
-                dst[0] = 1;
-                SwapV1::pack(swap_info, &mut dst[1..])
+                let (version, rest) = dst
+                    .split_first_mut()
+                    .ok_or(ProgramError::InvalidAccountData)?;
+                *version = 1;
+                SwapV1::pack(swap_info, rest)
             }
         }
     }
-- 
2.43.0


From 663bd4288e9c18ada8cee602a38ad9f8e026660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 7/9] fix: constant price deposits round the value of the pool
 up

---
 programs/token-bonding-curve/src/curve/constant_price.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/programs/token-bonding-curve/src/curve/constant_price.rs b/programs/token-bonding-curve/src/curve/constant_price.rs
index 2a02035..2df9d07 100644
--- a/programs/token-bonding-curve/src/curve/constant_price.rs
+++ b/programs/token-bonding-curve/src/curve/constant_price.rs
@@ -128,6 +128,12 @@ impl CurveCalculator for ConstantPriceCurve {
                 (token_a_amount, token_b_amount)
             }
             RoundDirection::Ceiling => {
+                // half of the pool's value, rounded up
+                let total_value = swap_token_b_amount
+                    .checked_mul(token_b_price)?
+                    .checked_add(swap_token_a_amount)?
+                    .checked_add(1)?
+                    .checked_div(2)?;
                 let (token_a_amount, _) = pool_tokens
                     .checked_mul(total_value)?
                     .checked_ceil_div(pool_token_supply)?;
-- 
2.43.0


From f2d6c67ac95031ef40c0aa1708254e98eee0456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 8/9] fix: a stable swap cannot pay out the whole reserve

---
 programs/token-bonding-curve/src/curve/stable.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/programs/token-bonding-curve/src/curve/stable.rs b/programs/token-bonding-curve/src/curve/stable.rs
index 631d909..eae6508 100644
--- a/programs/token-bonding-curve/src/curve/stable.rs
+++ b/programs/token-bonding-curve/src/curve/stable.rs
@@ -2,8 +2,8 @@
 use {
     crate::{
         curve::calculator::{
-            CurveCalculator, DynPack, RoundDirection, SwapWithoutFeesResult, TradeDirection,
-            TradingTokenResult,
+            map_zero_to_none, CurveCalculator, DynPack, RoundDirection, SwapWithoutFeesResult,
+            TradeDirection, TradingTokenResult,
         },
         error::SwapError,
     },
@@ -144,11 +144,13 @@ impl CurveCalculator for StableCurve {
         let leverage = self.amp.checked_mul(N_COINS as u64)?;
 
         let new_source_amount = swap_source_amount.checked_add(source_amount)?;
-        let new_destination_amount = compute_new_destination_amount(
+        // the curve never reaches zero, so a zero is only due to rounding: refuse
+        // to pay out the whole reserve
+        let new_destination_amount = map_zero_to_none(compute_new_destination_amount(
             leverage,
             new_source_amount,
             compute_d(leverage, swap_source_amount, swap_destination_amount)?,
-        )?;
+        )?)?;
 
         let amount_swapped = swap_destination_amount.checked_sub(new_destination_amount)?;
 
-- 
2.43.0


From b46d17eb1efd628baeea74627d85a8d438377929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 9/9] fix: a stable swap of nothing is refused instead of
 paying out a rounding unit

---
 programs/token-bonding-curve/src/curve/stable.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/programs/token-bonding-curve/src/curve/stable.rs b/programs/token-bonding-curve/src/curve/stable.rs
index eae6508..16e56b6 100644
--- a/programs/token-bonding-curve/src/curve/stable.rs
+++ b/programs/token-bonding-curve/src/curve/stable.rs
@@ -141,6 +141,8 @@ impl CurveCalculator for StableCurve {
         swap_destination_amount: u128,
         _trade_direction: TradeDirection,
     ) -> Option<SwapWithoutFeesResult> {
+        // the destination amount may be rounded up by one: nothing in must not buy that
+        let source_amount = map_zero_to_none(source_amount)?;
         let leverage = self.amp.checked_mul(N_COINS as u64)?;
 
         let new_source_amount = swap_source_amount.checked_add(source_amount)?;
-- 
2.43.0

