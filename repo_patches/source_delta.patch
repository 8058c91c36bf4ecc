From 8d0ca7009d597a4ed17e0a7d6206d6a332fb78f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 01/17] fix: pow: raising to an integer part of one multiplies
 by the base

pow_int returned 1 for power 1, so every exponent in (1, 2) lost a factor
of the base (e.g. 0.5^1.5 came out as 0.5^0.5).
---
 packages/math/src/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/math/src/pow.rs b/packages/math/src/pow.rs
index 257a32e..7f9a890 100644
--- a/packages/math/src/pow.rs
+++ b/packages/math/src/pow.rs
@@ -43,7 +43,7 @@ pub fn pow(base: Decimal256, exp: Decimal256) -> Result<Decimal256, MathError> {
 }
 
 fn pow_int(mut base: Decimal256, power: Uint256) -> Decimal256 {
-    if power <= Uint256::one() {
+    if power.is_zero() {
         return Decimal256::one();
     }
 
-- 
2.43.0


From bca2184dfd6f8160faf9be0095d0e2acb960a0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 02/17] fix: airdrop: VerifyClaim checks a bearer claim's proof
 against its claim hash

The Merkle leaves of a bearer airdrop are claim hash and amount, which is
what claiming verifies; the query used the account instead and rejected
every genuine claim.
---
 contracts/airdrop/src/query/claim.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/airdrop/src/query/claim.rs b/contracts/airdrop/src/query/claim.rs
index b8b2841..26b4c53 100644
--- a/contracts/airdrop/src/query/claim.rs
+++ b/contracts/airdrop/src/query/claim.rs
@@ -108,7 +108,8 @@ pub fn verify_claim(
             }
 
             // validate claim hash
-            let verify_result = verify_merkle_proof(&airdrop.merkle_root, proof, &account, amount);
+            let verify_result =
+                verify_merkle_proof(&airdrop.merkle_root, proof, &claim_hash, amount);
             if let Err(e) = verify_result {
                 return Ok(resp.fail(e));
             }
-- 
2.43.0


From af08067eec74a7becf62dd9f0604b81f5390c65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 03/17] fix: core: a fee strategy change pays out the accrued
 streaming fee

UpdateFeeStrategy replaced the streaming fee together with what it had
collected but not realised, so that amount was lost to the collector and
stuck in the contract. Send it to the outgoing collector.
---
 contracts/core/src/execute/gov/update.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/contracts/core/src/execute/gov/update.rs b/contracts/core/src/execute/gov/update.rs
index 82a4683..7b39a81 100644
--- a/contracts/core/src/execute/gov/update.rs
+++ b/contracts/core/src/execute/gov/update.rs
@@ -1,4 +1,4 @@
-use cosmwasm_std::{attr, DepsMut, Env, MessageInfo, Response, StdError, Uint128};
+use cosmwasm_std::{attr, BankMsg, DepsMut, Env, MessageInfo, Response, StdError, Uint128};
 use ibcx_interface::{core::FeePayload, types::SwapRoutes};
 
 use crate::{
@@ -84,6 +84,20 @@ pub fn update_fee(
     // update
     let mut fee = FEE.load(deps.storage)?;
 
+    // pay out what accrued under the old strategy before it is replaced
+    let accrued = fee
+        .streaming_fee
+        .take()
+        .map(|v| v.collected)
+        .unwrap_or_default()
+        .into_iter()
+        .filter(|v| !v.amount.is_zero())
+        .collect::<Vec<_>>();
+    let realize_msg = (!accrued.is_empty()).then(|| BankMsg::Send {
+        to_address: fee.collector.to_string(),
+        amount: accrued,
+    });
+
     fee.collector = deps.api.addr_validate(&new_fee.collector)?;
     fee.mint_fee = new_fee.mint_fee;
     fee.burn_fee = new_fee.burn_fee;
@@ -103,7 +117,9 @@ pub fn update_fee(
         attr("executor", info.sender),
     ];
 
-    let resp = Response::new().add_attributes(attrs);
+    let resp = Response::new()
+        .add_messages(realize_msg)
+        .add_attributes(attrs);
 
     Ok(resp)
 }
-- 
2.43.0


From 75bf392d5c905295c493081f77e1887bef365b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 04/17] fix: minting takes the basket rounded up

Mint took unit * amount rounded down (at least one), so minting in small
pieces and burning in one took more out of the contract than was put in,
at the expense of the other holders. Round the required amounts up, and
let the mint simulation and the periphery provide the same amounts.
---
 contracts/core/src/query.rs        |  2 +-
 contracts/core/src/state/units.rs  | 17 ++++++++++++-----
 contracts/periphery/src/execute.rs |  6 +++---
 contracts/periphery/src/lib.rs     |  5 +++++
 contracts/periphery/src/query.rs   |  8 +++++---
 packages/pool/src/sim/index_out.rs |  6 +++++-
 6 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/contracts/core/src/query.rs b/contracts/core/src/query.rs
index 3cb78d7..3e65b7b 100644
--- a/contracts/core/src/query.rs
+++ b/contracts/core/src/query.rs
@@ -186,7 +186,7 @@ pub fn simulate_mint(
         .transpose()?
         .unwrap_or(index_units);
 
-    let spent = index_units.calc_require_amount(amount);
+    let spent = index_units.calc_mint_amount(amount);
     let refund = index_units.calc_refund_amount(funds.unwrap_or_else(|| spent.clone()), amount)?;
     let mint_fee = fee.mint_fee.map(|v| v * amount);
     let mint_send = amount.checked_sub(mint_fee.unwrap_or_default())?;
diff --git a/contracts/core/src/state/units.rs b/contracts/core/src/state/units.rs
index ee7ad7f..4ba2f7b 100644
--- a/contracts/core/src/state/units.rs
+++ b/contracts/core/src/state/units.rs
@@ -131,16 +131,23 @@ impl Units {
             .collect::<Vec<_>>()
     }
 
+    // what a mint has to pay: rounded up, at least one base unit per asset
+    pub fn calc_mint_amount(&self, index_amount: Uint128) -> Vec<Coin> {
+        self.0
+            .iter()
+            .map(|(denom, unit)| {
+                let amount = index_amount.mul_ceil(*unit).max(Uint128::one());
+                coin(amount.u128(), denom)
+            })
+            .collect::<Vec<_>>()
+    }
+
     pub fn calc_refund_amount(
         &self,
         mut funds: Vec<Coin>,
         index_amount: Uint128,
     ) -> Result<Vec<Coin>, ContractError> {
-        let required = self
-            .calc_require_amount(index_amount)
-            .into_iter()
-            .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))
-            .collect::<Vec<_>>();
+        let required = self.calc_mint_amount(index_amount);
         let mut denoms: Vec<_> = funds.clone().into_iter().map(|v| Some(v.denom)).collect();
 
         for Coin { denom, amount } in required {
diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index bb3cd3b..bfab53a 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -7,7 +7,7 @@ use ibcx_interface::{core, helpers::IbcCore};
 use ibcx_pool::{query_pools, Simulator};
 
 use crate::error::ContractError;
-use crate::{coin_sorter, deduct_fee, expand_fee, make_unit_converter};
+use crate::{coin_sorter, deduct_fee, expand_fee, make_mint_unit_converter};
 
 pub fn mint_exact_amount_in(
     deps: DepsMut,
@@ -59,7 +59,7 @@ pub fn mint_exact_amount_in(
     let mut mint_msg_funds = core_portfolio
         .units
         .into_iter()
-        .map(|(denom, unit)| coin((sim_res.est_min_token_out * unit).u128(), denom))
+        .map(make_mint_unit_converter(sim_res.est_min_token_out))
         .collect::<Vec<_>>();
     mint_msg_funds.sort_by(coin_sorter);
 
@@ -121,7 +121,7 @@ pub fn mint_exact_amount_out(
         .sim_routes
         .to_msgs(&env.contract.address, input_asset.amount)?;
 
-    let conv = make_unit_converter(sim_res.index_out);
+    let conv = make_mint_unit_converter(sim_res.index_out);
     let mut mint_msg_funds: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     mint_msg_funds.sort_by(coin_sorter);
 
diff --git a/contracts/periphery/src/lib.rs b/contracts/periphery/src/lib.rs
index 26063a1..e44cff3 100644
--- a/contracts/periphery/src/lib.rs
+++ b/contracts/periphery/src/lib.rs
@@ -34,6 +34,11 @@ pub fn make_unit_converter(v: Uint128) -> Box<dyn Fn((String, Decimal)) -> Coin>
     Box::new(move |(denom, unit)| coin((v * unit).u128(), denom))
 }
 
+// what the core contract takes for a mint: rounded up, at least one base unit per asset
+pub fn make_mint_unit_converter(v: Uint128) -> Box<dyn Fn((String, Decimal)) -> Coin> {
+    Box::new(move |(denom, unit)| coin(v.mul_ceil(unit).max(Uint128::one()).u128(), denom))
+}
+
 pub fn coin_sorter(a: &Coin, b: &Coin) -> Ordering {
     a.denom.cmp(&b.denom)
 }
diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index fe90d57..f32e9c1 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -8,7 +8,9 @@ use ibcx_interface::{
 };
 use ibcx_pool::{query_pools, Simulator};
 
-use crate::{deduct_fee, error::ContractError, expand_fee, make_unit_converter};
+use crate::{
+    deduct_fee, error::ContractError, expand_fee, make_mint_unit_converter, make_unit_converter,
+};
 
 pub fn simulate_mint_exact_amount_in(
     deps: Deps,
@@ -33,7 +35,7 @@ pub fn simulate_mint_exact_amount_in(
     let mint_amount =
         (sim_res.est_min_token_out * expand_fee(core_fee.mint_fee)?) - Uint128::new(100); // FIXME: hacky calibration
 
-    let conv = make_unit_converter(mint_amount);
+    let conv = make_mint_unit_converter(mint_amount);
     let mut mint_spend_amount: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
@@ -63,7 +65,7 @@ pub fn simulate_mint_exact_amount_out(
     // apply mint fee
     let mint_amount = index_amount * deduct_fee(core_fee.mint_fee)?;
 
-    let conv = make_unit_converter(mint_amount);
+    let conv = make_mint_unit_converter(mint_amount);
     let mut mint_spend_amount: Vec<_> =
         core_portfolio.units.clone().into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
diff --git a/packages/pool/src/sim/index_out.rs b/packages/pool/src/sim/index_out.rs
index 91e6bc3..572ef92 100644
--- a/packages/pool/src/sim/index_out.rs
+++ b/packages/pool/src/sim/index_out.rs
@@ -84,7 +84,11 @@ impl<'a> Simulator<'a> {
         let routes_with_amount = self
             .index_units
             .iter()
-            .map(|(denom, unit)| coin((token_out * *unit).u128(), denom))
+            // the core contract takes the basket of a mint rounded up, at least one per asset
+            .map(|(denom, unit)| {
+                let amount = token_out.mul_ceil(*unit).max(Uint128::one());
+                coin(amount.u128(), denom)
+            })
             .map(|token_out| {
                 // if this unit does not have to do swap
                 if token_out.denom == input_asset {
-- 
2.43.0


From 69b60ddc1d86fe2432ea0eb8f98462a7cd391076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 05/17] fix: core: SimulateMint applies the minimum mint fee of
 one

Mint charges at least one base unit when a mint fee is set; the
simulation left that out and promised one more than is received.
---
 contracts/core/src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/core/src/query.rs b/contracts/core/src/query.rs
index 3e65b7b..2af6613 100644
--- a/contracts/core/src/query.rs
+++ b/contracts/core/src/query.rs
@@ -188,7 +188,7 @@ pub fn simulate_mint(
 
     let spent = index_units.calc_mint_amount(amount);
     let refund = index_units.calc_refund_amount(funds.unwrap_or_else(|| spent.clone()), amount)?;
-    let mint_fee = fee.mint_fee.map(|v| v * amount);
+    let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));
     let mint_send = amount.checked_sub(mint_fee.unwrap_or_default())?;
 
     Ok(SimulateMintResponse {
-- 
2.43.0


From 14bb21c1d03a8cf0dcb80a29e215d088a0855630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 06/17] fix: periphery: MintExactAmountIn holds its minimum
 after the mint fee

The minimum output was compared with the amount before the core contract
takes its mint fee, so the caller could receive less than the minimum.
---
 contracts/periphery/src/execute.rs |  9 ++++++---
 contracts/periphery/src/lib.rs     | 15 +++++++++++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index bfab53a..47e91e6 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -7,7 +7,7 @@ use ibcx_interface::{core, helpers::IbcCore};
 use ibcx_pool::{query_pools, Simulator};
 
 use crate::error::ContractError;
-use crate::{coin_sorter, deduct_fee, expand_fee, make_mint_unit_converter};
+use crate::{coin_sorter, deduct_fee, expand_fee, expand_mint_fee, make_mint_unit_converter};
 
 pub fn mint_exact_amount_in(
     deps: DepsMut,
@@ -27,6 +27,9 @@ pub fn mint_exact_amount_in(
     let desired_asset =
         cw_utils::must_pay(&info, &desired_denom).map(|v| coin(v.u128(), &desired_denom))?;
 
+    // the minimum is what has to be left after the mint fee
+    let min_mint_amount = expand_mint_fee(min_index_amount, core_fee.mint_fee)?;
+
     let pool_ids = extract_pool_ids(swap_info.clone());
     let pools = query_pools(&deps.as_ref(), pool_ids)?;
 
@@ -35,8 +38,8 @@ pub fn mint_exact_amount_in(
     let sim_res = sim
         .estimate_index_for_input(
             desired_asset.clone(),
-            Some(min_index_amount),
-            Some(min_index_amount),
+            Some(min_mint_amount),
+            Some(min_mint_amount),
             None,
         )?
         .est
diff --git a/contracts/periphery/src/lib.rs b/contracts/periphery/src/lib.rs
index e44cff3..adb4702 100644
--- a/contracts/periphery/src/lib.rs
+++ b/contracts/periphery/src/lib.rs
@@ -30,6 +30,21 @@ pub fn expand_fee(rate: Option<Decimal>) -> Result<Decimal, ContractError> {
         .unwrap_or(Decimal::one()))
 }
 
+// smallest amount to mint so that at least `amount` is left after the core contract's mint fee,
+// which is rounded down but at least one
+pub fn expand_mint_fee(amount: Uint128, rate: Option<Decimal>) -> Result<Uint128, ContractError> {
+    match rate {
+        Some(rate) => {
+            let left = Decimal::one().checked_sub(rate)?;
+            let expanded =
+                amount.checked_multiply_ratio(Decimal::one().atomics(), left.atomics())?;
+
+            Ok(expanded.max(amount.checked_add(Uint128::one())?))
+        }
+        None => Ok(amount),
+    }
+}
+
 pub fn make_unit_converter(v: Uint128) -> Box<dyn Fn((String, Decimal)) -> Coin> {
     Box::new(move |(denom, unit)| coin((v * unit).u128(), denom))
 }
-- 
2.43.0


From 1467119768678cc281cc48f4b17a927b56731ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:35 +0000
Subject: [PATCH 07/17] fix: periphery: compute the burn fee as the core
 contract does

The core contract rounds the burn fee down; the periphery rounded the
rest down and so believed to have redeemed one less, leaving the
difference stranded in its balance.
---
 contracts/periphery/src/execute.rs | 8 +++++---
 contracts/periphery/src/lib.rs     | 7 +++++++
 contracts/periphery/src/query.rs   | 5 +++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index 47e91e6..a6b7206 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -7,7 +7,9 @@ use ibcx_interface::{core, helpers::IbcCore};
 use ibcx_pool::{query_pools, Simulator};
 
 use crate::error::ContractError;
-use crate::{coin_sorter, deduct_fee, expand_fee, expand_mint_fee, make_mint_unit_converter};
+use crate::{
+    coin_sorter, deduct_burn_fee, deduct_fee, expand_fee, expand_mint_fee, make_mint_unit_converter,
+};
 
 pub fn mint_exact_amount_in(
     deps: DepsMut,
@@ -187,7 +189,7 @@ pub fn burn_exact_amount_in(
     let pool_ids = extract_pool_ids(swap_info.clone());
     let pools = query_pools(&deps.as_ref(), pool_ids)?;
 
-    let act_burn_amount = index_asset.amount * deduct_fee(core_fee.burn_fee)?;
+    let act_burn_amount = deduct_burn_fee(index_asset.amount, core_fee.burn_fee)?;
 
     let deps_ref = deps.as_ref();
     let sim = Simulator::new(&deps_ref, &pools, &swap_info, &core_portfolio.units);
@@ -265,7 +267,7 @@ pub fn burn_exact_amount_out(
         vec![coin(burn_amount.u128(), &core_config.index_denom)],
     )?;
 
-    let act_burn_amount = burn_amount * deduct_fee(core_fee.burn_fee)?;
+    let act_burn_amount = deduct_burn_fee(burn_amount, core_fee.burn_fee)?;
 
     let sim_res = sim.estimate_output_for_index(act_burn_amount, &desired_output.denom)?;
 
diff --git a/contracts/periphery/src/lib.rs b/contracts/periphery/src/lib.rs
index adb4702..6c8b424 100644
--- a/contracts/periphery/src/lib.rs
+++ b/contracts/periphery/src/lib.rs
@@ -30,6 +30,13 @@ pub fn expand_fee(rate: Option<Decimal>) -> Result<Decimal, ContractError> {
         .unwrap_or(Decimal::one()))
 }
 
+// what the core contract leaves of a burned amount after its burn fee, which is rounded down
+pub fn deduct_burn_fee(amount: Uint128, rate: Option<Decimal>) -> Result<Uint128, ContractError> {
+    let fee = rate.map(|v| v * amount).unwrap_or_default();
+
+    Ok(amount.checked_sub(fee)?)
+}
+
 // smallest amount to mint so that at least `amount` is left after the core contract's mint fee,
 // which is rounded down but at least one
 pub fn expand_mint_fee(amount: Uint128, rate: Option<Decimal>) -> Result<Uint128, ContractError> {
diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index f32e9c1..56de1ff 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -9,7 +9,8 @@ use ibcx_interface::{
 use ibcx_pool::{query_pools, Simulator};
 
 use crate::{
-    deduct_fee, error::ContractError, expand_fee, make_mint_unit_converter, make_unit_converter,
+    deduct_burn_fee, deduct_fee, error::ContractError, expand_fee, make_mint_unit_converter,
+    make_unit_converter,
 };
 
 pub fn simulate_mint_exact_amount_in(
@@ -97,7 +98,7 @@ pub fn simulate_burn_exact_amount_in(
     let pools = query_pools(&deps, pool_ids)?;
 
     // apply burn fee before simulating
-    let burn_amount = index_amount * deduct_fee(core_fee.burn_fee)?;
+    let burn_amount = deduct_burn_fee(index_amount, core_fee.burn_fee)?;
 
     let conv = make_unit_converter(burn_amount);
     let mut burn_redeem_amount: Vec<_> =
-- 
2.43.0


From 35de62c74314c0b0e3a830842ebd871b30cda6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 08/17] fix: periphery: apply the mint and burn fee in
 simulations as in execution

SimulateMintExactAmountIn expanded the mint amount by the mint fee
instead of deducting it, SimulateMintExactAmountOut estimated input and
basket for the amount after the fee, and SimulateBurnExactAmountOut
quoted the basket for the amount before the fee.
---
 contracts/periphery/src/lib.rs   | 10 ++++++++++
 contracts/periphery/src/query.rs | 16 ++++++++--------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/contracts/periphery/src/lib.rs b/contracts/periphery/src/lib.rs
index 6c8b424..983369b 100644
--- a/contracts/periphery/src/lib.rs
+++ b/contracts/periphery/src/lib.rs
@@ -37,6 +37,16 @@ pub fn deduct_burn_fee(amount: Uint128, rate: Option<Decimal>) -> Result<Uint128
     Ok(amount.checked_sub(fee)?)
 }
 
+// what the core contract leaves of a minted amount after its mint fee, which is rounded down but
+// at least one
+pub fn deduct_mint_fee(amount: Uint128, rate: Option<Decimal>) -> Result<Uint128, ContractError> {
+    let fee = rate
+        .map(|v| (v * amount).max(Uint128::one()))
+        .unwrap_or_default();
+
+    Ok(amount.checked_sub(fee)?)
+}
+
 // smallest amount to mint so that at least `amount` is left after the core contract's mint fee,
 // which is rounded down but at least one
 pub fn expand_mint_fee(amount: Uint128, rate: Option<Decimal>) -> Result<Uint128, ContractError> {
diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index 56de1ff..d966997 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -9,7 +9,7 @@ use ibcx_interface::{
 use ibcx_pool::{query_pools, Simulator};
 
 use crate::{
-    deduct_burn_fee, deduct_fee, error::ContractError, expand_fee, make_mint_unit_converter,
+    deduct_burn_fee, deduct_mint_fee, error::ContractError, expand_fee, make_mint_unit_converter,
     make_unit_converter,
 };
 
@@ -33,10 +33,10 @@ pub fn simulate_mint_exact_amount_in(
         .max;
 
     // apply mint fee
-    let mint_amount =
-        (sim_res.est_min_token_out * expand_fee(core_fee.mint_fee)?) - Uint128::new(100); // FIXME: hacky calibration
+    let mint_amount = deduct_mint_fee(sim_res.est_min_token_out, core_fee.mint_fee)?
+        .checked_sub(Uint128::new(100))?; // FIXME: hacky calibration
 
-    let conv = make_mint_unit_converter(mint_amount);
+    let conv = make_mint_unit_converter(sim_res.est_min_token_out);
     let mut mint_spend_amount: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
@@ -64,15 +64,15 @@ pub fn simulate_mint_exact_amount_out(
     let pools = query_pools(&deps, pool_ids)?;
 
     // apply mint fee
-    let mint_amount = index_amount * deduct_fee(core_fee.mint_fee)?;
+    let mint_amount = deduct_mint_fee(index_amount, core_fee.mint_fee)?;
 
-    let conv = make_mint_unit_converter(mint_amount);
+    let conv = make_mint_unit_converter(index_amount);
     let mut mint_spend_amount: Vec<_> =
         core_portfolio.units.clone().into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
     let sim = Simulator::new(&deps, &pools, &swap_info, &core_portfolio.units);
-    let sim_res = sim.estimate_input_for_index(&input_asset, mint_amount)?;
+    let sim_res = sim.estimate_input_for_index(&input_asset, index_amount)?;
 
     Ok(SimulateMintExactAmountOutResponse {
         mint_amount,
@@ -138,7 +138,7 @@ pub fn simulate_burn_exact_amount_out(
     // apply burn fee after simulation
     let burn_amount = sim_res.est_min_token_in * expand_fee(core_fee.burn_fee)?;
 
-    let conv = make_unit_converter(burn_amount);
+    let conv = make_unit_converter(sim_res.est_min_token_in);
     let mut burn_redeem_amount: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     burn_redeem_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
-- 
2.43.0


From 6be4c3f650131c1b6c8529b933991573fca05583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 09/17] fix: file a trade info under the final denom of its
 route

denom_last returned the first denom of a route and dneom_first the last,
so UpdateTradeInfo filed a multi-hop route under its intermediate denom:
inflating that intermediate asset sold the reserve for the route's final
asset while the unit of the intermediate one was increased.
---
 packages/interface/src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/interface/src/types.rs b/packages/interface/src/types.rs
index b4e4b76..2a28fec 100644
--- a/packages/interface/src/types.rs
+++ b/packages/interface/src/types.rs
@@ -69,11 +69,11 @@ impl From<SwapRoutes> for Vec<SwapAmountOutRoute> {
 
 impl SwapRoutes {
     pub fn dneom_first(&self) -> String {
-        self.0.last().unwrap().token_denom.clone()
+        self.0.first().unwrap().token_denom.clone()
     }
 
     pub fn denom_last(&self) -> String {
-        self.0.first().unwrap().token_denom.clone()
+        self.0.last().unwrap().token_denom.clone()
     }
 
     pub fn sim_swap_exact_in(
-- 
2.43.0


From e7374b930f5553884fb92ae929b63d20b03f5fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:32 +0000
Subject: [PATCH 10/17] fix: a trade deducts its units rounded up, so that
 large supplies stay backed

---
 contracts/core/src/execute/rebalance/trade/deflate.rs |  4 ++--
 contracts/core/src/execute/rebalance/trade/inflate.rs |  4 ++--
 contracts/core/src/execute/rebalance/trade/mod.rs     | 11 ++++++++++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/contracts/core/src/execute/rebalance/trade/deflate.rs b/contracts/core/src/execute/rebalance/trade/deflate.rs
index e4bdb22..6be4200 100644
--- a/contracts/core/src/execute/rebalance/trade/deflate.rs
+++ b/contracts/core/src/execute/rebalance/trade/deflate.rs
@@ -6,7 +6,7 @@ use crate::{
     StdResult,
 };
 
-use super::load_units;
+use super::{deduct_unit, load_units};
 
 fn deflate_index_unit(
     index_units: &mut Units,
@@ -121,7 +121,7 @@ pub fn deflate(
     }
 
     // deduct & expand stored units
-    let index_deduct_unit = Decimal::checked_from_ratio(sim_amount_in, total_supply)?;
+    let index_deduct_unit = deduct_unit(sim_amount_in, total_supply)?;
     let reserve_expand_unit = Decimal::checked_from_ratio(amount_out, total_supply)?;
 
     // deduct index unit
diff --git a/contracts/core/src/execute/rebalance/trade/inflate.rs b/contracts/core/src/execute/rebalance/trade/inflate.rs
index 1320e8e..8dc25b9 100644
--- a/contracts/core/src/execute/rebalance/trade/inflate.rs
+++ b/contracts/core/src/execute/rebalance/trade/inflate.rs
@@ -6,7 +6,7 @@ use crate::{
     StdResult,
 };
 
-use super::load_units;
+use super::{deduct_unit, load_units};
 
 // in the case of reserve denom, we can directly inflate the unit
 pub fn inflate_reserve(
@@ -80,7 +80,7 @@ pub fn inflate(
     }
 
     // deduct & expand stored units
-    let reserve_deduct_unit = Decimal::checked_from_ratio(amount_in, total_supply)?;
+    let reserve_deduct_unit = deduct_unit(amount_in, total_supply)?;
     let index_expand_unit = Decimal::checked_from_ratio(sim_amount_out, total_supply)?;
 
     // expand index unit
diff --git a/contracts/core/src/execute/rebalance/trade/mod.rs b/contracts/core/src/execute/rebalance/trade/mod.rs
index d53d73f..9c8f5a1 100644
--- a/contracts/core/src/execute/rebalance/trade/mod.rs
+++ b/contracts/core/src/execute/rebalance/trade/mod.rs
@@ -1,7 +1,7 @@
 mod deflate;
 mod inflate;
 
-use cosmwasm_std::{DepsMut, Env, MessageInfo, Response, Storage, Uint128};
+use cosmwasm_std::{Decimal, DepsMut, Env, MessageInfo, Response, Storage, Uint128};
 use ibcx_interface::core::RebalanceTradeMsg;
 
 use deflate::{deflate, deflate_reserve};
@@ -22,6 +22,15 @@ pub fn load_units(storage: &dyn Storage) -> StdResult<(Units, Units, Uint128)> {
     Ok((index_units, reserve_units, total_supply))
 }
 
+// unit to deduct for an amount leaving the contract: rounded up, so that what is left stays backed
+pub fn deduct_unit(amount: Uint128, total_supply: Uint128) -> StdResult<Decimal> {
+    let unit = Decimal::checked_from_ratio(amount, total_supply)?;
+    if unit.atomics().full_mul(total_supply) < amount.full_mul(Decimal::one().atomics()) {
+        return Ok(unit.checked_add(Decimal::raw(1))?);
+    }
+    Ok(unit)
+}
+
 // deflate / inflate the target denom
 pub fn trade(
     deps: DepsMut,
-- 
2.43.0


From bf2c237dcbb15adcf96c08cdfe86e54358b4afe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 11/17] fix: the reserve bought is allotted to the inflation
 assets without rounding loss

---
 contracts/core/src/execute/rebalance/trade/deflate.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/contracts/core/src/execute/rebalance/trade/deflate.rs b/contracts/core/src/execute/rebalance/trade/deflate.rs
index 6be4200..0d1842b 100644
--- a/contracts/core/src/execute/rebalance/trade/deflate.rs
+++ b/contracts/core/src/execute/rebalance/trade/deflate.rs
@@ -25,7 +25,11 @@ fn inflate_reserve_unit(
     let mut expand_unit = inflate_unit;
     let mut total_weight = inflations.iter().map(|(_, v)| *v).sum::<Decimal>();
     for (denom, weight) in inflations {
-        let sub_unit = expand_unit * weight / total_weight;
+        let sub_unit = Decimal::new(
+            expand_unit
+                .atomics()
+                .multiply_ratio(weight.atomics(), total_weight.atomics()),
+        );
         reserve_units.add_key(&denom, sub_unit)?;
 
         expand_unit = expand_unit.checked_sub(sub_unit)?;
-- 
2.43.0


From 6eece892df60cc1d8ccefeeb397cc2aca7ce095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 12/17] fix: a rebalance plan with a weightless inflation asset
 is refused

---
 contracts/core/src/state/rebalance.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/core/src/state/rebalance.rs b/contracts/core/src/state/rebalance.rs
index b8a9df3..1c6719d 100644
--- a/contracts/core/src/state/rebalance.rs
+++ b/contracts/core/src/state/rebalance.rs
@@ -35,6 +35,11 @@ impl Rebalance {
             return Err(ValidationError::invalid_rebalance("inflation", "duplicate denom").into());
         }
 
+        // check weight: an asset without weight leaves no way to allot the reserve
+        if self.inflation.iter().any(|(_, weight)| weight.is_zero()) {
+            return Err(ValidationError::invalid_rebalance("inflation", "zero weight").into());
+        }
+
         // check index_units <-> deflation
         {
             let mut base_units = index_units;
-- 
2.43.0


From 709665432283f51647f300be45f19d4fae0d6a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 13/17] fix: core: zero coins are left out of sends, which the
 bank refuses

---
 contracts/core/src/execute/fee.rs   |  6 +++++-
 contracts/core/src/execute/token.rs | 11 ++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/contracts/core/src/execute/fee.rs b/contracts/core/src/execute/fee.rs
index f471a52..28460cb 100644
--- a/contracts/core/src/execute/fee.rs
+++ b/contracts/core/src/execute/fee.rs
@@ -30,10 +30,14 @@ pub fn realize_streaming_fee(deps: DepsMut, info: MessageInfo) -> StdResult<Resp
 
     // collect streaming fee
     if let Some(streaming_fee) = fee.streaming_fee.as_mut() {
+        // the bank refuses to send zero coins
+        let mut collected = streaming_fee.collected.clone();
+        collected.retain(|v| !v.amount.is_zero());
+
         msgs.push(
             BankMsg::Send {
                 to_address: fee.collector.to_string(),
-                amount: streaming_fee.collected.clone(),
+                amount: collected,
             }
             .into(),
         );
diff --git a/contracts/core/src/execute/token.rs b/contracts/core/src/execute/token.rs
index 3b54958..a974dc4 100644
--- a/contracts/core/src/execute/token.rs
+++ b/contracts/core/src/execute/token.rs
@@ -81,11 +81,11 @@ pub fn mint(
         amount: coins(v.u128(), &config.index_denom),
     });
 
-    // send 100 - fee to minter
-    let mint_send_msg = BankMsg::Send {
+    // send 100 - fee to minter, if the fee left anything: the bank refuses to send zero coins
+    let mint_send_msg = (!mint_send.is_zero()).then(|| BankMsg::Send {
         to_address: receiver.to_string(),
         amount: coins(mint_send.u128(), &config.index_denom),
-    };
+    });
     // and send rest of funds to minter
     let refund_send_msg = BankMsg::Send {
         to_address: refund_to.to_string(),
@@ -96,7 +96,7 @@ pub fn mint(
     let msgs = [
         Some(mint_msg.into()),
         fee_send_msg.map(|v| v.into()),
-        Some(mint_send_msg.into()),
+        mint_send_msg.map(|v| v.into()),
         Some(refund_send_msg.into()),
     ]
     .into_iter()
@@ -150,6 +150,7 @@ pub fn burn(
     let burn_fee = fee.burn_fee.map(|v| v * received);
     let burn_amount = received.checked_sub(burn_fee.unwrap_or_default())?;
     let mut burn_send_amount = index_units.calc_require_amount(burn_amount);
+    burn_send_amount.retain(|v| !v.amount.is_zero()); // the bank refuses to send zero coins
     burn_send_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
     // state applier
@@ -165,7 +166,7 @@ pub fn burn(
     };
 
     // send fee to collector
-    let fee_send_msg = burn_fee.map(|v| BankMsg::Send {
+    let fee_send_msg = burn_fee.filter(|v| !v.is_zero()).map(|v| BankMsg::Send {
         to_address: fee.collector.into_string(),
         amount: coins(v.u128(), &config.index_denom),
     });
-- 
2.43.0


From 6460df0b83d25dadf27b04fa04c1fa9881c63e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 14/17] fix: airdrop: closing a fully claimed airdrop sends no
 zero coins

---
 contracts/airdrop/src/execute/close.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/contracts/airdrop/src/execute/close.rs b/contracts/airdrop/src/execute/close.rs
index eb1956c..41ba3e6 100644
--- a/contracts/airdrop/src/execute/close.rs
+++ b/contracts/airdrop/src/execute/close.rs
@@ -48,17 +48,18 @@ fn close_open(
     airdrop.closed_at = Some(env.block.height);
 
     // response
-    let send_msg = BankMsg::Send {
+    // the bank refuses to send zero coins
+    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {
         to_address: airdrop.creator.to_string(),
         amount: coins(redeem_amount.u128(), &airdrop.denom),
-    };
+    });
 
     let attrs = close_event(info.sender, AirdropType::Open, airdrop_id, redeem_amount);
 
     // apply states
     airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
 
-    Ok(Response::new().add_message(send_msg).add_attributes(attrs))
+    Ok(Response::new().add_messages(send_msg).add_attributes(attrs))
 }
 
 fn close_bearer(
@@ -81,17 +82,18 @@ fn close_bearer(
     airdrop.closed_at = Some(env.block.height);
 
     // response
-    let send_msg = BankMsg::Send {
+    // the bank refuses to send zero coins
+    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {
         to_address: airdrop.creator.to_string(),
         amount: coins(redeem_amount.u128(), &airdrop.denom),
-    };
+    });
 
     let attrs = close_event(info.sender, AirdropType::Bearer, airdrop_id, redeem_amount);
 
     // apply states
     airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
 
-    Ok(Response::new().add_message(send_msg).add_attributes(attrs))
+    Ok(Response::new().add_messages(send_msg).add_attributes(attrs))
 }
 
 #[cfg(test)]
-- 
2.43.0


From f7c6a58b49456d530065a56dffa8459aedb9d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 15/17] fix: periphery: no zero coins are sent when nothing is
 left to refund

---
 contracts/periphery/src/execute.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index a6b7206..c88e6d6 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -324,17 +324,20 @@ pub fn finish_operation(
         .querier
         .query_balance(env.contract.address, &refund_asset)?;
 
-    let resp = Response::new()
-        .add_attributes(vec![
-            attr("method", "finish_operation"),
-            attr("refund_to", &refund_to),
-            attr("refund_asset", refund_asset),
-            attr("amount", balance.amount),
-        ])
-        .add_message(BankMsg::Send {
-            to_address: refund_to,
-            amount: vec![balance],
-        });
+    let attrs = vec![
+        attr("method", "finish_operation"),
+        attr("refund_to", &refund_to),
+        attr("refund_asset", refund_asset),
+        attr("amount", balance.amount),
+    ];
+
+    // the bank refuses to send zero coins
+    let send_msg = (!balance.amount.is_zero()).then(|| BankMsg::Send {
+        to_address: refund_to,
+        amount: vec![balance],
+    });
+
+    let resp = Response::new().add_attributes(attrs).add_messages(send_msg);
 
     Ok(resp)
 }
-- 
2.43.0


From b785aaccdb4b3d855823d1080939a07467449c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:50 +0000
Subject: [PATCH 16/17] fix: periphery: a route that does not end at its pair's
 denom is refused

---
 packages/pool/src/sim/index_in.rs  | 8 ++++++++
 packages/pool/src/sim/index_out.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/packages/pool/src/sim/index_in.rs b/packages/pool/src/sim/index_in.rs
index 24f15ba..187ac75 100644
--- a/packages/pool/src/sim/index_in.rs
+++ b/packages/pool/src/sim/index_in.rs
@@ -60,6 +60,14 @@ impl<'a> Simulator<'a> {
             ))
         })?;
 
+        // the proceeds of a route that ends elsewhere would never be paid out
+        if ret.denom != token_out {
+            return Err(PoolError::SwapRouteNotFound {
+                from: token_in.denom,
+                to: token_out.to_string(),
+            });
+        }
+
         Ok(SimAmountOutRoute {
             amount_in: token_in,
             sim_amount_out: ret.amount,
diff --git a/packages/pool/src/sim/index_out.rs b/packages/pool/src/sim/index_out.rs
index 572ef92..1ab480f 100644
--- a/packages/pool/src/sim/index_out.rs
+++ b/packages/pool/src/sim/index_out.rs
@@ -63,6 +63,14 @@ impl<'a> Simulator<'a> {
             ))
         })?;
 
+        // a route that starts elsewhere does not spend the input
+        if ret.denom != token_in {
+            return Err(PoolError::SwapRouteNotFound {
+                from: token_in.to_string(),
+                to: token_out.denom,
+            });
+        }
+
         Ok(SimAmountInRoute {
             sim_amount_in: ret.amount,
             amount_out: token_out,
-- 
2.43.0


From 805226f457790e979be2821237f85fc7a2fa99bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:03 +0000
Subject: [PATCH 17/17] fix: airdrop: a campaign without a label states no
 empty label, which the chain refuses

---
 contracts/airdrop/src/execute/register.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/contracts/airdrop/src/execute/register.rs b/contracts/airdrop/src/execute/register.rs
index a143dcf..99a2a92 100644
--- a/contracts/airdrop/src/execute/register.rs
+++ b/contracts/airdrop/src/execute/register.rs
@@ -37,15 +37,19 @@ pub fn register(
 }
 
 fn register_open_event(id: u64, airdrop: OpenAirdrop) -> Vec<Attribute> {
-    vec![
+    let mut attrs = vec![
         attr("action", "register"),
         attr("executor", &airdrop.creator),
         attr("id", id.to_string()),
         attr("type", AirdropType::Open),
         attr("merkle_root", airdrop.merkle_root),
         attr("total_amount", airdrop.total_amount.to_string()),
-        attr("label", airdrop.label.unwrap_or_default()),
-    ]
+    ];
+
+    // the chain refuses attributes without a value
+    attrs.extend(airdrop.label.map(|v| attr("label", v)));
+
+    attrs
 }
 
 fn register_open(
@@ -94,7 +98,7 @@ fn register_open(
 }
 
 fn register_bearer_event(id: u64, airdrop: BearerAirdrop) -> Vec<Attribute> {
-    vec![
+    let mut attrs = vec![
         attr("action", "register"),
         attr("executor", &airdrop.creator),
         attr("id", id.to_string()),
@@ -102,8 +106,12 @@ fn register_bearer_event(id: u64, airdrop: BearerAirdrop) -> Vec<Attribute> {
         attr("signer", airdrop.signer),
         attr("merkle_root", airdrop.merkle_root),
         attr("total_amount", airdrop.total_amount.to_string()),
-        attr("label", airdrop.label.unwrap_or_default()),
-    ]
+    ];
+
+    // the chain refuses attributes without a value
+    attrs.extend(airdrop.label.map(|v| attr("label", v)));
+
+    attrs
 }
 
 #[allow(clippy::too_many_arguments)]
-- 
2.43.0

