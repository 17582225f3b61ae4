From 4f5ffce2375f03e3f2369fd1c8a78664690d751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:40 +0000
Subject: [PATCH 01/17] fix: omnipool withdrawal fee no longer panics when the
 oracle price is far below the spot price

---
 math/src/omnipool/math.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/math/src/omnipool/math.rs b/math/src/omnipool/math.rs
index c7d6324..84a6d1c 100644
--- a/math/src/omnipool/math.rs
+++ b/math/src/omnipool/math.rs
@@ -303,6 +303,11 @@ pub fn calculate_withdrawal_fee(
 		return min_fee;
 	}
 
+	// The fee is capped at 100%. Dividing first would overflow (and panic) for an oracle price far below the difference.
+	if price_diff >= oracle_price {
+		return FixedU128::one();
+	}
+
 	price_diff.div(oracle_price).clamp(min_fee, FixedU128::one())
 }
 
-- 
2.43.0


From c5778bf895f0e49ecdf0179c35eadd7e3d0b406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 02/17] fix: lbp power of a tiny ratio returns an error instead
 of panicking

---
 math/src/transcendental.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/src/transcendental.rs b/math/src/transcendental.rs
index 8d6971e..e6bbcb7 100644
--- a/math/src/transcendental.rs
+++ b/math/src/transcendental.rs
@@ -77,7 +77,8 @@ where
 
 	let operand = D::from(operand);
 	if operand < D::one() {
-		let inverse = D::one().checked_div(operand).unwrap(); // Unwrap is safe because operand is always > 0
+		// The inverse of a tiny operand might not be representable
+		let inverse = D::one().checked_div(operand).ok_or(())?;
 		return Ok((log2_inner::<D, D>(inverse), true));
 	}
 	Ok((log2_inner::<D, D>(operand), false))
-- 
2.43.0


From 02d5d8f909e8d5e776d693a6f39008b5120b17ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 03/17] fix: xyk spot price with fee returns an error instead
 of panicking on extreme reserves

---
 math/src/xyk/math.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/math/src/xyk/math.rs b/math/src/xyk/math.rs
index 2542c0e..4ce6607 100644
--- a/math/src/xyk/math.rs
+++ b/math/src/xyk/math.rs
@@ -5,7 +5,8 @@ use crate::{
 use core::convert::TryFrom;
 use num_traits::{CheckedMul, CheckedSub, Zero};
 use primitive_types::U256;
-use sp_arithmetic::{FixedPointNumber, FixedU128};
+use sp_arithmetic::helpers_128bit::multiply_by_rational_with_rounding;
+use sp_arithmetic::{FixedPointNumber, FixedU128, Rounding};
 
 type Balance = u128;
 
@@ -53,7 +54,10 @@ pub fn calculate_spot_price_with_fee(
 ) -> Result<FixedU128, MathError> {
 	ensure!(in_reserve != 0, ZeroReserve);
 
-	let spot_price_without_fee = FixedU128::from_rational(out_reserve, in_reserve);
+	let spot_price_without_fee =
+		multiply_by_rational_with_rounding(out_reserve, FixedU128::DIV, in_reserve, Rounding::NearestPrefDown)
+			.map(FixedU128::from_inner)
+			.ok_or(Overflow)?;
 
 	if let Some((n, d)) = fee_rate {
 		// Formula: spot-price-with-fee = BA-spot-price-without-fee * (1 - fee)
-- 
2.43.0


From 7fc15601b8b3a149eb609399363035d2914344d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 04/17] fix: dynamic fee recalculation saturates instead of
 panicking when volume dwarfs liquidity

---
 math/src/dynamic_fees/math.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/math/src/dynamic_fees/math.rs b/math/src/dynamic_fees/math.rs
index ee1354f..57aba52 100644
--- a/math/src/dynamic_fees/math.rs
+++ b/math/src/dynamic_fees/math.rs
@@ -1,8 +1,9 @@
 use super::types::*;
 use crate::dynamic_fees::types::NetVolumeDirection::{InOut, OutIn};
 use num_traits::Zero;
-use sp_arithmetic::traits::Saturating;
-use sp_arithmetic::{FixedPointOperand, FixedU128, PerThing};
+use sp_arithmetic::helpers_128bit::multiply_by_rational_with_rounding;
+use sp_arithmetic::traits::{Bounded, Saturating};
+use sp_arithmetic::{FixedPointNumber, FixedPointOperand, FixedU128, PerThing, Rounding};
 
 /// Recalculate Omnipool's asset fee given previously calculated fee and oracle data.
 ///
@@ -66,7 +67,15 @@ where
 	// 2. if protocol fee, direction InOut: x = (Vi - Vo) / L
 	let (x, x_neg) = if !volume.liquidity.is_zero() {
 		let (diff, neg) = volume.net_volume(direction);
-		(FixedU128::from_rational(diff, volume.liquidity), neg)
+		let ratio = multiply_by_rational_with_rounding(
+			diff,
+			FixedU128::DIV,
+			volume.liquidity,
+			Rounding::NearestPrefDown,
+		)
+		.map(FixedU128::from_inner)
+		.unwrap_or_else(FixedU128::max_value);
+		(ratio, neg)
 	} else {
 		(FixedU128::zero(), false)
 	};
-- 
2.43.0


From ee5d4d3dee2dcff904183fc9562d0e9569aff2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:16 +0000
Subject: [PATCH 05/17] fix: decode dynamic tuples of arguments behind a single
 offset

---
 precompiles/utils/src/solidity/codec/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/precompiles/utils/src/solidity/codec/mod.rs b/precompiles/utils/src/solidity/codec/mod.rs
index 6ab27ee..9635a47 100644
--- a/precompiles/utils/src/solidity/codec/mod.rs
+++ b/precompiles/utils/src/solidity/codec/mod.rs
@@ -86,10 +86,8 @@ fn decode<T: Codec>(input: &[u8]) -> MayRevert<T> {
 /// It matches the encoding of Solidity function arguments and return value, or event data.
 pub fn decode_arguments<T: Codec>(input: &[u8]) -> MayRevert<T> {
 	if T::is_explicit_tuple() && !T::has_static_size() {
-		let writer = Writer::new();
-		let mut writer = writer.write(U256::from(32));
-		writer.write_pointer(input.to_vec());
-		let input = writer.build();
+		// Prefix the arguments with the offset a dynamic tuple is expected to be behind.
+		let input = Writer::new().write(U256::from(32)).write_raw_bytes(input).build();
 		decode(&input)
 	} else {
 		decode(&input)
-- 
2.43.0


From b7b04a9a6e09c836a4aecc34830ba2def7bc4bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 06/17] fix: report a buy's true amounts to the XYK trade
 handler

The amounts of the asset sold to and bought from the pool were swapped on buys (and the fee paid into the pool left out), so the oracle
recorded the trade volume of each asset under the other one.
---
 pallets/xyk/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/xyk/src/lib.rs b/pallets/xyk/src/lib.rs
index 0090e2c..2e1bf0b 100644
--- a/pallets/xyk/src/lib.rs
+++ b/pallets/xyk/src/lib.rs
@@ -1043,8 +1043,8 @@ impl<T: Config> AMM<T::AccountId, AssetId, AssetPair, Balance> for Pallet<T> {
 			T::OracleSource::get(),
 			transfer.assets.asset_in,
 			transfer.assets.asset_out,
+			transfer.amount_b + transfer.fee.1,
 			transfer.amount,
-			transfer.amount_b,
 			liquidity_in,
 			liquidity_out,
 			Ratio::new(liquidity_in, liquidity_out),
-- 
2.43.0


From 30ad1e2313593163879677f90fc389674bd86580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 07/17] fix: fall back when an oracle price cannot be
 represented instead of panicking at block start

---
 pallets/transaction-multi-payment/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/transaction-multi-payment/src/lib.rs b/pallets/transaction-multi-payment/src/lib.rs
index ac2d0ca..4a9bcf5 100644
--- a/pallets/transaction-multi-payment/src/lib.rs
+++ b/pallets/transaction-multi-payment/src/lib.rs
@@ -562,7 +562,7 @@ impl<T: Config> Pallet<T> {
 		let on_chain_route = T::RouteProvider::get_route(AssetPair::new(asset_id, native_asset));
 
 		T::OraclePriceProvider::price(&on_chain_route, OraclePeriod::Short)
-			.map(|ratio| FixedU128::from_rational(ratio.n, ratio.d))
+			.and_then(|ratio| FixedU128::checked_from_rational(ratio.n, ratio.d))
 	}
 }
 
-- 
2.43.0


From b765f3f6d6578e98d32859616b856ade5cbe63cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 08/17] fix: let a DCA schedule be terminated whatever its
 position in the block's list

terminate searched the block's list of schedule ids with a binary search, but
ids are appended in order of planning. A schedule planned after one with a
higher id was not found and could not be terminated in time.
---
 pallets/dca/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/dca/src/lib.rs b/pallets/dca/src/lib.rs
index f0504ba..c854e51 100644
--- a/pallets/dca/src/lib.rs
+++ b/pallets/dca/src/lib.rs
@@ -556,9 +556,11 @@ pub mod pallet {
 				|maybe_schedule_ids| -> DispatchResult {
 					let schedule_ids = maybe_schedule_ids.as_mut().ok_or(Error::<T>::ScheduleNotFound)?;
 
+					// ids are in order of planning, which is not the order of the ids
 					let index = schedule_ids
-						.binary_search(&schedule_id)
-						.map_err(|_| Error::<T>::ScheduleNotFound)?;
+						.iter()
+						.position(|id| *id == schedule_id)
+						.ok_or(Error::<T>::ScheduleNotFound)?;
 
 					schedule_ids.remove(index);
 
-- 
2.43.0


From 5c1894c1d6798431bc366c5e3b8659e7e5275407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:59 +0000
Subject: [PATCH 09/17] fix: skip orders that are gone when settling OTC orders
 off-chain

The sorted list of orders is refreshed once per block height, but it is read on
every run. When the worker runs again at the same height (a fork), an order of
the list can be gone; unwrapping it crashed the off-chain worker.
---
 pallets/otc-settlements/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/otc-settlements/src/lib.rs b/pallets/otc-settlements/src/lib.rs
index d5884e2..8db3178 100644
--- a/pallets/otc-settlements/src/lib.rs
+++ b/pallets/otc-settlements/src/lib.rs
@@ -510,7 +510,10 @@ impl<T: Config> Pallet<T> {
 			target: "offchain_worker::settle_otcs",
 				"test OTC id {:?} ", otc_id);
 
-			let otc = <pallet_otc::Orders<T>>::get(otc_id).unwrap();
+			// the list can be older than this block, e.g. on a fork of the same height
+			let Some(otc) = <pallet_otc::Orders<T>>::get(otc_id) else {
+				continue;
+			};
 			let route = T::Router::get_route(AssetPair {
 				asset_in: otc.asset_out,
 				asset_out: otc.asset_in,
-- 
2.43.0


From 0e6ab2d42da1e40e0419fbe0bba81b37b58f9505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 10/17] fix: delegatecalls to ordinary contracts were refused
 by the precompile filter

---
 runtime/hydradx/src/evm/precompiles/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/hydradx/src/evm/precompiles/mod.rs b/runtime/hydradx/src/evm/precompiles/mod.rs
index 2097fe8..a24ada4 100644
--- a/runtime/hydradx/src/evm/precompiles/mod.rs
+++ b/runtime/hydradx/src/evm/precompiles/mod.rs
@@ -114,7 +114,8 @@ where
 		let address = handle.code_address();
 
 		// Filter known precompile addresses except Ethereum officials
-		if address > ETH_PRECOMPILE_END && context.address != address {
+		let is_known = address == CALLPERMIT || address == DISPATCH_ADDR || is_asset_address(address);
+		if is_known && context.address != address {
 			return Some(Err(PrecompileFailure::Revert {
 				exit_status: ExitRevert::Reverted,
 				output: "cannot be called with DELEGATECALL or CALLCODE".into(),
-- 
2.43.0


From 4e86fa1ea813fa6a1003a5ff83347e4f94bb6d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 11/17] fix: restoring the account nonce after a permit
 underflowed when the account was reaped

---
 runtime/hydradx/src/evm/permit.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/runtime/hydradx/src/evm/permit.rs b/runtime/hydradx/src/evm/permit.rs
index bce5449..3db26e3 100644
--- a/runtime/hydradx/src/evm/permit.rs
+++ b/runtime/hydradx/src/evm/permit.rs
@@ -13,7 +13,7 @@ use primitive_types::{H160, H256, U256};
 use primitives::AccountId;
 use sp_core::crypto::AccountId32;
 use sp_io::hashing::keccak_256;
-use sp_runtime::traits::{One, UniqueSaturatedInto};
+use sp_runtime::traits::UniqueSaturatedInto;
 use sp_runtime::DispatchResult;
 use sp_std::vec::Vec;
 
@@ -124,12 +124,8 @@ where
 				})
 			}
 		};
-		let account_source_nonce = frame_system::Account::<R>::get(&account_id).nonce;
-		debug_assert_eq!(
-			account_source_nonce,
-			source_nonce + <R as frame_system::Config>::Nonce::one()
-		);
-		frame_system::Account::<R>::mutate(account_id, |a| a.nonce -= <R as frame_system::Config>::Nonce::one());
+		// The account can be reaped (and its nonce with it) during the execution, hence the nonce is not just decremented.
+		frame_system::Account::<R>::mutate(account_id, |a| a.nonce = source_nonce);
 
 		let permit_nonce = NoncesStorage::get(source);
 		NoncesStorage::insert(source, permit_nonce + U256::one());
-- 
2.43.0


From 7678127cac84fff363c7ca1ed9ccc6cd1e7e4dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 12/17] fix: staking counted votes locked at 5x as 4x

---
 pallets/staking/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/staking/src/types.rs b/pallets/staking/src/types.rs
index a4fc396..9364667 100644
--- a/pallets/staking/src/types.rs
+++ b/pallets/staking/src/types.rs
@@ -98,7 +98,7 @@ impl Conviction {
 			Conviction::Locked2x => FixedU128::from(2_u128),
 			Conviction::Locked3x => FixedU128::from(3_u128),
 			Conviction::Locked4x => FixedU128::from(4_u128),
-			Conviction::Locked5x => FixedU128::from(4_u128),
+			Conviction::Locked5x => FixedU128::from(5_u128),
 			Conviction::Locked6x => FixedU128::from(6_u128),
 		}
 	}
-- 
2.43.0


From f5cdeb5c6fbab88403ff0e40c3631cdbcd9ef564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 13/17] fix: liquidity mining: refuse to withdraw shares
 against a pool they were not deposited for

xyk-liquidity-mining passes the pool of the caller's asset pair and unlocks that
pool's share token, so naming another pair paid out other depositors' shares.
---
 pallets/liquidity-mining/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pallets/liquidity-mining/src/lib.rs b/pallets/liquidity-mining/src/lib.rs
index 2197c9a..6e35aef 100644
--- a/pallets/liquidity-mining/src/lib.rs
+++ b/pallets/liquidity-mining/src/lib.rs
@@ -1911,6 +1911,12 @@ impl<T: Config<I>, I: 'static> hydradx_traits::liquidity_mining::Mutate<T::Accou
 		yield_farm_id: YieldFarmId,
 		amm_pool_id: Self::AmmPoolId,
 	) -> Result<(Self::Balance, Option<(T::AssetId, Self::Balance, Self::Balance)>, bool), Self::Error> {
+		// LP shares can be withdrawn only from the AMM pool they were deposited for.
+		ensure!(
+			<YieldFarm<T, I>>::contains_key((amm_pool_id.clone(), global_farm_id, yield_farm_id)),
+			Error::<T, I>::YieldFarmNotFound
+		);
+
 		let claim_data = if Self::is_yield_farm_claimable(global_farm_id, yield_farm_id, amm_pool_id) {
 			let fail_on_doubleclaim = false;
 			let (_, reward_currency, claimed, unclaimable) =
-- 
2.43.0


From e4d3c10e575c89f6bdd662b373c38404d0f064c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 14/17] fix: liquidity mining: start a new yield farm from the
 global farm's current rpz

A deposit made in the period the farm was created in kept the zero rpz it was created with
and was rewarded for the whole past of the global farm, out of other farms' pending rewards.
---
 pallets/liquidity-mining/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/liquidity-mining/src/lib.rs b/pallets/liquidity-mining/src/lib.rs
index 6e35aef..7888e51 100644
--- a/pallets/liquidity-mining/src/lib.rs
+++ b/pallets/liquidity-mining/src/lib.rs
@@ -686,8 +686,11 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
 
 					let yield_farm_id = Self::get_next_farm_id()?;
 
-					let yield_farm =
+					let mut yield_farm =
 						YieldFarmData::new(yield_farm_id, current_period, loyalty_curve.clone(), multiplier);
+					//NOTE: yield farm is not synced again in the current period so without this the first
+					//deposit in this period would be rewarded for the whole history of the global farm.
+					yield_farm.accumulated_rpz = global_farm.accumulated_rpz;
 
 					<YieldFarm<T, I>>::insert((amm_pool_id, global_farm_id, yield_farm_id), yield_farm);
 					global_farm.increase_yield_farm_counts()?;
-- 
2.43.0


From e512fcbafd0c15e622f8ddb00e2b304155a3282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 15/17] fix: liquidity mining: keep a yield farm's stake equal
 to its valued shares times multiplier

Stakes were added and removed rounded down per deposit while stopping, updating and syncing
a farm use the rounded total, so fractional multipliers made those underflow: the farm could
not be stopped and claims, deposits and withdrawals could be refused.
---
 pallets/liquidity-mining/src/lib.rs | 37 ++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/pallets/liquidity-mining/src/lib.rs b/pallets/liquidity-mining/src/lib.rs
index 7888e51..a4bab26 100644
--- a/pallets/liquidity-mining/src/lib.rs
+++ b/pallets/liquidity-mining/src/lib.rs
@@ -757,7 +757,8 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
 					math::calculate_global_farm_shares(yield_farm.total_valued_shares, multiplier)
 						.map_err(|_| ArithmeticError::Overflow)?;
 
-				global_farm.remove_stake(old_stake_in_global_farm)?;
+				//NOTE: stakes recorded in the past could have been rounded for each deposit separately.
+				global_farm.remove_stake(old_stake_in_global_farm.min(global_farm.total_shares_z))?;
 				global_farm.add_stake(new_stake_in_global_farm)?;
 
 				yield_farm.multiplier = multiplier;
@@ -830,7 +831,8 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
 							)
 							.map_err(|_| ArithmeticError::Overflow)?;
 
-							global_farm.remove_stake(old_stake_in_global_farm)?;
+							//NOTE: stakes recorded in the past could have been rounded for each deposit separately.
+							global_farm.remove_stake(old_stake_in_global_farm.min(global_farm.total_shares_z))?;
 
 							yield_farm.state = FarmState::Stopped;
 							yield_farm.multiplier = FarmMultiplier::default();
@@ -1284,6 +1286,7 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
 								.checked_sub(deposit.shares)
 								.defensive_ok_or::<Error<T, I>>(InconsistentStateError::InvalidTotalShares.into())?;
 
+							let old_total_valued_shares = yield_farm.total_valued_shares;
 							yield_farm.total_valued_shares = yield_farm
 								.total_valued_shares
 								.checked_sub(farm_entry.valued_shares)
@@ -1293,11 +1296,21 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
 							// stopped and yield farm have to be stopped before it's terminated so
 							// this update is only required for active farms.
 							if yield_farm.state.is_active() {
-								let deposit_stake_in_global_farm =
-									math::calculate_global_farm_shares(farm_entry.valued_shares, yield_farm.multiplier)
+								let old_stake_in_global_farm =
+									math::calculate_global_farm_shares(old_total_valued_shares, yield_farm.multiplier)
 										.map_err(|_| ArithmeticError::Overflow)?;
-
-								global_farm.remove_stake(deposit_stake_in_global_farm)?;
+								let new_stake_in_global_farm = math::calculate_global_farm_shares(
+									yield_farm.total_valued_shares,
+									yield_farm.multiplier,
+								)
+								.map_err(|_| ArithmeticError::Overflow)?;
+
+								//NOTE: stakes recorded in the past could have been rounded for each deposit separately.
+								let stake_to_remove = old_stake_in_global_farm
+									.saturating_sub(new_stake_in_global_farm)
+									.min(global_farm.total_shares_z);
+
+								global_farm.remove_stake(stake_to_remove)?;
 							}
 
 							//NOTE: this should never happen. It's the responsibility of a pallet
@@ -1422,8 +1435,8 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
 						Error::<T, I>::IncorrectValuedShares
 					);
 
-					let deposit_stake_in_global_farm =
-						math::calculate_global_farm_shares(valued_shares, yield_farm.multiplier)
+					let old_stake_in_global_farm =
+						math::calculate_global_farm_shares(yield_farm.total_valued_shares, yield_farm.multiplier)
 							.map_err(|_| ArithmeticError::Overflow)?;
 
 					yield_farm.total_shares = yield_farm
@@ -1436,7 +1449,13 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
 						.checked_add(valued_shares)
 						.ok_or(ArithmeticError::Overflow)?;
 
-					global_farm.add_stake(deposit_stake_in_global_farm)?;
+					//NOTE: stake of the yield farm is always calculated from its total valued shares. Sum of
+					//stakes rounded for each deposit separately could be lower than that.
+					let new_stake_in_global_farm =
+						math::calculate_global_farm_shares(yield_farm.total_valued_shares, yield_farm.multiplier)
+							.map_err(|_| ArithmeticError::Overflow)?;
+
+					global_farm.add_stake(new_stake_in_global_farm.saturating_sub(old_stake_in_global_farm))?;
 
 					let farm_entry = YieldFarmEntry::new(
 						global_farm.id,
-- 
2.43.0


From f5f6fe5927349c3dc057d518efd2ca94b5b93a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 16/17] fix: referral codes accept ASCII letters and digits
 only

Each byte was judged as a Latin-1 character, so bytes above 127 passed and
were then not upper-cased.
---
 pallets/referrals/src/lib.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pallets/referrals/src/lib.rs b/pallets/referrals/src/lib.rs
index 5787165..05b7f64 100644
--- a/pallets/referrals/src/lib.rs
+++ b/pallets/referrals/src/lib.rs
@@ -367,10 +367,7 @@ pub mod pallet {
 			ensure!(code.len() >= T::MinCodeLength::get() as usize, Error::<T>::TooShort);
 
 			ensure!(
-				code.clone()
-					.into_inner()
-					.iter()
-					.all(|c| char::is_alphanumeric(*c as char)),
+				code.clone().into_inner().iter().all(u8::is_ascii_alphanumeric),
 				Error::<T>::InvalidCharacter
 			);
 
-- 
2.43.0


From fc845e62703d4c8878be06fa8f5e778509f6e5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 17/17] fix: asset registry: an asset's old location is
 released when a new one is set

Mutate::set_location left the old location mapped to the asset.
---
 pallets/asset-registry/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pallets/asset-registry/src/lib.rs b/pallets/asset-registry/src/lib.rs
index 6a9174b..9720d03 100644
--- a/pallets/asset-registry/src/lib.rs
+++ b/pallets/asset-registry/src/lib.rs
@@ -554,6 +554,9 @@ impl<T: Config> Pallet<T> {
 			Error::<T>::LocationAlreadyRegistered
 		);
 
+		if let Some(old_location) = AssetLocations::<T>::take(asset_id) {
+			LocationAssets::<T>::remove(&old_location);
+		}
 		AssetLocations::<T>::insert(asset_id, &location);
 		LocationAssets::<T>::insert(&location, asset_id);
 
-- 
2.43.0

