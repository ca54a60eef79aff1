From c8180b411515bba2b90fb8c1188733371526374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 01/21] fix: slash_validator: proposer share of the
 whistleblower reward was always zero

PROPOSER_WEIGHT / WEIGHT_DENOMINATOR is an integer division that truncates to 0;
multiply before dividing as the specification does.
---
 ethereum-consensus/src/altair/helpers.rs    | 3 +--
 ethereum-consensus/src/bellatrix/helpers.rs | 3 +--
 ethereum-consensus/src/capella/spec/mod.rs  | 3 +--
 ethereum-consensus/src/deneb/spec/mod.rs    | 3 +--
 ethereum-consensus/src/electra/helpers.rs   | 3 +--
 5 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/ethereum-consensus/src/altair/helpers.rs b/ethereum-consensus/src/altair/helpers.rs
index 9c7f9b4..69338b8 100644
--- a/ethereum-consensus/src/altair/helpers.rs
+++ b/ethereum-consensus/src/altair/helpers.rs
@@ -403,8 +403,7 @@ pub fn slash_validator<
 
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/bellatrix/helpers.rs b/ethereum-consensus/src/bellatrix/helpers.rs
index dcf7e47..3de78f8 100644
--- a/ethereum-consensus/src/bellatrix/helpers.rs
+++ b/ethereum-consensus/src/bellatrix/helpers.rs
@@ -105,8 +105,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/capella/spec/mod.rs b/ethereum-consensus/src/capella/spec/mod.rs
index 286de1a..d22c518 100644
--- a/ethereum-consensus/src/capella/spec/mod.rs
+++ b/ethereum-consensus/src/capella/spec/mod.rs
@@ -1688,8 +1688,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/deneb/spec/mod.rs b/ethereum-consensus/src/deneb/spec/mod.rs
index df6fa7c..a7fb08a 100644
--- a/ethereum-consensus/src/deneb/spec/mod.rs
+++ b/ethereum-consensus/src/deneb/spec/mod.rs
@@ -1796,8 +1796,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 2495cdb..8ad7dba 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -701,8 +701,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward = state.validators[slashed_index].effective_balance /
         context.whistleblower_reward_quotient_electra;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
-- 
2.43.0


From f7ea6575912b7a74ddff86aab355ac343681fffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 02/21] fix: process_voluntary_exit: the shard committee period
 counts from activation_epoch

The check used activation_eligibility_epoch, so a validator that waited in the activation
queue could exit before being active for SHARD_COMMITTEE_PERIOD epochs.
---
 ethereum-consensus/src/altair/spec/mod.rs          | 3 +--
 ethereum-consensus/src/bellatrix/spec/mod.rs       | 3 +--
 ethereum-consensus/src/capella/spec/mod.rs         | 3 +--
 ethereum-consensus/src/deneb/block_processing.rs   | 3 +--
 ethereum-consensus/src/electra/block_processing.rs | 3 +--
 ethereum-consensus/src/phase0/block_processing.rs  | 3 +--
 6 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/ethereum-consensus/src/altair/spec/mod.rs b/ethereum-consensus/src/altair/spec/mod.rs
index 5715b45..71929c5 100644
--- a/ethereum-consensus/src/altair/spec/mod.rs
+++ b/ethereum-consensus/src/altair/spec/mod.rs
@@ -331,8 +331,7 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )));
     }
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/bellatrix/spec/mod.rs b/ethereum-consensus/src/bellatrix/spec/mod.rs
index d37399c..d672309 100644
--- a/ethereum-consensus/src/bellatrix/spec/mod.rs
+++ b/ethereum-consensus/src/bellatrix/spec/mod.rs
@@ -598,8 +598,7 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )));
     }
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/capella/spec/mod.rs b/ethereum-consensus/src/capella/spec/mod.rs
index d22c518..8832fdd 100644
--- a/ethereum-consensus/src/capella/spec/mod.rs
+++ b/ethereum-consensus/src/capella/spec/mod.rs
@@ -605,8 +605,7 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )));
     }
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/deneb/block_processing.rs b/ethereum-consensus/src/deneb/block_processing.rs
index 2e57c71..3afdb73 100644
--- a/ethereum-consensus/src/deneb/block_processing.rs
+++ b/ethereum-consensus/src/deneb/block_processing.rs
@@ -320,8 +320,7 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )))
     }
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 302b6eb..8210b9b 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -819,8 +819,7 @@ pub fn process_voluntary_exit<
         )));
     }
 
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/phase0/block_processing.rs b/ethereum-consensus/src/phase0/block_processing.rs
index 3570de0..cc0c4a2 100644
--- a/ethereum-consensus/src/phase0/block_processing.rs
+++ b/ethereum-consensus/src/phase0/block_processing.rs
@@ -497,8 +497,7 @@ pub fn process_voluntary_exit<
         )))
     }
 
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
-- 
2.43.0


From beb87ab9a8139ec0fb0be5d53ed34c13dc72a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 03/21] fix: get_block_root_at_slot: no underflow in the error
 path at slot 0

---
 ethereum-consensus/src/altair/spec/mod.rs    | 2 +-
 ethereum-consensus/src/bellatrix/spec/mod.rs | 2 +-
 ethereum-consensus/src/capella/spec/mod.rs   | 2 +-
 ethereum-consensus/src/deneb/spec/mod.rs     | 2 +-
 ethereum-consensus/src/electra/spec/mod.rs   | 2 +-
 ethereum-consensus/src/phase0/helpers.rs     | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ethereum-consensus/src/altair/spec/mod.rs b/ethereum-consensus/src/altair/spec/mod.rs
index 71929c5..199e3f6 100644
--- a/ethereum-consensus/src/altair/spec/mod.rs
+++ b/ethereum-consensus/src/altair/spec/mod.rs
@@ -1348,7 +1348,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot - 1,
+            lower_bound: state.slot.saturating_sub(1),
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/bellatrix/spec/mod.rs b/ethereum-consensus/src/bellatrix/spec/mod.rs
index d672309..6e27b8d 100644
--- a/ethereum-consensus/src/bellatrix/spec/mod.rs
+++ b/ethereum-consensus/src/bellatrix/spec/mod.rs
@@ -2284,7 +2284,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot - 1,
+            lower_bound: state.slot.saturating_sub(1),
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/capella/spec/mod.rs b/ethereum-consensus/src/capella/spec/mod.rs
index 8832fdd..2a899e5 100644
--- a/ethereum-consensus/src/capella/spec/mod.rs
+++ b/ethereum-consensus/src/capella/spec/mod.rs
@@ -2551,7 +2551,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot - 1,
+            lower_bound: state.slot.saturating_sub(1),
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/deneb/spec/mod.rs b/ethereum-consensus/src/deneb/spec/mod.rs
index a7fb08a..e7eb2ac 100644
--- a/ethereum-consensus/src/deneb/spec/mod.rs
+++ b/ethereum-consensus/src/deneb/spec/mod.rs
@@ -2607,7 +2607,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot - 1,
+            lower_bound: state.slot.saturating_sub(1),
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/electra/spec/mod.rs b/ethereum-consensus/src/electra/spec/mod.rs
index bee747c..f3fe050 100644
--- a/ethereum-consensus/src/electra/spec/mod.rs
+++ b/ethereum-consensus/src/electra/spec/mod.rs
@@ -2713,7 +2713,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot - 1,
+            lower_bound: state.slot.saturating_sub(1),
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/phase0/helpers.rs b/ethereum-consensus/src/phase0/helpers.rs
index d1de4c6..c7b6ea0 100644
--- a/ethereum-consensus/src/phase0/helpers.rs
+++ b/ethereum-consensus/src/phase0/helpers.rs
@@ -610,7 +610,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot - 1,
+            lower_bound: state.slot.saturating_sub(1),
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         })
     }
-- 
2.43.0


From 79328365e08ee41dc48093989e4a4ac5bbb91324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 04/21] fix: electra get_expected_withdrawals: charge a pending
 partial withdrawal to its own validator

The withdrawal was built with the cursor of the sweep as validator_index, so the balance of an
unrelated validator was decreased.
---
 ethereum-consensus/src/electra/block_processing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 8210b9b..2a8a01f 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -91,7 +91,7 @@ pub fn get_expected_withdrawals<
             withdrawal_address.copy_from_slice(&validator.withdrawal_credentials[12..]);
             let withdrawal = Withdrawal {
                 index: withdrawal_index,
-                validator_index,
+                validator_index: withdrawal.index,
                 address: withdrawal_address,
                 amount: withdrawable_balance,
             };
-- 
2.43.0


From a25f00d960c62ce70e46b9258d9106e028dcfe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 05/21] fix: electra process_withdrawals: resume the sweep
 after the last withdrawn validator

The next sweep started from the withdrawal index instead of the validator index.
---
 ethereum-consensus/src/electra/block_processing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 2a8a01f..2e7b996 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -207,7 +207,9 @@ pub fn process_withdrawals<
 
     if expected_withdrawals.len() == context.max_withdrawals_per_payload {
         let next_validator_index =
-            expected_withdrawals.last().map(|latest| (latest.index + 1) % state.validators.len());
+            expected_withdrawals
+                .last()
+                .map(|latest| (latest.validator_index + 1) % state.validators.len());
         state.next_withdrawal_validator_index =
             next_validator_index.unwrap_or(state.next_withdrawal_validator_index);
     } else {
-- 
2.43.0


From 654a7ae21cba65d052d1e70d4f93fb95c756b4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 06/21] fix: electra
 compute_consolidation_epoch_and_update_churn: use the consolidation churn
 limit

---
 ethereum-consensus/src/electra/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 8ad7dba..4d639c6 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -626,7 +626,7 @@ pub fn compute_consolidation_epoch_and_update_churn<
     let activation_exit_epoch = compute_activation_exit_epoch(current_epoch, context);
     let mut earliest_consolidation_epoch =
         state.earliest_consolidation_epoch.max(activation_exit_epoch);
-    let per_epoch_churn = get_activation_exit_churn_limit(state, context)?;
+    let per_epoch_churn = get_consolidation_churn_limit(state, context)?;
     let mut consolidation_balance_to_consume =
         if state.earliest_consolidation_epoch < earliest_consolidation_epoch {
             per_epoch_churn
-- 
2.43.0


From 58991ff45fd35137cb9b7ef39b6ebcb885603316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 07/21] fix: electra get_attesting_indices: offset each
 committee by the sizes of the previous ones

The offset was the ordinal of the committee, so the aggregation bits of different committees overlapped.
---
 ethereum-consensus/src/electra/helpers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 4d639c6..456a9d5 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -299,13 +299,15 @@ pub fn get_attesting_indices<
 
     let mut indices = HashSet::with_capacity(MAX_VALIDATORS_PER_SLOT);
 
-    for (committee_offset, index) in committee_indices.into_iter().enumerate() {
+    let mut committee_offset = 0;
+    for index in committee_indices {
         let committee = get_beacon_committee(state, attestation.data.slot, index, context)?;
         for (i, validator_index) in committee.iter().enumerate() {
             if attestation.aggregation_bits[committee_offset + i] {
                 indices.insert(*validator_index);
             }
         }
+        committee_offset += committee.len();
     }
 
     Ok(indices)
-- 
2.43.0


From f8462686d0215f20f14b1f1954c16cb7378029d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 08/21] fix: electra process_consolidation: withdrawable epoch
 follows the new exit epoch

It was computed from the exit epoch before the update, which is FAR_FUTURE_EPOCH, and overflowed.
---
 ethereum-consensus/src/electra/block_processing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 2e7b996..1fbb663 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -1143,7 +1143,8 @@ pub fn process_consolidation<
             context,
         )?;
     state.validators[consolidation.source_index].withdrawable_epoch =
-        source_validator.exit_epoch + context.min_validator_withdrawability_delay;
+        state.validators[consolidation.source_index].exit_epoch +
+            context.min_validator_withdrawability_delay;
     state.pending_consolidations.push(PendingConsolidation {
         source_index: consolidation.source_index,
         target_index: consolidation.target_index,
-- 
2.43.0


From 4d07b01848b0d6a8a18efbedc50cdb8842459659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 09/21] fix: electra apply_deposit: a deposit with an invalid
 signature is ignored, not an error

The deposit contract does not check signatures, so a block that includes such a deposit is valid;
rejecting it halts the chain.
---
 .../src/electra/block_processing.rs           | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 1fbb663..f136c3b 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -659,30 +659,34 @@ pub fn apply_deposit<
     if let Some((index, validator)) = validator {
         state.pending_balance_deposits.push(PendingBalanceDeposit { index, amount });
 
-        is_valid_deposit_signature(
-            public_key,
-            withdrawal_credentials.clone(),
-            amount,
-            signature,
-            context,
-        )?;
-
-        // NOTE: if we did not return from signature check, then we know the signature is valid
         if is_compounding_withdrawal_credential(withdrawal_credentials) &&
-            has_eth1_withdrawal_credential(validator)
+            has_eth1_withdrawal_credential(validator) &&
+            is_valid_deposit_signature(
+                public_key,
+                withdrawal_credentials.clone(),
+                amount,
+                signature,
+                context,
+            )
+            .is_ok()
         {
             switch_to_compounding_validator(state, index, context)?;
         }
         return Ok(());
     }
 
-    is_valid_deposit_signature(
+    if is_valid_deposit_signature(
         public_key,
         withdrawal_credentials.clone(),
         amount,
         signature,
         context,
-    )?;
+    )
+    .is_err()
+    {
+        // NOTE: explicitly return with no error and also no further mutations to `state`
+        return Ok(());
+    }
     add_validator_to_registry(state, public_key.clone(), withdrawal_credentials.clone(), amount);
     Ok(())
 }
-- 
2.43.0


From 7f33a293c4a7c457d6b35cb906845880b0e47948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 10/21] fix: electra process_operations: deposits are required
 up to the limit and refused after it

The check for leftover deposits sat in the wrong branch, so blocks with the required deposits were
rejected and blocks with unexpected ones accepted.
---
 ethereum-consensus/src/electra/block_processing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index f136c3b..665a18b 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -450,11 +450,11 @@ pub fn process_operations<
             return Err(invalid_operation_error(InvalidOperation::Deposit(
                 InvalidDeposit::IncorrectCount { expected, count: body.deposits.len() },
             )));
-        } else if !body.deposits.is_empty() {
-            return Err(invalid_operation_error(InvalidOperation::Deposit(
-                InvalidDeposit::IncorrectCount { expected: 0, count: body.deposits.len() },
-            )));
         }
+    } else if !body.deposits.is_empty() {
+        return Err(invalid_operation_error(InvalidOperation::Deposit(
+            InvalidDeposit::IncorrectCount { expected: 0, count: body.deposits.len() },
+        )));
     }
 
     body.proposer_slashings
-- 
2.43.0


From 71e926b87b550c9f519d0331387210bf91bbb1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:52 +0000
Subject: [PATCH 11/21] fix: process_operations: no underflow when the voted
 deposit count is below the deposit index

---
 ethereum-consensus/src/altair/spec/mod.rs          | 6 +++++-
 ethereum-consensus/src/bellatrix/spec/mod.rs       | 6 +++++-
 ethereum-consensus/src/capella/block_processing.rs | 7 ++++++-
 ethereum-consensus/src/deneb/spec/mod.rs           | 6 +++++-
 ethereum-consensus/src/phase0/block_processing.rs  | 7 ++++++-
 5 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/ethereum-consensus/src/altair/spec/mod.rs b/ethereum-consensus/src/altair/spec/mod.rs
index 199e3f6..1b8bc32 100644
--- a/ethereum-consensus/src/altair/spec/mod.rs
+++ b/ethereum-consensus/src/altair/spec/mod.rs
@@ -554,7 +554,11 @@ pub fn process_operations<
 ) -> Result<()> {
     let expected_deposit_count = usize::min(
         context.max_deposits,
-        (state.eth1_data.deposit_count - state.eth1_deposit_index) as usize,
+        state
+            .eth1_data
+            .deposit_count
+            .checked_sub(state.eth1_deposit_index)
+            .ok_or(Error::Underflow)? as usize,
     );
     if body.deposits.len() != expected_deposit_count {
         return Err(invalid_operation_error(InvalidOperation::Deposit(
diff --git a/ethereum-consensus/src/bellatrix/spec/mod.rs b/ethereum-consensus/src/bellatrix/spec/mod.rs
index 6e27b8d..1132c77 100644
--- a/ethereum-consensus/src/bellatrix/spec/mod.rs
+++ b/ethereum-consensus/src/bellatrix/spec/mod.rs
@@ -861,7 +861,11 @@ pub fn process_operations<
 ) -> Result<()> {
     let expected_deposit_count = usize::min(
         context.max_deposits,
-        (state.eth1_data.deposit_count - state.eth1_deposit_index) as usize,
+        state
+            .eth1_data
+            .deposit_count
+            .checked_sub(state.eth1_deposit_index)
+            .ok_or(Error::Underflow)? as usize,
     );
     if body.deposits.len() != expected_deposit_count {
         return Err(invalid_operation_error(InvalidOperation::Deposit(
diff --git a/ethereum-consensus/src/capella/block_processing.rs b/ethereum-consensus/src/capella/block_processing.rs
index 0165344..96da5d7 100644
--- a/ethereum-consensus/src/capella/block_processing.rs
+++ b/ethereum-consensus/src/capella/block_processing.rs
@@ -18,6 +18,7 @@ use crate::{
     signing::verify_signed_data,
     ssz::prelude::*,
     state_transition::{Context, Result},
+    Error,
 };
 
 pub fn process_bls_to_execution_change<
@@ -138,7 +139,11 @@ pub fn process_operations<
 ) -> Result<()> {
     let expected_deposit_count = usize::min(
         context.max_deposits,
-        (state.eth1_data.deposit_count - state.eth1_deposit_index) as usize,
+        state
+            .eth1_data
+            .deposit_count
+            .checked_sub(state.eth1_deposit_index)
+            .ok_or(Error::Underflow)? as usize,
     );
     if body.deposits.len() != expected_deposit_count {
         return Err(invalid_operation_error(InvalidOperation::Deposit(
diff --git a/ethereum-consensus/src/deneb/spec/mod.rs b/ethereum-consensus/src/deneb/spec/mod.rs
index e7eb2ac..9e53ed2 100644
--- a/ethereum-consensus/src/deneb/spec/mod.rs
+++ b/ethereum-consensus/src/deneb/spec/mod.rs
@@ -206,7 +206,11 @@ pub fn process_operations<
 ) -> Result<()> {
     let expected_deposit_count = usize::min(
         context.max_deposits,
-        (state.eth1_data.deposit_count - state.eth1_deposit_index) as usize,
+        state
+            .eth1_data
+            .deposit_count
+            .checked_sub(state.eth1_deposit_index)
+            .ok_or(Error::Underflow)? as usize,
     );
     if body.deposits.len() != expected_deposit_count {
         return Err(invalid_operation_error(InvalidOperation::Deposit(
diff --git a/ethereum-consensus/src/phase0/block_processing.rs b/ethereum-consensus/src/phase0/block_processing.rs
index cc0c4a2..c6b481d 100644
--- a/ethereum-consensus/src/phase0/block_processing.rs
+++ b/ethereum-consensus/src/phase0/block_processing.rs
@@ -28,6 +28,7 @@ use crate::{
     signing::verify_signed_data,
     ssz::prelude::*,
     state_transition::{Context, Result},
+    Error,
 };
 use std::collections::HashSet;
 
@@ -737,7 +738,11 @@ pub fn process_operations<
 ) -> Result<()> {
     let expected_deposit_count = usize::min(
         context.max_deposits,
-        (state.eth1_data.deposit_count - state.eth1_deposit_index) as usize,
+        state
+            .eth1_data
+            .deposit_count
+            .checked_sub(state.eth1_deposit_index)
+            .ok_or(Error::Underflow)? as usize,
     );
 
     if body.deposits.len() != expected_deposit_count {
-- 
2.43.0


From 97f38c9173f6b867629fd16cd78e433a8aab5eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 12/21] leave the generated spec modules as generated; the
 fixes reach them when spec-gen is run

---
 ethereum-consensus/src/altair/spec/mod.rs    | 11 ++++-------
 ethereum-consensus/src/bellatrix/spec/mod.rs | 11 ++++-------
 ethereum-consensus/src/capella/spec/mod.rs   |  8 +++++---
 ethereum-consensus/src/deneb/spec/mod.rs     | 11 ++++-------
 ethereum-consensus/src/electra/spec/mod.rs   |  2 +-
 5 files changed, 18 insertions(+), 25 deletions(-)

diff --git a/ethereum-consensus/src/altair/spec/mod.rs b/ethereum-consensus/src/altair/spec/mod.rs
index 1b8bc32..5715b45 100644
--- a/ethereum-consensus/src/altair/spec/mod.rs
+++ b/ethereum-consensus/src/altair/spec/mod.rs
@@ -331,7 +331,8 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )));
     }
-    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
+    let minimum_time_active =
+        validator.activation_eligibility_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
@@ -554,11 +555,7 @@ pub fn process_operations<
 ) -> Result<()> {
     let expected_deposit_count = usize::min(
         context.max_deposits,
-        state
-            .eth1_data
-            .deposit_count
-            .checked_sub(state.eth1_deposit_index)
-            .ok_or(Error::Underflow)? as usize,
+        (state.eth1_data.deposit_count - state.eth1_deposit_index) as usize,
     );
     if body.deposits.len() != expected_deposit_count {
         return Err(invalid_operation_error(InvalidOperation::Deposit(
@@ -1352,7 +1349,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot.saturating_sub(1),
+            lower_bound: state.slot - 1,
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/bellatrix/spec/mod.rs b/ethereum-consensus/src/bellatrix/spec/mod.rs
index 1132c77..d37399c 100644
--- a/ethereum-consensus/src/bellatrix/spec/mod.rs
+++ b/ethereum-consensus/src/bellatrix/spec/mod.rs
@@ -598,7 +598,8 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )));
     }
-    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
+    let minimum_time_active =
+        validator.activation_eligibility_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
@@ -861,11 +862,7 @@ pub fn process_operations<
 ) -> Result<()> {
     let expected_deposit_count = usize::min(
         context.max_deposits,
-        state
-            .eth1_data
-            .deposit_count
-            .checked_sub(state.eth1_deposit_index)
-            .ok_or(Error::Underflow)? as usize,
+        (state.eth1_data.deposit_count - state.eth1_deposit_index) as usize,
     );
     if body.deposits.len() != expected_deposit_count {
         return Err(invalid_operation_error(InvalidOperation::Deposit(
@@ -2288,7 +2285,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot.saturating_sub(1),
+            lower_bound: state.slot - 1,
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/capella/spec/mod.rs b/ethereum-consensus/src/capella/spec/mod.rs
index 2a899e5..286de1a 100644
--- a/ethereum-consensus/src/capella/spec/mod.rs
+++ b/ethereum-consensus/src/capella/spec/mod.rs
@@ -605,7 +605,8 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )));
     }
-    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
+    let minimum_time_active =
+        validator.activation_eligibility_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
@@ -1687,7 +1688,8 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
+    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
+    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
@@ -2551,7 +2553,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot.saturating_sub(1),
+            lower_bound: state.slot - 1,
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/deneb/spec/mod.rs b/ethereum-consensus/src/deneb/spec/mod.rs
index 9e53ed2..df6fa7c 100644
--- a/ethereum-consensus/src/deneb/spec/mod.rs
+++ b/ethereum-consensus/src/deneb/spec/mod.rs
@@ -206,11 +206,7 @@ pub fn process_operations<
 ) -> Result<()> {
     let expected_deposit_count = usize::min(
         context.max_deposits,
-        state
-            .eth1_data
-            .deposit_count
-            .checked_sub(state.eth1_deposit_index)
-            .ok_or(Error::Underflow)? as usize,
+        (state.eth1_data.deposit_count - state.eth1_deposit_index) as usize,
     );
     if body.deposits.len() != expected_deposit_count {
         return Err(invalid_operation_error(InvalidOperation::Deposit(
@@ -1800,7 +1796,8 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
+    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
+    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
@@ -2611,7 +2608,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot.saturating_sub(1),
+            lower_bound: state.slot - 1,
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/electra/spec/mod.rs b/ethereum-consensus/src/electra/spec/mod.rs
index f3fe050..bee747c 100644
--- a/ethereum-consensus/src/electra/spec/mod.rs
+++ b/ethereum-consensus/src/electra/spec/mod.rs
@@ -2713,7 +2713,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot.saturating_sub(1),
+            lower_bound: state.slot - 1,
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
-- 
2.43.0


From 7ada2a483c07779e31a1563b4951f942749a3a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:27 +0000
Subject: [PATCH 13/21] fix: spec-gen imports a constant from the fork that
 last defines it

---
 spec-gen/src/generator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spec-gen/src/generator.rs b/spec-gen/src/generator.rs
index f31fe4e..ffca20d 100644
--- a/spec-gen/src/generator.rs
+++ b/spec-gen/src/generator.rs
@@ -625,6 +625,7 @@ fn parse_fork_diff_with_symbol_index(fork: &Fork) -> (ForkDiff, HashMap<String,
                 Item::Const(item) => {
                     let item = Constant::new(item, *fork);
                     if item.is_pub() {
+                        index.insert(item.item.ident.to_string(), module_name.to_string());
                         module.constants.push(item);
                     }
                 }
-- 
2.43.0


From b6fec972e3cf3f441e89dcac0f606e3a7f61a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 14/21] fix: start a new blob when the trailing partial field
 element does not fit

---
 ethereum-consensus/src/bin/ec/blobs/encode.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ethereum-consensus/src/bin/ec/blobs/encode.rs b/ethereum-consensus/src/bin/ec/blobs/encode.rs
index b56ca21..7c28106 100644
--- a/ethereum-consensus/src/bin/ec/blobs/encode.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/encode.rs
@@ -47,6 +47,12 @@ pub fn pack_into_blobs(buffer: &[u8]) -> Result<Vec<Blob>, Error> {
 
     let remainder = chunks.remainder();
     if !remainder.is_empty() {
+        // the last complete field element may have filled the current blob
+        if blob_buffer.len() == BYTES_PER_BLOB {
+            let blob = Blob::try_from(blob_buffer.as_ref()).expect("is the right size");
+            blobs.push(blob);
+            blob_buffer.clear();
+        }
         let mut field_element = field_element_from_bits(remainder)?;
         blob_buffer.append(&mut field_element);
     }
-- 
2.43.0


From f23213a5065ba492b8cfaf794d58db39eb2a1fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 15/21] fix: reject a sized frame whose announced length
 exceeds the bytes after the header

---
 ethereum-consensus/src/bin/ec/blobs/framing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/bin/ec/blobs/framing.rs b/ethereum-consensus/src/bin/ec/blobs/framing.rs
index a5813ad..d45717b 100644
--- a/ethereum-consensus/src/bin/ec/blobs/framing.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/framing.rs
@@ -37,7 +37,7 @@ pub fn payload_from_sized(stream: &[u8]) -> Result<&[u8], Error> {
         return Err(Error::UnsupportedSizedFramingVersion)
     }
     let size = u32::from_be_bytes(header[1..5].try_into().expect("correct size bytes")) as usize;
-    if size >= stream.len() {
+    if size > payload.len() {
         return Err(Error::InvalidPayloadSize)
     }
 
-- 
2.43.0


From bfb1914eefb986c9a722cc9b4a02954962fe6058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 16/21] fix: a custom network converts to its configuration
 directory, not its display text

---
 ethereum-consensus/src/networks.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/networks.rs b/ethereum-consensus/src/networks.rs
index 73e0fe9..1aecfcd 100644
--- a/ethereum-consensus/src/networks.rs
+++ b/ethereum-consensus/src/networks.rs
@@ -34,7 +34,10 @@ impl std::fmt::Display for Network {
 
 impl From<Network> for String {
     fn from(value: Network) -> Self {
-        format!("{value}")
+        match value {
+            Network::Custom(config_dir) => config_dir,
+            network => format!("{network}"),
+        }
     }
 }
 
-- 
2.43.0


From 4bc1fc0439aa9a9e17944ce0adbdc26d2ae79d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 17/21] fix: refuse to upgrade a state to a fork that is not
 scheduled instead of overflowing the fork slot

---
 .../src/state_transition/executor.rs          | 47 +++++++++++--------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/ethereum-consensus/src/state_transition/executor.rs b/ethereum-consensus/src/state_transition/executor.rs
index d23c385..c31f2d4 100644
--- a/ethereum-consensus/src/state_transition/executor.rs
+++ b/ethereum-consensus/src/state_transition/executor.rs
@@ -1,10 +1,17 @@
 use crate::{
     altair, bellatrix, capella, deneb, phase0,
+    primitives::{Epoch, Slot},
     state_transition::{Context, Result, Validation},
     types::{BeaconState, SignedBeaconBlock},
     Error, Fork,
 };
 
+// The first slot of the fork at `fork_epoch`, or an error if there is none,
+// e.g. because the fork is not scheduled.
+fn fork_start_slot(fork_epoch: Epoch, context: &Context) -> Result<Slot> {
+    fork_epoch.checked_mul(context.slots_per_epoch).ok_or(Error::Overflow)
+}
+
 pub struct Executor<
     const SLOTS_PER_HISTORICAL_ROOT: usize,
     const HISTORICAL_ROOTS_LIMIT: usize,
@@ -209,7 +216,7 @@ impl<
     ) -> Result<()> {
         match &mut self.state {
             BeaconState::Phase0(state) => {
-                let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.altair_fork_epoch, &self.context)?;
                 phase0::process_slots(state, fork_slot, &self.context)?;
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
                 if signed_block.message.slot == state.slot {
@@ -254,11 +261,11 @@ impl<
     ) -> Result<()> {
         match &mut self.state {
             BeaconState::Phase0(state) => {
-                let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.altair_fork_epoch, &self.context)?;
                 phase0::process_slots(state, fork_slot, &self.context)?;
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.bellatrix_fork_epoch, &self.context)?;
                 altair::process_slots(&mut state, fork_slot, &self.context)?;
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
                 if signed_block.message.slot == state.slot {
@@ -280,7 +287,7 @@ impl<
                 Ok(())
             }
             BeaconState::Altair(state) => {
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.bellatrix_fork_epoch, &self.context)?;
                 altair::process_slots(state, fork_slot, &self.context)?;
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
                 if signed_block.message.slot == state.slot {
@@ -332,15 +339,15 @@ impl<
     ) -> Result<()> {
         match &mut self.state {
             BeaconState::Phase0(state) => {
-                let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.altair_fork_epoch, &self.context)?;
                 phase0::process_slots(state, fork_slot, &self.context)?;
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.bellatrix_fork_epoch, &self.context)?;
                 altair::process_slots(&mut state, fork_slot, &self.context)?;
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.capella_fork_epoch, &self.context)?;
                 bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
@@ -358,11 +365,11 @@ impl<
                 Ok(())
             }
             BeaconState::Altair(state) => {
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.bellatrix_fork_epoch, &self.context)?;
                 altair::process_slots(state, fork_slot, &self.context)?;
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.capella_fork_epoch, &self.context)?;
                 bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
@@ -380,7 +387,7 @@ impl<
                 Ok(())
             }
             BeaconState::Bellatrix(state) => {
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.capella_fork_epoch, &self.context)?;
                 bellatrix::process_slots(state, fork_slot, &self.context)?;
                 let mut state = capella::upgrade_to_capella(state, &self.context);
 
@@ -429,19 +436,19 @@ impl<
     ) -> Result<()> {
         match &mut self.state {
             BeaconState::Phase0(state) => {
-                let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.altair_fork_epoch, &self.context)?;
                 phase0::process_slots(state, fork_slot, &self.context)?;
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.bellatrix_fork_epoch, &self.context)?;
                 altair::process_slots(&mut state, fork_slot, &self.context)?;
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.capella_fork_epoch, &self.context)?;
                 bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
-                let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.deneb_fork_epoch, &self.context)?;
                 capella::process_slots(&mut state, fork_slot, &self.context)?;
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
@@ -459,15 +466,15 @@ impl<
                 Ok(())
             }
             BeaconState::Altair(state) => {
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.bellatrix_fork_epoch, &self.context)?;
                 altair::process_slots(state, fork_slot, &self.context)?;
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.capella_fork_epoch, &self.context)?;
                 bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
-                let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.deneb_fork_epoch, &self.context)?;
                 capella::process_slots(&mut state, fork_slot, &self.context)?;
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
@@ -485,11 +492,11 @@ impl<
                 Ok(())
             }
             BeaconState::Bellatrix(state) => {
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.capella_fork_epoch, &self.context)?;
                 bellatrix::process_slots(state, fork_slot, &self.context)?;
                 let mut state = capella::upgrade_to_capella(state, &self.context);
 
-                let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.deneb_fork_epoch, &self.context)?;
                 capella::process_slots(&mut state, fork_slot, &self.context)?;
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
@@ -507,7 +514,7 @@ impl<
                 Ok(())
             }
             BeaconState::Capella(state) => {
-                let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = fork_start_slot(self.context.deneb_fork_epoch, &self.context)?;
                 capella::process_slots(state, fork_slot, &self.context)?;
                 let mut state = deneb::upgrade_to_deneb(state, &self.context);
 
-- 
2.43.0


From f7bb2462ce7cf3769e65b6aac2bf029f2ee97fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 18/21] fix: let the executor upgrade a state that already is
 at the slot of the fork

---
 .../src/state_transition/executor.rs          | 80 ++++++++++++++-----
 1 file changed, 60 insertions(+), 20 deletions(-)

diff --git a/ethereum-consensus/src/state_transition/executor.rs b/ethereum-consensus/src/state_transition/executor.rs
index c31f2d4..f957e98 100644
--- a/ethereum-consensus/src/state_transition/executor.rs
+++ b/ethereum-consensus/src/state_transition/executor.rs
@@ -217,7 +217,9 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = fork_start_slot(self.context.altair_fork_epoch, &self.context)?;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
                 if signed_block.message.slot == state.slot {
                     altair::state_transition_block_in_slot(
@@ -262,11 +264,15 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = fork_start_slot(self.context.altair_fork_epoch, &self.context)?;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = fork_start_slot(self.context.bellatrix_fork_epoch, &self.context)?;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
                 if signed_block.message.slot == state.slot {
                     bellatrix::state_transition_block_in_slot(
@@ -288,7 +294,9 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = fork_start_slot(self.context.bellatrix_fork_epoch, &self.context)?;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
                 if signed_block.message.slot == state.slot {
                     bellatrix::state_transition_block_in_slot(
@@ -340,15 +348,21 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = fork_start_slot(self.context.altair_fork_epoch, &self.context)?;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = fork_start_slot(self.context.bellatrix_fork_epoch, &self.context)?;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
                 let fork_slot = fork_start_slot(self.context.capella_fork_epoch, &self.context)?;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -366,11 +380,15 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = fork_start_slot(self.context.bellatrix_fork_epoch, &self.context)?;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
                 let fork_slot = fork_start_slot(self.context.capella_fork_epoch, &self.context)?;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -388,7 +406,9 @@ impl<
             }
             BeaconState::Bellatrix(state) => {
                 let fork_slot = fork_start_slot(self.context.capella_fork_epoch, &self.context)?;
-                bellatrix::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -437,19 +457,27 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = fork_start_slot(self.context.altair_fork_epoch, &self.context)?;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = fork_start_slot(self.context.bellatrix_fork_epoch, &self.context)?;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
                 let fork_slot = fork_start_slot(self.context.capella_fork_epoch, &self.context)?;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 let fork_slot = fork_start_slot(self.context.deneb_fork_epoch, &self.context)?;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -467,15 +495,21 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = fork_start_slot(self.context.bellatrix_fork_epoch, &self.context)?;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
                 let fork_slot = fork_start_slot(self.context.capella_fork_epoch, &self.context)?;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 let fork_slot = fork_start_slot(self.context.deneb_fork_epoch, &self.context)?;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -493,11 +527,15 @@ impl<
             }
             BeaconState::Bellatrix(state) => {
                 let fork_slot = fork_start_slot(self.context.capella_fork_epoch, &self.context)?;
-                bellatrix::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(state, &self.context);
 
                 let fork_slot = fork_start_slot(self.context.deneb_fork_epoch, &self.context)?;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -515,7 +553,9 @@ impl<
             }
             BeaconState::Capella(state) => {
                 let fork_slot = fork_start_slot(self.context.deneb_fork_epoch, &self.context)?;
-                capella::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(state, &self.context);
 
                 if signed_block.message.slot == state.slot {
-- 
2.43.0


From 0d134496987608a9f6bc5171707b4b6baa24733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 19/21] fix: the executor refuses a block of a fork that is
 over at the slot of the block

---
 .../src/state_transition/executor.rs            | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ethereum-consensus/src/state_transition/executor.rs b/ethereum-consensus/src/state_transition/executor.rs
index f957e98..dc2031d 100644
--- a/ethereum-consensus/src/state_transition/executor.rs
+++ b/ethereum-consensus/src/state_transition/executor.rs
@@ -12,6 +12,18 @@ fn fork_start_slot(fork_epoch: Epoch, context: &Context) -> Result<Slot> {
     fork_epoch.checked_mul(context.slots_per_epoch).ok_or(Error::Overflow)
 }
 
+// A block of `fork` cannot be the block of a slot where a later fork is active.
+fn verify_fork_not_after(slot: Slot, fork: Fork, context: &Context) -> Result<()> {
+    let fork_at_slot = context.fork_for(slot);
+    if fork_at_slot as usize > fork as usize {
+        return Err(Error::InvalidForkTransition {
+            source_fork: fork_at_slot,
+            destination_fork: fork,
+        })
+    }
+    Ok(())
+}
+
 pub struct Executor<
     const SLOTS_PER_HISTORICAL_ROOT: usize,
     const HISTORICAL_ROOTS_LIMIT: usize,
@@ -190,6 +202,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        verify_fork_not_after(signed_block.message.slot, Fork::Phase0, &self.context)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 phase0::state_transition(state, signed_block, validation, &self.context)
@@ -214,6 +227,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        verify_fork_not_after(signed_block.message.slot, Fork::Altair, &self.context)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = fork_start_slot(self.context.altair_fork_epoch, &self.context)?;
@@ -261,6 +275,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        verify_fork_not_after(signed_block.message.slot, Fork::Bellatrix, &self.context)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = fork_start_slot(self.context.altair_fork_epoch, &self.context)?;
@@ -345,6 +360,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        verify_fork_not_after(signed_block.message.slot, Fork::Capella, &self.context)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = fork_start_slot(self.context.altair_fork_epoch, &self.context)?;
@@ -454,6 +470,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        verify_fork_not_after(signed_block.message.slot, Fork::Deneb, &self.context)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = fork_start_slot(self.context.altair_fork_epoch, &self.context)?;
-- 
2.43.0


From bb29ece5f732da9d19ca172f3dfb859ed9e48637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 20/21] fix: use the whole iv as the 128-bit counter of the
 keystore cipher, as EIP-2335 requires

---
 ethereum-consensus/src/bin/ec/validator/keystores.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/bin/ec/validator/keystores.rs b/ethereum-consensus/src/bin/ec/validator/keystores.rs
index 20a7f95..20b9f9b 100644
--- a/ethereum-consensus/src/bin/ec/validator/keystores.rs
+++ b/ethereum-consensus/src/bin/ec/validator/keystores.rs
@@ -45,7 +45,7 @@ const KDF_FN: &str = "scrypt";
 const SCRYPT_DKLEN: usize = 32;
 
 const CIPHER_FN: &str = "aes-128-ctr";
-type CtrCipher = ctr::Ctr64BE<aes::Aes128>;
+type CtrCipher = ctr::Ctr128BE<aes::Aes128>;
 const AES_SIZE: usize = 16;
 
 const CHECKSUM_FN: &str = "sha256";
-- 
2.43.0


From 531820a48c80c5f0bf786f3a5ce0fe63c70dd768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 21/21] fix: read the clock once per slot when streaming slots,
 so that no slot is yielded twice

---
 ethereum-consensus/src/clock.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ethereum-consensus/src/clock.rs b/ethereum-consensus/src/clock.rs
index 0f0ebb7..15bfd11 100644
--- a/ethereum-consensus/src/clock.rs
+++ b/ethereum-consensus/src/clock.rs
@@ -200,7 +200,10 @@ impl<T: TimeProvider + Send + Sync> Clock<T> {
     /// Return a `Duration` until the next `slot` relative to the
     /// current time as determined by the clock.
     pub fn duration_until_next_slot(&self) -> Duration {
-        let current_time = self.get_current_time();
+        self.duration_until_next_slot_at(self.get_current_time())
+    }
+
+    fn duration_until_next_slot_at(&self, current_time: u128) -> Duration {
         if self.before_genesis_at(current_time) {
             Duration::from_nanos(u128_to_u64(self.genesis_time - current_time))
         } else {
@@ -240,8 +243,10 @@ pub struct SlotStream<T: TimeProvider + Send + Sync> {
 #[cfg(feature = "async")]
 impl<T: TimeProvider + Send + Sync> Clock<T> {
     pub fn into_stream(self) -> SlotStream<T> {
-        let delay = Box::pin(sleep(self.duration_until_next_slot()));
-        let current_slot = self.current_slot();
+        // NOTE: read the time once so that the delay always ends after `current_slot` does
+        let current_time = self.get_current_time();
+        let delay = Box::pin(sleep(self.duration_until_next_slot_at(current_time)));
+        let current_slot = self.slot_at_time(current_time);
         SlotStream { delay, clock: self, first_slot: current_slot }
     }
 }
@@ -257,8 +262,10 @@ impl<T: TimeProvider + Send + Sync> Stream for SlotStream<T> {
         } else {
             match Pin::new(&mut self.delay).poll(cx) {
                 Poll::Ready(_) => {
-                    self.delay = Box::pin(sleep(self.clock.duration_until_next_slot()));
-                    Poll::Ready(self.clock.current_slot())
+                    let current_time = self.clock.get_current_time();
+                    let duration = self.clock.duration_until_next_slot_at(current_time);
+                    self.delay = Box::pin(sleep(duration));
+                    Poll::Ready(self.clock.slot_at_time(current_time))
                 }
                 Poll::Pending => Poll::Pending,
             }
-- 
2.43.0

