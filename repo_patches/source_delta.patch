From 9e5ea23d03574efdc5127445574fc2916e48f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:43 +0000
Subject: [PATCH 1/4] fix: owner program could take over the validator account
 during undelegation

---
 src/processor/undelegate.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/processor/undelegate.rs b/src/processor/undelegate.rs
index e4072c7..5e4d7c7 100644
--- a/src/processor/undelegate.rs
+++ b/src/processor/undelegate.rs
@@ -230,6 +230,8 @@ fn process_undelegation_with_cpi<'a, 'info>(
 
     // Invoke the owner program's post-undelegation IX, to give the state back to the original program
     let validator_lamports_before_cpi = validator.lamports();
+    let validator_owner_before_cpi = *validator.owner;
+    let validator_data_len_before_cpi = validator.data_len();
     cpi_external_undelegate(
         validator,
         delegated_account,
@@ -241,6 +243,14 @@ fn process_undelegation_with_cpi<'a, 'info>(
     )?;
     let validator_lamports_after_cpi = validator.lamports();
 
+    // The validator signs the CPI, check that the owner program did not use that to reassign or
+    // allocate the validator account
+    if validator.owner.ne(&validator_owner_before_cpi)
+        || validator.data_len() != validator_data_len_before_cpi
+    {
+        return Err(DlpError::InvalidAccountDataAfterCPI.into());
+    }
+
     // Check that the validator lamports are exactly as expected
     let delegated_account_min_rent = Rent::default().minimum_balance(delegated_account.data_len());
     if validator_lamports_before_cpi
-- 
2.43.0


From 6677ac58db21e031d9f98d8cbaf373348ee07ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:43 +0000
Subject: [PATCH 2/4] fix: mark the validator writable in commit and finalize
 builders

---
 src/instruction_builder/commit_state.rs             | 2 +-
 src/instruction_builder/commit_state_from_buffer.rs | 2 +-
 src/instruction_builder/finalize.rs                 | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instruction_builder/commit_state.rs b/src/instruction_builder/commit_state.rs
index b6f5ce0..8e044ea 100644
--- a/src/instruction_builder/commit_state.rs
+++ b/src/instruction_builder/commit_state.rs
@@ -30,7 +30,7 @@ pub fn commit_state(
     Instruction {
         program_id: crate::id(),
         accounts: vec![
-            AccountMeta::new_readonly(validator, true),
+            AccountMeta::new(validator, true),
             AccountMeta::new_readonly(delegated_account, false),
             AccountMeta::new(commit_state_pda, false),
             AccountMeta::new(commit_record_pda, false),
diff --git a/src/instruction_builder/commit_state_from_buffer.rs b/src/instruction_builder/commit_state_from_buffer.rs
index dc93230..56c913f 100644
--- a/src/instruction_builder/commit_state_from_buffer.rs
+++ b/src/instruction_builder/commit_state_from_buffer.rs
@@ -31,7 +31,7 @@ pub fn commit_state_from_buffer(
     Instruction {
         program_id: crate::id(),
         accounts: vec![
-            AccountMeta::new_readonly(validator, true),
+            AccountMeta::new(validator, true),
             AccountMeta::new_readonly(delegated_account, false),
             AccountMeta::new(commit_state_pda, false),
             AccountMeta::new(commit_record_pda, false),
diff --git a/src/instruction_builder/finalize.rs b/src/instruction_builder/finalize.rs
index 38226dd..23cbe2a 100644
--- a/src/instruction_builder/finalize.rs
+++ b/src/instruction_builder/finalize.rs
@@ -21,7 +21,7 @@ pub fn finalize(validator: Pubkey, delegated_account: Pubkey) -> Instruction {
     Instruction {
         program_id: crate::id(),
         accounts: vec![
-            AccountMeta::new_readonly(validator, true),
+            AccountMeta::new(validator, true),
             AccountMeta::new(delegated_account, false),
             AccountMeta::new(commit_state_pda, false),
             AccountMeta::new(commit_record_pda, false),
-- 
2.43.0


From bbd7ceb7b9d2282f5cbecf03bf1c67e617a73d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:43 +0000
Subject: [PATCH 3/4] fix: accept the program config when the transaction makes
 it writable

---
 src/processor/utils/loaders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/processor/utils/loaders.rs b/src/processor/utils/loaders.rs
index 980d393..0644e85 100644
--- a/src/processor/utils/loaders.rs
+++ b/src/processor/utils/loaders.rs
@@ -50,7 +50,7 @@ pub fn load_pda(
         return Err(ProgramError::InvalidSeeds);
     }
 
-    if !info.is_writable.eq(&is_writable) {
+    if is_writable && !info.is_writable {
         msg!("Account {} ({}) needs to be writable", label, info.key);
         return Err(ProgramError::InvalidAccountData);
     }
-- 
2.43.0


From 99338106534df78c6d44e04d3743f869760a7af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:06 +0000
Subject: [PATCH 4/4] fix: undelegation let the owner program keep lamports
 paid by the validator

process_undelegation_with_cpi checked what the validator paid but not what the
delegated account got back, so an owner program could move part of the rent out
through the undelegation buffer; the account then returned with less than its
minimum rent and the validator was charged for it.
---
 src/processor/undelegate.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/processor/undelegate.rs b/src/processor/undelegate.rs
index 5e4d7c7..7ff21bf 100644
--- a/src/processor/undelegate.rs
+++ b/src/processor/undelegate.rs
@@ -261,6 +261,11 @@ fn process_undelegation_with_cpi<'a, 'info>(
         return Err(DlpError::InvalidValidatorBalanceAfterCPI.into());
     }
 
+    // Check that all the lamports paid by the validator did end up in the delegated account
+    if delegated_account.lamports() != delegated_account_min_rent {
+        return Err(DlpError::InvalidAccountDataAfterCPI.into());
+    }
+
     // Check that the owner program properly moved the state back into the original account during CPI
     if delegated_account.try_borrow_data()?.as_ref()
         != undelegate_buffer_account.try_borrow_data()?.as_ref()
-- 
2.43.0

