From 61449283e81775631959565ec6f7ca2849a86c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 1/6] fix: ignore bytes past the signed shred when comparing
 payloads

The payload mismatch check compared the whole buffer of shreds that carry no
retransmitter signature. Bytes after the merkle proof are not covered by the
leader's signature, so a copy of a single honest shred with a byte appended was
accepted as a duplicate block proof.
---
 program/src/shred.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/program/src/shred.rs b/program/src/shred.rs
index 90230fe..7182e2d 100644
--- a/program/src/shred.rs
+++ b/program/src/shred.rs
@@ -329,7 +329,8 @@ impl<'a> Shred<'a> {
 
     /// Returns true if the other shred has the same (slot, index,
     /// shred-type), but different payload.
-    /// Retransmitter's signature is ignored when comparing payloads.
+    /// Retransmitter's signature, and any bytes past the end of the shred, are
+    /// ignored when comparing payloads, as these are not signed by the leader.
     pub(crate) fn is_shred_duplicate(&self, other: &Shred) -> bool {
         if (self.slot(), self.index(), self.shred_type())
             != (other.slot(), other.index(), other.shred_type())
@@ -340,9 +341,6 @@ impl<'a> Shred<'a> {
             let Ok((proof_offset, proof_size)) = shred.get_proof_offset_and_size() else {
                 return shred.payload;
             };
-            if !shred.resigned {
-                return shred.payload;
-            }
             let Some(offset) = proof_offset.checked_add(proof_size) else {
                 return shred.payload;
             };
-- 
2.43.0


From 90ca20f56f37f36193a82ff67c08bee9a0c98265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 2/6] fix: count signatures the way the ed25519 precompile does

The precompile takes the number of signatures from the first byte of its
instruction data and ignores the second one. Reading both as a u16 let a
verification of a single signature pass for two by setting the padding byte,
leaving the second shred unverified.
---
 program/src/sigverify.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index f6c033d..25637a4 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -125,12 +125,13 @@ impl<'a> SignatureVerification<'a> {
         if sigverify_ix.program_id != ed25519_program::id() {
             return Err(SlashingError::MissingSignatureVerification);
         }
-        let num_signatures = u16::from_le_bytes(
-            sigverify_ix.data[0..2]
-                .try_into()
-                .map_err(|_| SlashingError::MissingSignatureVerification)?,
-        );
-        if num_signatures < NUM_VERIFICATIONS as u16 {
+        // The precompile reads the number of signatures from the first byte, the
+        // second byte is padding that it does not check.
+        let num_signatures = *sigverify_ix
+            .data
+            .first()
+            .ok_or(SlashingError::MissingSignatureVerification)?;
+        if usize::from(num_signatures) < NUM_VERIFICATIONS {
             return Err(SlashingError::MissingSignatureVerification);
         }
         let expected_data_size = NUM_VERIFICATIONS
-- 
2.43.0


From 8ef2dfc3049717b3478fdb68c9ed1a73a5bdf7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 3/6] fix: ignore accounts that hold no report when listing or
 closing

Anyone can create an account owned by the slashing program. An account
shorter than the report header made close and display panic, and a zero
filled one was listed, made the verbose display panic and aborted close
when its transaction was refused.
---
 clients/cli/src/main.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 250e454..bb5ceac 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -13,7 +13,7 @@ use {
     },
     solana_remote_wallet::remote_wallet::RemoteWalletManager,
     solana_sdk::{
-        account::ReadableAccount,
+        account::{Account, ReadableAccount},
         clock::Slot,
         pubkey::Pubkey,
         rent::Rent,
@@ -323,6 +323,19 @@ async fn report_duplicate_block_violation(
     Ok(true)
 }
 
+/// The violation report stored in an account owned by the slashing program.
+/// Anyone can create such an account, so those that do not hold a report (too
+/// small, or never written by the program) are ignored.
+fn get_report(account: &Account) -> Option<&ViolationReport> {
+    let header = account
+        .data()
+        .get(..std::mem::size_of::<ViolationReport>())?;
+    if ViolationReport::version(header) == 0 {
+        return None;
+    }
+    pod_from_bytes(header).ok()
+}
+
 /// Close a violation report
 /// If `report_account` is specified we close the report account, otherwise we
 /// close any eligible accounts filtered by `reporter`, `destination`, or
@@ -375,8 +388,9 @@ async fn command_close(
 
     let mut displays = vec![];
     for (pubkey, report_account) in reports {
-        let report: &ViolationReport =
-            pod_from_bytes(&report_account.data()[..std::mem::size_of::<ViolationReport>()])?;
+        let Some(report) = get_report(&report_account) else {
+            continue;
+        };
         if report.epoch() + 3 > epoch {
             early_reports += 1;
             continue;
@@ -455,8 +469,9 @@ async fn command_display(
 
     let mut displays = vec![];
     for (pubkey, report_account) in reports {
-        let report: &ViolationReport =
-            pod_from_bytes(&report_account.data()[..std::mem::size_of::<ViolationReport>()])?;
+        let Some(report) = get_report(&report_account) else {
+            continue;
+        };
         if ignore_filter(report) {
             continue;
         }
-- 
2.43.0


From 711d68e24e9db6a9f963e09802fb653ef572f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 4/6] fix: try to close every proof account before giving up

A failure to close one proof account (for example one whose creation had
failed) aborted the command: the other proof accounts of the scan stayed
open with the fee payer's rent, and a continuous scan ended.
---
 clients/cli/src/main.rs | 46 +++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index bb5ceac..e4b0a43 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -196,19 +196,20 @@ async fn command_attach(
 
         // Close any proof accounts, regardless of whether the report was successful
         for proof_account in closable_proof_accounts {
-            let close_ix = spl_record::instruction::close_account(
-                &proof_account.pubkey(),
-                &payer.pubkey(),
-                &payer.pubkey(),
-            );
-            let transaction = Transaction::new_signed_with_payer(
-                &[close_ix],
-                Some(&payer.pubkey()),
-                &[payer.as_ref()],
-                config.rpc_client.get_latest_blockhash().await?,
-            );
-            if process_transaction(config, transaction).await?.is_some() {
-                println_display(config, "Closed proof account".to_string());
+            // An account that cannot be closed must not keep the others open
+            match close_proof_account(config, &payer, &proof_account.pubkey()).await {
+                Ok(Some(_signature)) => {
+                    println_display(config, "Closed proof account".to_string());
+                }
+                Ok(None) => (),
+                Err(e) => eprintln_display(
+                    config,
+                    format!(
+                        "Failed to close proof account {}: {:?}",
+                        proof_account.pubkey(),
+                        e
+                    ),
+                ),
             }
         }
 
@@ -227,6 +228,25 @@ async fn command_attach(
     }
 }
 
+async fn close_proof_account(
+    config: &Config,
+    payer: &Arc<dyn Signer>,
+    proof_account: &Pubkey,
+) -> Result<Option<Signature>, Error> {
+    let close_ix = spl_record::instruction::close_account(
+        proof_account,
+        &payer.pubkey(),
+        &payer.pubkey(),
+    );
+    let transaction = Transaction::new_signed_with_payer(
+        &[close_ix],
+        Some(&payer.pubkey()),
+        &[payer.as_ref()],
+        config.rpc_client.get_latest_blockhash().await?,
+    );
+    process_transaction(config, transaction).await
+}
+
 async fn report_duplicate_block_violation(
     config: &Config,
     blockstore: &Blockstore,
-- 
2.43.0


From 33c97c610618cb66f0aac8cbe11c17417bc63a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 5/6] fix: do not abort the verbose display on reported shreds
 the ledger cannot parse

The program does not perform every sanity check of the ledger on the
shreds of a report, so the unwrap of the parse result let a single stored
report abort 'display --verbose' for every user.
---
 clients/cli/src/output.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/clients/cli/src/output.rs b/clients/cli/src/output.rs
index 4823b78..970c5f3 100644
--- a/clients/cli/src/output.rs
+++ b/clients/cli/src/output.rs
@@ -185,8 +185,14 @@ impl ViolationReportOutput {
     }
 
     fn display_duplicate_block_proof(w: &mut dyn Write, proof: DuplicateSlotProof) -> Result {
-        let shred1 = Shred::new_from_serialized_shred(proof.shred1).unwrap();
-        let shred2 = Shred::new_from_serialized_shred(proof.shred2).unwrap();
+        // The program does not perform every sanity check of the ledger, so a
+        // stored shred might not parse.
+        let (Ok(shred1), Ok(shred2)) = (
+            Shred::new_from_serialized_shred(proof.shred1),
+            Shred::new_from_serialized_shred(proof.shred2),
+        ) else {
+            return writeln!(w, "    Unable to parse the reported shreds");
+        };
 
         for (i, shred) in [&shred1, &shred2].iter().enumerate() {
             writeln!(
-- 
2.43.0


From fbb36845b0d124a3a470a3227288ba20ad1a8e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 6/6] fix: separate the arguments of the command suggested to
 retry a failed report

---
 clients/cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index e4b0a43..ce26aae 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -188,7 +188,7 @@ async fn command_attach(
                 Ok(true) => reported_violations += 1,
                 Err(e) => eprintln_display(config, format!("
                 Failed to submit duplicate block report for slot {slot}: {:?}, please run the following command to reattempt the report submission:
-                  spl-slashing attach -l <LEDGER> --start-slot {slot}--end-slot {slot}", e)),
+                  spl-slashing attach -l <LEDGER> --start-slot {slot} --end-slot {slot}", e)),
                 _ => (),
             }
             starting_slot = slot + 1;
-- 
2.43.0

