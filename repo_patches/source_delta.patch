From de6da9711f3ff3d49fadecacee60a8b6a888db13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 01/13] fix: reject multiproofs deeper than a 64-bit
 generalized index

---
 ssz-multiproofs/src/multiproof.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ssz-multiproofs/src/multiproof.rs b/ssz-multiproofs/src/multiproof.rs
index c4dbac6..e2fce44 100644
--- a/ssz-multiproofs/src/multiproof.rs
+++ b/ssz-multiproofs/src/multiproof.rs
@@ -22,6 +22,9 @@ use crate::error::{Error, Result};
 
 const CHUNK_SIZE: usize = 32; // Size of each chunk in bytes, used for SSZ serialization
 
+/// Maximum depth of a node, deeper nodes do not have a generalized index that fits into 64 bits
+const MAX_DEPTH: usize = 63;
+
 /// An abstraction around a SSZ merkle multi-proof
 ///
 /// This is deserializable and borrows its data to supports zero-copy deserialization.
@@ -199,6 +202,7 @@ fn calculate_compact_multi_merkle_root(
 ) -> Result<[u8; CHUNK_SIZE]> {
     let mut stack = Vec::with_capacity(stack_depth_hint);
     let mut node_index = 0;
+    let mut depth = 0; // number of internal nodes on the path to the next node
     let mut hasher = Sha256::new();
     for bit in descriptor.iter() {
         if *bit {
@@ -216,6 +220,7 @@ fn calculate_compact_multi_merkle_root(
                 let right = stack.pop().unwrap();
                 let left = stack.pop().unwrap();
                 stack.pop(); // pop the internal node and replace with the hashed children
+                depth -= 1;
 
                 match left {
                     TreeNode::Leaf(node) => hasher.update(node),
@@ -231,6 +236,11 @@ fn calculate_compact_multi_merkle_root(
                 stack.push(TreeNode::Computed(hasher.finalize_fixed_reset().into()));
             }
         } else {
+            // beyond this depth the gindices reported by the proof would silently wrap around
+            if depth == MAX_DEPTH {
+                return Err(Error::InvalidProof);
+            }
+            depth += 1;
             stack.push(TreeNode::Internal);
         }
     }
-- 
2.43.0


From 3ff4f8c7743479515104024d5ee2e1621fe38174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 02/13] fix: report malformed multiproofs as errors instead of
 panicking

---
 ssz-multiproofs/src/multiproof.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ssz-multiproofs/src/multiproof.rs b/ssz-multiproofs/src/multiproof.rs
index e2fce44..b83b12b 100644
--- a/ssz-multiproofs/src/multiproof.rs
+++ b/ssz-multiproofs/src/multiproof.rs
@@ -207,7 +207,8 @@ fn calculate_compact_multi_merkle_root(
     for bit in descriptor.iter() {
         if *bit {
             stack.push(TreeNode::Leaf(
-                &data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE],
+                data.get(node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE)
+                    .ok_or(Error::InvalidProof)?,
             ));
             node_index += 1;
 
@@ -244,7 +245,10 @@ fn calculate_compact_multi_merkle_root(
             stack.push(TreeNode::Internal);
         }
     }
-    assert_eq!(stack.len(), 1);
+    // the descriptor must describe exactly one complete tree
+    if stack.len() != 1 {
+        return Err(Error::InvalidProof);
+    }
     Ok(match stack.pop().unwrap() {
         TreeNode::Leaf(_) => return Err(Error::UnusedLeaves),
         TreeNode::Computed(node) => node,
-- 
2.43.0


From ffffd79730b227905d0eb0625a655d65a40f027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 03/13] fix: bound the multiproof stack preallocation by the
 descriptor length

---
 ssz-multiproofs/src/multiproof.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssz-multiproofs/src/multiproof.rs b/ssz-multiproofs/src/multiproof.rs
index b83b12b..d97fbfa 100644
--- a/ssz-multiproofs/src/multiproof.rs
+++ b/ssz-multiproofs/src/multiproof.rs
@@ -200,7 +200,8 @@ fn calculate_compact_multi_merkle_root(
     descriptor: &Descriptor,
     stack_depth_hint: usize,
 ) -> Result<[u8; CHUNK_SIZE]> {
-    let mut stack = Vec::with_capacity(stack_depth_hint);
+    // the hint is untrusted, but the stack can never outgrow the descriptor
+    let mut stack = Vec::with_capacity(stack_depth_hint.min(descriptor.len()));
     let mut node_index = 0;
     let mut depth = 0; // number of internal nodes on the path to the next node
     let mut hasher = Sha256::new();
-- 
2.43.0


From d657b9fb2d07307ca379beedec279c365de5074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:44 +0000
Subject: [PATCH 04/13] fix: return an error instead of panicking when
 ABI-decoding an invalid consensus state

---
 core/src/abi.rs             |  6 ++----
 core/src/consensus_state.rs | 17 +++++++++++++++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/core/src/abi.rs b/core/src/abi.rs
index 2c86824..4aed8f0 100644
--- a/core/src/abi.rs
+++ b/core/src/abi.rs
@@ -14,7 +14,7 @@
 
 use alloy_sol_types::SolValue;
 
-use crate::{ConsensusError, ConsensusState, ensure};
+use crate::{ConsensusError, ConsensusState};
 
 // Defines the Solidity struct layouts for public types
 alloy_sol_types::sol! {
@@ -68,9 +68,7 @@ impl TryFrom<State> for crate::ConsensusState {
     type Error = ConsensusError;
 
     fn try_from(state: State) -> Result<Self, Self::Error> {
-        let state = ConsensusState::new(state.current_justified.into(), state.finalized.into());
-        ensure!(state.is_valid(), ConsensusError::InvalidState);
-        Ok(state)
+        ConsensusState::try_new(state.current_justified.into(), state.finalized.into())
     }
 }
 
diff --git a/core/src/consensus_state.rs b/core/src/consensus_state.rs
index 057eb41..58f28a8 100644
--- a/core/src/consensus_state.rs
+++ b/core/src/consensus_state.rs
@@ -64,6 +64,23 @@ impl ConsensusState {
         state
     }
 
+    /// Constructs a new `ConsensusState` from untrusted checkpoints.
+    ///
+    /// In contrast to [`ConsensusState::new`] it returns an error if the provided checkpoints form
+    /// an invalid state.
+    #[inline]
+    pub fn try_new(
+        current_justified_checkpoint: Checkpoint,
+        finalized_checkpoint: Checkpoint,
+    ) -> Result<Self, ConsensusError> {
+        let state = Self {
+            current_justified_checkpoint,
+            finalized_checkpoint,
+        };
+        ensure!(state.is_valid(), ConsensusError::InvalidState);
+        Ok(state)
+    }
+
     /// Returns the finalized checkpoint of the consensus state.
     #[inline]
     pub fn finalized_checkpoint(&self) -> Checkpoint {
-- 
2.43.0


From 32f8b52d398f8a73d12c6058ee320eb96d8e6c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:44 +0000
Subject: [PATCH 05/13] fix: write cached beacon states atomically

---
 host/src/state_provider/file_provider.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/host/src/state_provider/file_provider.rs b/host/src/state_provider/file_provider.rs
index aa96b27..e29173a 100644
--- a/host/src/state_provider/file_provider.rs
+++ b/host/src/state_provider/file_provider.rs
@@ -16,8 +16,9 @@ use crate::beacon_state::mainnet::BeaconState;
 use crate::state_provider::{StateProvider, StateProviderError, StateRef};
 use anyhow::{Context, ensure};
 use beacon_types::EthSpec;
-use std::path::PathBuf;
-use std::{fs, marker::PhantomData};
+use std::io::{self, Write};
+use std::path::{Path, PathBuf};
+use std::{fs, marker::PhantomData, process};
 use tracing::debug;
 use z_core::{Epoch, Slot};
 
@@ -48,7 +49,17 @@ impl<E: EthSpec> FileProvider<E> {
             file.display()
         );
         debug!("Saving beacon state at slot {slot} in epoch: {epoch}");
-        fs::write(&file, ssz_rs::serialize(state)?)?;
+        let bytes = ssz_rs::serialize(state)?;
+        // Write to a temporary file first and only then rename it, so that an interrupted or failed
+        // write can never leave an incomplete state under the final name.
+        let tmp = self
+            .directory
+            .join(format!("{slot}_beacon_state.ssz.{}.tmp", process::id()));
+        let result = write_and_sync(&tmp, &bytes).and_then(|()| fs::rename(&tmp, &file));
+        if result.is_err() {
+            let _ = fs::remove_file(&tmp);
+        }
+        result?;
         Ok(())
     }
 
@@ -77,6 +88,13 @@ impl<E: EthSpec> FileProvider<E> {
     }
 }
 
+/// Writes a file and makes sure that its content has reached the disk.
+fn write_and_sync(path: &Path, bytes: &[u8]) -> io::Result<()> {
+    let mut file = fs::File::create(path)?;
+    file.write_all(bytes)?;
+    file.sync_all()
+}
+
 impl<E: EthSpec> StateProvider for FileProvider<E> {
     type Spec = E;
     fn state_at_slot(&self, slot: Slot) -> Result<StateRef, StateProviderError> {
-- 
2.43.0


From 128ac7fa3724dd9d4af894e1afa406be2010988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 06/13] fix: do not compare the state patch of epoch 0 with
 itself

---
 core/src/input_reader/guest_input_reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/input_reader/guest_input_reader.rs b/core/src/input_reader/guest_input_reader.rs
index c018b3b..eb06497 100644
--- a/core/src/input_reader/guest_input_reader.rs
+++ b/core/src/input_reader/guest_input_reader.rs
@@ -285,9 +285,10 @@ impl<E: EthSpec> GuestInput<'_, E> {
                 let validator = validators
                     .get(idx)
                     .expect("patched exit_epoch for missing validator");
-                let &prev_exit_epoch = self
-                    .patches
-                    .get(&(patch_epoch - 1))
+                // the subtraction of epochs saturates, so epoch 0 would become its own predecessor
+                let &prev_exit_epoch = (patch_epoch.as_u64() > 0)
+                    .then(|| self.patches.get(&(patch_epoch - 1)))
+                    .flatten()
                     .and_then(|p| p.validator_exits.get(idx))
                     .unwrap_or(&validator.exit_epoch);
 
-- 
2.43.0


From 90d06d3cfc5025262979579e6acf28a6379d9b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 07/13] fix: recognise the first justification after genesis as
 a link

---
 core/src/consensus_state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/consensus_state.rs b/core/src/consensus_state.rs
index 58f28a8..8a2de37 100644
--- a/core/src/consensus_state.rs
+++ b/core/src/consensus_state.rs
@@ -193,9 +193,12 @@ impl ConsensusState {
         }
 
         // Case 2: Justification only (skipped epoch).
-        // The source must be our previous `current_justified_checkpoint`.
+        // The source must be our previous `current_justified_checkpoint`. An adjacent target always
+        // finalizes the source, which is only invisible if the source was already finalized (genesis).
         ensure!(
-            target.epoch() - self.current_justified_checkpoint.epoch() > 1,
+            target.epoch() - self.current_justified_checkpoint.epoch() > 1
+                || (self.current_justified_checkpoint == self.finalized_checkpoint
+                    && target.epoch() - self.current_justified_checkpoint.epoch() == 1),
             ConsensusError::InvalidTransition
         );
 
-- 
2.43.0


From 7d0f7a1b1acef631f56fbb9b2f8383553f15f3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 08/13] fix: collect votes until the end of the epoch after the
 last target

A target justified late, with votes included in the following epoch, was
missing votes: since EIP-7045 they can be included until the end of the
epoch after their target, not only until its first slot.
---
 host/src/input_reader/host_input_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/host/src/input_reader/host_input_reader.rs b/host/src/input_reader/host_input_reader.rs
index 059bcde..58dc303 100644
--- a/host/src/input_reader/host_input_reader.rs
+++ b/host/src/input_reader/host_input_reader.rs
@@ -299,8 +299,8 @@ async fn collect_attestations_for_links<E: EthSpec, CR: ChainReader>(
     // The attestation must be no newer than MIN_ATTESTATION_INCLUSION_DELAY slots.
     // It is safe to ignore this and assume MIN_ATTESTATION_INCLUSION_DELAY = 0
     let start_slot = min_epoch * E::slots_per_epoch();
-    // The attestation must be no older than SLOTS_PER_EPOCH slots.
-    let end_slot = (max_epoch + 1) * E::slots_per_epoch();
+    // Since EIP-7045, attestations can be included until the end of the epoch after their target.
+    let end_slot = (max_epoch + 2) * E::slots_per_epoch() - 1;
 
     // 1. Fetch all blocks concurrently
     let block_futs =
-- 
2.43.0


From 5a2d958d7f2cddd49a9f768ffef04f03146797bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 09/13] fix: allow ejections before a trusted epoch that starts
 with an empty slot

---
 core/src/input_reader/guest_input_reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/input_reader/guest_input_reader.rs b/core/src/input_reader/guest_input_reader.rs
index eb06497..ac195f9 100644
--- a/core/src/input_reader/guest_input_reader.rs
+++ b/core/src/input_reader/guest_input_reader.rs
@@ -254,11 +254,12 @@ impl<E: EthSpec> GuestInput<'_, E> {
             state.earliest_consolidation_epoch,
         );
 
-        // New exits (consolidations) can only occur with a new block. The earliest this can happen
-        // is during the trusted epoch after the boundary block of the epoch.
+        // New exits (consolidations) can occur with a new block, or as ejections at the end of an
+        // epoch. The earliest this can happen is during the epoch of the boundary block, which lies
+        // before the trusted epoch if the first slot of the trusted epoch is empty.
         let mut earliest_exit_epoch = std::cmp::max(
             earliest_exit_epoch,
-            spec.compute_activation_exit_epoch(trusted_checkpoint.epoch())?,
+            spec.compute_activation_exit_epoch(state.slot.epoch(E::slots_per_epoch()))?,
         );
 
         // validate the state patched
-- 
2.43.0


From 84f966260c9c9d8594a61957f9e7d8e44229a6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 10/13] fix: check the exits of every state patch against the
 trusted exit queue

---
 core/src/input_reader/guest_input_reader.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/core/src/input_reader/guest_input_reader.rs b/core/src/input_reader/guest_input_reader.rs
index ac195f9..848efba 100644
--- a/core/src/input_reader/guest_input_reader.rs
+++ b/core/src/input_reader/guest_input_reader.rs
@@ -257,7 +257,7 @@ impl<E: EthSpec> GuestInput<'_, E> {
         // New exits (consolidations) can occur with a new block, or as ejections at the end of an
         // epoch. The earliest this can happen is during the epoch of the boundary block, which lies
         // before the trusted epoch if the first slot of the trusted epoch is empty.
-        let mut earliest_exit_epoch = std::cmp::max(
+        let earliest_exit_epoch = std::cmp::max(
             earliest_exit_epoch,
             spec.compute_activation_exit_epoch(state.slot.epoch(E::slots_per_epoch()))?,
         );
@@ -274,6 +274,9 @@ impl<E: EthSpec> GuestInput<'_, E> {
             // we could subtract state.exit_balance_to_consume and
             // state.consolidation_balance_to_consume to make this more exact
             let mut exit_balance_to_consume = churn;
+            // every patch contains all the exits since the trusted state, not only those added after
+            // the previous patch; exits and consolidations are queued independently of each other
+            let mut earliest_exit_epoch = earliest_exit_epoch;
 
             // validate the patched exit epochs, this needs to be sorted by epoch
             for (idx, &exit_epoch) in patch
@@ -293,14 +296,16 @@ impl<E: EthSpec> GuestInput<'_, E> {
                     .and_then(|p| p.validator_exits.get(idx))
                     .unwrap_or(&validator.exit_epoch);
 
+                // exit_epoch must only change once
+                if prev_exit_epoch != exit_epoch {
+                    assert_eq!(prev_exit_epoch, spec.far_future_epoch);
+                }
+
                 // ignore not changing patches
-                if prev_exit_epoch == exit_epoch {
+                if validator.exit_epoch == exit_epoch {
                     continue;
                 }
 
-                // exit_epoch must only change once
-                assert_eq!(prev_exit_epoch, spec.far_future_epoch);
-
                 // exit epoch must be in the future
                 assert!(exit_epoch >= earliest_exit_epoch);
                 exit_balance_to_consume += (exit_epoch - earliest_exit_epoch).as_u64() * churn;
-- 
2.43.0


From db44bf84bda780ce7dd5f181e3cca6cbffd4ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 11/13] fix: report contradicting finality checkpoints as an
 error instead of panicking

---
 host/src/beacon_client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/host/src/beacon_client.rs b/host/src/beacon_client.rs
index 906db3d..9a36974 100644
--- a/host/src/beacon_client.rs
+++ b/host/src/beacon_client.rs
@@ -294,9 +294,9 @@ impl ChainReader for BeaconClient {
 
     async fn get_consensus_state(&self, state_id: impl Display) -> anyhow::Result<ConsensusState> {
         let resp = self.get_finality_checkpoints(state_id).await?;
-        Ok(ConsensusState::new(
+        Ok(ConsensusState::try_new(
             resp.current_justified.into(),
             resp.finalized.into(),
-        ))
+        )?)
     }
 }
-- 
2.43.0


From 85bafa2b7cfd1c273fcf5d4de52f614369c8085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 12/13] fix: record inputs and journals completely or not at
 all

A crash or a full disk left empty or truncated results under their final
names, and destroyed results recorded earlier for the same epoch.
---
 host/src/bin/zkasper_cli.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/host/src/bin/zkasper_cli.rs b/host/src/bin/zkasper_cli.rs
index 7a025c2..72173db 100644
--- a/host/src/bin/zkasper_cli.rs
+++ b/host/src/bin/zkasper_cli.rs
@@ -26,7 +26,7 @@ use std::{
     fmt::{self, Display},
     fs::{self, File},
     io::Write,
-    path::PathBuf,
+    path::{Path, PathBuf},
 };
 use tracing::{debug, info, level_filters::LevelFilter, warn};
 use tracing_subscriber::{layer::SubscriberExt, util::SubscriberInitExt};
@@ -264,31 +264,23 @@ async fn main() -> anyhow::Result<()> {
 
             let inputs_dir = args.data_dir.join(args.network.to_string()).join("inputs");
             fs::create_dir_all(&inputs_dir).context("failed to create encoded inputs directory")?;
-            let mut input_file =
-                File::create(inputs_dir.join(format!("{finalized_epoch}_stdin.bin")))
-                    .context("failed to create encoded input file")?;
 
             let journals_dir = args
                 .data_dir
                 .join(args.network.to_string())
                 .join("journals");
             fs::create_dir_all(&journals_dir).context("failed to create journals directory")?;
-            let mut journal_file =
-                File::create(journals_dir.join(format!("{finalized_epoch}_journal.bin")))
-                    .context("failed to create journal file")?;
 
-            input_file
-                .write_all(&encoded_input)
-                .context("failed to write input to file")?;
-            info!("Input written to {:?}", input_file);
+            let input_path = inputs_dir.join(format!("{finalized_epoch}_stdin.bin"));
+            write_file(&input_path, &encoded_input).context("failed to write input to file")?;
+            info!("Input written to {}", input_path.display());
 
             let journal = abi::Journal::new(&pre_state, &post_state, finalized_slot);
 
-            journal_file
-                .write_all(&journal.encode())
+            let journal_path = journals_dir.join(format!("{finalized_epoch}_journal.bin"));
+            write_file(&journal_path, &journal.encode())
                 .context("failed to write journal to file")?;
-
-            info!("Journal written to {:?}", journal_file);
+            info!("Journal written to {}", journal_path.display());
 
             // update for next iteration
             finalized_epoch = post_state.finalized_checkpoint().epoch();
@@ -475,6 +467,17 @@ fn encode_input_stdin(input_bytes: impl AsRef<[u8]>) -> anyhow::Result<Vec<u8>>
     Ok(buffer)
 }
 
+/// Writes the file such that, even after a crash, its content is either complete or unchanged.
+fn write_file(path: &Path, data: &[u8]) -> anyhow::Result<()> {
+    let tmp_path = path.with_extension(format!("{}.tmp", std::process::id()));
+    let mut tmp_file = File::create(&tmp_path)?;
+    tmp_file.write_all(data)?;
+    tmp_file.sync_all()?;
+    fs::rename(&tmp_path, path)?;
+
+    Ok(())
+}
+
 fn execute_guest_program(network: Network, input: impl AsRef<[u8]>) -> anyhow::Result<Vec<u8>> {
     let env = ExecutorEnv::builder().write_frame(input.as_ref()).build()?;
     let elf = match network {
-- 
2.43.0


From 8c685ca64776040379abec91e3484f0c9a6678e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 13/13] fix: verify the built input before recording it

The preflight verifies against the states of the node. An input it accepts
can still be refused by the guest, and was recorded as a result.
---
 host/src/bin/zkasper_cli.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/host/src/bin/zkasper_cli.rs b/host/src/bin/zkasper_cli.rs
index 72173db..36dfdb0 100644
--- a/host/src/bin/zkasper_cli.rs
+++ b/host/src/bin/zkasper_cli.rs
@@ -259,6 +259,20 @@ async fn main() -> anyhow::Result<()> {
             )
             .await?;
 
+            // only record inputs that pass the verification in the guest
+            let verified_state = run_verify::<Spec>(
+                spec.clone(),
+                pre_state.clone(),
+                &input_bytes,
+                args.network,
+                ExecMode::Native,
+                config_for(args.network),
+            )?;
+            ensure!(
+                verified_state == post_state,
+                "verified state differs from preflight"
+            );
+
             let encoded_input =
                 encode_input_stdin(&input_bytes).context("failed to prepare input")?;
 
-- 
2.43.0

