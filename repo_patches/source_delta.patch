From 6d79c58f0dea4f18a708f7834e5457fa287e449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:25 +0000
Subject: [PATCH 01/61] fix: Don't underflow when a difficulty period ends
 before it started

The timestamp of the last block in a difficulty period may be lower than that
of the first block. The timespan should be clamped to its lower bound, instead
of panicking, or wrapping around to the upper bound.
---
 common/src/block/tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/src/block/tree.rs b/common/src/block/tree.rs
index f02f2ed..3ffd2b1 100644
--- a/common/src/block/tree.rs
+++ b/common/src/block/tree.rs
@@ -225,7 +225,9 @@ pub trait BlockReader {
             return last_adjustment_block.bits;
         }
 
-        let actual_timespan = last_time - last_adjustment_time;
+        // Nb. The last block of a period may have an earlier timestamp than the first one, in which
+        // case the timespan is clamped to its lower bound.
+        let actual_timespan = last_time.saturating_sub(last_adjustment_time);
         let mut adjusted_timespan = actual_timespan;
 
         if actual_timespan < params.pow_target_timespan as BlockTime / 4 {
-- 
2.43.0


From 95f8b73764858435b12668308ae960182f87c8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:02 +0000
Subject: [PATCH 02/61] fix: Validate side branches against their own ancestors

---
 chain/src/block/cache.rs | 72 ++++++++++++++++++++++++++++++++++------
 common/src/block/tree.rs | 12 +++++++
 2 files changed, 74 insertions(+), 10 deletions(-)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index 1631e48..faf135e 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -196,6 +196,13 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
     /// Panics if height is `0`.
     ///
     pub fn median_time_past(&self, height: Height) -> BlockTime {
+        self.branch_median_time_past(height, &[])
+    }
+
+    /// Get the median time past for the blocks leading up to the given height, on the chain
+    /// formed by the given branch off the active chain. The last header of the branch, if any,
+    /// is the one preceding the given height.
+    fn branch_median_time_past(&self, height: Height, branch: &[BlockHeader]) -> BlockTime {
         assert!(height != 0, "height must be > 0");
 
         let mut times = [0; time::MEDIAN_TIME_SPAN as usize];
@@ -203,8 +210,10 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         let start = height.saturating_sub(time::MEDIAN_TIME_SPAN);
         let end = height;
 
-        for (i, blk) in self.range(start..end).enumerate() {
-            times[i] = blk.time;
+        for (i, h) in (start..end).enumerate() {
+            if let Some(header) = self.branch_header(h, height - 1, branch) {
+                times[i] = header.time;
+            }
         }
 
         // Gracefully handle the case where `height` < `MEDIUM_TIME_SPAN`.
@@ -214,6 +223,23 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         available[available.len() / 2]
     }
 
+    /// Get the header at the given height, on the chain formed by a branch off the active chain.
+    /// The last header of the branch, if any, is at height `tip`.
+    fn branch_header<'a>(
+        &'a self,
+        height: Height,
+        tip: Height,
+        branch: &'a [BlockHeader],
+    ) -> Option<&'a BlockHeader> {
+        let fork_height = tip - branch.len() as Height;
+
+        if height > fork_height {
+            branch.get((height - fork_height - 1) as usize)
+        } else {
+            self.get_block_by_height(height)
+        }
+    }
+
     /// Import a block into the tree. Performs header validation. This function may trigger
     /// a chain re-org.
     fn import_block(
@@ -232,7 +258,7 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         // Block extends the active chain. We can fully validate it before proceeding.
         // Instead of adding the block to the main chain, we let chain selection do the job.
         if header.prev_blockhash == best {
-            self.validate(tip, &header, clock)?;
+            self.validate(tip, &[], &header, clock)?;
         }
 
         // Validate that the block's PoW is valid against its difficulty target, and
@@ -425,8 +451,8 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
             header: candidate.fork_header,
         };
 
-        for header in candidate.headers.iter() {
-            self.validate(&tip, header, clock)?;
+        for (i, header) in candidate.headers.iter().enumerate() {
+            self.validate(&tip, &candidate.headers[..i], header, clock)?;
 
             tip = CachedBlock {
                 height: tip.height + 1,
@@ -437,9 +463,13 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
     }
 
     /// Validate a block header as a potential new tip. This performs full header validation.
+    ///
+    /// If the tip is not on the active chain, the branch leading to it from the active chain must
+    /// be supplied, since a header is always validated against its own ancestors.
     fn validate(
         &self,
         tip: &CachedBlock,
+        branch: &[BlockHeader],
         header: &BlockHeader,
         clock: &impl Clock,
     ) -> Result<(), Error> {
@@ -451,8 +481,22 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
             if header.time > tip.time + self.params.pow_target_spacing as BlockTime * 2 {
                 block::pow_limit_bits(&self.params.network)
             } else {
-                self.next_min_difficulty_target(&self.params)
+                self.next_min_difficulty_target(tip.height, branch, &self.params)
             }
+        } else if !branch.is_empty()
+            && (tip.height + 1) % self.params.difficulty_adjustment_interval() == 0
+        {
+            let height = (tip.height + 1) - self.params.difficulty_adjustment_interval();
+            let last_adjustment_block = self
+                .branch_header(height, tip.height, branch)
+                .unwrap_or_else(|| self.genesis());
+
+            self.adjusted_difficulty_target(
+                last_adjustment_block,
+                tip.time,
+                tip.target(),
+                &self.params,
+            )
         } else {
             self.next_difficulty_target(tip.height, tip.time, tip.target(), &self.params)
         };
@@ -484,7 +528,7 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         // A timestamp is accepted as valid if it is greater than the median timestamp of
         // the previous MEDIAN_TIME_SPAN blocks, and less than the network-adjusted
         // time + MAX_FUTURE_BLOCK_TIME.
-        if header.time <= self.median_time_past(height) {
+        if header.time <= self.branch_median_time_past(height, branch) {
             return Err(Error::InvalidBlockTime(header.time, Ordering::Less));
         }
         if header.time > clock.block_time() + time::MAX_FUTURE_BLOCK_TIME {
@@ -495,12 +539,20 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
     }
 
     /// Get the next minimum-difficulty target. Only valid in testnet and regtest networks.
-    fn next_min_difficulty_target(&self, params: &Params) -> Bits {
+    fn next_min_difficulty_target(
+        &self,
+        tip: Height,
+        branch: &[BlockHeader],
+        params: &Params,
+    ) -> Bits {
         assert!(params.allow_min_difficulty_blocks);
 
         let pow_limit_bits = block::pow_limit_bits(&params.network);
 
-        for (height, header) in self.iter().rev() {
+        for (height, header) in (0..=tip)
+            .rev()
+            .filter_map(|h| self.branch_header(h, tip, branch).map(|header| (h, header)))
+        {
             if header.bits != pow_limit_bits
                 || height % self.params.difficulty_adjustment_interval() == 0
             {
@@ -633,7 +685,7 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
         if header.prev_blockhash == tip.hash() {
             let height = tip.height + 1;
 
-            self.validate(tip, &header, clock)?;
+            self.validate(tip, &[], &header, clock)?;
             self.extend_chain(height, hash, header);
             self.store.put(std::iter::once(header))?;
 
diff --git a/common/src/block/tree.rs b/common/src/block/tree.rs
index 3ffd2b1..caf7e15 100644
--- a/common/src/block/tree.rs
+++ b/common/src/block/tree.rs
@@ -219,6 +219,18 @@ pub trait BlockReader {
         let last_adjustment_block = self
             .get_block_by_height(last_adjustment_height)
             .unwrap_or_else(|| self.genesis());
+
+        self.adjusted_difficulty_target(last_adjustment_block, last_time, last_target, params)
+    }
+    /// Get the adjusted difficulty for the next period, given the first block of the last period,
+    /// and the time and target of the last block of that period.
+    fn adjusted_difficulty_target(
+        &self,
+        last_adjustment_block: &BlockHeader,
+        last_time: BlockTime,
+        last_target: Target,
+        params: &Params,
+    ) -> Bits {
         let last_adjustment_time = last_adjustment_block.time;
 
         if params.no_pow_retargeting {
-- 
2.43.0


From 9ae4249421b1805cdba6665beff05dfa03729c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:37 +0000
Subject: [PATCH 03/61] fix: Report the exact difference between chains when
 importing a batch

---
 chain/src/block/cache.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index faf135e..d3828d7 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -8,7 +8,7 @@
 pub mod test;
 
 use std::cmp::Ordering;
-use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
+use std::collections::{BTreeMap, HashMap, VecDeque};
 use std::ops::ControlFlow;
 
 use nakamoto_common as common;
@@ -617,7 +617,6 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
         chain: I,
         context: &C,
     ) -> Result<ImportResult, Error> {
-        let mut seen = BTreeSet::new();
         let mut reverted = BTreeMap::new();
         let mut connected = BTreeMap::new();
         let mut best_height = self.height();
@@ -633,9 +632,21 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
                     reverted: r,
                     connected: c,
                 }) => {
-                    seen.extend(c.iter().map(|(_, h)| h.block_hash()));
-                    reverted.extend(r.into_iter().map(|(i, h)| ((i, h.block_hash()), h)));
-                    connected.extend(c);
+                    // Only keep track of the difference with the chain we started from: a block
+                    // connected and later reverted was never on that chain, while a block
+                    // reverted and later re-connected has always been on it.
+                    for (height, header) in r {
+                        let key = (height, header.block_hash());
+                        if connected.remove(&key).is_none() {
+                            reverted.insert(key, header);
+                        }
+                    }
+                    for (height, header) in c {
+                        let key = (height, header.block_hash());
+                        if reverted.remove(&key).is_none() {
+                            connected.insert(key, header);
+                        }
+                    }
 
                     best_hash = hash;
                     best_height = height;
@@ -649,12 +660,6 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
         }
 
         if !connected.is_empty() {
-            // Don't return reverted blocks if they were seen as connected at some point, since
-            // we only want to include blocks reverted from the main chain.
-            reverted.retain(|(_, h), _| !seen.contains(h) && !self.contains(h));
-            // Don't return connected blocks if they are not in the main chain.
-            connected.retain(|_, h| self.contains(&h.block_hash()));
-
             Ok(ImportResult::TipChanged {
                 header: best_header,
                 hash: best_hash,
@@ -664,9 +669,10 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
                     .rev()
                     .map(|((i, _), h)| (i, h))
                     .collect(),
-                connected: NonEmpty::from_vec(connected.into_iter().collect()).expect(
-                    "BlockCache::import_blocks: there is always at least one connected block",
-                ),
+                connected: NonEmpty::from_vec(
+                    connected.into_iter().map(|((i, _), h)| (i, h)).collect(),
+                )
+                .expect("BlockCache::import_blocks: there is always at least one connected block"),
             })
         } else {
             Ok(ImportResult::TipUnchanged)
-- 
2.43.0


From 8a41273d3f3860720c9214ecdae2574f90e6c2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:45 +0000
Subject: [PATCH 04/61] fix: Never re-organize the chain below the last
 checkpoint reached

---
 chain/src/block/cache.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index d3828d7..e68827d 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -397,9 +397,14 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
     /// Find all the potential forks off the main chain.
     fn chain_candidates(&self, clock: &impl Clock) -> Vec<Candidate> {
         let mut branches = Vec::new();
+        let last_checkpoint = self.last_checkpoint();
 
         for tip in self.orphans.keys() {
             if let Some(branch) = self.fork(tip) {
+                // Branches that were seen before the checkpoint was reached don't get to replace it.
+                if branch.fork_height < last_checkpoint {
+                    continue;
+                }
                 if self.validate_branch(&branch, clock).is_ok() {
                     branches.push(branch);
                 }
-- 
2.43.0


From d8f466319ef02e91ac4d4413660ef633026dfe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:20 +0000
Subject: [PATCH 05/61] verif: Expose the peer store to the verification
 harness (cfg nakamoto_verif)

---
 client/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/src/lib.rs b/client/src/lib.rs
index e326948..9047395 100644
--- a/client/src/lib.rs
+++ b/client/src/lib.rs
@@ -6,7 +6,10 @@ mod client;
 mod error;
 #[allow(hidden_glob_reexports)]
 mod event;
+#[cfg(not(nakamoto_verif))]
 mod peer;
+#[cfg(nakamoto_verif)]
+pub mod peer;
 mod service;
 
 pub use client::*;
-- 
2.43.0


From 3011682dd8e538d40d415e77b75b60de4db3493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:46 +0000
Subject: [PATCH 06/61] fix: Return no filter headers for an empty range

---
 chain/src/filter/cache.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chain/src/filter/cache.rs b/chain/src/filter/cache.rs
index 8f62ac8..8991ae5 100644
--- a/chain/src/filter/cache.rs
+++ b/chain/src/filter/cache.rs
@@ -139,6 +139,9 @@ impl<S: Store<Header = StoredHeader>> Filters for FilterCache<S> {
     }
 
     fn get_headers(&self, range: RangeInclusive<Height>) -> Vec<(FilterHash, FilterHeader)> {
+        if range.is_empty() {
+            return vec![];
+        }
         let (start, end) = (*range.start(), *range.end());
 
         self.headers
-- 
2.43.0


From 48f355ff736a232ef36a3bd7f06f7555a4fe2e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:46 +0000
Subject: [PATCH 07/61] fix: Don't panic on an unparsable address in the peer
 store

---
 common/src/p2p/peer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/p2p/peer.rs b/common/src/p2p/peer.rs
index 37bf3ef..f2e0d0d 100644
--- a/common/src/p2p/peer.rs
+++ b/common/src/p2p/peer.rs
@@ -288,7 +288,7 @@ impl KnownAddress {
         };
 
         let addr = match obj.get("address") {
-            Some(Value::String(addr)) => addr.parse().unwrap(),
+            Some(Value::String(addr)) => addr.parse().map_err(|_| serde::Error)?,
             _ => return Err(serde::Error),
         };
         let services = match obj.get("services") {
-- 
2.43.0


From eceafb266b3354432c7a90b7606e2a41b27e73da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:30 +0000
Subject: [PATCH 08/61] fix: Don't lose the peer store when interrupted while
 flushing it

---
 client/src/peer.rs | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/client/src/peer.rs b/client/src/peer.rs
index 506071f..fd663d9 100644
--- a/client/src/peer.rs
+++ b/client/src/peer.rs
@@ -1,6 +1,6 @@
 //! Client-related peer functionality.
 use std::collections::HashMap;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use std::{fs, io, net};
 
 pub use nakamoto_common::p2p::peer::*;
@@ -9,34 +9,35 @@ pub use nakamoto_common::p2p::peer::*;
 #[derive(Debug)]
 pub struct Cache {
     addrs: HashMap<net::IpAddr, KnownAddress>,
-    file: fs::File,
+    path: PathBuf,
 }
 
 impl Cache {
     /// Open an existing cache.
     pub fn open<P: AsRef<Path>>(path: P) -> io::Result<Self> {
-        fs::OpenOptions::new()
+        let file = fs::OpenOptions::new()
             .read(true)
             .write(true)
-            .open(path)
-            .and_then(Self::from)
+            .open(path.as_ref())?;
+
+        Self::from(file, path)
     }
 
     /// Create a new cache.
     pub fn create<P: AsRef<Path>>(path: P) -> io::Result<Self> {
-        let file = fs::OpenOptions::new()
+        fs::OpenOptions::new()
             .create_new(true)
             .write(true)
-            .open(path)?;
+            .open(path.as_ref())?;
 
         Ok(Self {
-            file,
+            path: path.as_ref().to_path_buf(),
             addrs: HashMap::new(),
         })
     }
 
-    /// Create a new cache from a file.
-    pub fn from(mut file: fs::File) -> io::Result<Self> {
+    /// Create a new cache from a file, located at the given path.
+    pub fn from<P: AsRef<Path>>(mut file: fs::File, path: P) -> io::Result<Self> {
         use io::Read;
         use microserde::json::Value;
         use std::str::FromStr;
@@ -65,7 +66,10 @@ impl Cache {
             }
         }
 
-        Ok(Self { file, addrs })
+        Ok(Self {
+            path: path.as_ref().to_path_buf(),
+            addrs,
+        })
     }
 }
 
@@ -99,7 +103,7 @@ impl Store for Cache {
     }
 
     fn flush<'a>(&mut self) -> io::Result<()> {
-        use io::{Seek, Write};
+        use io::Write;
         use microserde::json::Value;
 
         let peers: microserde::json::Object = self
@@ -109,13 +113,16 @@ impl Store for Cache {
             .collect();
         let s = microserde::json::to_string(&Value::Object(peers));
 
-        self.file.set_len(0)?;
-        self.file.seek(io::SeekFrom::Start(0))?;
-        self.file.write_all(s.as_bytes())?;
-        self.file.write_all(&[b'\n'])?;
-        self.file.sync_data()?;
+        // Write to a temporary file first, so that if we're interrupted, the addresses that
+        // were previously flushed aren't lost.
+        let tmp = self.path.with_extension("tmp");
+        let mut file = fs::File::create(&tmp)?;
+
+        file.write_all(s.as_bytes())?;
+        file.write_all(&[b'\n'])?;
+        file.sync_data()?;
 
-        Ok(())
+        fs::rename(&tmp, &self.path)
     }
 }
 
-- 
2.43.0


From 2912537cf8f20e445c7fff5c603d1a921de41c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:53 +0000
Subject: [PATCH 09/61] fix: don't ask a peer for the same headers over and
 over

A peer on a branch with as much work as ours answers every request with
the same headers, which were each time followed by the same request.
---
 p2p/src/fsm/syncmgr.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index da8d6de..5279db7 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -321,7 +321,15 @@ impl<C: Clock> SyncManager<C> {
                 let locators = (tree.locator_hashes(tree.height()), root);
                 let timeout = self.config.request_timeout;
 
-                self.request(*from, locators, timeout, OnTimeout::Ignore);
+                // If these headers are the answer to that same question, there's no point in
+                // asking again. It means the peer is on a branch that isn't better than ours.
+                let asked = self
+                    .peers
+                    .get(from)
+                    .map_or(false, |p| p.last_asked.as_ref() == Some(&locators));
+                if !asked {
+                    self.request(*from, locators, timeout, OnTimeout::Ignore);
+                }
             }
             Ok(ImportResult::TipChanged { hash, height, .. }) => {
                 // Update peer height.
@@ -386,8 +394,6 @@ impl<C: Clock> SyncManager<C> {
             return;
         }
         if let Some(peer) = self.peers.get_mut(&addr) {
-            debug_assert!(peer.last_asked.as_ref() != Some(&locators));
-
             peer.last_asked = Some(locators.clone());
 
             let sent_at = self.clock.local_time();
-- 
2.43.0


From fdc186e2986a7bb8c3b2da0f233db8d870bcfe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:55 +0000
Subject: [PATCH 10/61] fix: report the blocks imported by an aborted header
 import

If a peer or the user supplies headers of which one is invalid, those
before it may have changed the active chain. Without the corresponding
events, the filter header chain isn't rolled back, and the user never
hears of these blocks.
---
 p2p/src/fsm/syncmgr.rs | 82 ++++++++++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 23 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index 5279db7..de5ab9c 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -243,37 +243,73 @@ impl<C: Clock> SyncManager<C> {
         blocks: I,
         tree: &mut T,
     ) -> Result<ImportResult, Error> {
+        let (best, _) = tree.tip();
         let result = tree.import_blocks(blocks, &self.clock);
 
-        if let Ok(ImportResult::TipChanged {
-            hash,
-            height,
-            reverted,
-            connected,
-            ..
-        }) = &result
-        {
-            let reorg = !reverted.is_empty();
-
-            for (height, header) in reverted.iter().cloned() {
-                self.outbox
-                    .event(Event::BlockDisconnected { height, header });
+        match &result {
+            Ok(ImportResult::TipChanged {
+                hash,
+                height,
+                reverted,
+                connected,
+                ..
+            }) => {
+                self.tip_changed(*hash, *height, reverted.clone(), connected.clone(), tree);
             }
-            for (height, header) in connected.iter().cloned() {
-                self.outbox.event(Event::BlockConnected { height, header });
+            Ok(ImportResult::TipUnchanged) => {}
+            // When an import is aborted, the blocks preceding the offending block have been
+            // imported.
+            Err(_) => {
+                if let Some((fork_height, branch)) = tree.find_branch(&best) {
+                    let mut reverted = (fork_height + 1..)
+                        .zip(branch.tail)
+                        .collect::<Vec<_>>();
+                    reverted.reverse();
+
+                    let connected = tree
+                        .iter()
+                        .skip(fork_height as usize + 1)
+                        .collect::<Vec<_>>();
+
+                    if let Some(connected) = NonEmpty::from_vec(connected) {
+                        let (hash, _) = tree.tip();
+
+                        self.tip_changed(hash, tree.height(), reverted, connected, tree);
+                    }
+                }
             }
-            self.outbox.event(Event::BlockHeadersImported {
-                reorg,
-                hash: *hash,
-                height: *height,
-                connected: connected.clone(),
-                reverted: reverted.clone(),
-            });
-            self.broadcast_tip(hash, tree);
         }
         result
     }
 
+    /// Called when the active chain has changed.
+    fn tip_changed<T: BlockReader>(
+        &mut self,
+        hash: BlockHash,
+        height: Height,
+        reverted: Vec<(Height, BlockHeader)>,
+        connected: NonEmpty<(Height, BlockHeader)>,
+        tree: &T,
+    ) {
+        let reorg = !reverted.is_empty();
+
+        for (height, header) in reverted.iter().cloned() {
+            self.outbox
+                .event(Event::BlockDisconnected { height, header });
+        }
+        for (height, header) in connected.iter().cloned() {
+            self.outbox.event(Event::BlockConnected { height, header });
+        }
+        self.outbox.event(Event::BlockHeadersImported {
+            reorg,
+            hash,
+            height,
+            connected,
+            reverted,
+        });
+        self.broadcast_tip(&hash, tree);
+    }
+
     /// Called when we receive headers from a peer.
     pub fn received_headers<T: BlockTree>(
         &mut self,
-- 
2.43.0


From 6604c827907a0a1fa1be3fccbfcf4a47559e6cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:51 +0000
Subject: [PATCH 11/61] fix: wait for a peer to be disconnected before
 connecting to it again

Connecting to a peer that is being disconnected left it without any state,
since the disconnection that was under way removed it.
---
 p2p/src/fsm/peermgr.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index c263f7b..75f38f5 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -182,6 +182,8 @@ pub struct PeerManager<C> {
     peers: HashMap<net::SocketAddr, Peer>,
     /// Peers that have been disconnected and a retry attempt is scheduled.
     disconnected: HashMap<net::SocketAddr, (Option<LocalTime>, usize)>,
+    /// Peers being disconnected that should be connected to again, once disconnected.
+    reconnect: HashSet<net::SocketAddr>,
     outbox: Outbox,
     rng: fastrand::Rng,
     hooks: Hooks,
@@ -201,12 +203,14 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
     pub fn new(config: Config, rng: fastrand::Rng, hooks: Hooks, clock: C) -> Self {
         let peers = HashMap::with_hasher(rng.clone().into());
         let disconnected = HashMap::with_hasher(rng.clone().into());
+        let reconnect = HashSet::with_hasher(rng.clone().into());
 
         Self {
             config,
             last_idle: None,
             peers,
             disconnected,
+            reconnect,
             outbox: Outbox::default(),
             rng,
             hooks,
@@ -381,7 +385,9 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
         }
         self.peers.remove(addr);
 
-        if self.config.persistent.contains(addr) {
+        if self.reconnect.remove(addr) {
+            self.connect(addr);
+        } else if self.config.persistent.contains(addr) {
             self.persistent_disconnected(addr, local_time);
         } else {
             // If an outbound peer disconnected, we should make sure to maintain
@@ -739,13 +745,15 @@ impl<C: Clock> PeerManager<C> {
         if self.is_connected(addr) || self.is_connecting(addr) {
             return true;
         }
-        if !self.is_disconnected(addr) && !self.is_disconnecting(addr) {
-            return false;
-        }
         // Don't allow connections to unsupported domains.
         if !self.config.domains.contains(&Domain::for_address(addr)) {
             return false;
         }
+        // If the peer is being disconnected, that has to happen first.
+        if self.is_disconnecting(addr) {
+            self.reconnect.insert(*addr);
+            return true;
+        }
         self.peers.insert(*addr, Peer::Connecting { time });
         self.outbox.connect(*addr, CONNECTION_TIMEOUT);
 
-- 
2.43.0


From 15fc9691b2aae8ba6223aaead8d93af751fd7edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:07 +0000
Subject: [PATCH 12/61] fix: sync headers from peers with compact filters if
 there are no others

Only peers without compact filter support were asked for headers, so that
a client connected to nothing but compact filter peers didn't sync until
one of them announced a block, or until its tip was considered stale.
---
 p2p/src/fsm/syncmgr.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index de5ab9c..14eebab 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -618,7 +618,19 @@ impl<C: Clock> SyncManager<C> {
             .iter()
             .filter(|(a, p)| self.is_request_candidate(a, p, locators))
             .find(|(_, p)| p.preferred && p.height > height)
+            // If none of our preferred peers are ahead of us, settle for a peer that is.
+            .or_else(|| {
+                peers
+                    .iter()
+                    .filter(|(a, p)| self.is_request_candidate(a, p, locators))
+                    .find(|(_, p)| p.height > height)
+            })
             .or_else(|| peers.iter().find(|(_, p)| p.preferred))
+            .or_else(|| {
+                peers
+                    .iter()
+                    .find(|(_, p)| p.link.is_outbound() && p.height > height)
+            })
             .map(|(a, _)| **a)
     }
 
-- 
2.43.0


From bdb322834036b6a6ec1722dea84e91ce4ae1f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:28 +0000
Subject: [PATCH 13/61] fix: penalize peers that send invalid headers

The error of a header import is always wrapped in an 'import aborted'
error, which was ignored, and with it invalid headers and store errors.
---
 p2p/src/fsm/syncmgr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index 14eebab..012af6b 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -350,7 +350,13 @@ impl<C: Clock> SyncManager<C> {
             return;
         }
 
-        match self.import_blocks(headers.into_iter(), tree) {
+        let result = match self.import_blocks(headers.into_iter(), tree) {
+            // What matters here is the reason why the import was aborted.
+            Err(Error::BlockImportAborted(e, _, _)) => Err(*e),
+            result => result,
+        };
+
+        match result {
             Ok(ImportResult::TipUnchanged) => {
                 // Try to find a common ancestor that leads up to the first header in
                 // the list we received.
-- 
2.43.0


From bff56436a7bfb8ac88c58da9768ad52b8da25809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:25 +0000
Subject: [PATCH 14/61] fix: don't punish peers for answering a filter header
 request made before a re-org

---
 p2p/src/fsm/cbfmgr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index b3d6d99..3643ec3 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -634,7 +634,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         let stop_height = if let Some((height, _)) = tree.get_block(&stop_hash) {
             height
         } else {
-            return Err(Error::InvalidMessage {
+            // Since we asked for this stop hash, it must have been part of our active chain, and
+            // is no longer due to a re-org.
+            return Err(Error::Ignored {
                 from,
                 reason: "unknown `cfheaders` stop hash",
             });
-- 
2.43.0


From 59f93663ea5626d97cbb1da1acb862a9b9f58a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:30 +0000
Subject: [PATCH 15/61] fix: keep track of the filter cache size when a filter
 is replaced

---
 p2p/src/fsm/filter_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/filter_cache.rs b/p2p/src/fsm/filter_cache.rs
index 08c69e9..6346d2f 100644
--- a/p2p/src/fsm/filter_cache.rs
+++ b/p2p/src/fsm/filter_cache.rs
@@ -124,7 +124,9 @@ impl<T: Filter> FilterCache<T> {
             return false;
         }
 
-        self.cache.insert(height, filter);
+        if let Some(replaced) = self.cache.insert(height, filter) {
+            self.size -= replaced.len();
+        }
         self.size += size;
 
         while self.size > self.capacity {
-- 
2.43.0


From 8b6601764b53e9b4bc5ca9214906f768d79c1816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:02 +0000
Subject: [PATCH 16/61] fix: scan up to and including the end of a rescan, and
 not beyond

---
 p2p/src/fsm/cbfmgr.rs        | 72 ++++++++++++++++--------------------
 p2p/src/fsm/cbfmgr/rescan.rs | 13 ++++++-
 2 files changed, 43 insertions(+), 42 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 3643ec3..5249d4e 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -352,8 +352,11 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         if now - self.last_processed.unwrap_or_default() >= DEFAULT_REQUEST_TIMEOUT {
             if self.rescan.active {
                 self.rescan.reset(); // Clear pending request queue.
-                self.get_cfilters(self.rescan.current..=self.filters.height(), tree)
-                    .ok();
+                self.get_cfilters(
+                    self.rescan.current..=self.rescan.stop(self.filters.height()),
+                    tree,
+                )
+                .ok();
             }
         }
     }
@@ -379,48 +382,34 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         watch: Vec<Script>,
         tree: &T,
     ) -> Vec<(Height, BlockHash)> {
-        self.rescan.restart(
-            match start {
-                Bound::Unbounded => tree.height() + 1,
-                Bound::Included(h) => h,
-                Bound::Excluded(h) => h + 1,
-            },
-            match end {
-                Bound::Unbounded => None,
-                Bound::Included(h) => Some(h),
-                Bound::Excluded(h) => Some(h - 1),
-            },
-            watch,
-        );
+        let start = match start {
+            Bound::Unbounded => tree.height() + 1,
+            Bound::Included(h) => h,
+            Bound::Excluded(h) => h.saturating_add(1),
+        };
+        let (start, end) = match end {
+            Bound::Unbounded => (start, None),
+            Bound::Included(h) => (start, Some(h)),
+            Bound::Excluded(0) => (start.max(1), Some(0)), // Nothing to scan.
+            Bound::Excluded(h) => (start, Some(h - 1)),
+        };
+        self.rescan.restart(start, end, watch);
 
         self.outbox.event(Event::FilterRescanStarted {
             start: self.rescan.start,
             stop: self.rescan.end,
         });
 
-        if self.rescan.watch.is_empty() {
-            return vec![];
-        }
+        // Don't request further than the filter chain height.
+        let range = start..=self.rescan.stop(self.filters.height());
 
-        let height = self.filters.height();
-        let start = self.rescan.start;
-        let stop = self
-            .rescan
-            .end
-            // Don't request further than the filter chain height.
-            .map(|h| Height::min(h, height))
-            .unwrap_or(height);
-        let range = start..=stop;
-
-        if range.is_empty() {
-            return vec![];
-        }
-
-        // Start fetching the filters we can.
-        match self.get_cfilters(range, tree) {
-            Ok(()) => {}
-            Err(GetFiltersError::NotConnected) => {}
-            Err(err) => panic!("{}: Error fetching filters: {}", source!(), err),
+        if !self.rescan.watch.is_empty() && !range.is_empty() {
+            // Start fetching the filters we can.
+            match self.get_cfilters(range, tree) {
+                Ok(()) => {}
+                Err(GetFiltersError::NotConnected) => {}
+                Err(err) => panic!("{}: Error fetching filters: {}", source!(), err),
+            }
         }
         // When we reset the rescan range, there is the possibility of getting immediate cache
         // hits from `get_cfilters`. Hence, process the filter queue.
@@ -594,8 +583,11 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
 
         if self.rescan.active {
             // TODO: Don't do this too often.
-            self.get_cfilters(self.rescan.current..=self.filters.height(), tree)
-                .ok();
+            self.get_cfilters(
+                self.rescan.current..=self.rescan.stop(self.filters.height()),
+                tree,
+            )
+            .ok();
         }
     }
 
@@ -945,7 +937,7 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         }
 
         let start = Height::max(start, self.rescan.current);
-        let stop = Height::min(stop, self.rescan.end.unwrap_or(stop));
+        let stop = self.rescan.stop(stop);
         let range = start..=stop; // If the range is empty, it means we are not caught up yet.
 
         if !range.is_empty() {
diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index f308520..80d81da 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -86,6 +86,11 @@ impl Rescan {
         self.cache.rollback(to)
     }
 
+    /// Return the height up to which filters are needed, given the height of the filter chain.
+    pub fn stop(&self, height: Height) -> Height {
+        self.end.map_or(height, |end| Height::min(end, height))
+    }
+
     /// A filter was received.
     pub fn received(&mut self, height: Height, filter: BlockFilter, block_hash: BlockHash) -> bool {
         let requested = self.requested.remove(&height);
@@ -110,7 +115,11 @@ impl Rescan {
         let mut current = self.current;
         let old = current;
 
-        while let Some((filter, block_hash, cached)) = self.received.remove(&current) {
+        // Nb. Never process filters beyond the end of the rescan.
+        while self.end.map_or(true, |end| current <= end) {
+            let Some((filter, block_hash, cached)) = self.received.remove(&current) else {
+                break;
+            };
             let (matched, valid) = if let Ok(matched) = self.match_filter(&filter, &block_hash) {
                 (matched, true)
             } else {
@@ -132,7 +141,7 @@ impl Rescan {
         self.current = current;
 
         if let Some(stop) = self.end {
-            if self.current == stop {
+            if self.active && self.current > stop {
                 self.active = false;
                 events.push(Event::FilterRescanStopped { height: stop });
             }
-- 
2.43.0


From 401421f72708b88c4888223f182979b9798c86cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:10 +0000
Subject: [PATCH 17/61] fix: drop filters of reverted blocks that are waiting
 to be processed

---
 p2p/src/fsm/cbfmgr/rescan.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index 80d81da..243a232 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -83,7 +83,9 @@ impl Rescan {
 
     /// Rollback state to height.
     pub fn rollback(&mut self, to: Height) {
-        self.cache.rollback(to)
+        self.cache.rollback(to);
+        // Don't process filters of blocks that are no longer part of the chain.
+        self.received.retain(|height, _| *height <= to);
     }
 
     /// Return the height up to which filters are needed, given the height of the filter chain.
-- 
2.43.0


From 958c8c91c7cf3bb7a47671fc475ba043f8ca2606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:17 +0000
Subject: [PATCH 18/61] fix: report the blocks matching cached filters of a
 rescan

---
 p2p/src/fsm/cbfmgr.rs        | 13 ++++++++++---
 p2p/src/fsm/cbfmgr/rescan.rs | 25 ++++++++++++++-----------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 5249d4e..cafdbd6 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -405,18 +405,25 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
 
         if !self.rescan.watch.is_empty() && !range.is_empty() {
             // Start fetching the filters we can.
-            match self.get_cfilters(range, tree) {
+            match self.get_cfilters(range.clone(), tree) {
                 Ok(()) => {}
-                Err(GetFiltersError::NotConnected) => {}
+                // We don't need any peer for the filters that are cached.
+                Err(GetFiltersError::NotConnected) => self.rescan.load(range, tree),
                 Err(err) => panic!("{}: Error fetching filters: {}", source!(), err),
             }
         }
         // When we reset the rescan range, there is the possibility of getting immediate cache
         // hits from `get_cfilters`. Hence, process the filter queue.
-        let (matches, events, _) = self.rescan.process();
+        let (matches, events, processed) = self.rescan.process();
         for event in events {
             self.outbox.event(event);
         }
+        self.pending_blocks.extend(matches.iter().map(|(h, _)| *h));
+        if processed > 0 && self.pending_blocks.is_empty() {
+            self.outbox.event(Event::Scanned {
+                height: self.rescan.current,
+            });
+        }
         matches
     }
 
diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index 243a232..15c46b9 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -174,6 +174,19 @@ impl Rescan {
         Ok(matched)
     }
 
+    /// Insert the cached filters in the given range into the processing queue.
+    pub fn load<T: BlockReader>(&mut self, range: RangeInclusive<Height>, tree: &T) {
+        for height in range {
+            if let Some(filter) = self.cache.get(&height) {
+                if let Some(header) = tree.get_block_by_height(height) {
+                    let block_hash = header.block_hash();
+                    self.received
+                        .insert(height, (filter.clone(), block_hash, true));
+                }
+            }
+        }
+    }
+
     /// Given a range of filter heights, return the ranges that are missing.
     /// This is useful to figure out which ranges to fetch while ensuring we don't request
     /// the same heights more than once.
@@ -185,17 +198,7 @@ impl Rescan {
         if range.is_empty() {
             return vec![];
         }
-
-        for height in range.clone() {
-            if let Some(filter) = self.cache.get(&height) {
-                if let Some(header) = tree.get_block_by_height(height) {
-                    let block_hash = header.block_hash();
-                    // Insert the cached filters into the processing queue.
-                    self.received
-                        .insert(height, (filter.clone(), block_hash, true));
-                }
-            }
-        }
+        self.load(range.clone(), tree);
 
         // Heights to skip.
         // Note that cached heights will have been added to the `received` list.
-- 
2.43.0


From b9ac47107da8ff4f3e507ccfdf2a8d863f7b82a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:24 +0000
Subject: [PATCH 19/61] fix: report the height scanned up to, rather than the
 next one

---
 p2p/src/fsm/cbfmgr.rs        | 13 ++++++++-----
 p2p/src/fsm/cbfmgr/rescan.rs |  5 +++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index cafdbd6..3cf84a7 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -196,10 +196,11 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
                     // block that has matched.
                     // If there are no pending blocks however, it means there are no other matches,
                     // therefore we can jump to the current rescan height.
+                    let scanned = self.rescan.scanned();
                     let height = if self.pending_blocks.is_empty() {
-                        self.rescan.current.max(height)
+                        scanned
                     } else {
-                        height
+                        height.min(scanned)
                     };
                     self.outbox.event(Event::Scanned { height });
                 }
@@ -279,6 +280,8 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
                     }
                 }
                 NetworkMessage::CFilter(msg) => {
+                    let current = self.rescan.current;
+
                     match self.received_cfilter(&from, msg.clone(), tree) {
                         Ok(matches) => {
                             for (height, hash) in matches {
@@ -288,9 +291,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
                             }
                             // Filters being processed only updates our progress if there are no
                             // pending blocks. Otherwise we have to wait for the block to arrive.
-                            if self.pending_blocks.is_empty() {
+                            if self.rescan.current > current && self.pending_blocks.is_empty() {
                                 self.outbox.event(Event::Scanned {
-                                    height: self.rescan.current,
+                                    height: self.rescan.scanned(),
                                 });
                             }
                         }
@@ -421,7 +424,7 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         self.pending_blocks.extend(matches.iter().map(|(h, _)| *h));
         if processed > 0 && self.pending_blocks.is_empty() {
             self.outbox.event(Event::Scanned {
-                height: self.rescan.current,
+                height: self.rescan.scanned(),
             });
         }
         matches
diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index 15c46b9..e629823 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -93,6 +93,11 @@ impl Rescan {
         self.end.map_or(height, |end| Height::min(end, height))
     }
 
+    /// Return the height up to which filters were scanned.
+    pub fn scanned(&self) -> Height {
+        self.current.saturating_sub(1)
+    }
+
     /// A filter was received.
     pub fn received(&mut self, height: Height, filter: BlockFilter, block_hash: BlockHash) -> bool {
         let requested = self.requested.remove(&height);
-- 
2.43.0


From d672f25db4bd99fb5ed72465571b45d8975ef182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:47 +0000
Subject: [PATCH 20/61] fix: check the transactions of received blocks against
 their header

---
 p2p/src/fsm/invmgr.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index bf76a3b..af98877 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -390,19 +390,29 @@ impl<C: Clock> InventoryManager<C> {
     /// Note that the confirmed transactions don't necessarily pertain to this block.
     pub fn received_block<T: BlockReader>(
         &mut self,
-        _from: &PeerId,
+        from: &PeerId,
         block: Block,
         tree: &T,
     ) -> Vec<Txid> {
         let hash = block.block_hash();
 
-        if self.remaining.remove(&hash).is_none() {
+        if !self.remaining.contains_key(&hash) {
             // Nb. The remote isn't necessarily sending an unsolicited block here.
             // We often have to ask multiple peers to get a response, so we may
             // have already received this block once.
             return vec![];
         }
 
+        // The block hash only commits to the header. Make sure these are the block's transactions.
+        if !block.check_merkle_root() {
+            self.outbox.event(Event::PeerMisbehaved {
+                addr: *from,
+                reason: "invalid block transactions",
+            });
+            return vec![];
+        }
+        self.remaining.remove(&hash);
+
         // We're done requesting this block.
         for peer in self.peers.values_mut() {
             peer.requests.remove(&hash);
-- 
2.43.0


From d727d54718f1db3da7e7d812e09c358ab190b10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:28 +0000
Subject: [PATCH 21/61] fix: don't wait for, nor process blocks that aren't
 part of the active chain

---
 p2p/src/fsm/invmgr.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index af98877..b159a24 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -171,8 +171,15 @@ impl<C: Clock> InventoryManager<C> {
                 self.peers.remove(&addr);
             }
             Event::BlockHeadersImported { reverted, .. } => {
-                for (height, _) in reverted {
-                    self.block_reverted(height);
+                for (height, header) in &reverted {
+                    let hash = header.block_hash();
+                    if !tree.contains(&hash) {
+                        self.remaining.remove(&hash);
+                    }
+                    self.block_reverted(*height);
+                }
+                if !reverted.is_empty() {
+                    self.process_received(tree);
                 }
             }
             Event::MessageReceived { from, message } => match message.as_ref() {
@@ -421,18 +428,23 @@ impl<C: Clock> InventoryManager<C> {
         // Find the block height, otherwise we've somehow requested a block which
         // isn't part of the active chain. This could happen in the case of a re-org
         // and a delayed block arrival.
-        let height = if let Some((height, _)) = tree.get_block(&hash) {
-            height
-        } else {
-            return vec![];
-        };
+        if let Some((height, _)) = tree.get_block(&hash) {
+            // Add to processing queue. Blocks are processed in-order only.
+            self.received.insert(height, block);
+        }
+        self.process_received(tree)
+    }
 
-        // Add to processing queue. Blocks are processed in-order only.
-        self.received.insert(height, block);
+    /// Process the blocks received, if we aren't waiting for any others.
+    fn process_received<T: BlockReader>(&mut self, tree: &T) -> Vec<Txid> {
+        // Drop blocks that were reverted since they were received.
+        self.received
+            .retain(|_, block| tree.contains(&block.block_hash()));
 
         // If there are still blocks remaining to download, don't process any of the
-        // received queue yet.
-        if !self.remaining.is_empty() {
+        // received queue yet. We don't wait for blocks that aren't part of the active chain,
+        // since there may be no peer that has them.
+        if self.remaining.keys().any(|h| tree.contains(h)) {
             return vec![];
         }
 
-- 
2.43.0


From ab121c6e914720aa7ddbf2c03bf7c0a4317f2310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:47 +0000
Subject: [PATCH 22/61] fix: process cached filters of a rescan that has
 nothing to watch yet

---
 p2p/src/fsm/cbfmgr.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 3cf84a7..e17e013 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -406,12 +406,14 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         // Don't request further than the filter chain height.
         let range = start..=self.rescan.stop(self.filters.height());
 
+        // We don't need any peer for the filters that are cached.
+        self.rescan.load(range.clone(), tree);
+
         if !self.rescan.watch.is_empty() && !range.is_empty() {
             // Start fetching the filters we can.
-            match self.get_cfilters(range.clone(), tree) {
+            match self.get_cfilters(range, tree) {
                 Ok(()) => {}
-                // We don't need any peer for the filters that are cached.
-                Err(GetFiltersError::NotConnected) => self.rescan.load(range, tree),
+                Err(GetFiltersError::NotConnected) => {}
                 Err(err) => panic!("{}: Error fetching filters: {}", source!(), err),
             }
         }
-- 
2.43.0


From 7ceab1c9f46d86d57b240c0dd3fbb3fb83605916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:16 +0000
Subject: [PATCH 23/61] fix: don't announce transactions to peers that don't
 want them relayed

---
 p2p/src/fsm/invmgr.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index b159a24..97d1bd8 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -204,10 +204,13 @@ impl<C: Clock> InventoryManager<C> {
         relay: bool,
         wtxidrelay: bool,
     ) {
-        // Add existing inventories to this peer's outbox so that they are announced.
+        // Add existing inventories to this peer's outbox so that they are announced, unless
+        // the peer doesn't want any transactions relayed.
         let mut outbox = HashMap::with_hasher(self.rng.clone().into());
-        for (wtxid, tx) in self.mempool.iter() {
-            outbox.insert(*wtxid, tx.txid());
+        if relay {
+            for (wtxid, tx) in self.mempool.iter() {
+                outbox.insert(*wtxid, tx.txid());
+            }
         }
         self.schedule_tick();
         self.peers.insert(
-- 
2.43.0


From 6aebe3a7553171517759b71bb6661ebf0ea1cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:47 +0000
Subject: [PATCH 24/61] fix: confirm transactions with outputs that block
 filters don't include

---
 p2p/src/fsm/cbfmgr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index e17e013..8dcefbe 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -373,7 +373,13 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
     pub fn watch_transaction(&mut self, tx: &Transaction) {
         self.rescan.transactions.insert(
             tx.txid(),
-            tx.output.iter().map(|o| o.script_pubkey.clone()).collect(),
+            tx.output
+                .iter()
+                .map(|o| &o.script_pubkey)
+                // Nb. These scripts aren't included in block filters (BIP 158).
+                .filter(|s| !s.is_empty() && !s.is_op_return())
+                .cloned()
+                .collect(),
         );
     }
 
-- 
2.43.0


From 6f4aa4dfbb83ddec993bebe95eb2e2c276c5c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:20 +0000
Subject: [PATCH 25/61] fix: confirm segwit transactions found in blocks
 without witness data

---
 p2p/src/fsm/invmgr.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index 97d1bd8..6610692 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -464,16 +464,26 @@ impl<C: Clock> InventoryManager<C> {
         {
             let hash = block.block_hash();
 
+            // Nb. Blocks are sent to us without witness data, hence transactions can't be
+            // found by their `Wtxid` here.
+            let unconfirmed = self
+                .mempool
+                .iter()
+                .map(|(wtxid, tx)| (tx.txid(), *wtxid))
+                .collect::<BTreeMap<_, _>>();
+
             for tx in &block.txdata {
-                let wtxid = tx.wtxid();
+                let Some(wtxid) = unconfirmed.get(&tx.txid()) else {
+                    continue;
+                };
 
                 // Attempt to remove confirmed transaction from mempool.
-                if let Some(transaction) = self.mempool.remove(&wtxid) {
+                if let Some(transaction) = self.mempool.remove(wtxid) {
                     confirmed.push(tx.txid());
 
                     // Transactions that have been confirmed no longer need to be announced.
                     for peer in self.peers.values_mut() {
-                        peer.outbox.remove(&wtxid);
+                        peer.outbox.remove(wtxid);
                     }
 
                     self.confirmed
-- 
2.43.0


From 31a5853534470d7db784f7eb74c9e9473e750709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:21 +0000
Subject: [PATCH 26/61] fix: roll back the fee estimator only past blocks it
 has processed

---
 p2p/src/fsm/fees.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/p2p/src/fsm/fees.rs b/p2p/src/fsm/fees.rs
index 4ec322a..647fb6b 100644
--- a/p2p/src/fsm/fees.rs
+++ b/p2p/src/fsm/fees.rs
@@ -123,16 +123,19 @@ impl FeeEstimator {
         FeeEstimate::from(fees)
     }
 
-    /// Rollback to a certain height.
+    /// Rollback to a certain height. If we don't have a snapshot to go back to, we start over.
     pub fn rollback(&mut self, height: Height) {
+        if height >= self.height {
+            // We haven't processed any block past this height.
+            return;
+        }
         self.snapshots.retain(|(h, _)| h <= &height);
 
-        if let Some((h, snapshot)) = self.snapshots.pop_back() {
-            assert!(h <= height);
+        let (h, snapshot) = self.snapshots.pop_back().unwrap_or_default();
+        assert!(h <= height);
 
-            self.utxos = snapshot;
-            self.height = h;
-        }
+        self.utxos = snapshot;
+        self.height = h;
     }
 
     /// Apply the transaction to the UTXO set and calculate the fee rate.
-- 
2.43.0


From 46247c4077677bbf9a295ea321bb720e8cf5115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:28 +0000
Subject: [PATCH 27/61] fix: don't panic on blocks with invalid transactions
 when estimating fees

---
 p2p/src/fsm/fees.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/p2p/src/fsm/fees.rs b/p2p/src/fsm/fees.rs
index 647fb6b..eb412d4 100644
--- a/p2p/src/fsm/fees.rs
+++ b/p2p/src/fsm/fees.rs
@@ -141,8 +141,8 @@ impl FeeEstimator {
     /// Apply the transaction to the UTXO set and calculate the fee rate.
     fn apply(&mut self, tx: &Transaction) -> Option<FeeRate> {
         let txid = tx.txid();
-        let mut received = 0;
-        let mut sent = 0;
+        let mut received = 0u64;
+        let mut sent = 0u64;
 
         // Look for outputs.
         for (vout, output) in tx.output.iter().enumerate() {
@@ -151,7 +151,7 @@ impl FeeEstimator {
                 vout: vout as u32,
             };
             self.utxos.insert(outpoint, output.clone());
-            sent += output.value;
+            sent = sent.saturating_add(output.value);
         }
         // Since coinbase transactions have no inputs, we only process the outputs.
         if tx.is_coin_base() {
@@ -164,14 +164,13 @@ impl FeeEstimator {
         // the transaction fee. If one is missing, we have to bail.
         for input in tx.input.iter() {
             if let Some(out) = self.utxos.remove(&input.previous_output) {
-                received += out.value;
+                received = received.saturating_add(out.value);
             } else {
                 return None;
             }
         }
-        assert!(received >= sent, "you can't spend what you don't have",);
-
-        let fee = received - sent;
+        // Nb. We don't validate transactions, so we can't rely on this.
+        let fee = received.checked_sub(sent)?;
         let weight = tx.weight();
         let rate = fee as f64 / (weight as f64 / WITNESS_SCALE_FACTOR as f64);
 
-- 
2.43.0


From c13bab4f40e70c5c0d4fce5e5c4d87beabd7f87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:17 +0000
Subject: [PATCH 28/61] fix: accept inbound peers up to the configured limit

---
 p2p/src/fsm/peermgr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 75f38f5..8a38a38 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -331,8 +331,9 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
 
         match link {
             Link::Inbound => {
+                // Nb. This includes the peer that just connected.
                 if self.connected().filter(|c| c.link.is_inbound()).count()
-                    >= self.config.max_inbound_peers
+                    > self.config.max_inbound_peers
                 {
                     // TODO: Test this branch.
                     // Don't allow inbound connections beyond the configured limit.
-- 
2.43.0


From dce1cf7e8108380919732df17cc7d015b0081bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:39 +0000
Subject: [PATCH 29/61] fix: use the configured protocol version in the
 handshake

---
 p2p/src/fsm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/src/fsm.rs b/p2p/src/fsm.rs
index 0ffd448..72097fc 100644
--- a/p2p/src/fsm.rs
+++ b/p2p/src/fsm.rs
@@ -509,7 +509,7 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMa
         );
         let peermgr = PeerManager::new(
             peermgr::Config {
-                protocol_version: PROTOCOL_VERSION,
+                protocol_version,
                 whitelist,
                 persistent: connect,
                 domains: domains.clone(),
-- 
2.43.0


From 625a894844df28a2f8950723a6da03649bc0b591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:32 +0000
Subject: [PATCH 30/61] fix: report connections that time out or can't be
 dialed as failed

---
 p2p/src/fsm/peermgr.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 8a38a38..2ae68d0 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -14,7 +14,8 @@
 //!   3. Send `verack` message.
 //!   4. Expect `verack` message from remote.
 //!
-use std::net;
+use std::sync::Arc;
+use std::{io, net};
 
 use nakamoto_common::bitcoin::network::address::Address;
 use nakamoto_common::bitcoin::network::constants::ServiceFlags;
@@ -52,6 +53,9 @@ pub const MAX_INBOUND_PEERS: usize = 16;
 /// Maximum height difference for a stale peer, to maintain the connection (2 weeks).
 const MAX_STALE_HEIGHT_DIFFERENCE: Height = 2016;
 
+/// Timeout reason given for peers that couldn't be connected to in time.
+const CONNECTION_TIMED_OUT: &str = "connection";
+
 /// A time offset, in seconds.
 type TimeOffset = i64;
 
@@ -371,15 +375,26 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
         debug_assert!(self.peers.contains_key(addr));
         debug_assert!(!self.is_disconnected(addr));
 
-        if self.is_disconnecting(addr) || self.is_connected(addr) {
+        if let network::Disconnect::StateMachine(DisconnectReason::PeerTimeout(
+            CONNECTION_TIMED_OUT,
+        )) = reason
+        {
+            // We gave up on a connection that was never established.
+            self.outbox.event(Event::PeerConnectionFailed {
+                addr: *addr,
+                error: Arc::new(io::ErrorKind::TimedOut.into()),
+            });
+        } else if self.is_disconnecting(addr) || self.is_connected(addr) {
             self.outbox.event(Event::PeerDisconnected {
                 addr: *addr,
                 reason,
             });
         } else if self.is_connecting(addr) {
             // If we haven't yet established a connection, the disconnect reason
-            // should always be a `ConnectionError`.
-            if let network::Disconnect::ConnectionError(error) = reason {
+            // should always be a `DialError` or `ConnectionError`.
+            if let network::Disconnect::DialError(error)
+            | network::Disconnect::ConnectionError(error) = reason
+            {
                 self.outbox
                     .event(Event::PeerConnectionFailed { addr: *addr, error });
             }
@@ -586,7 +601,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
 
         // Time out all peers that have been idle in a "connecting" state for too long.
         for addr in self.idle_peers(local_time).collect::<Vec<_>>() {
-            timed_out.push((addr, "connection"));
+            timed_out.push((addr, CONNECTION_TIMED_OUT));
         }
         // Time out peers that haven't sent a `verack` quickly enough.
         for (peer, conn) in self.peers() {
-- 
2.43.0


From dba51f3945ed78edc48397a86248c5a5f7a911ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:17 +0000
Subject: [PATCH 31/61] fix: don't overflow on the time given by peers

---
 common/src/block/time.rs | 2 +-
 p2p/src/fsm/peermgr.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/block/time.rs b/common/src/block/time.rs
index b38e2b6..255d5ee 100644
--- a/common/src/block/time.rs
+++ b/common/src/block/time.rs
@@ -230,7 +230,7 @@ impl<K: Hash + Eq> AdjustedTime<K> {
             let median_offset: TimeOffset = offsets[count / 2];
 
             // Don't let other nodes change our time by more than a certain amount.
-            if median_offset.abs() <= MAX_TIME_ADJUSTMENT {
+            if median_offset.unsigned_abs() <= MAX_TIME_ADJUSTMENT as u64 {
                 self.offset = median_offset;
             } else {
                 // TODO: Check whether other nodes have times similar to ours, otherwise
diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 2ae68d0..fa313d4 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -543,7 +543,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                     peer: Some(PeerInfo {
                         nonce,
                         height: start_height as Height,
-                        time_offset: timestamp - now.block_time() as i64,
+                        time_offset: timestamp.saturating_sub(now.block_time() as i64),
                         services,
                         persistent,
                         user_agent,
-- 
2.43.0


From e4efa9d5b405e0f64dfeb51007394c44f55c96b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:50 +0000
Subject: [PATCH 32/61] fix: detect self-connections by the nonces we sent

---
 p2p/src/fsm/peermgr.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index fa313d4..6a8a273 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -161,8 +161,6 @@ pub struct PeerInfo {
     /// Whether this is a persistent peer.
     pub persistent: bool,
 
-    /// Peer nonce. Used to detect self-connections.
-    nonce: u64,
     /// Peer handshake state.
     state: HandshakeState,
 }
@@ -188,6 +186,8 @@ pub struct PeerManager<C> {
     disconnected: HashMap<net::SocketAddr, (Option<LocalTime>, usize)>,
     /// Peers being disconnected that should be connected to again, once disconnected.
     reconnect: HashSet<net::SocketAddr>,
+    /// Nonces we sent to our outbound peers. Used to detect self-connections.
+    nonces: HashMap<net::SocketAddr, u64>,
     outbox: Outbox,
     rng: fastrand::Rng,
     hooks: Hooks,
@@ -208,6 +208,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
         let peers = HashMap::with_hasher(rng.clone().into());
         let disconnected = HashMap::with_hasher(rng.clone().into());
         let reconnect = HashSet::with_hasher(rng.clone().into());
+        let nonces = HashMap::with_hasher(rng.clone().into());
 
         Self {
             config,
@@ -215,6 +216,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             peers,
             disconnected,
             reconnect,
+            nonces,
             outbox: Outbox::default(),
             rng,
             hooks,
@@ -348,6 +350,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             }
             Link::Outbound => {
                 let nonce = self.rng.u64(..);
+                self.nonces.insert(addr, nonce);
                 self.outbox.version(
                     addr,
                     self.version(addr, local_addr, nonce, height, local_time),
@@ -400,6 +403,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             }
         }
         self.peers.remove(addr);
+        self.nonces.remove(addr);
 
         if self.reconnect.remove(addr) {
             self.connect(addr);
@@ -493,10 +497,8 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             }
             // Check for self-connections. We only need to check one link direction,
             // since in the case of a self-connection, we will see both link directions.
-            for (peer, conn) in self.peers() {
-                if conn.link.is_outbound() && peer.nonce == nonce {
-                    return Err(DisconnectReason::SelfConnection);
-                }
+            if conn.link.is_inbound() && self.nonces.values().any(|n| *n == nonce) {
+                return Err(DisconnectReason::SelfConnection);
             }
 
             // If this peer doesn't have the preferred services, and we already have enough peers,
@@ -515,6 +517,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
 
             match conn.link {
                 Link::Inbound => {
+                    let nonce = self.rng.u64(..);
                     self.outbox
                         .version(
                             conn.addr,
@@ -541,7 +544,6 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 Peer::Connected {
                     conn,
                     peer: Some(PeerInfo {
-                        nonce,
                         height: start_height as Height,
                         time_offset: timestamp.saturating_sub(now.block_time() as i64),
                         services,
-- 
2.43.0


From 1ca68a4fcbe776bbd36435dbc6ebcb89083072ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:50 +0000
Subject: [PATCH 33/61] fix: ignore redundant version messages

---
 p2p/src/fsm/peermgr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 6a8a273..184e17d 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -450,7 +450,8 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
     ) -> Result<(), DisconnectReason> {
         let now = self.clock.local_time();
 
-        if let Some(Peer::Connected { conn, .. }) = self.peers.get(addr) {
+        // Nb. Redundant `version` messages are ignored, they don't restart the handshake.
+        if let Some(Peer::Connected { conn, peer: None }) = self.peers.get(addr) {
             let VersionMessage {
                 // Peer's best height.
                 start_height,
-- 
2.43.0


From c7907f4b2d81edb8ac0cdd7b7273dc4972d39998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:10 +0000
Subject: [PATCH 34/61] fix: treat negative peer heights as zero

---
 p2p/src/fsm/peermgr.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 184e17d..ec1167d 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -472,6 +472,8 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 ..
             } = msg.clone();
 
+            // The height is signed in the protocol.
+            let start_height = start_height.max(0) as Height;
             let target = self.config.target_outbound_peers;
             let preferred = self.config.preferred_services;
             let trusted = self.config.whitelist.contains(&addr.ip(), &user_agent)
@@ -491,10 +493,10 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             // If the peer is too far behind, there's no use connecting to it, we'll
             // have to wait for it to catch up.
             if conn.link.is_outbound()
-                && height.saturating_sub(start_height as Height) > MAX_STALE_HEIGHT_DIFFERENCE
+                && height.saturating_sub(start_height) > MAX_STALE_HEIGHT_DIFFERENCE
                 && !trusted
             {
-                return Err(DisconnectReason::PeerHeight(start_height as Height));
+                return Err(DisconnectReason::PeerHeight(start_height));
             }
             // Check for self-connections. We only need to check one link direction,
             // since in the case of a self-connection, we will see both link directions.
@@ -545,7 +547,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 Peer::Connected {
                     conn,
                     peer: Some(PeerInfo {
-                        height: start_height as Height,
+                        height: start_height,
                         time_offset: timestamp.saturating_sub(now.block_time() as i64),
                         services,
                         persistent,
-- 
2.43.0


From 85db49c71e9ccd46c588f5e8dafc4ffcdc155aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:55 +0000
Subject: [PATCH 35/61] fix: time out filter header requests only of the peer
 that is connected

---
 p2p/src/fsm/cbfmgr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 8dcefbe..3930bb5 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -332,11 +332,11 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
 
                 // Nb. Purposefully allow re-sampling the same peer, for cases where we are only
                 // connected to one peer.
-                if let Some((a, peer)) = self.peers.sample() {
+                if let Some((a, _)) = self.peers.sample() {
                     let a = *a;
                     // Disconnect only if we found a different peer, and this isn't
-                    // a persistent peer.
-                    if a != *addr && !peer.persistent {
+                    // a persistent peer, or a peer that has disconnected since.
+                    if a != *addr && self.peers.get(addr).map_or(false, |p| !p.persistent) {
                         self.peers.remove(addr);
                         self.outbox
                             .disconnect(*addr, DisconnectReason::PeerTimeout("getcfheaders"));
-- 
2.43.0


From d4a7d7b8c1647707272716856ec86c890a385b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:03 +0000
Subject: [PATCH 36/61] fix: don't ignore imported addresses

---
 p2p/src/fsm/addrmgr.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 7d24d4a..3005d75 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -368,8 +368,8 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
             if addr.services.has(ServiceFlags::GETUTXO) || addr.services.has(ServiceFlags::BLOOM) {
                 continue;
             }
-            // Ignore addresses that don't have a "last active" time.
-            if last_active == 0 {
+            // Ignore addresses that don't have a "last active" time, unless they were imported.
+            if last_active == 0 && source != Source::Imported {
                 continue;
             }
             // Ignore addresses that are too far into the future.
@@ -403,7 +403,6 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
             }
 
             let last_active = if last_active == 0 {
-                // TODO: Cannot be 'None' due to above condition.
                 None
             } else {
                 Some(LocalTime::from_block_time(last_active))
-- 
2.43.0


From a1648b0ce761e8b4fcbb1f435b942a202f5b88f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:55 +0000
Subject: [PATCH 37/61] fix: don't let inbound peers take the place of outbound
 ones

---
 p2p/src/fsm/peermgr.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index ec1167d..0d64e98 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -805,8 +805,9 @@ impl<C: Clock> PeerManager<C> {
         // Peers only with required services, which we'd eventually want to drop in favor of peers
         // that have all services.
         let secondary = self.negotiated(Link::Outbound).count() - primary;
-        // Connected peers that have not yet completed handshake.
-        let connected = self.connected().count() - primary - secondary;
+        // Connected outbound peers that have not yet completed handshake.
+        let connected =
+            self.connected().filter(|c| c.link.is_outbound()).count() - primary - secondary;
         // Connecting peers.
         let connecting = self.connecting().count();
 
-- 
2.43.0


From c1d15b7cb33b3ec12396e62042e15acb75a239ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:24 +0000
Subject: [PATCH 38/61] fix: keep track of all connections of an address

---
 p2p/src/fsm/addrmgr.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 3005d75..a412d1a 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -61,12 +61,17 @@ impl<P: Store, C> AddressManager<P, C> {
             if time - ka.last_sampled.unwrap_or_default() < SAMPLE_TIMEOUT {
                 continue;
             }
-            if !self.connected.contains(addr) {
+            if !self.is_connected(addr) {
                 return false;
             }
         }
         true
     }
+
+    /// Check whether we are connected to an IP address. There may be more than one connection.
+    fn is_connected(&self, ip: &net::IpAddr) -> bool {
+        self.connected.iter().any(|a| a.ip() == *ip)
+    }
 }
 
 /// Address manager configuration.
@@ -94,7 +99,7 @@ pub struct AddressManager<P, C> {
     peers: P,
     bans: HashSet<net::IpAddr>,
     address_ranges: HashMap<u8, HashSet<net::IpAddr>>,
-    connected: HashSet<net::IpAddr>,
+    connected: HashSet<net::SocketAddr>,
     sources: HashSet<net::SocketAddr>,
     local_addrs: HashSet<net::SocketAddr>,
     /// The last time we asked our peers for new addresses.
@@ -233,14 +238,14 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
         if !self::is_routable(&addr.ip()) || self::is_local(&addr.ip()) {
             return;
         }
-        self.connected.insert(addr.ip());
+        self.connected.insert(*addr);
     }
 
     /// Called when a peer has handshaked.
     fn peer_negotiated(&mut self, addr: &net::SocketAddr, services: ServiceFlags, link: Link) {
         let time = self.clock.local_time();
 
-        if !self.connected.contains(&addr.ip()) {
+        if !self.connected.contains(addr) {
             return;
         }
         if link.is_outbound() {
@@ -268,7 +273,7 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
         addr: &net::SocketAddr,
         reason: Disconnect<super::DisconnectReason>,
     ) {
-        if self.connected.remove(&addr.ip()) {
+        if self.connected.remove(addr) {
             // Disconnected peers cannot be used as a source for new addresses.
             self.sources.remove(addr);
 
@@ -501,7 +506,7 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
                     continue;
                 }
                 // If we're already connected to this address, skip it.
-                if self.connected.contains(ip) {
+                if self.connected.iter().any(|a| a.ip() == *ip) {
                     continue;
                 }
                 // If the provided filter doesn't pass, keep looking.
@@ -550,8 +555,6 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
 
     /// Remove an address from the address book and prevent it from being sampled again.
     fn ban(&mut self, addr: &net::IpAddr) -> bool {
-        debug_assert!(!self.connected.contains(addr));
-
         let key = self::addr_key(addr);
 
         if let Some(range) = self.address_ranges.get_mut(&key) {
-- 
2.43.0


From 7f5092df5eb755b1d38a3ee9781d6f5ffec60cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:19 +0000
Subject: [PATCH 39/61] fix: remember bans of addresses that aren't in the book

---
 p2p/src/fsm/addrmgr.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index a412d1a..0ab13a4 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -557,12 +557,14 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
     fn ban(&mut self, addr: &net::IpAddr) -> bool {
         let key = self::addr_key(addr);
 
+        // TODO: Persist bans.
+        // Nb. We also have to remember addresses that are not in the book, eg. those of
+        // inbound peers.
+        self.bans.insert(*addr);
+
         if let Some(range) = self.address_ranges.get_mut(&key) {
             range.remove(addr);
-
-            // TODO: Persist bans.
             self.peers.remove(addr);
-            self.bans.insert(*addr);
 
             if range.is_empty() {
                 self.address_ranges.remove(&key);
-- 
2.43.0


From 39d20a3ebeb5e9a49b91b99af7db52820cffceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:28 +0000
Subject: [PATCH 40/61] fix: process events before the next input, if several
 arrive at once

---
 p2p/src/fsm.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm.rs b/p2p/src/fsm.rs
index 72097fc..2d2c518 100644
--- a/p2p/src/fsm.rs
+++ b/p2p/src/fsm.rs
@@ -31,7 +31,7 @@ pub use event::Event;
 pub use nakamoto_net::Link;
 
 use std::borrow::Cow;
-use std::collections::HashSet;
+use std::collections::{HashSet, VecDeque};
 use std::fmt::{self, Debug};
 use std::net;
 use std::ops::{Bound, RangeInclusive};
@@ -355,6 +355,8 @@ pub struct StateMachine<T, F, P, C> {
     last_tick: LocalTime,
     /// Outbound I/O. Used to communicate protocol events with a reactor.
     outbox: Outbox,
+    /// Outputs that were already propagated internally, but not consumed yet.
+    ready: VecDeque<Io>,
     /// State machine event hooks.
     hooks: Hooks,
 }
@@ -549,6 +551,7 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMa
             invmgr,
             last_tick: LocalTime::default(),
             outbox,
+            ready: VecDeque::new(),
             hooks,
         }
     }
@@ -586,6 +589,21 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> Iterato
     type Item = Io;
 
     fn next(&mut self) -> Option<Io> {
+        self.ready.pop_front().or_else(|| self.next_output())
+    }
+}
+
+impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMachine<T, F, P, C> {
+    /// Propagate the events of previous inputs to the sub-systems, before processing the next
+    /// one. The reactor may hand us any number of inputs before it consumes our outputs.
+    fn settle(&mut self) {
+        while let Some(io) = self.next_output() {
+            self.ready.push_back(io);
+        }
+    }
+
+    /// Get the next output of the sub-systems.
+    fn next_output(&mut self) -> Option<Io> {
         let next = self
             .outbox
             .next()
@@ -618,9 +636,7 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> Iterato
             other => other,
         }
     }
-}
 
-impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMachine<T, F, P, C> {
     /// Propagate an event internally to the sub-systems.
     pub fn event(&mut self, e: Event) {
         self.cbfmgr
@@ -636,6 +652,8 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMa
     pub fn command(&mut self, cmd: Command) {
         debug!(target: "p2p", "Received command: {:?}", cmd);
 
+        self.settle();
+
         match cmd {
             Command::QueryTree(query) => {
                 query(&self.tree);
@@ -768,6 +786,8 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> traits:
         let addr = *addr;
         let msg = msg.into_owned();
 
+        self.settle();
+
         if msg.magic != self.network.magic() {
             return self
                 .peermgr
@@ -803,6 +823,7 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> traits:
     }
 
     fn connected(&mut self, addr: net::SocketAddr, local_addr: &net::SocketAddr, link: Link) {
+        self.settle();
         self.peermgr
             .peer_connected(addr, *local_addr, link, self.tree.height());
     }
@@ -825,6 +846,7 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> traits:
     fn timer_expired(&mut self) {
         trace!("Received wake");
 
+        self.settle();
         self.invmgr.timer_expired(&self.tree);
         self.syncmgr.timer_expired(&self.tree);
         self.pingmgr.timer_expired();
-- 
2.43.0


From 22723ccb6a107038c4aed0b71c955e4c6abf0ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:38 +0000
Subject: [PATCH 41/61] fix: refuse messages that end early or are too large,
 instead of waiting for more

---
 p2p/src/stream.rs | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/p2p/src/stream.rs b/p2p/src/stream.rs
index 91975be..b9167e3 100644
--- a/p2p/src/stream.rs
+++ b/p2p/src/stream.rs
@@ -3,6 +3,22 @@ use std::io;
 
 use nakamoto_common::bitcoin::consensus::{encode, Decodable};
 
+/// Reader that keeps track of whether its end was reached.
+struct Reader<'a> {
+    bytes: &'a [u8],
+    eof: bool,
+}
+
+impl<'a> io::Read for Reader<'a> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let count = self.bytes.read(buf)?;
+        if count < buf.len() {
+            self.eof = true;
+        }
+        Ok(count)
+    }
+}
+
 /// Message stream decoder.
 ///
 /// Used to for example turn a byte stream into network messages.
@@ -26,14 +42,23 @@ impl Decoder {
 
     /// Decode and return the next message. Returns [`None`] if nothing was decoded.
     pub fn decode_next<D: Decodable>(&mut self) -> Result<Option<D>, encode::Error> {
-        match encode::deserialize_partial::<D>(&self.unparsed) {
-            Ok((msg, index)) => {
+        let mut reader = Reader {
+            bytes: &self.unparsed,
+            eof: false,
+        };
+
+        // Nb. This fails on messages that are too large.
+        match D::consensus_decode(&mut reader) {
+            Ok(msg) => {
                 // Drain deserialized bytes only.
+                let index = self.unparsed.len() - reader.bytes.len();
                 self.unparsed.drain(..index);
                 Ok(Some(msg))
             }
-
-            Err(encode::Error::Io(ref err)) if err.kind() == io::ErrorKind::UnexpectedEof => {
+            // We need more data, unless it's the contents of a message that ends early.
+            Err(encode::Error::Io(ref err))
+                if err.kind() == io::ErrorKind::UnexpectedEof && reader.eof =>
+            {
                 Ok(None)
             }
             Err(err) => Err(err),
-- 
2.43.0


From f49476d3851cd183a5f464d006f1981e7a811bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:38 +0000
Subject: [PATCH 42/61] fix: don't panic on filter headers received while no
 peer with filters is connected

---
 p2p/src/fsm/cbfmgr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 3930bb5..e8364b4 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -716,7 +716,12 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         self.filters
             .import_headers(headers)
             .map(|height| {
-                self.headers_imported(start_height, height, tree).unwrap(); // TODO
+                // Nb. If we aren't connected to any peer with filters, the filters are requested
+                // once we are.
+                match self.headers_imported(start_height, height, tree) {
+                    Ok(()) | Err(GetFiltersError::NotConnected) => {}
+                    Err(err) => panic!("{}: Error fetching filters: {}", source!(), err),
+                }
 
                 assert!(height <= tree.height());
 
-- 
2.43.0


From 59d20cc731f948149c565453582954be8d744acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:39 +0000
Subject: [PATCH 43/61] fix: don't panic if filters are requested beyond the
 filter header chain

---
 p2p/src/fsm/cbfmgr.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index e8364b4..6533e03 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -450,10 +450,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         if self.peers.is_empty() {
             return Err(GetFiltersError::NotConnected);
         }
-        if range.is_empty() {
+        if range.is_empty() || *range.end() > self.filters.height() {
             return Err(GetFiltersError::InvalidRange);
         }
-        assert!(*range.end() <= self.filters.height());
 
         // TODO: Only ask peers synced to a certain height.
         // Choose a different peer for each requested range.
-- 
2.43.0


From 019678590bf9d87ef3b6a0bcf2323a52fe7dc4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:31 +0000
Subject: [PATCH 44/61] fix: call the hooks for getdata and getcfilters
 messages

---
 p2p/src/fsm.rs        | 10 ++++++++++
 p2p/src/fsm/invmgr.rs |  1 -
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm.rs b/p2p/src/fsm.rs
index 2d2c518..6a3f1d5 100644
--- a/p2p/src/fsm.rs
+++ b/p2p/src/fsm.rs
@@ -810,6 +810,16 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> traits:
             return;
         }
 
+        match &msg.payload {
+            NetworkMessage::GetCFilters(request) => {
+                (self.hooks.on_getcfilters)(addr, request.clone(), &self.outbox);
+            }
+            NetworkMessage::GetData(inventory) => {
+                (self.hooks.on_getdata)(addr, inventory.clone(), &self.outbox);
+            }
+            _ => {}
+        }
+
         // Nb. We only send this message internally, hence we don't
         // push it to our outbox.
         self.event(Event::MessageReceived {
diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index 6610692..d5cbcd5 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -188,7 +188,6 @@ impl<C: Clock> InventoryManager<C> {
                 }
                 NetworkMessage::GetData(invs) => {
                     self.received_getdata(from, invs);
-                    // TODO: (*self.hooks.on_getdata)(addr, invs, &self.outbox);
                 }
                 _ => {}
             },
-- 
2.43.0


From 9c37ec9e23df9fbf4f0a265c709aaa10eb026b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:33 +0000
Subject: [PATCH 45/61] fix: answer filter header requests completely, or not
 at all

---
 p2p/src/fsm/cbfmgr.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 6533e03..51f458e 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -765,7 +765,14 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         };
 
         let headers = self.filters.get_headers(start_height..=stop_height);
-        if !headers.is_empty() {
+        if headers.len() > MAX_MESSAGE_CFHEADERS {
+            return Err(Error::Ignored {
+                reason: "too many cfheaders requested",
+                from,
+            });
+        }
+        // Only answer if we have all headers requested, up to the stop block.
+        if !headers.is_empty() && stop_height <= self.filters.height() {
             let hashes = headers.iter().map(|(hash, _)| *hash);
             let prev_header = self.filters.get_prev_header(start_height).expect(
                 "FilterManager::received_getcfheaders: all headers up to the tip must exist",
@@ -783,7 +790,7 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
             return Ok(());
         }
         // We must be syncing, since we have the block headers requested but
-        // not the associated filter headers. Simply ignore the request.
+        // not all the associated filter headers. Simply ignore the request.
         Err(Error::Ignored {
             reason: "cfheaders not found",
             from,
-- 
2.43.0


From 364b6892a619f7772894c61463442a95bd19ab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:16 +0000
Subject: [PATCH 46/61] fix: don't overflow when adjusting the time at the
 limits of the clock

---
 common/src/block/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/block/time.rs b/common/src/block/time.rs
index 255d5ee..acefb9d 100644
--- a/common/src/block/time.rs
+++ b/common/src/block/time.rs
@@ -252,9 +252,9 @@ impl<K: Hash + Eq> AdjustedTime<K> {
         let adjustment = self.offset;
 
         if adjustment > 0 {
-            time + adjustment as BlockTime
+            time.saturating_add(adjustment as BlockTime)
         } else {
-            time - adjustment.unsigned_abs() as BlockTime
+            time.saturating_sub(adjustment.unsigned_abs() as BlockTime)
         }
     }
 
-- 
2.43.0


From 6247b24ac332b28f550091a42f1c1857be32e128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:52 +0000
Subject: [PATCH 47/61] fix: don't report failed connection attempts as
 connected

When a non-blocking connect fails, the socket becomes writable with an
error pending on it. The poll reactor told the service that it was
connected, before telling it that it was disconnected.
---
 net/poll/src/reactor.rs | 10 ++++++++++
 net/poll/src/socket.rs  |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 436f606..6e05e88 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -420,7 +420,17 @@ impl<Id: PeerId> Reactor<net::TcpStream, Id> {
         //
         // Since we perform a non-blocking connect, we're only really connected once the socket
         // is writable.
+        //
+        // Nb. A socket is also writable when the connection attempt failed, in which case there
+        // is an error pending on the socket.
         if self.connecting.remove(&addr) {
+            if let Some(err) = socket.take_error()? {
+                trace!("{}: Connection error: {}", socket_addr, err.to_string());
+
+                self.unregister_peer(addr, Disconnect::ConnectionError(Arc::new(err)), service);
+
+                return Ok(());
+            }
             let local_addr = socket.local_address()?;
 
             service.connected(addr.clone(), &local_addr, socket.link);
diff --git a/net/poll/src/socket.rs b/net/poll/src/socket.rs
index 2347fa5..d851af6 100644
--- a/net/poll/src/socket.rs
+++ b/net/poll/src/socket.rs
@@ -23,6 +23,11 @@ impl Socket<net::TcpStream> {
         self.raw.local_addr()
     }
 
+    /// Get the pending error of the socket, if any.
+    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
+        self.raw.take_error()
+    }
+
     /// Disconnect socket.
     pub fn disconnect(&self) -> io::Result<()> {
         self.raw.shutdown(net::Shutdown::Both)
-- 
2.43.0


From be93d8bfefc067663aff43e9ae7fa4e20e49de02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:52 +0000
Subject: [PATCH 48/61] fix: fire timers even if there is always i/o to handle

The poll reactor woke up the service for timers only if poll(2) timed out,
which never happens as long as one of the sources is ready.
---
 net/poll/src/reactor.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 6e05e88..d140a6c 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -259,17 +259,21 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                     }
                 }
                 Err(err) if err.kind() == io::ErrorKind::TimedOut => {
-                    // Nb. The way this is currently used basically ignores which keys have
-                    // timed out. So as long as *something* timed out, we wake the service.
-                    self.timeouts.wake(local_time, &mut timeouts);
-
-                    if !timeouts.is_empty() {
-                        timeouts.clear();
-                        service.timer_expired();
-                    }
+                    trace!("Woke up with no source(s) ready");
                 }
                 Err(err) => return Err(err.into()),
             }
+
+            // Nb. The way this is currently used basically ignores which keys have
+            // timed out. So as long as *something* timed out, we wake the service.
+            // This is done even if there was i/o to handle, since otherwise timeouts
+            // would never fire as long as some source is ready.
+            self.timeouts.wake(local_time, &mut timeouts);
+
+            if !timeouts.is_empty() {
+                timeouts.clear();
+                service.timer_expired();
+            }
             self.process(&mut service, &mut publisher, local_time);
         }
     }
-- 
2.43.0


From 53daa9cb6ecff51e4502ad16b2abfe7c6bd0a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:00 +0000
Subject: [PATCH 49/61] fix: don't lose a shutdown of the poll reactor

If the shutdown was sent, and the reactor woken up, between checking for a
shutdown and resetting the waker, the wake-up was lost, and the reactor
kept running.
---
 net/poll/src/reactor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index d140a6c..73ef3c7 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -238,11 +238,14 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                             Source::Waker => {
                                 trace!("Woken up by waker ({} command(s))", commands.len());
 
+                                // Nb. This has to happen before checking for a shutdown or
+                                // commands: what is sent after the check wakes us up again.
+                                popol::Waker::reset(ev.source).ok();
+
                                 // Exit reactor loop if a shutdown was received.
                                 if let Ok(()) = self.shutdown.try_recv() {
                                     return Ok(());
                                 }
-                                popol::Waker::reset(ev.source).ok();
 
                                 // Nb. This should not happen, but it has been reported
                                 // a few times. So we try to log a warning message and
-- 
2.43.0


From 3e13785d165528e094d95f1d47dccf78fafd2b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:37 +0000
Subject: [PATCH 50/61] fix: wait_for_peers should count the peers that are
 connected

It never returned if more peers than asked for were connected already, and
counted peers that had disconnected in the meantime.
---
 client/src/client.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/client/src/client.rs b/client/src/client.rs
index 85c301b..f3209bc 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -653,7 +653,7 @@ impl<W: Waker> handle::Handle for Handle<W> {
         let required_services = required_services.into();
 
         let negotiated = self.get_peers(required_services)?;
-        if negotiated.len() == count {
+        if negotiated.len() >= count {
             return Ok(negotiated
                 .into_iter()
                 .map(|p| (p.addr, p.height, p.services))
@@ -678,12 +678,16 @@ impl<W: Waker> handle::Handle for Handle<W> {
                         negotiated.insert(addr, (height, services));
                     }
 
-                    if negotiated.len() == count {
+                    if negotiated.len() >= count {
                         Some(negotiated.iter().map(|(a, (h, s))| (*a, *h, *s)).collect())
                     } else {
                         None
                     }
                 }
+                fsm::Event::PeerDisconnected { addr, .. } => {
+                    negotiated.remove(&addr);
+                    None
+                }
                 _ => None,
             },
             self.timeout,
-- 
2.43.0


From ccc01c1fbee1f256b2e3c617605c6620d7cccb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:14 +0000
Subject: [PATCH 51/61] fix: wait_for_height should return once the height is
 reached

It only returned if the chain's tip was at exactly that height after an
import, and not if the height was passed.
---
 client/src/client.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/src/client.rs b/client/src/client.rs
index f3209bc..47db0d0 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -703,7 +703,9 @@ impl<W: Waker> handle::Handle for Handle<W> {
             None => event::wait(
                 &events,
                 |e| match e {
-                    Event::BlockHeadersImported { height, hash, .. } if height == h => Some(hash),
+                    Event::BlockConnected { height, header } if height == h => {
+                        Some(header.block_hash())
+                    }
                     _ => None,
                 },
                 self.timeout,
-- 
2.43.0


From 9f4be0b55c05ad7f3a916bd94aaf0589c10c4a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:42 +0000
Subject: [PATCH 52/61] fix: start after an interrupted re-org left the filter
 headers ahead of the block headers

---
 client/src/client.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client/src/client.rs b/client/src/client.rs
index 47db0d0..2971e8e 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -302,7 +302,7 @@ impl<R: Reactor> Client<R> {
 
         let cfheaders_genesis = filter::cache::StoredHeader::genesis(network);
         let cfheaders_path = dir.join("filters.db");
-        let cfheaders_store = match store::File::create(&cfheaders_path, cfheaders_genesis) {
+        let mut cfheaders_store = match store::File::create(&cfheaders_path, cfheaders_genesis) {
             Ok(store) => {
                 log::info!(target: "client", "Initializing new filter header store {:?}", cfheaders_path);
                 store
@@ -321,6 +321,13 @@ impl<R: Reactor> Client<R> {
             }
             Err(err) => return Err(err.into()),
         };
+        // If we were interrupted during a re-org, block headers may have been rolled back when
+        // filter headers weren't. As we can't tell which of the filter headers are still valid,
+        // they have to be synced again.
+        if cfheaders_store.height()? > cache.height() {
+            log::warn!(target: "client", "Filter headers are ahead of block headers, resetting..");
+            cfheaders_store.rollback(0)?;
+        }
         log::info!(target: "client", "Loading filter headers from store..");
 
         let filters = FilterCache::load_with(cfheaders_store, |height| {
-- 
2.43.0


From 6579591203cf8845eda1aa75759ce940b43cf6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:01 +0000
Subject: [PATCH 53/61] fix: don't panic on small terminals

---
 wallet/src/wallet/ui.rs       | 8 +++++---
 wallet/src/wallet/ui/table.rs | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/wallet/src/wallet/ui.rs b/wallet/src/wallet/ui.rs
index 279ce49..4813a63 100644
--- a/wallet/src/wallet/ui.rs
+++ b/wallet/src/wallet/ui.rs
@@ -93,7 +93,7 @@ impl Aligned {
     }
 
     fn right(mut self) -> Aligned {
-        self.position.x = self.constraint.x - self.text.len() as u16 + 1;
+        self.position.x = self.constraint.x.saturating_sub(self.text.len() as u16) + 1;
         self
     }
 
@@ -104,7 +104,9 @@ impl Aligned {
     }
 
     fn center(mut self) -> Aligned {
-        self.position.x = self.constraint.x / 2 - self.text.len() as u16 / 2;
+        self.position.x = (self.constraint.x / 2)
+            .saturating_sub(self.text.len() as u16 / 2)
+            .max(1);
         self
     }
 }
@@ -490,7 +492,7 @@ pub fn draw_footer<W: io::Write>(ui: &Ui, term: &mut W) -> io::Result<()> {
     write!(
         term,
         "{}{}{}{}",
-        cursor::Goto(1, height - 1),
+        cursor::Goto(1, height.saturating_sub(1).max(1)),
         color::Bg(color::Reset),
         color::Fg(color::Blue),
         ui.message,
diff --git a/wallet/src/wallet/ui/table.rs b/wallet/src/wallet/ui/table.rs
index b5605e1..5de8a0c 100644
--- a/wallet/src/wallet/ui/table.rs
+++ b/wallet/src/wallet/ui/table.rs
@@ -54,7 +54,7 @@ impl<const N: usize> Table<N> {
                     cursor::Goto(1, i as u16 + start),
                     clear::CurrentLine,
                     &output,
-                    width = width - 1
+                    width = width.saturating_sub(1)
                 )?;
             }
         }
-- 
2.43.0


From 6628689b1fe00b67f276f2a8337b975874fd46bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:31 +0000
Subject: [PATCH 54/61] fix: keep the reactor running when poll is interrupted
 by a signal

---
 net/poll/src/reactor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 73ef3c7..5e04692 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -264,6 +264,9 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                 Err(err) if err.kind() == io::ErrorKind::TimedOut => {
                     trace!("Woke up with no source(s) ready");
                 }
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => {
+                    trace!("Woke up due to a signal");
+                }
                 Err(err) => return Err(err.into()),
             }
 
-- 
2.43.0


From f972361e722550891d03227d472161284024b9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:44 +0000
Subject: [PATCH 55/61] fix: don't blame a peer for filter headers requested
 before it reconnected

---
 p2p/src/fsm/cbfmgr.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 51f458e..98fe85e 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -187,6 +187,20 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
             }
             Event::PeerDisconnected { addr, .. } => {
                 self.peers.remove(&addr);
+
+                // This peer won't respond to our requests anymore, even if it connects again.
+                // Send them to another peer, if there is one.
+                let unanswered = self
+                    .inflight
+                    .iter()
+                    .filter(|(_, (_, peer, _))| *peer == addr)
+                    .map(|(stop_hash, (start_height, _, _))| (*start_height, *stop_hash))
+                    .collect::<Vec<_>>();
+
+                for (start_height, stop_hash) in unanswered {
+                    self.inflight.remove(&stop_hash);
+                    self.get_cfheaders(start_height, stop_hash);
+                }
             }
             Event::BlockProcessed { block, height, .. } => {
                 if self.pending_blocks.remove(&height) {
-- 
2.43.0


From 3f9eaff4bd63ff1271790f6883fde23336a20773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:12 +0000
Subject: [PATCH 56/61] fix: stop requesting filter headers of stale blocks
 after a re-org

---
 p2p/src/fsm/cbfmgr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 98fe85e..6d0de4e 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -234,6 +234,10 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
                     if let Err(e) = self.rollback(fork_height) {
                         self.outbox.error(e);
                     }
+                    // There's no use in requesting the filter headers of stale blocks again. Peers
+                    // that have never seen them can't respond.
+                    self.inflight
+                        .retain(|stop_hash, _| tree.contains(stop_hash));
                 }
                 // Trigger a filter sync, since we're going to have to catch up on the
                 // new block header(s). This is not required, but reduces latency.
-- 
2.43.0


From 14e6997b0b4509f56278594fff584e7c4fb4c6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:11 +0000
Subject: [PATCH 57/61] fix: don't accept blocks with repeated transactions

---
 p2p/src/fsm/invmgr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index d5cbcd5..9e722a2 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -19,7 +19,7 @@
 //! the [`InventoryManager::timer_expired`] function is called. Confirmed transactions are removed
 //! after they are burried at a certain depth.
 //!
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 
 use nakamoto_common::bitcoin::network::message::NetworkMessage;
 use nakamoto_common::bitcoin::network::{constants::ServiceFlags, message_blockdata::Inventory};
@@ -413,7 +413,10 @@ impl<C: Clock> InventoryManager<C> {
         }
 
         // The block hash only commits to the header. Make sure these are the block's transactions.
-        if !block.check_merkle_root() {
+        // Nb. Transactions can be repeated in a way that results in the same merkle root
+        // (CVE-2012-2459).
+        let mut txids = BTreeSet::new();
+        if !block.check_merkle_root() || !block.txdata.iter().all(|tx| txids.insert(tx.txid())) {
             self.outbox.event(Event::PeerMisbehaved {
                 addr: *from,
                 reason: "invalid block transactions",
-- 
2.43.0


From 7cfe9efe0c508cb6d2b1dbe838d1b63ae52145a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:23 +0000
Subject: [PATCH 58/61] fix: don't drop a simulated node's timer that coincides
 with another node's

---
 net/src/simulator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net/src/simulator.rs b/net/src/simulator.rs
index bed0113..c978b12 100644
--- a/net/src/simulator.rs
+++ b/net/src/simulator.rs
@@ -577,9 +577,10 @@ where
                 if !matches!(
                     self.inbox.messages.get(&time),
                     Some(Scheduled {
+                        node: other,
                         input: Input::Wake,
                         ..
-                    })
+                    }) if *other == node
                 ) {
                     self.inbox.insert(
                         time,
-- 
2.43.0


From cf2fc14656a9a510673f52ea57f0343284f27316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:23 +0000
Subject: [PATCH 59/61] fix: don't drop a scheduled input when a simulated node
 disconnects

---
 net/src/simulator.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/net/src/simulator.rs b/net/src/simulator.rs
index c978b12..82eddd5 100644
--- a/net/src/simulator.rs
+++ b/net/src/simulator.rs
@@ -121,12 +121,11 @@ impl<M: Clone, D: Clone> Inbox<M, D> {
         self.messages.insert(time, msg);
     }
 
-    /// Get the next scheduled input to be delivered.
-    fn next(&mut self) -> Option<(LocalTime, Scheduled<M, D>)> {
-        self.messages
-            .iter()
-            .next()
-            .map(|(time, scheduled)| (*time, scheduled.clone()))
+    /// Take the next scheduled input to be delivered out of the inbox.
+    fn take(&mut self) -> Option<(LocalTime, Scheduled<M, D>)> {
+        let time = *self.messages.keys().next()?;
+
+        self.messages.remove_entry(&time)
     }
 
     /// Get the last message sent between two peers. Only checks one direction.
@@ -340,9 +339,12 @@ where
             }
         }
         // Next high-priority message.
-        let priority = self.priority.pop_front().map(|s| (self.time, s));
+        let next = match self.priority.pop_front() {
+            Some(scheduled) => Some((self.time, scheduled)),
+            None => self.inbox.take(),
+        };
 
-        if let Some((time, next)) = priority.or_else(|| self.inbox.next()) {
+        if let Some((time, next)) = next {
             let elapsed = (time - self.start_time).as_millis();
             if matches!(next.input, Input::Wake) {
                 trace!(target: "sim", "{:05} {}", elapsed, next);
@@ -355,7 +357,6 @@ where
             assert!(time >= self.time, "Time only moves forwards!");
 
             self.time = time;
-            self.inbox.messages.remove(&time);
 
             let Scheduled { input, node, .. } = next;
 
-- 
2.43.0


From 7b9a1658998190386b78fc508b5a04736fd45e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:23 +0000
Subject: [PATCH 60/61] fix: a simulation with pending disconnections isn't
 done

---
 net/src/simulator.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/net/src/simulator.rs b/net/src/simulator.rs
index 82eddd5..f3b6caa 100644
--- a/net/src/simulator.rs
+++ b/net/src/simulator.rs
@@ -217,7 +217,7 @@ where
 
     /// Check whether the simulation is done, ie. there are no more messages to process.
     pub fn is_done(&self) -> bool {
-        self.inbox.messages.is_empty()
+        self.priority.is_empty() && self.inbox.messages.is_empty()
     }
 
     /// Total amount of simulated time elapsed.
@@ -229,10 +229,12 @@ where
     /// Check whether the simulation has settled, ie. the only messages left to process
     /// are (periodic) timeouts.
     pub fn is_settled(&self) -> bool {
-        self.inbox
-            .messages
-            .iter()
-            .all(|(_, s)| matches!(s.input, Input::Wake))
+        self.priority.is_empty()
+            && self
+                .inbox
+                .messages
+                .iter()
+                .all(|(_, s)| matches!(s.input, Input::Wake))
     }
 
     /// Get a node's emitted events.
-- 
2.43.0


From 9b94685a97cc8045a7c2a12b8a0514ed04a453b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:23 +0000
Subject: [PATCH 61/61] fix: respect the minimum latency in simulations

---
 net/src/simulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/src/simulator.rs b/net/src/simulator.rs
index f3b6caa..ea9854f 100644
--- a/net/src/simulator.rs
+++ b/net/src/simulator.rs
@@ -249,7 +249,7 @@ where
             .cloned()
             .map(|l| {
                 if l <= MIN_LATENCY {
-                    l
+                    MIN_LATENCY
                 } else {
                     // Create variance in the latency. The resulting latency
                     // will be between half, and two times the base latency.
-- 
2.43.0

