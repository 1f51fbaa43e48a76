From f37f3c1936bfb7bcdf51c73353e99840bd939a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:21 +0000
Subject: [PATCH 01/57] fix: validate competing branches against their own
 ancestors

A branch forking off the active chain was checked against the median time,
the retargeting block and the minimum-difficulty block of the active chain
instead of its own.
---
 chain/src/block/cache.rs | 81 +++++++++++++++++++++++++++-------------
 common/src/block/tree.rs | 78 ++++++++++++++++++++++++--------------
 2 files changed, 105 insertions(+), 54 deletions(-)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index 1631e48..90d6a98 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -210,8 +210,13 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         // Gracefully handle the case where `height` < `MEDIUM_TIME_SPAN`.
         let available = &mut times[0..(end - start) as usize];
 
-        available.sort_unstable();
-        available[available.len() / 2]
+        Self::median_time(available)
+    }
+
+    /// Get the median of the given block times.
+    fn median_time(times: &mut [BlockTime]) -> BlockTime {
+        times.sort_unstable();
+        times[times.len() / 2]
     }
 
     /// Import a block into the tree. Performs header validation. This function may trigger
@@ -232,7 +237,7 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         // Block extends the active chain. We can fully validate it before proceeding.
         // Instead of adding the block to the main chain, we let chain selection do the job.
         if header.prev_blockhash == best {
-            self.validate(tip, &header, clock)?;
+            self.validate(tip.height, &[], &header, clock)?;
         }
 
         // Validate that the block's PoW is valid against its difficulty target, and
@@ -420,29 +425,40 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
 
     /// Validate a candidate branch. This function is useful for chain selection.
     fn validate_branch(&self, candidate: &Candidate, clock: &impl Clock) -> Result<(), Error> {
-        let mut tip = CachedBlock {
-            height: candidate.fork_height,
-            header: candidate.fork_header,
-        };
-
-        for header in candidate.headers.iter() {
-            self.validate(&tip, header, clock)?;
-
-            tip = CachedBlock {
-                height: tip.height + 1,
-                header: *header,
-            };
+        for (i, header) in candidate.headers.iter().enumerate() {
+            self.validate(
+                candidate.fork_height,
+                &candidate.headers[..i],
+                header,
+                clock,
+            )?;
         }
         Ok(())
     }
 
     /// Validate a block header as a potential new tip. This performs full header validation.
+    ///
+    /// The ancestors of the header are the blocks of `branch`, preceded by the blocks of the
+    /// active chain up to and including the fork height.
     fn validate(
         &self,
-        tip: &CachedBlock,
+        fork_height: Height,
+        branch: &[BlockHeader],
         header: &BlockHeader,
         clock: &impl Clock,
     ) -> Result<(), Error> {
+        let ancestor = |height: Height| -> &BlockHeader {
+            if height > fork_height {
+                &branch[(height - fork_height - 1) as usize]
+            } else {
+                &self.chain[height as usize].header
+            }
+        };
+        let tip_height = fork_height + branch.len() as Height;
+        let tip = CachedBlock {
+            height: tip_height,
+            header: *ancestor(tip_height),
+        };
         assert_eq!(tip.hash(), header.prev_blockhash);
 
         let compact_target = if self.params.allow_min_difficulty_blocks
@@ -451,10 +467,16 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
             if header.time > tip.time + self.params.pow_target_spacing as BlockTime * 2 {
                 block::pow_limit_bits(&self.params.network)
             } else {
-                self.next_min_difficulty_target(&self.params)
+                self.next_min_difficulty_target((0..=tip.height).rev().map(|h| (h, ancestor(h))))
             }
         } else {
-            self.next_difficulty_target(tip.height, tip.time, tip.target(), &self.params)
+            tree::next_difficulty_target(
+                tip.height,
+                tip.time,
+                tip.target(),
+                |height| *ancestor(height),
+                &self.params,
+            )
         };
 
         let target = BlockHeader::u256_from_compact_target(compact_target);
@@ -484,7 +506,12 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         // A timestamp is accepted as valid if it is greater than the median timestamp of
         // the previous MEDIAN_TIME_SPAN blocks, and less than the network-adjusted
         // time + MAX_FUTURE_BLOCK_TIME.
-        if header.time <= self.median_time_past(height) {
+        let start = height.saturating_sub(time::MEDIAN_TIME_SPAN);
+        let mut times = (start..height)
+            .map(|h| ancestor(h).time)
+            .collect::<Vec<_>>();
+
+        if header.time <= Self::median_time(&mut times) {
             return Err(Error::InvalidBlockTime(header.time, Ordering::Less));
         }
         if header.time > clock.block_time() + time::MAX_FUTURE_BLOCK_TIME {
@@ -494,13 +521,17 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         Ok(())
     }
 
-    /// Get the next minimum-difficulty target. Only valid in testnet and regtest networks.
-    fn next_min_difficulty_target(&self, params: &Params) -> Bits {
-        assert!(params.allow_min_difficulty_blocks);
+    /// Get the next minimum-difficulty target, given the ancestors of a block, starting with its
+    /// parent. Only valid in testnet and regtest networks.
+    fn next_min_difficulty_target<'a>(
+        &self,
+        ancestors: impl Iterator<Item = (Height, &'a BlockHeader)>,
+    ) -> Bits {
+        assert!(self.params.allow_min_difficulty_blocks);
 
-        let pow_limit_bits = block::pow_limit_bits(&params.network);
+        let pow_limit_bits = block::pow_limit_bits(&self.params.network);
 
-        for (height, header) in self.iter().rev() {
+        for (height, header) in ancestors {
             if header.bits != pow_limit_bits
                 || height % self.params.difficulty_adjustment_interval() == 0
             {
@@ -633,7 +664,7 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
         if header.prev_blockhash == tip.hash() {
             let height = tip.height + 1;
 
-            self.validate(tip, &header, clock)?;
+            self.validate(tip.height, &[], &header, clock)?;
             self.extend_chain(height, hash, header);
             self.store.put(std::iter::once(header))?;
 
diff --git a/common/src/block/tree.rs b/common/src/block/tree.rs
index f02f2ed..2280a58 100644
--- a/common/src/block/tree.rs
+++ b/common/src/block/tree.rs
@@ -208,42 +208,62 @@ pub trait BlockReader {
         last_target: Target,
         params: &Params,
     ) -> Bits {
-        // Only adjust on set intervals. Otherwise return current target.
-        // Since the height is 0-indexed, we add `1` to check it against the interval.
-        if (last_height + 1) % params.difficulty_adjustment_interval() != 0 {
-            return BlockHeader::compact_target_from_u256(&last_target);
-        }
+        next_difficulty_target(
+            last_height,
+            last_time,
+            last_target,
+            |height| {
+                *self
+                    .get_block_by_height(height)
+                    .unwrap_or_else(|| self.genesis())
+            },
+            params,
+        )
+    }
+}
 
-        let last_adjustment_height =
-            last_height.saturating_sub(params.difficulty_adjustment_interval() - 1);
-        let last_adjustment_block = self
-            .get_block_by_height(last_adjustment_height)
-            .unwrap_or_else(|| self.genesis());
-        let last_adjustment_time = last_adjustment_block.time;
+/// Get the next difficulty given a block height, time and bits, and a function returning the
+/// ancestor of the next block at the given height.
+pub fn next_difficulty_target(
+    last_height: Height,
+    last_time: BlockTime,
+    last_target: Target,
+    ancestor: impl Fn(Height) -> BlockHeader,
+    params: &Params,
+) -> Bits {
+    // Only adjust on set intervals. Otherwise return current target.
+    // Since the height is 0-indexed, we add `1` to check it against the interval.
+    if (last_height + 1) % params.difficulty_adjustment_interval() != 0 {
+        return BlockHeader::compact_target_from_u256(&last_target);
+    }
 
-        if params.no_pow_retargeting {
-            return last_adjustment_block.bits;
-        }
+    let last_adjustment_height =
+        last_height.saturating_sub(params.difficulty_adjustment_interval() - 1);
+    let last_adjustment_block = ancestor(last_adjustment_height);
+    let last_adjustment_time = last_adjustment_block.time;
 
-        let actual_timespan = last_time - last_adjustment_time;
-        let mut adjusted_timespan = actual_timespan;
+    if params.no_pow_retargeting {
+        return last_adjustment_block.bits;
+    }
 
-        if actual_timespan < params.pow_target_timespan as BlockTime / 4 {
-            adjusted_timespan = params.pow_target_timespan as BlockTime / 4;
-        } else if actual_timespan > params.pow_target_timespan as BlockTime * 4 {
-            adjusted_timespan = params.pow_target_timespan as BlockTime * 4;
-        }
+    let actual_timespan = last_time - last_adjustment_time;
+    let mut adjusted_timespan = actual_timespan;
 
-        let mut target = last_target;
+    if actual_timespan < params.pow_target_timespan as BlockTime / 4 {
+        adjusted_timespan = params.pow_target_timespan as BlockTime / 4;
+    } else if actual_timespan > params.pow_target_timespan as BlockTime * 4 {
+        adjusted_timespan = params.pow_target_timespan as BlockTime * 4;
+    }
 
-        target = target.mul_u32(adjusted_timespan);
-        target = target / Target::from_u64(params.pow_target_timespan).unwrap();
+    let mut target = last_target;
 
-        // Ensure a difficulty floor.
-        if target > params.pow_limit {
-            target = params.pow_limit;
-        }
+    target = target.mul_u32(adjusted_timespan);
+    target = target / Target::from_u64(params.pow_target_timespan).unwrap();
 
-        BlockHeader::compact_target_from_u256(&target)
+    // Ensure a difficulty floor.
+    if target > params.pow_limit {
+        target = params.pow_limit;
     }
+
+    BlockHeader::compact_target_from_u256(&target)
 }
-- 
2.43.0


From 31020649e8d4349b4e5c682e755868bd8069ca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:21 +0000
Subject: [PATCH 02/57] fix: don't underflow the retarget timespan when block
 times decrease

---
 common/src/block/tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/src/block/tree.rs b/common/src/block/tree.rs
index 2280a58..ccb3f12 100644
--- a/common/src/block/tree.rs
+++ b/common/src/block/tree.rs
@@ -246,7 +246,8 @@ pub fn next_difficulty_target(
         return last_adjustment_block.bits;
     }
 
-    let actual_timespan = last_time - last_adjustment_time;
+    // Nb. Block times aren't necessarily increasing, so this can't be assumed to be positive.
+    let actual_timespan = last_time.saturating_sub(last_adjustment_time);
     let mut adjusted_timespan = actual_timespan;
 
     if actual_timespan < params.pow_target_timespan as BlockTime / 4 {
-- 
2.43.0


From 5e8c477e6adad5cac27eca817d0896e7d4646f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:02 +0000
Subject: [PATCH 03/57] fix: report the net change of the active chain when
 importing headers

When the active chain changed more than once during an import, the list of
connected and reverted blocks could include blocks that were not part of the
chain before the import, or miss ones that were.
---
 chain/src/block/cache.rs | 84 +++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 45 deletions(-)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index 90d6a98..266b287 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -8,7 +8,7 @@
 pub mod test;
 
 use std::cmp::Ordering;
-use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
+use std::collections::{BTreeMap, HashMap, VecDeque};
 use std::ops::ControlFlow;
 
 use nakamoto_common as common;
@@ -583,6 +583,39 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         self.chainwork = self.chainwork + header.work();
     }
 
+    /// Get the difference between the active chain, and the chain leading up to the given tip,
+    /// which must be a former tip of the active chain.
+    fn changes_since(&self, previous: &BlockHash) -> ImportResult {
+        let tip = self.chain.last();
+        let (fork_height, stale) = match self.get_block(previous) {
+            Some((height, _)) => (height, vec![]),
+            None => {
+                let branch = self
+                    .fork(previous)
+                    .expect("BlockCache::changes_since: former tips are always known");
+
+                (branch.fork_height, branch.headers)
+            }
+        };
+        let connected = self
+            .chain_suffix(fork_height)
+            .iter()
+            .map(|b| (b.height, b.header))
+            .collect();
+        let reverted = (fork_height + 1..).zip(stale).collect::<Vec<_>>();
+
+        match NonEmpty::from_vec(connected) {
+            Some(connected) => ImportResult::TipChanged {
+                header: tip.header,
+                hash: tip.hash(),
+                height: tip.height,
+                reverted: reverted.into_iter().rev().collect(),
+                connected,
+            },
+            None => ImportResult::TipUnchanged,
+        }
+    }
+
     /// Get the blocks starting from the given height.
     fn chain_suffix(&self, height: Height) -> &[CachedBlock] {
         &self.chain.tail[height as usize..]
@@ -596,30 +629,11 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
         chain: I,
         context: &C,
     ) -> Result<ImportResult, Error> {
-        let mut seen = BTreeSet::new();
-        let mut reverted = BTreeMap::new();
-        let mut connected = BTreeMap::new();
-        let mut best_height = self.height();
-        let mut best_hash = self.chain.last().hash();
-        let mut best_header = self.chain.last().header;
+        let previous = self.chain.last().hash();
 
         for (i, header) in chain.enumerate() {
             match self.import_block(header, context) {
-                Ok(ImportResult::TipChanged {
-                    header,
-                    hash,
-                    height,
-                    reverted: r,
-                    connected: c,
-                }) => {
-                    seen.extend(c.iter().map(|(_, h)| h.block_hash()));
-                    reverted.extend(r.into_iter().map(|(i, h)| ((i, h.block_hash()), h)));
-                    connected.extend(c);
-
-                    best_hash = hash;
-                    best_height = height;
-                    best_header = header;
-                }
+                Ok(ImportResult::TipChanged { .. }) => {}
                 Ok(ImportResult::TipUnchanged) => {}
                 Err(Error::DuplicateBlock(hash)) => log::trace!("Duplicate block {}", hash),
                 Err(Error::BlockMissing(hash)) => log::trace!("Missing block {}", hash),
@@ -627,29 +641,9 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
             }
         }
 
-        if !connected.is_empty() {
-            // Don't return reverted blocks if they were seen as connected at some point, since
-            // we only want to include blocks reverted from the main chain.
-            reverted.retain(|(_, h), _| !seen.contains(h) && !self.contains(h));
-            // Don't return connected blocks if they are not in the main chain.
-            connected.retain(|_, h| self.contains(&h.block_hash()));
-
-            Ok(ImportResult::TipChanged {
-                header: best_header,
-                hash: best_hash,
-                height: best_height,
-                reverted: reverted
-                    .into_iter()
-                    .rev()
-                    .map(|((i, _), h)| (i, h))
-                    .collect(),
-                connected: NonEmpty::from_vec(connected.into_iter().collect()).expect(
-                    "BlockCache::import_blocks: there is always at least one connected block",
-                ),
-            })
-        } else {
-            Ok(ImportResult::TipUnchanged)
-        }
+        // The active chain may have changed more than once during the import. We only report
+        // the difference between the chain we started with, and the one we ended up with.
+        Ok(self.changes_since(&previous))
     }
 
     /// Extend the active chain.
-- 
2.43.0


From 1b43c0c8f98de2d363e5a73f106c46a448ec51ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:09 +0000
Subject: [PATCH 04/57] fix: announce blocks connected by an import that was
 later aborted

When a batch of headers contained an invalid one, the headers preceding it
were added to the active chain without any event being emitted.
---
 p2p/src/fsm/syncmgr.rs | 84 ++++++++++++++++++++++++++++++------------
 1 file changed, 61 insertions(+), 23 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index da8d6de..58ddaa9 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -243,35 +243,73 @@ impl<C: Clock> SyncManager<C> {
         blocks: I,
         tree: &mut T,
     ) -> Result<ImportResult, Error> {
+        let (previous, _) = tree.tip();
         let result = tree.import_blocks(blocks, &self.clock);
 
-        if let Ok(ImportResult::TipChanged {
+        match &result {
+            Ok(ImportResult::TipChanged {
+                hash,
+                height,
+                reverted,
+                connected,
+                ..
+            }) => self.tip_changed(*hash, *height, reverted.clone(), connected.clone(), tree),
+            Ok(ImportResult::TipUnchanged) => {}
+            Err(_) => {
+                // Blocks imported before the error occured are part of our tree.
+                self.import_aborted(previous, tree);
+            }
+        }
+        result
+    }
+
+    /// Called when the active chain changed.
+    fn tip_changed<T: BlockTree>(
+        &mut self,
+        hash: BlockHash,
+        height: Height,
+        reverted: Vec<(Height, BlockHeader)>,
+        connected: NonEmpty<(Height, BlockHeader)>,
+        tree: &T,
+    ) {
+        let reorg = !reverted.is_empty();
+
+        for (height, header) in reverted.iter().cloned() {
+            self.outbox
+                .event(Event::BlockDisconnected { height, header });
+        }
+        for (height, header) in connected.iter().cloned() {
+            self.outbox.event(Event::BlockConnected { height, header });
+        }
+        self.outbox.event(Event::BlockHeadersImported {
+            reorg,
             hash,
             height,
-            reverted,
             connected,
-            ..
-        }) = &result
-        {
-            let reorg = !reverted.is_empty();
-
-            for (height, header) in reverted.iter().cloned() {
-                self.outbox
-                    .event(Event::BlockDisconnected { height, header });
-            }
-            for (height, header) in connected.iter().cloned() {
-                self.outbox.event(Event::BlockConnected { height, header });
-            }
-            self.outbox.event(Event::BlockHeadersImported {
-                reorg,
-                hash: *hash,
-                height: *height,
-                connected: connected.clone(),
-                reverted: reverted.clone(),
-            });
-            self.broadcast_tip(hash, tree);
+            reverted,
+        });
+        self.broadcast_tip(&hash, tree);
+    }
+
+    /// Called when a block import was aborted. The active chain may have changed already.
+    fn import_aborted<T: BlockTree>(&mut self, previous: BlockHash, tree: &T) {
+        let (hash, _) = tree.tip();
+        let Some((fork_height, branch)) = tree.find_branch(&previous) else {
+            return;
+        };
+        let reverted = (fork_height + 1..)
+            .zip(branch.tail)
+            .collect::<Vec<_>>()
+            .into_iter()
+            .rev()
+            .collect();
+        let connected = (fork_height + 1..=tree.height())
+            .filter_map(|h| tree.get_block_by_height(h).map(|header| (h, *header)))
+            .collect();
+
+        if let Some(connected) = NonEmpty::from_vec(connected) {
+            self.tip_changed(hash, tree.height(), reverted, connected, tree);
         }
-        result
     }
 
     /// Called when we receive headers from a peer.
-- 
2.43.0


From 8271d2335ee55f427a85e6455233afe693f44bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:00 +0000
Subject: [PATCH 05/57] fix: act on the error that caused a block import to be
 aborted

Header import errors are always wrapped in BlockImportAborted, which was
ignored: store errors weren't reported and peers sending invalid headers were
kept. Headers that are merely ahead of our clock aren't held against a peer.
---
 p2p/src/fsm/syncmgr.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index 58ddaa9..ead4413 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -1,6 +1,8 @@
 //!
 //! Manages header synchronization with peers.
 //!
+use std::cmp::Ordering;
+
 use nakamoto_common::bitcoin::consensus::params::Params;
 use nakamoto_common::bitcoin::network::constants::ServiceFlags;
 use nakamoto_common::bitcoin::network::message::NetworkMessage;
@@ -387,28 +389,36 @@ impl<C: Clock> SyncManager<C> {
                     self.request(*from, locators, timeout, OnTimeout::Disconnect);
                 }
             }
+            Err(Error::BlockImportAborted(e, _, _)) => self.import_failed(from, *e),
+            Err(e) => self.import_failed(from, e),
+        }
+    }
+
+    /// Called when headers received from a peer failed to be imported.
+    fn import_failed(&mut self, from: &PeerId, err: Error) {
+        match err {
             // If this is an error with the underlying store, we have to propagate
             // this up, because we can't handle it here.
-            Err(Error::Store(e)) => self.outbox.error(e),
+            Error::Store(e) => self.outbox.error(e),
+            // The peer's clock may be ahead of ours. This doesn't mean that the header is invalid.
+            Error::InvalidBlockTime(_, Ordering::Greater) => {
+                log::debug!(target: "p2p", "Received headers with time in the future from {from}");
+            }
             // If we got a bad block from the peer, we can handle it here.
-            Err(
-                e @ Error::InvalidBlockPoW
-                | e @ Error::InvalidBlockTarget(_, _)
-                | e @ Error::InvalidBlockHash(_, _)
-                | e @ Error::InvalidBlockHeight(_)
-                | e @ Error::InvalidBlockTime(_, _),
-            ) => {
+            e @ Error::InvalidBlockPoW
+            | e @ Error::InvalidBlockTarget(_, _)
+            | e @ Error::InvalidBlockHash(_, _)
+            | e @ Error::InvalidBlockHeight(_)
+            | e @ Error::InvalidBlockTime(_, _) => {
                 log::warn!(target: "p2p", "Received invalid headers from {from}: {e}");
 
                 self.record_misbehavior(from, "invalid headers in `headers` message");
             }
             // Harmless errors can be ignored.
-            Err(Error::DuplicateBlock(_) | Error::BlockMissing(_)) => {}
-            // TODO: This will be removed.
-            Err(Error::BlockImportAborted(_, _, _)) => {}
+            Error::DuplicateBlock(_) | Error::BlockMissing(_) => {}
             // These shouldn't happen here.
             // TODO: Perhaps there's a better way to have this error not show up here.
-            Err(Error::Interrupted | Error::GenesisMismatch) => {}
+            Error::Interrupted | Error::GenesisMismatch | Error::BlockImportAborted(_, _, _) => {}
         }
     }
 
-- 
2.43.0


From bd18f9071638d88767e8d49515488affca13032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:10 +0000
Subject: [PATCH 06/57] fix: keep the header store in step with the active
 chain after a write error

When writing to the store failed, headers that were already part of the
active chain were never written, and the ones following them were appended
after a gap or a partial record, corrupting the store.
---
 chain/src/block/cache.rs | 41 ++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index 266b287..7170092 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -77,6 +77,8 @@ pub struct BlockCache<S: Store> {
     params: Params,
     /// Total cumulative work on the active chain.
     chainwork: Uint256,
+    /// Height up to which the store is known to match the active chain.
+    stored: Height,
     store: S,
 }
 
@@ -110,6 +112,7 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
             params,
             checkpoints,
             chainwork,
+            stored: 0,
             store,
         })
     }
@@ -168,6 +171,8 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         assert_eq!(length, self.chain.len());
         assert_eq!(length, self.headers.len());
 
+        self.stored = self.height();
+
         Ok(self)
     }
 
@@ -342,7 +347,9 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
 
         if let Some(branch) = best_branch {
             // Stale blocks after potential re-org.
-            let reverted = self.switch_to_fork(branch)?;
+            let reverted = self.switch_to_fork(branch);
+            self.persist()?;
+
             let height = self.height();
             let hash = branch.tip;
             let header = *branch
@@ -542,7 +549,7 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
     }
 
     /// Rollback active chain to the given height. Returns the list of rolled-back headers.
-    fn rollback(&mut self, height: Height) -> Result<Vec<(Height, BlockHeader)>, Error> {
+    fn rollback(&mut self, height: Height) -> Vec<(Height, BlockHeader)> {
         let mut stale = Vec::new();
 
         for (block, height) in self.chain.tail.drain(height as usize..).zip(height + 1..) {
@@ -552,14 +559,30 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
             self.headers.remove(&block.hash());
             self.orphans.insert(block.hash(), block.header);
         }
-        self.store.rollback(height)?;
+        self.stored = Height::min(self.stored, height);
+
+        stale
+    }
+
+    /// Write the active chain to the store, from the height at which they diverge. If this fails,
+    /// the next call makes up for it.
+    fn persist(&mut self) -> Result<(), Error> {
+        let missing = self
+            .chain_suffix(self.stored)
+            .iter()
+            .map(|b| b.header)
+            .collect::<Vec<_>>();
+
+        self.store.rollback(self.stored)?;
+        self.store.put(missing.into_iter())?;
+        self.stored = self.height();
 
-        Ok(stale)
+        Ok(())
     }
 
     /// Activate a fork candidate. Returns the list of rolled-back (stale) headers.
-    fn switch_to_fork(&mut self, branch: &Candidate) -> Result<Vec<(Height, BlockHeader)>, Error> {
-        let stale = self.rollback(branch.fork_height)?;
+    fn switch_to_fork(&mut self, branch: &Candidate) -> Vec<(Height, BlockHeader)> {
+        let stale = self.rollback(branch.fork_height);
 
         for (i, header) in branch.headers.iter().enumerate() {
             self.extend_chain(
@@ -568,9 +591,7 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
                 *header,
             );
         }
-        self.store.put(branch.headers.iter().cloned())?;
-
-        Ok(stale)
+        stale
     }
 
     /// Extend the active chain with a block.
@@ -660,7 +681,7 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
 
             self.validate(tip.height, &[], &header, clock)?;
             self.extend_chain(height, hash, header);
-            self.store.put(std::iter::once(header))?;
+            self.persist()?;
 
             Ok(ImportResult::TipChanged {
                 header,
-- 
2.43.0


From 6ce64e13a169b9fa681a64a1836c07bad54e8cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:18 +0000
Subject: [PATCH 07/57] fix: keep the filter header store in step with the
 cache after a write error

---
 chain/src/filter/cache.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/chain/src/filter/cache.rs b/chain/src/filter/cache.rs
index 8f62ac8..848128a 100644
--- a/chain/src/filter/cache.rs
+++ b/chain/src/filter/cache.rs
@@ -157,8 +157,13 @@ impl<S: Store<Header = StoredHeader>> Filters for FilterCache<S> {
             .into_iter()
             .map(|(hash, header)| StoredHeader { hash, header });
 
-        self.headers.tail.extend(iter.clone());
-        self.header_store.put(iter).map_err(Error::from)
+        // Make sure that we append to our tip, even if a previous write failed mid-way.
+        self.header_store.rollback(self.height())?;
+
+        let height = self.header_store.put(iter.clone())?;
+        self.headers.tail.extend(iter);
+
+        Ok(height)
     }
 
     fn tip(&self) -> (&FilterHash, &FilterHeader) {
@@ -171,15 +176,15 @@ impl<S: Store<Header = StoredHeader>> Filters for FilterCache<S> {
     }
 
     fn rollback(&mut self, height: Height) -> Result<(), Error> {
-        self.header_store.rollback(height)?;
         self.headers.tail.truncate(height as usize);
+        self.header_store.rollback(height)?;
 
         Ok(())
     }
 
     fn clear(&mut self) -> Result<(), Error> {
-        self.header_store.rollback(0)?;
         self.headers.tail.clear();
+        self.header_store.rollback(0)?;
 
         Ok(())
     }
-- 
2.43.0


From fe34043a3fec5a00d5b66bbe05bf3d3fd73a45e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:48 +0000
Subject: [PATCH 08/57] fix: roll back filter headers that are ahead of the
 block headers when loading

A crash while the active chain is being rewritten left more filter headers
than block headers, and the client then panicked on every start.
---
 client/src/client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/src/client.rs b/client/src/client.rs
index 85c301b..697f830 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -302,7 +302,7 @@ impl<R: Reactor> Client<R> {
 
         let cfheaders_genesis = filter::cache::StoredHeader::genesis(network);
         let cfheaders_path = dir.join("filters.db");
-        let cfheaders_store = match store::File::create(&cfheaders_path, cfheaders_genesis) {
+        let mut cfheaders_store = match store::File::create(&cfheaders_path, cfheaders_genesis) {
             Ok(store) => {
                 log::info!(target: "client", "Initializing new filter header store {:?}", cfheaders_path);
                 store
@@ -321,6 +321,12 @@ impl<R: Reactor> Client<R> {
             }
             Err(err) => return Err(err.into()),
         };
+        // If we were interrupted while switching to another branch, there can be filter headers
+        // for blocks that are no longer part of the active chain.
+        if cfheaders_store.height()? > cache.height() {
+            log::warn!(target: "client", "Filter headers are ahead of block headers, rolling back..");
+            cfheaders_store.rollback(cache.height())?;
+        }
         log::info!(target: "client", "Loading filter headers from store..");
 
         let filters = FilterCache::load_with(cfheaders_store, |height| {
-- 
2.43.0


From ffbc1b438eb487eb6e6548f5c97ad5e828d16613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:17 +0000
Subject: [PATCH 09/57] fix: replace the peer cache file atomically

A crash while the file was being rewritten lost the address book, or left a
truncated file with which the client refused to start.
---
 client/src/peer.rs | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/client/src/peer.rs b/client/src/peer.rs
index 506071f..3423db2 100644
--- a/client/src/peer.rs
+++ b/client/src/peer.rs
@@ -1,6 +1,6 @@
 //! Client-related peer functionality.
 use std::collections::HashMap;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use std::{fs, io, net};
 
 pub use nakamoto_common::p2p::peer::*;
@@ -9,34 +9,35 @@ pub use nakamoto_common::p2p::peer::*;
 #[derive(Debug)]
 pub struct Cache {
     addrs: HashMap<net::IpAddr, KnownAddress>,
-    file: fs::File,
+    path: PathBuf,
 }
 
 impl Cache {
     /// Open an existing cache.
     pub fn open<P: AsRef<Path>>(path: P) -> io::Result<Self> {
-        fs::OpenOptions::new()
-            .read(true)
-            .write(true)
-            .open(path)
-            .and_then(Self::from)
+        let file = fs::OpenOptions::new().read(true).write(true).open(&path)?;
+
+        Ok(Self {
+            addrs: Self::read(file)?,
+            path: path.as_ref().to_path_buf(),
+        })
     }
 
     /// Create a new cache.
     pub fn create<P: AsRef<Path>>(path: P) -> io::Result<Self> {
-        let file = fs::OpenOptions::new()
+        fs::OpenOptions::new()
             .create_new(true)
             .write(true)
-            .open(path)?;
+            .open(&path)?;
 
         Ok(Self {
-            file,
             addrs: HashMap::new(),
+            path: path.as_ref().to_path_buf(),
         })
     }
 
-    /// Create a new cache from a file.
-    pub fn from(mut file: fs::File) -> io::Result<Self> {
+    /// Read the addresses from a file.
+    fn read(mut file: fs::File) -> io::Result<HashMap<net::IpAddr, KnownAddress>> {
         use io::Read;
         use microserde::json::Value;
         use std::str::FromStr;
@@ -65,7 +66,7 @@ impl Cache {
             }
         }
 
-        Ok(Self { file, addrs })
+        Ok(addrs)
     }
 }
 
@@ -99,7 +100,7 @@ impl Store for Cache {
     }
 
     fn flush<'a>(&mut self) -> io::Result<()> {
-        use io::{Seek, Write};
+        use io::Write;
         use microserde::json::Value;
 
         let peers: microserde::json::Object = self
@@ -109,11 +110,15 @@ impl Store for Cache {
             .collect();
         let s = microserde::json::to_string(&Value::Object(peers));
 
-        self.file.set_len(0)?;
-        self.file.seek(io::SeekFrom::Start(0))?;
-        self.file.write_all(s.as_bytes())?;
-        self.file.write_all(&[b'\n'])?;
-        self.file.sync_data()?;
+        // Replace the file as a whole, so that it isn't lost if we're interrupted.
+        let tmp = self.path.with_extension("tmp");
+        let mut file = fs::File::create(&tmp)?;
+
+        file.write_all(s.as_bytes())?;
+        file.write_all(&[b'\n'])?;
+        file.sync_data()?;
+
+        fs::rename(&tmp, &self.path)?;
 
         Ok(())
     }
-- 
2.43.0


From 6e94e681b4c3847327350f66f528b5f473d57bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:06 +0000
Subject: [PATCH 10/57] fix: sync headers from compact filter peers when there
 are no others

---
 p2p/src/fsm/syncmgr.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index ead4413..fe100ff 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -614,17 +614,22 @@ impl<C: Clock> SyncManager<C> {
         self.peers.remove(id);
     }
 
-    /// Select a random preferred peer.
+    /// Select a random preferred peer, or any other peer if there is no preferred peer that
+    /// can be asked for these locators.
     fn preferred_peer<T: BlockReader>(&self, locators: &Locators, tree: &T) -> Option<PeerId> {
-        let peers: Vec<_> = self.peers.shuffled().collect();
         let height = tree.height();
-        let locators = &locators.0;
+        let peers: Vec<_> = self
+            .peers
+            .shuffled()
+            .filter(|(a, p)| self.is_request_candidate(a, p, &locators.0))
+            .collect();
 
         peers
             .iter()
-            .filter(|(a, p)| self.is_request_candidate(a, p, locators))
             .find(|(_, p)| p.preferred && p.height > height)
+            .or_else(|| peers.iter().find(|(_, p)| p.height > height))
             .or_else(|| peers.iter().find(|(_, p)| p.preferred))
+            .or_else(|| peers.first())
             .map(|(a, _)| **a)
     }
 
-- 
2.43.0


From 1760efd841fd92596c4c0278cb619a986537d6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:06 +0000
Subject: [PATCH 11/57] fix: ask peers again for headers when all requests were
 left unanswered

---
 p2p/src/fsm/syncmgr.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index fe100ff..a1659cc 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -633,6 +633,15 @@ impl<C: Clock> SyncManager<C> {
             .map(|(a, _)| **a)
     }
 
+    /// Forget that peers were asked for these locators, so that they can be asked again.
+    fn forget_asked(&mut self, locators: &Locators) {
+        for (_, peer) in self.peers.iter_mut() {
+            if peer.last_asked.as_ref().map_or(false, |l| l.0 == locators.0) {
+                peer.last_asked = None;
+            }
+        }
+    }
+
     /// Check whether a peer is a good request candidate for the given locators.
     /// This function ensures that we don't ask the same peer twice for the same locators.
     fn is_request_candidate(&self, addr: &PeerId, peer: &Peer, locators: &[BlockHash]) -> bool {
@@ -690,7 +699,12 @@ impl<C: Clock> SyncManager<C> {
             return false;
         }
 
-        if let Some(addr) = self.preferred_peer(&locators, tree) {
+        // If all peers were already asked without success, start over.
+        let peer = self.preferred_peer(&locators, tree).or_else(|| {
+            self.forget_asked(&locators);
+            self.preferred_peer(&locators, tree)
+        });
+        if let Some(addr) = peer {
             let timeout = self.config.request_timeout;
             let current = tree.height();
             let best = self.best_height().unwrap_or(current);
-- 
2.43.0


From 041a29276ce54a01aca2d1ec5f3ed30dcd47b9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:03 +0000
Subject: [PATCH 12/57] fix: don't request the same headers of a losing branch
 over and over

---
 p2p/src/fsm/syncmgr.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index a1659cc..f03e763 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -356,12 +356,21 @@ impl<C: Clock> SyncManager<C> {
 
         match self.import_blocks(headers.into_iter(), tree) {
             Ok(ImportResult::TipUnchanged) => {
-                // Try to find a common ancestor that leads up to the first header in
-                // the list we received.
-                let locators = (tree.locator_hashes(tree.height()), root);
                 let timeout = self.config.request_timeout;
 
-                self.request(*from, locators, timeout, OnTimeout::Ignore);
+                if tree.find_branch(&root).is_none() {
+                    // Try to find a common ancestor that leads up to the first header in
+                    // the list we received.
+                    let locators = (tree.locator_hashes(tree.height()), root);
+
+                    self.request(*from, locators, timeout, OnTimeout::Ignore);
+                } else if length == MAX_MESSAGE_HEADERS {
+                    // The headers are on a branch that doesn't have enough work yet. There may be
+                    // more of them.
+                    let locators = (vec![best], BlockHash::all_zeros());
+
+                    self.request(*from, locators, timeout, OnTimeout::Ignore);
+                }
             }
             Ok(ImportResult::TipChanged { hash, height, .. }) => {
                 // Update peer height.
-- 
2.43.0


From 6756c095ab4342d0c771de69e26b2a81f3ffcd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:33 +0000
Subject: [PATCH 13/57] fix: don't drop block announcements while waiting for
 headers

---
 p2p/src/fsm/syncmgr.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index f03e763..29b9296 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -54,6 +54,8 @@ struct Peer {
     height: Height,
     preferred: bool,
     tip: BlockHash,
+    /// Block announced by the peer, which we have yet to request.
+    announced: Option<BlockHash>,
     link: Link,
     last_active: Option<LocalTime>,
     last_asked: Option<Locators>,
@@ -170,6 +172,7 @@ impl<C: Clock> SyncManager<C> {
             Event::MessageReceived { from, message } => match message.as_ref() {
                 NetworkMessage::Headers(headers) => {
                     self.received_headers(&from, headers, tree);
+                    self.request_announced(from, tree);
                 }
                 NetworkMessage::SendHeaders => {
                     // We adhere to `sendheaders` by default.
@@ -463,10 +466,6 @@ impl<C: Clock> SyncManager<C> {
     /// Called when we received an `inv` message. This will happen if we are out of sync with a
     /// peer, and blocks are being announced. Otherwise, we expect to receive a `headers` message.
     pub fn received_inv<T: BlockReader>(&mut self, addr: PeerId, inv: &[Inventory], tree: &T) {
-        // Don't try to fetch headers from `inv` message while syncing. It's not helpful.
-        if self.is_syncing() {
-            return;
-        }
         // Ignore and disconnect peers misbehaving.
         if inv.len() > MAX_MESSAGE_INVS {
             return;
@@ -477,8 +476,6 @@ impl<C: Clock> SyncManager<C> {
         } else {
             return;
         };
-        let mut best_block = None;
-
         for i in inv {
             if let Inventory::Block(hash) = i {
                 peer.tip = *hash;
@@ -488,13 +485,24 @@ impl<C: Clock> SyncManager<C> {
                 // hash provided should be the highest."
 
                 if !tree.is_known(hash) {
-                    best_block = Some(hash);
+                    peer.announced = Some(*hash);
                 }
             }
         }
+        self.request_announced(addr, tree);
+    }
+
+    /// Request the headers leading up to the block last announced by a peer.
+    ///
+    /// If we're waiting for a response from the peer, this is done once we receive it.
+    fn request_announced<T: BlockReader>(&mut self, addr: PeerId, tree: &T) {
+        if self.inflight.contains_key(&addr) {
+            return;
+        }
+        let announced = self.peers.get_mut(&addr).and_then(|p| p.announced.take());
 
-        if let Some(stop_hash) = best_block {
-            let locators = (tree.locator_hashes(tree.height()), *stop_hash);
+        if let Some(stop_hash) = announced.filter(|hash| !tree.is_known(hash)) {
+            let locators = (tree.locator_hashes(tree.height()), stop_hash);
             let timeout = self.config.request_timeout;
 
             // Try to find headers leading up to the `inv` entry.
@@ -609,6 +617,7 @@ impl<C: Clock> SyncManager<C> {
             Peer {
                 height,
                 tip,
+                announced: None,
                 link,
                 preferred,
                 last_active,
-- 
2.43.0


From 810f69921807241d12b2ce31172bd7770fed3486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:52 +0000
Subject: [PATCH 14/57] fix: sample the headers of all peers, also if they were
 asked before

---
 p2p/src/fsm/syncmgr.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index 29b9296..476350b 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -761,19 +761,25 @@ impl<C: Clock> SyncManager<C> {
         self.last_peer_sample = Some(now);
 
         // If we think we're in sync and we haven't asked other peers in a while, then
-        // sample their headers just to make sure we're on the right chain.
-        let locators = tree.locator_hashes(tree.height());
+        // sample their headers just to make sure we're on the right chain. They may have been
+        // asked for these headers before, but not recently.
+        let locators = (
+            tree.locator_hashes(tree.height()),
+            BlockHash::all_zeros(),
+        );
+        self.forget_asked(&locators);
+
         let addrs = self
             .peers
             .iter()
-            .filter(|(a, p)| self.is_request_candidate(a, p, &locators))
+            .filter(|(a, p)| self.is_request_candidate(a, p, &locators.0))
             .map(|(a, _)| *a)
             .collect::<Vec<_>>();
 
         for addr in addrs {
             self.request(
                 addr,
-                (locators.clone(), BlockHash::all_zeros()),
+                locators.clone(),
                 self.config.request_timeout,
                 OnTimeout::Ignore,
             );
-- 
2.43.0


From 81eb23d8f691f99839653bbe9da38e5def1dc047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:30 +0000
Subject: [PATCH 15/57] fix: process pending outputs before the poll reactor
 shuts down

---
 net/poll/src/reactor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 436f606..c43b85f 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -240,6 +240,8 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
 
                                 // Exit reactor loop if a shutdown was received.
                                 if let Ok(()) = self.shutdown.try_recv() {
+                                    // Don't lose the effects of inputs that were just handled.
+                                    self.process(&mut service, &mut publisher, local_time);
                                     return Ok(());
                                 }
                                 popol::Waker::reset(ev.source).ok();
-- 
2.43.0


From ff321e551dcc6ee4f2ad4d58bf58bcf98bf4ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:27 +0000
Subject: [PATCH 16/57] fix: don't assert that peers are never asked twice for
 the same headers

---
 p2p/src/fsm/syncmgr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index 476350b..d4d8a17 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -446,8 +446,8 @@ impl<C: Clock> SyncManager<C> {
             return;
         }
         if let Some(peer) = self.peers.get_mut(&addr) {
-            debug_assert!(peer.last_asked.as_ref() != Some(&locators));
-
+            // Nb. The peer may have been asked for these locators already, eg. if it announced a
+            // block for a second time after it ignored our request.
             peer.last_asked = Some(locators.clone());
 
             let sent_at = self.clock.local_time();
-- 
2.43.0


From abe9ef6ea13dcb13796dab60f1170bbb743668bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:15 +0000
Subject: [PATCH 17/57] fix: scan all of the requested range, and only that, in
 rescans

The last height of a bounded rescan was never scanned, or the rescan didn't
stop at all. Matches found in cached filters were never delivered, queued
filters of reverted blocks were still processed, the scanned height was
reported one too high, and out of range requests made the node panic.
---
 p2p/src/fsm/cbfmgr.rs        | 95 +++++++++++++++++++-----------------
 p2p/src/fsm/cbfmgr/rescan.rs | 45 +++++++++++------
 2 files changed, 81 insertions(+), 59 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index b3d6d99..1b34653 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -192,16 +192,11 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
                 if self.pending_blocks.remove(&height) {
                     self.outbox.event(Event::BlockMatched { block, height });
 
-                    // Since blocks are processed and matched in-order, we know this is the latest
-                    // block that has matched.
+                    // Since blocks are processed and matched in-order, we've scanned up to the
+                    // next block that has matched.
                     // If there are no pending blocks however, it means there are no other matches,
                     // therefore we can jump to the current rescan height.
-                    let height = if self.pending_blocks.is_empty() {
-                        self.rescan.current.max(height)
-                    } else {
-                        height
-                    };
-                    self.outbox.event(Event::Scanned { height });
+                    self.scanned();
                 }
             }
             Event::BlockDisconnected { height, .. } => {
@@ -279,6 +274,8 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
                     }
                 }
                 NetworkMessage::CFilter(msg) => {
+                    let current = self.rescan.current;
+
                     match self.received_cfilter(&from, msg.clone(), tree) {
                         Ok(matches) => {
                             for (height, hash) in matches {
@@ -288,10 +285,8 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
                             }
                             // Filters being processed only updates our progress if there are no
                             // pending blocks. Otherwise we have to wait for the block to arrive.
-                            if self.pending_blocks.is_empty() {
-                                self.outbox.event(Event::Scanned {
-                                    height: self.rescan.current,
-                                });
+                            if self.rescan.current > current && self.pending_blocks.is_empty() {
+                                self.scanned();
                             }
                         }
                         Err(Error::InvalidMessage { from, .. }) => {
@@ -352,8 +347,7 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         if now - self.last_processed.unwrap_or_default() >= DEFAULT_REQUEST_TIMEOUT {
             if self.rescan.active {
                 self.rescan.reset(); // Clear pending request queue.
-                self.get_cfilters(self.rescan.current..=self.filters.height(), tree)
-                    .ok();
+                self.get_cfilters(self.scan_range(), tree).ok();
             }
         }
     }
@@ -383,12 +377,12 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
             match start {
                 Bound::Unbounded => tree.height() + 1,
                 Bound::Included(h) => h,
-                Bound::Excluded(h) => h + 1,
+                Bound::Excluded(h) => h.saturating_add(1),
             },
             match end {
                 Bound::Unbounded => None,
                 Bound::Included(h) => Some(h),
-                Bound::Excluded(h) => Some(h - 1),
+                Bound::Excluded(h) => Some(h.saturating_sub(1)),
             },
             watch,
         );
@@ -398,35 +392,24 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
             stop: self.rescan.end,
         });
 
-        if self.rescan.watch.is_empty() {
-            return vec![];
-        }
-
-        let height = self.filters.height();
-        let start = self.rescan.start;
-        let stop = self
-            .rescan
-            .end
-            // Don't request further than the filter chain height.
-            .map(|h| Height::min(h, height))
-            .unwrap_or(height);
-        let range = start..=stop;
+        // When we reset the rescan range, there is the possibility of getting immediate cache
+        // hits. Hence, process the filter queue. Note that the range can also be empty, in which
+        // case the rescan is already complete.
+        self.rescan.load_cached(self.scan_range(), tree);
 
-        if range.is_empty() {
-            return vec![];
+        let (matches, events, processed) = self.rescan.process();
+        for event in events {
+            self.outbox.event(event);
         }
+        self.pending_blocks
+            .extend(matches.iter().map(|(height, _)| *height));
 
-        // Start fetching the filters we can.
-        match self.get_cfilters(range, tree) {
-            Ok(()) => {}
-            Err(GetFiltersError::NotConnected) => {}
-            Err(err) => panic!("{}: Error fetching filters: {}", source!(), err),
+        if processed > 0 {
+            self.scanned();
         }
-        // When we reset the rescan range, there is the possibility of getting immediate cache
-        // hits from `get_cfilters`. Hence, process the filter queue.
-        let (matches, events, _) = self.rescan.process();
-        for event in events {
-            self.outbox.event(event);
+        if self.rescan.active && !self.rescan.watch.is_empty() {
+            // Start fetching the filters we can.
+            self.get_cfilters(self.scan_range(), tree).ok();
         }
         matches
     }
@@ -446,7 +429,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         if range.is_empty() {
             return Err(GetFiltersError::InvalidRange);
         }
-        assert!(*range.end() <= self.filters.height());
+        if *range.end() > self.filters.height() {
+            return Err(GetFiltersError::InvalidRange);
+        }
 
         // TODO: Only ask peers synced to a certain height.
         // Choose a different peer for each requested range.
@@ -480,6 +465,25 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
 
     // PRIVATE METHODS /////////////////////////////////////////////////////////
 
+    /// The range of filters which are available to be scanned.
+    fn scan_range(&self) -> RangeInclusive<Height> {
+        let height = self.filters.height();
+
+        self.rescan.current..=self.rescan.end.map_or(height, |end| Height::min(end, height))
+    }
+
+    /// Notify of the height up to which the chain was scanned. If there are blocks left to be
+    /// processed, that is the height before the first of these blocks.
+    fn scanned(&mut self) {
+        let next = match self.pending_blocks.iter().next() {
+            Some(height) => Height::min(*height, self.rescan.current),
+            None => self.rescan.current,
+        };
+        self.outbox.event(Event::Scanned {
+            height: next.saturating_sub(1),
+        });
+    }
+
     /// Rollback filters to the given height.
     fn rollback(&mut self, height: Height) -> Result<(), filter::Error> {
         // It's possible that a rollback doesn't affect the filter chain, if the filter headers
@@ -594,8 +598,7 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
 
         if self.rescan.active {
             // TODO: Don't do this too often.
-            self.get_cfilters(self.rescan.current..=self.filters.height(), tree)
-                .ok();
+            self.get_cfilters(self.scan_range(), tree).ok();
         }
     }
 
@@ -704,7 +707,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         self.filters
             .import_headers(headers)
             .map(|height| {
-                self.headers_imported(start_height, height, tree).unwrap(); // TODO
+                if let Err(e) = self.headers_imported(start_height, height, tree) {
+                    log::debug!(target: "p2p", "Filters were not requested: {e}");
+                }
 
                 assert!(height <= tree.height());
 
diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index f308520..ef3c80c 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -61,6 +61,12 @@ impl Rescan {
         self.end = end;
         self.watch = watch.into_iter().collect();
         self.requested.clear();
+        self.received.clear();
+    }
+
+    /// Check whether the filter at the given height still has to be scanned.
+    pub fn is_pending(&self, height: Height) -> bool {
+        self.active && height >= self.current && self.end.map_or(true, |end| height <= end)
     }
 
     /// Return info string on rescan state.
@@ -83,7 +89,8 @@ impl Rescan {
 
     /// Rollback state to height.
     pub fn rollback(&mut self, to: Height) {
-        self.cache.rollback(to)
+        self.cache.rollback(to);
+        self.received.retain(|height, _| *height <= to);
     }
 
     /// A filter was received.
@@ -95,7 +102,9 @@ impl Rescan {
             let filter = Rc::new(filter);
 
             self.cache.push(height, filter.clone());
-            self.received.insert(height, (filter, block_hash, false));
+            if self.is_pending(height) {
+                self.received.insert(height, (filter, block_hash, false));
+            }
         }
         requested
     }
@@ -110,7 +119,10 @@ impl Rescan {
         let mut current = self.current;
         let old = current;
 
-        while let Some((filter, block_hash, cached)) = self.received.remove(&current) {
+        while self.active && self.end.map_or(true, |end| current <= end) {
+            let Some((filter, block_hash, cached)) = self.received.remove(&current) else {
+                break;
+            };
             let (matched, valid) = if let Ok(matched) = self.match_filter(&filter, &block_hash) {
                 (matched, true)
             } else {
@@ -132,7 +144,7 @@ impl Rescan {
         self.current = current;
 
         if let Some(stop) = self.end {
-            if self.current == stop {
+            if self.active && self.current > stop {
                 self.active = false;
                 events.push(Event::FilterRescanStopped { height: stop });
             }
@@ -163,6 +175,20 @@ impl Rescan {
         Ok(matched)
     }
 
+    /// Insert the cached filters in the given range that are yet to be scanned into the
+    /// processing queue.
+    pub fn load_cached<T: BlockReader>(&mut self, range: RangeInclusive<Height>, tree: &T) {
+        for (height, filter) in self.cache.iter() {
+            if range.contains(height) && self.is_pending(*height) {
+                if let Some(header) = tree.get_block_by_height(*height) {
+                    self.received
+                        .entry(*height)
+                        .or_insert((filter.clone(), header.block_hash(), true));
+                }
+            }
+        }
+    }
+
     /// Given a range of filter heights, return the ranges that are missing.
     /// This is useful to figure out which ranges to fetch while ensuring we don't request
     /// the same heights more than once.
@@ -175,16 +201,7 @@ impl Rescan {
             return vec![];
         }
 
-        for height in range.clone() {
-            if let Some(filter) = self.cache.get(&height) {
-                if let Some(header) = tree.get_block_by_height(height) {
-                    let block_hash = header.block_hash();
-                    // Insert the cached filters into the processing queue.
-                    self.received
-                        .insert(height, (filter.clone(), block_hash, true));
-                }
-            }
-        }
+        self.load_cached(range.clone(), tree);
 
         // Heights to skip.
         // Note that cached heights will have been added to the `received` list.
-- 
2.43.0


From efa060b4255319c8df776296456e1cebbe96f242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:28 +0000
Subject: [PATCH 18/57] fix: don't let unavailable or reverted blocks hold up
 block processing

Requested blocks which aren't part of the active chain prevented all other
requested blocks from being processed, and received blocks were processed
even if they were reverted in the meantime.
---
 p2p/src/fsm/invmgr.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index bf76a3b..dc80fba 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -220,6 +220,8 @@ impl<C: Clock> InventoryManager<C> {
     /// Called when a block is reverted.
     pub fn block_reverted(&mut self, height: Height) {
         self.estimator.rollback(height - 1);
+        // Don't process the reverted block, in case it was received already.
+        self.received.remove(&height);
 
         if let Some(transactions) = self.confirmed.remove(&height) {
             for transaction in transactions {
@@ -420,14 +422,16 @@ impl<C: Clock> InventoryManager<C> {
         // Add to processing queue. Blocks are processed in-order only.
         self.received.insert(height, block);
 
-        // If there are still blocks remaining to download, don't process any of the
-        // received queue yet.
-        if !self.remaining.is_empty() {
-            return vec![];
-        }
+        // If there are still blocks of the active chain remaining to download, don't process
+        // the blocks in the received queue that are above those yet.
+        let limit = self
+            .remaining
+            .keys()
+            .filter_map(|hash| tree.get_block(hash).map(|(height, _)| height))
+            .min()
+            .unwrap_or(Height::MAX);
 
-        // Now that all blocks to be processed are downloaded, we can start
-        // processing them in order.
+        // Process the blocks that are ready to be processed, in order.
         let mut confirmed = Vec::new();
 
         while let Some((height, block)) = self
@@ -435,6 +439,7 @@ impl<C: Clock> InventoryManager<C> {
             .keys()
             .min()
             .cloned()
+            .filter(|h| *h < limit)
             .and_then(|h| self.received.remove(&h).map(|b| (h, b)))
         {
             let hash = block.block_hash();
-- 
2.43.0


From cb17220f6d379236f21dc6618567754df6de5a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:25 +0000
Subject: [PATCH 19/57] fix: check that blocks match the merkle root of their
 header

Blocks with the header of a requested block, but other contents, were accepted
and delivered, and changed the status of transactions.
---
 p2p/src/fsm/invmgr.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index dc80fba..03a0b54 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -19,7 +19,7 @@
 //! the [`InventoryManager::timer_expired`] function is called. Confirmed transactions are removed
 //! after they are burried at a certain depth.
 //!
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 
 use nakamoto_common::bitcoin::network::message::NetworkMessage;
 use nakamoto_common::bitcoin::network::{constants::ServiceFlags, message_blockdata::Inventory};
@@ -392,19 +392,30 @@ impl<C: Clock> InventoryManager<C> {
     /// Note that the confirmed transactions don't necessarily pertain to this block.
     pub fn received_block<T: BlockReader>(
         &mut self,
-        _from: &PeerId,
+        from: &PeerId,
         block: Block,
         tree: &T,
     ) -> Vec<Txid> {
         let hash = block.block_hash();
 
-        if self.remaining.remove(&hash).is_none() {
+        if !self.remaining.contains_key(&hash) {
             // Nb. The remote isn't necessarily sending an unsolicited block here.
             // We often have to ask multiple peers to get a response, so we may
             // have already received this block once.
             return vec![];
         }
 
+        // Nb. Duplicate transactions are a way to change a block without changing its merkle root.
+        let txids: BTreeSet<Txid> = block.txdata.iter().map(|tx| tx.txid()).collect();
+        if txids.len() != block.txdata.len() || !block.check_merkle_root() {
+            self.outbox.event(Event::PeerMisbehaved {
+                addr: *from,
+                reason: "block doesn't match its header",
+            });
+            return vec![];
+        }
+        self.remaining.remove(&hash);
+
         // We're done requesting this block.
         for peer in self.peers.values_mut() {
             peer.requests.remove(&hash);
-- 
2.43.0


From 4b3e731919fbe5bef43000c64101118d55680d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:30 +0000
Subject: [PATCH 20/57] fix: don't count replaced filters towards the size of
 the filter cache

Once the size was off, evicting filters could loop forever.
---
 p2p/src/fsm/filter_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/filter_cache.rs b/p2p/src/fsm/filter_cache.rs
index 08c69e9..6346d2f 100644
--- a/p2p/src/fsm/filter_cache.rs
+++ b/p2p/src/fsm/filter_cache.rs
@@ -124,7 +124,9 @@ impl<T: Filter> FilterCache<T> {
             return false;
         }
 
-        self.cache.insert(height, filter);
+        if let Some(replaced) = self.cache.insert(height, filter) {
+            self.size -= replaced.len();
+        }
         self.size += size;
 
         while self.size > self.capacity {
-- 
2.43.0


From 2f4437eb60d7cb0727c7e8f790c4cd386950861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:54 +0000
Subject: [PATCH 21/57] fix: don't scan cached filters of blocks that were just
 reverted

---
 p2p/src/fsm/cbfmgr/rescan.rs | 13 +++++++------
 p2p/src/fsm/filter_cache.rs  |  8 +++++++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index ef3c80c..a70f39d 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -24,8 +24,8 @@ pub struct Rescan {
     pub start: Height,
     /// End height of the filter rescan. If `None`, keeps scanning new blocks until stopped.
     pub end: Option<Height>,
-    /// Filter cache.
-    pub cache: FilterCache<Rc<BlockFilter>>,
+    /// Filter cache. Includes the hash of the block a filter belongs to.
+    pub cache: FilterCache<(Rc<BlockFilter>, BlockHash)>,
     /// Addresses and outpoints to watch for.
     pub watch: HashSet<Script>,
     /// Transactions to watch for.
@@ -101,7 +101,7 @@ impl Rescan {
             // both in the processing queue and in the cache, or only in one or the other.
             let filter = Rc::new(filter);
 
-            self.cache.push(height, filter.clone());
+            self.cache.push(height, (filter.clone(), block_hash));
             if self.is_pending(height) {
                 self.received.insert(height, (filter, block_hash, false));
             }
@@ -178,12 +178,13 @@ impl Rescan {
     /// Insert the cached filters in the given range that are yet to be scanned into the
     /// processing queue.
     pub fn load_cached<T: BlockReader>(&mut self, range: RangeInclusive<Height>, tree: &T) {
-        for (height, filter) in self.cache.iter() {
+        for (height, (filter, block_hash)) in self.cache.iter() {
             if range.contains(height) && self.is_pending(*height) {
-                if let Some(header) = tree.get_block_by_height(*height) {
+                // Nb. We may not have been notified of a re-org yet.
+                if tree.get_block_by_height(*height).map(|h| h.block_hash()) == Some(*block_hash) {
                     self.received
                         .entry(*height)
-                        .or_insert((filter.clone(), header.block_hash(), true));
+                        .or_insert((filter.clone(), *block_hash, true));
                 }
             }
         }
diff --git a/p2p/src/fsm/filter_cache.rs b/p2p/src/fsm/filter_cache.rs
index 6346d2f..a7f2ae6 100644
--- a/p2p/src/fsm/filter_cache.rs
+++ b/p2p/src/fsm/filter_cache.rs
@@ -3,7 +3,7 @@ use std::collections::BTreeMap;
 use std::rc::Rc;
 
 use nakamoto_common::block::filter::BlockFilter;
-use nakamoto_common::block::Height;
+use nakamoto_common::block::{BlockHash, Height};
 
 /// Cachable block filter.
 #[allow(clippy::len_without_is_empty)]
@@ -18,6 +18,12 @@ impl Filter for Rc<BlockFilter> {
     }
 }
 
+impl Filter for (Rc<BlockFilter>, BlockHash) {
+    fn len(&self) -> usize {
+        self.0.content.len()
+    }
+}
+
 impl Filter for BlockFilter {
     fn len(&self) -> usize {
         self.content.len()
-- 
2.43.0


From cb40ec340c7c306a76e4c9dacaedfc48cb1633f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:27 +0000
Subject: [PATCH 22/57] fix: don't look for data outputs of submitted
 transactions in filters

---
 p2p/src/fsm/cbfmgr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 1b34653..3d6dbf9 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -361,7 +361,13 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
     pub fn watch_transaction(&mut self, tx: &Transaction) {
         self.rescan.transactions.insert(
             tx.txid(),
-            tx.output.iter().map(|o| o.script_pubkey.clone()).collect(),
+            tx.output
+                .iter()
+                .map(|o| &o.script_pubkey)
+                // Nb. These scripts aren't included in filters.
+                .filter(|s| !s.is_op_return())
+                .cloned()
+                .collect(),
         );
     }
 
-- 
2.43.0


From 7c5dd13fb9ad3b1baa82c672445aa4900c7b9398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:48 +0000
Subject: [PATCH 23/57] fix: recognize confirmed segwit transactions

---
 p2p/src/fsm/invmgr.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index 03a0b54..ce2daed 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -454,10 +454,17 @@ impl<C: Clock> InventoryManager<C> {
             .and_then(|h| self.received.remove(&h).map(|b| (h, b)))
         {
             let hash = block.block_hash();
+            // Nb. We ask for blocks without witnesses, hence can't look transactions up by `wtxid`.
+            let mut submitted = self
+                .mempool
+                .iter()
+                .map(|(wtxid, tx)| (tx.txid(), *wtxid))
+                .collect::<BTreeMap<_, _>>();
 
             for tx in &block.txdata {
-                let wtxid = tx.wtxid();
-
+                let Some(wtxid) = submitted.remove(&tx.txid()) else {
+                    continue;
+                };
                 // Attempt to remove confirmed transaction from mempool.
                 if let Some(transaction) = self.mempool.remove(&wtxid) {
                     confirmed.push(tx.txid());
-- 
2.43.0


From 09fa30a037fd12d245dc024e15500ccdfa33d524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:33 +0000
Subject: [PATCH 24/57] fix: don't announce old transactions to peers that
 don't relay

---
 p2p/src/fsm/invmgr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index ce2daed..db8e199 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -199,8 +199,10 @@ impl<C: Clock> InventoryManager<C> {
     ) {
         // Add existing inventories to this peer's outbox so that they are announced.
         let mut outbox = HashMap::with_hasher(self.rng.clone().into());
-        for (wtxid, tx) in self.mempool.iter() {
-            outbox.insert(*wtxid, tx.txid());
+        if relay {
+            for (wtxid, tx) in self.mempool.iter() {
+                outbox.insert(*wtxid, tx.txid());
+            }
         }
         self.schedule_tick();
         self.peers.insert(
-- 
2.43.0


From f849c7d74a0a8cf439808412e529450a0757f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:44 +0000
Subject: [PATCH 25/57] fix: ignore messages from peers that have not completed
 the handshake

---
 p2p/src/fsm.rs         | 17 +++++++++++++++++
 p2p/src/fsm/peermgr.rs |  8 ++++++++
 2 files changed, 25 insertions(+)

diff --git a/p2p/src/fsm.rs b/p2p/src/fsm.rs
index 0ffd448..ac1eafd 100644
--- a/p2p/src/fsm.rs
+++ b/p2p/src/fsm.rs
@@ -462,6 +462,18 @@ impl Whitelist {
     }
 }
 
+/// Check whether a message may be processed before the handshake is complete.
+fn is_handshake(msg: &NetworkMessage) -> bool {
+    matches!(
+        msg,
+        NetworkMessage::Version(_)
+            | NetworkMessage::Verack
+            | NetworkMessage::WtxidRelay
+            | NetworkMessage::SendAddrV2
+            | NetworkMessage::SendHeaders
+    )
+}
+
 impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMachine<T, F, P, C> {
     /// Construct a new protocol instance.
     pub fn new(
@@ -779,6 +791,11 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> traits:
             return;
         }
 
+        if !self.peermgr.is_negotiated(&addr) && !is_handshake(&msg.payload) {
+            debug!(target: "p2p", "Ignoring {:?} received before handshake with {}", cmd, addr);
+            return;
+        }
+
         debug!(target: "p2p", "Received {:?} from {}", cmd, addr);
 
         if let Err(err) = (self.hooks.on_message)(addr, &msg.payload, &self.outbox) {
diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index c263f7b..0ff2cc2 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -689,6 +689,14 @@ impl<C: Clock> PeerManager<C> {
             .map_or(false, |c| matches!(c, Peer::Connected { .. }))
     }
 
+    /// Check whether a peer has completed the handshake.
+    pub fn is_negotiated(&self, addr: &PeerId) -> bool {
+        matches!(
+            self.peers.get(addr),
+            Some(Peer::Connected { peer: Some(peer), .. }) if peer.is_negotiated()
+        )
+    }
+
     /// Check whether a peer is disconnected.
     pub fn is_disconnected(&self, addr: &PeerId) -> bool {
         !self.peers.contains_key(addr)
-- 
2.43.0


From bbb79ad9c59323a4b5ec57dc601de3536dea9e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:09 +0000
Subject: [PATCH 26/57] fix: propagate events between messages received in the
 same batch

---
 p2p/src/fsm.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm.rs b/p2p/src/fsm.rs
index ac1eafd..1219718 100644
--- a/p2p/src/fsm.rs
+++ b/p2p/src/fsm.rs
@@ -31,7 +31,7 @@ pub use event::Event;
 pub use nakamoto_net::Link;
 
 use std::borrow::Cow;
-use std::collections::HashSet;
+use std::collections::{HashSet, VecDeque};
 use std::fmt::{self, Debug};
 use std::net;
 use std::ops::{Bound, RangeInclusive};
@@ -355,6 +355,8 @@ pub struct StateMachine<T, F, P, C> {
     last_tick: LocalTime,
     /// Outbound I/O. Used to communicate protocol events with a reactor.
     outbox: Outbox,
+    /// Outputs of the sub-systems that were not yet drained by the reactor.
+    pending: VecDeque<Io>,
     /// State machine event hooks.
     hooks: Hooks,
 }
@@ -561,6 +563,7 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMa
             invmgr,
             last_tick: LocalTime::default(),
             outbox,
+            pending: VecDeque::new(),
             hooks,
         }
     }
@@ -598,6 +601,13 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> Iterato
     type Item = Io;
 
     fn next(&mut self) -> Option<Io> {
+        self.pending.pop_front().or_else(|| self.poll())
+    }
+}
+
+impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMachine<T, F, P, C> {
+    /// Get the next output of the sub-systems, propagating events internally.
+    fn poll(&mut self) -> Option<Io> {
         let next = self
             .outbox
             .next()
@@ -630,9 +640,7 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> Iterato
             other => other,
         }
     }
-}
 
-impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMachine<T, F, P, C> {
     /// Propagate an event internally to the sub-systems.
     pub fn event(&mut self, e: Event) {
         self.cbfmgr
@@ -776,6 +784,12 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> traits:
     }
 
     fn message_received(&mut self, addr: &net::SocketAddr, msg: Cow<RawNetworkMessage>) {
+        // Several messages can be received before our outputs are drained. Make sure that the
+        // events resulting from the previous ones have been propagated.
+        while let Some(io) = self.poll() {
+            self.pending.push_back(io);
+        }
+
         let cmd = msg.cmd();
         let addr = *addr;
         let msg = msg.into_owned();
-- 
2.43.0


From fed1b528d58b6ba0dc8772a5cb3ea0c9d17dd266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:36 +0000
Subject: [PATCH 27/57] fix: out-of-range fields of version messages

---
 p2p/src/fsm/peermgr.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 0ff2cc2..8396984 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -445,6 +445,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 ..
             } = msg.clone();
 
+            let start_height = Height::try_from(start_height).unwrap_or_default();
             let target = self.config.target_outbound_peers;
             let preferred = self.config.preferred_services;
             let trusted = self.config.whitelist.contains(&addr.ip(), &user_agent)
@@ -464,10 +465,10 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             // If the peer is too far behind, there's no use connecting to it, we'll
             // have to wait for it to catch up.
             if conn.link.is_outbound()
-                && height.saturating_sub(start_height as Height) > MAX_STALE_HEIGHT_DIFFERENCE
+                && height.saturating_sub(start_height) > MAX_STALE_HEIGHT_DIFFERENCE
                 && !trusted
             {
-                return Err(DisconnectReason::PeerHeight(start_height as Height));
+                return Err(DisconnectReason::PeerHeight(start_height));
             }
             // Check for self-connections. We only need to check one link direction,
             // since in the case of a self-connection, we will see both link directions.
@@ -520,8 +521,8 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                     conn,
                     peer: Some(PeerInfo {
                         nonce,
-                        height: start_height as Height,
-                        time_offset: timestamp - now.block_time() as i64,
+                        height: start_height,
+                        time_offset: timestamp.saturating_sub(now.block_time() as i64),
                         services,
                         persistent,
                         user_agent,
-- 
2.43.0


From 1dd89f4197fe495e2eb82bececc15ed572ebceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:36 +0000
Subject: [PATCH 28/57] fix: ignore repeated version messages

---
 p2p/src/fsm/peermgr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 8396984..d7c6caf 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -424,7 +424,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
     ) -> Result<(), DisconnectReason> {
         let now = self.clock.local_time();
 
-        if let Some(Peer::Connected { conn, .. }) = self.peers.get(addr) {
+        if let Some(Peer::Connected { conn, peer: None }) = self.peers.get(addr) {
             let VersionMessage {
                 // Peer's best height.
                 start_height,
-- 
2.43.0


From 204f4c568567452341e3efcc2dbbde350274b4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:59 +0000
Subject: [PATCH 29/57] fix: detect connections to self

---
 p2p/src/fsm/peermgr.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index d7c6caf..55d242b 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -157,8 +157,6 @@ pub struct PeerInfo {
     /// Whether this is a persistent peer.
     pub persistent: bool,
 
-    /// Peer nonce. Used to detect self-connections.
-    nonce: u64,
     /// Peer handshake state.
     state: HandshakeState,
 }
@@ -180,6 +178,8 @@ pub struct PeerManager<C> {
     last_idle: Option<LocalTime>,
     /// Connection states.
     peers: HashMap<net::SocketAddr, Peer>,
+    /// Nonces sent in our `version` messages to outbound peers. Used to detect self-connections.
+    nonces: HashMap<net::SocketAddr, u64>,
     /// Peers that have been disconnected and a retry attempt is scheduled.
     disconnected: HashMap<net::SocketAddr, (Option<LocalTime>, usize)>,
     outbox: Outbox,
@@ -200,12 +200,14 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
     /// Create a new peer manager.
     pub fn new(config: Config, rng: fastrand::Rng, hooks: Hooks, clock: C) -> Self {
         let peers = HashMap::with_hasher(rng.clone().into());
+        let nonces = HashMap::with_hasher(rng.clone().into());
         let disconnected = HashMap::with_hasher(rng.clone().into());
 
         Self {
             config,
             last_idle: None,
             peers,
+            nonces,
             disconnected,
             outbox: Outbox::default(),
             rng,
@@ -339,6 +341,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             }
             Link::Outbound => {
                 let nonce = self.rng.u64(..);
+                self.nonces.insert(addr, nonce);
                 self.outbox.version(
                     addr,
                     self.version(addr, local_addr, nonce, height, local_time),
@@ -380,6 +383,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             }
         }
         self.peers.remove(addr);
+        self.nonces.remove(addr);
 
         if self.config.persistent.contains(addr) {
             self.persistent_disconnected(addr, local_time);
@@ -472,10 +476,8 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             }
             // Check for self-connections. We only need to check one link direction,
             // since in the case of a self-connection, we will see both link directions.
-            for (peer, conn) in self.peers() {
-                if conn.link.is_outbound() && peer.nonce == nonce {
-                    return Err(DisconnectReason::SelfConnection);
-                }
+            if conn.link.is_inbound() && self.nonces.values().any(|n| *n == nonce) {
+                return Err(DisconnectReason::SelfConnection);
             }
 
             // If this peer doesn't have the preferred services, and we already have enough peers,
@@ -494,6 +496,8 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
 
             match conn.link {
                 Link::Inbound => {
+                    let nonce = self.rng.u64(..);
+
                     self.outbox
                         .version(
                             conn.addr,
@@ -520,7 +524,6 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 Peer::Connected {
                     conn,
                     peer: Some(PeerInfo {
-                        nonce,
                         height: start_height,
                         time_offset: timestamp.saturating_sub(now.block_time() as i64),
                         services,
-- 
2.43.0


From d9ec08cfac9d25c276286f7c64d6e59a1397f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:08 +0000
Subject: [PATCH 30/57] fix: only broadcast to peers that have completed the
 handshake

---
 p2p/src/fsm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm.rs b/p2p/src/fsm.rs
index 1219718..3df4b48 100644
--- a/p2p/src/fsm.rs
+++ b/p2p/src/fsm.rs
@@ -585,7 +585,12 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMa
     {
         let mut peers = Vec::new();
 
-        for peer in self.peermgr.peers().map(Peer::from) {
+        for peer in self
+            .peermgr
+            .peers()
+            .filter(|(p, _)| p.is_negotiated())
+            .map(Peer::from)
+        {
             if predicate(&peer) {
                 peers.push(peer.addr);
                 self.outbox.message(peer.addr, msg.clone());
-- 
2.43.0


From 64feb82567745329f3c8f565d5a8333f141bec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:59 +0000
Subject: [PATCH 31/57] fix: timers of the poll reactor never expire early

---
 net/poll/src/reactor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index c43b85f..fc0dccd 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -342,7 +342,12 @@ impl<Id: PeerId> Reactor<net::TcpStream, Id> {
                     }
                 }
                 Io::SetTimer(timeout) => {
-                    self.timeouts.register((), local_time + timeout);
+                    // Nb. Timeouts that are less than a second apart are merged. Round up to
+                    // whole seconds, so that none of them is woken up earlier than requested.
+                    let millis = LocalDuration::from_millis(999);
+                    let time = LocalTime::from_secs((local_time + timeout + millis).as_secs());
+
+                    self.timeouts.register((), time);
                 }
                 Io::Event(event) => {
                     trace!("Event: {:?}", event);
-- 
2.43.0


From e2bd3bba90e6a8ca2bec5a017498e087ff5f6ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:05 +0000
Subject: [PATCH 32/57] fix: wake up the service on time when sockets are
 always ready

---
 net/poll/src/reactor.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index fc0dccd..25d4dfe 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -260,18 +260,17 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                         }
                     }
                 }
-                Err(err) if err.kind() == io::ErrorKind::TimedOut => {
-                    // Nb. The way this is currently used basically ignores which keys have
-                    // timed out. So as long as *something* timed out, we wake the service.
-                    self.timeouts.wake(local_time, &mut timeouts);
-
-                    if !timeouts.is_empty() {
-                        timeouts.clear();
-                        service.timer_expired();
-                    }
-                }
+                Err(err) if err.kind() == io::ErrorKind::TimedOut => {}
                 Err(err) => return Err(err.into()),
             }
+            // Nb. The way this is currently used basically ignores which keys have
+            // timed out. So as long as *something* timed out, we wake the service.
+            self.timeouts.wake(local_time, &mut timeouts);
+
+            if !timeouts.is_empty() {
+                timeouts.clear();
+                service.timer_expired();
+            }
             self.process(&mut service, &mut publisher, local_time);
         }
     }
-- 
2.43.0


From a7bb5ea5443dd269e7eeeebd7fc55f90c025985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:10 +0000
Subject: [PATCH 33/57] fix: only serve complete and valid ranges of filter
 headers

---
 p2p/src/fsm/cbfmgr.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 3d6dbf9..10c266a 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -759,8 +759,17 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
             });
         };
 
+        if start_height > stop_height
+            || stop_height - start_height >= MAX_MESSAGE_CFHEADERS as Height
+        {
+            return Err(Error::Ignored {
+                reason: "getcfheaders: invalid range",
+                from,
+            });
+        }
+
         let headers = self.filters.get_headers(start_height..=stop_height);
-        if !headers.is_empty() {
+        if headers.len() as Height == stop_height - start_height + 1 {
             let hashes = headers.iter().map(|(hash, _)| *hash);
             let prev_header = self.filters.get_prev_header(start_height).expect(
                 "FilterManager::received_getcfheaders: all headers up to the tip must exist",
-- 
2.43.0


From 7fc21f4855b4d5e1a64d602955cc956fa0487313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:26 +0000
Subject: [PATCH 34/57] fix: always include the last checkpoint in block
 locators

---
 chain/src/block/cache.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index 7170092..1953cf5 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -858,7 +858,13 @@ impl<S: Store<Header = BlockHeader>> BlockReader for BlockCache<S> {
         for height in block::locators_indexes(from).into_iter() {
             if height < last_checkpoint {
                 // Don't go past the latest checkpoint. We never want to accept a fork
-                // older than our last checkpoint.
+                // older than our last checkpoint. Always include the checkpoint though, as
+                // it is known to all peers on our chain.
+                if let Some(blk) = self.chain.get(last_checkpoint as usize) {
+                    if hashes.last() != Some(&blk.hash()) {
+                        hashes.push(blk.hash());
+                    }
+                }
                 break;
             }
             if let Some(blk) = self.chain.get(height as usize) {
-- 
2.43.0


From 4121b92284ca662f72ec82918866cb40511b690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:34 +0000
Subject: [PATCH 35/57] fix: don't dial a peer that is being disconnected

---
 p2p/src/fsm/peermgr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 55d242b..bce533e 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -751,7 +751,8 @@ impl<C: Clock> PeerManager<C> {
         if self.is_connected(addr) || self.is_connecting(addr) {
             return true;
         }
-        if !self.is_disconnected(addr) && !self.is_disconnecting(addr) {
+        // Nb. If the peer is being disconnected, we have to wait for that to complete.
+        if !self.is_disconnected(addr) {
             return false;
         }
         // Don't allow connections to unsupported domains.
-- 
2.43.0


From e21753f6462ff6fb3b8eb9b2db222b2a8680855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:05 +0000
Subject: [PATCH 36/57] fix: address book with several connections to the same
 host

---
 p2p/src/fsm/addrmgr.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 7d24d4a..04de881 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -61,12 +61,17 @@ impl<P: Store, C> AddressManager<P, C> {
             if time - ka.last_sampled.unwrap_or_default() < SAMPLE_TIMEOUT {
                 continue;
             }
-            if !self.connected.contains(addr) {
+            if !self.is_connected(addr) {
                 return false;
             }
         }
         true
     }
+
+    /// Check whether there is a connection to the given IP.
+    fn is_connected(&self, ip: &net::IpAddr) -> bool {
+        self.connected.iter().any(|addr| addr.ip() == *ip)
+    }
 }
 
 /// Address manager configuration.
@@ -94,7 +99,7 @@ pub struct AddressManager<P, C> {
     peers: P,
     bans: HashSet<net::IpAddr>,
     address_ranges: HashMap<u8, HashSet<net::IpAddr>>,
-    connected: HashSet<net::IpAddr>,
+    connected: HashSet<net::SocketAddr>,
     sources: HashSet<net::SocketAddr>,
     local_addrs: HashSet<net::SocketAddr>,
     /// The last time we asked our peers for new addresses.
@@ -233,14 +238,14 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
         if !self::is_routable(&addr.ip()) || self::is_local(&addr.ip()) {
             return;
         }
-        self.connected.insert(addr.ip());
+        self.connected.insert(*addr);
     }
 
     /// Called when a peer has handshaked.
     fn peer_negotiated(&mut self, addr: &net::SocketAddr, services: ServiceFlags, link: Link) {
         let time = self.clock.local_time();
 
-        if !self.connected.contains(&addr.ip()) {
+        if !self.connected.contains(addr) {
             return;
         }
         if link.is_outbound() {
@@ -268,7 +273,7 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
         addr: &net::SocketAddr,
         reason: Disconnect<super::DisconnectReason>,
     ) {
-        if self.connected.remove(&addr.ip()) {
+        if self.connected.remove(addr) {
             // Disconnected peers cannot be used as a source for new addresses.
             self.sources.remove(addr);
 
@@ -502,7 +507,7 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
                     continue;
                 }
                 // If we're already connected to this address, skip it.
-                if self.connected.contains(ip) {
+                if self.connected.iter().any(|a| a.ip() == *ip) {
                     continue;
                 }
                 // If the provided filter doesn't pass, keep looking.
@@ -551,8 +556,6 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
 
     /// Remove an address from the address book and prevent it from being sampled again.
     fn ban(&mut self, addr: &net::IpAddr) -> bool {
-        debug_assert!(!self.connected.contains(addr));
-
         let key = self::addr_key(addr);
 
         if let Some(range) = self.address_ranges.get_mut(&key) {
-- 
2.43.0


From 9006d92b912975a2b4bce77b011a76b7cd711301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:12 +0000
Subject: [PATCH 37/57] fix: don't attempt connections to connected peers

---
 p2p/src/fsm/peermgr.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index bce533e..4ad9045 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -853,10 +853,10 @@ impl<C: Clock> PeerManager<C> {
                 })
             {
                 if let Ok(sockaddr) = addr.socket_addr() {
-                    // TODO: Remove this assertion once address manager no longer cares about
-                    // connections.
-                    debug_assert!(!self.is_connected(&sockaddr));
-
+                    // Nb. The address manager may not know yet about this connection.
+                    if !self.is_disconnected(&sockaddr) {
+                        continue;
+                    }
                     if self.connect(&sockaddr) {
                         connecting.insert(sockaddr);
                         self.outbox.event(Event::PeerConnecting {
-- 
2.43.0


From 1e9be04878a5ef8019a8170ecc1db329222caecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:57 +0000
Subject: [PATCH 38/57] fix: undecodable and oversized messages were waited for
 forever

---
 p2p/src/stream.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/p2p/src/stream.rs b/p2p/src/stream.rs
index 91975be..43e00f8 100644
--- a/p2p/src/stream.rs
+++ b/p2p/src/stream.rs
@@ -2,6 +2,10 @@
 use std::io;
 
 use nakamoto_common::bitcoin::consensus::{encode, Decodable};
+use nakamoto_common::bitcoin::network::message::MAX_MSG_SIZE;
+
+/// Size in bytes of the header of a network message.
+const HEADER_SIZE: usize = 24;
 
 /// Message stream decoder.
 ///
@@ -33,12 +37,27 @@ impl Decoder {
                 Ok(Some(msg))
             }
 
-            Err(encode::Error::Io(ref err)) if err.kind() == io::ErrorKind::UnexpectedEof => {
+            Err(encode::Error::Io(ref err))
+                if err.kind() == io::ErrorKind::UnexpectedEof && self.is_incomplete() =>
+            {
                 Ok(None)
             }
             Err(err) => Err(err),
         }
     }
+
+    /// Check whether more input is needed to decode the next network message.
+    fn is_incomplete(&self) -> bool {
+        // The payload length comes after the network magic and the command, and is followed by
+        // the checksum.
+        let Some(length) = self.unparsed.get(16..20) else {
+            return true;
+        };
+        let length = u32::from_le_bytes([length[0], length[1], length[2], length[3]]);
+        let length = HEADER_SIZE + length as usize;
+
+        length <= MAX_MSG_SIZE && self.unparsed.len() < length
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 156e6884c6c6f574c9639fcbe95f609e154d9787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:42 +0000
Subject: [PATCH 39/57] fix: don't blame peers for filter headers of reverted
 blocks

---
 p2p/src/fsm/cbfmgr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 10c266a..5ee690a 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -643,7 +643,8 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         let stop_height = if let Some((height, _)) = tree.get_block(&stop_hash) {
             height
         } else {
-            return Err(Error::InvalidMessage {
+            // The block we requested headers for may have been reverted in the meantime.
+            return Err(Error::Ignored {
                 from,
                 reason: "unknown `cfheaders` stop hash",
             });
-- 
2.43.0


From b0c2a549a1503039f243f4e386b5fb82d3bb4e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:29 +0000
Subject: [PATCH 40/57] fix: retry addresses that couldn't be reached after a
 while

An address that was attempted once without success was never tried again, not even after
a restart: a node which lost connectivity for a moment could remain without peers forever.
---
 p2p/src/fsm/addrmgr.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 04de881..256bf1d 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -27,6 +27,9 @@ pub const IDLE_TIMEOUT: LocalDuration = LocalDuration::from_mins(1);
 /// Sample timeout. How long before a sampled address can be returned again.
 pub const SAMPLE_TIMEOUT: LocalDuration = LocalDuration::from_mins(3);
 
+/// Retry timeout. How long before an address that was attempted unsuccessfully is tried again.
+pub const RETRY_TIMEOUT: LocalDuration = LocalDuration::from_mins(10);
+
 /// Maximum number of addresses expected in a `addr` message.
 const MAX_ADDR_ADDRESSES: usize = 1000;
 /// Maximum number of addresses we store for a given address range.
@@ -54,8 +57,8 @@ impl<P: Store, C> AddressManager<P, C> {
             .expect("AddressManager::is_exhausted: manager must be initialized");
 
         for (addr, ka) in self.peers.iter() {
-            // Unsuccessful attempt to connect.
-            if ka.last_attempt.is_some() && ka.last_success.is_none() {
+            // Recent unsuccessful attempt to connect.
+            if self::is_unreachable(ka, time) {
                 continue;
             }
             if time - ka.last_sampled.unwrap_or_default() < SAMPLE_TIMEOUT {
@@ -498,8 +501,8 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
                     continue;
                 }
 
-                // If the address was already attempted unsuccessfully, skip it.
-                if ka.last_attempt.is_some() && ka.last_success.is_none() {
+                // If the address was recently attempted unsuccessfully, skip it.
+                if self::is_unreachable(ka, time) {
                     continue;
                 }
                 // If we recently sampled this address, don't return it again.
@@ -584,6 +587,14 @@ impl<P: Store, C: Clock> AddressSource for AddressManager<P, C> {
     }
 }
 
+/// Check whether an address was recently attempted without ever succeeding.
+fn is_unreachable(ka: &KnownAddress, time: LocalTime) -> bool {
+    match ka.last_attempt {
+        Some(attempt) => ka.last_success.is_none() && time - attempt < RETRY_TIMEOUT,
+        None => false,
+    }
+}
+
 /// Check whether an IP address is globally routable.
 pub fn is_routable(addr: &net::IpAddr) -> bool {
     match addr {
-- 
2.43.0


From 8dbb238ff8c31e04a9f22bacd348185b47dc7f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:36 +0000
Subject: [PATCH 41/57] fix: ban peers whose address range is unknown

---
 p2p/src/fsm/addrmgr.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 256bf1d..cdafab2 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -561,12 +561,13 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
     fn ban(&mut self, addr: &net::IpAddr) -> bool {
         let key = self::addr_key(addr);
 
+        // TODO: Persist bans.
+        // Nb. The address may not be in the address book, eg. if the peer connected to us.
+        self.bans.insert(*addr);
+
         if let Some(range) = self.address_ranges.get_mut(&key) {
             range.remove(addr);
-
-            // TODO: Persist bans.
             self.peers.remove(addr);
-            self.bans.insert(*addr);
 
             if range.is_empty() {
                 self.address_ranges.remove(&key);
-- 
2.43.0


From 08a17325879b1f87161b2abe36535016729a2310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:43 +0000
Subject: [PATCH 42/57] fix: imported addresses were ignored

---
 p2p/src/fsm/addrmgr.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index cdafab2..0171465 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -376,8 +376,8 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
             if addr.services.has(ServiceFlags::GETUTXO) || addr.services.has(ServiceFlags::BLOOM) {
                 continue;
             }
-            // Ignore addresses that don't have a "last active" time.
-            if last_active == 0 {
+            // Ignore addresses that don't have a "last active" time, unless they were imported.
+            if last_active == 0 && source != Source::Imported {
                 continue;
             }
             // Ignore addresses that are too far into the future.
@@ -411,7 +411,6 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
             }
 
             let last_active = if last_active == 0 {
-                // TODO: Cannot be 'None' due to above condition.
                 None
             } else {
                 Some(LocalTime::from_block_time(last_active))
-- 
2.43.0


From 7a278e14813beba5c7afd9a1ccbd93b8f1d9f348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:51 +0000
Subject: [PATCH 43/57] fix: inbound peers don't count towards the outbound
 target

---
 p2p/src/fsm/peermgr.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 4ad9045..6550d03 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -789,8 +789,13 @@ impl<C: Clock> PeerManager<C> {
         // Peers only with required services, which we'd eventually want to drop in favor of peers
         // that have all services.
         let secondary = self.negotiated(Link::Outbound).count() - primary;
-        // Connected peers that have not yet completed handshake.
-        let connected = self.connected().count() - primary - secondary;
+        // Outbound peers that have not yet completed handshake.
+        let connected = self
+            .connected()
+            .filter(|c| c.link.is_outbound())
+            .count()
+            - primary
+            - secondary;
         // Connecting peers.
         let connecting = self.connecting().count();
 
-- 
2.43.0


From 8f1bd05ac61585a2eb1c2a869a8a30410bb62433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:15 +0000
Subject: [PATCH 44/57] fix: handle the messages that precede undecodable bytes
 as usual

---
 p2p/src/fsm.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/p2p/src/fsm.rs b/p2p/src/fsm.rs
index 3df4b48..3ed807e 100644
--- a/p2p/src/fsm.rs
+++ b/p2p/src/fsm.rs
@@ -570,6 +570,7 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMa
 
     /// Disconnect a peer.
     pub fn disconnect(&mut self, addr: PeerId, reason: DisconnectReason) {
+        self.propagate();
         self.peermgr.disconnect(addr, reason);
     }
 
@@ -611,6 +612,13 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> Iterato
 }
 
 impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMachine<T, F, P, C> {
+    /// Make sure that the events resulting from previous inputs have been propagated internally.
+    fn propagate(&mut self) {
+        while let Some(io) = self.poll() {
+            self.pending.push_back(io);
+        }
+    }
+
     /// Get the next output of the sub-systems, propagating events internally.
     fn poll(&mut self) -> Option<Io> {
         let next = self
@@ -789,11 +797,8 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> traits:
     }
 
     fn message_received(&mut self, addr: &net::SocketAddr, msg: Cow<RawNetworkMessage>) {
-        // Several messages can be received before our outputs are drained. Make sure that the
-        // events resulting from the previous ones have been propagated.
-        while let Some(io) = self.poll() {
-            self.pending.push_back(io);
-        }
+        // Several messages can be received before our outputs are drained.
+        self.propagate();
 
         let cmd = msg.cmd();
         let addr = *addr;
-- 
2.43.0


From db63651f23fab87fab2b42283ccb631e0fef23a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:47 +0000
Subject: [PATCH 45/57] fix: keep configured peers when there are enough other
 ones

A configured peer without the preferred services was disconnected once the
outbound target was reached, only to be dialled again a second later, forever.
---
 p2p/src/fsm/peermgr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 6550d03..99a65be 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -484,6 +484,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             // disconnect this peer.
             if conn.link.is_outbound()
                 && !services.has(preferred)
+                && !self.config.persistent.contains(addr)
                 && self.negotiated(Link::Outbound).count() >= target
             {
                 return Err(DisconnectReason::ConnectionLimit);
-- 
2.43.0


From bc23893d329c406c18e91bf9f2381093ac52a9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:53 +0000
Subject: [PATCH 46/57] fix: don't overflow on the most negative peer time
 offset

---
 common/src/block/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/block/time.rs b/common/src/block/time.rs
index b38e2b6..255d5ee 100644
--- a/common/src/block/time.rs
+++ b/common/src/block/time.rs
@@ -230,7 +230,7 @@ impl<K: Hash + Eq> AdjustedTime<K> {
             let median_offset: TimeOffset = offsets[count / 2];
 
             // Don't let other nodes change our time by more than a certain amount.
-            if median_offset.abs() <= MAX_TIME_ADJUSTMENT {
+            if median_offset.unsigned_abs() <= MAX_TIME_ADJUSTMENT as u64 {
                 self.offset = median_offset;
             } else {
                 // TODO: Check whether other nodes have times similar to ours, otherwise
-- 
2.43.0


From 0c37bed91e37137142ae00f1d1f7d67921101742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:00 +0000
Subject: [PATCH 47/57] fix: sample the clock of each host only once

A host that connected from several ports could set the network-adjusted time
all by itself.
---
 p2p/src/fsm/peermgr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 99a65be..7e77de2 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -563,7 +563,9 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                     relay: peer.relay,
                     wtxid_relay: peer.wtxidrelay,
                 });
-                self.clock.record_offset(*addr, peer.time_offset);
+                // Nb. A host counts once, no matter how many ports it connects from.
+                let host = net::SocketAddr::new(addr.ip(), 0);
+                self.clock.record_offset(host, peer.time_offset);
 
                 peer.state = HandshakeState::ReceivedVerack {
                     since: self.clock.local_time(),
-- 
2.43.0


From f9b5245a661fb23acfd9b6926ec8131e9b309f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:36 +0000
Subject: [PATCH 48/57] fix: failed connection attempts were reported as
 connected

A socket also becomes writable when its connection couldn't be established. The
service was told that it was connected, which made it forget about previous
failures and redial every second.
---
 net/poll/src/reactor.rs | 24 ++++++++++++++++++------
 net/poll/src/socket.rs  |  5 +++++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 25d4dfe..c5d2b13 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -204,7 +204,7 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                                 }
 
                                 if ev.is_writable() {
-                                    self.handle_writable(addr.clone(), &ev.key, &mut service)?;
+                                    self.handle_writable(addr.clone(), &ev.key, &mut service);
                                 }
                                 if ev.is_readable() {
                                     self.handle_readable(addr.clone(), &mut service);
@@ -414,7 +414,7 @@ impl<Id: PeerId> Reactor<net::TcpStream, Id> {
         addr: Id,
         source: &Source<Id>,
         service: &mut S,
-    ) -> io::Result<()> {
+    ) {
         let socket_addr = addr.to_socket_addr();
         trace!("{}: Socket is writable", socket_addr);
 
@@ -425,11 +425,24 @@ impl<Id: PeerId> Reactor<net::TcpStream, Id> {
         // that it is ready for writing, once a connection has been established."
         //
         // Since we perform a non-blocking connect, we're only really connected once the socket
-        // is writable.
+        // is writable. Nb. It is writable too when the connection couldn't be established.
         if self.connecting.remove(&addr) {
-            let local_addr = socket.local_address()?;
+            let result = match socket.take_error() {
+                Ok(None) => socket.local_address(),
+                Ok(Some(err)) | Err(err) => Err(err),
+            };
 
-            service.connected(addr.clone(), &local_addr, socket.link);
+            match result {
+                Ok(local_addr) => service.connected(addr.clone(), &local_addr, socket.link),
+                Err(err) => {
+                    trace!("{}: Connection error: {}", socket_addr, err.to_string());
+
+                    socket.disconnect().ok();
+                    self.unregister_peer(addr, Disconnect::ConnectionError(Arc::new(err)), service);
+
+                    return;
+                }
+            }
         }
 
         match socket.flush() {
@@ -454,7 +467,6 @@ impl<Id: PeerId> Reactor<net::TcpStream, Id> {
                 self.unregister_peer(addr, Disconnect::ConnectionError(Arc::new(err)), service);
             }
         }
-        Ok(())
     }
 }
 
diff --git a/net/poll/src/socket.rs b/net/poll/src/socket.rs
index 2347fa5..d851af6 100644
--- a/net/poll/src/socket.rs
+++ b/net/poll/src/socket.rs
@@ -23,6 +23,11 @@ impl Socket<net::TcpStream> {
         self.raw.local_addr()
     }
 
+    /// Get the pending error of the socket, if any.
+    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
+        self.raw.take_error()
+    }
+
     /// Disconnect socket.
     pub fn disconnect(&self) -> io::Result<()> {
         self.raw.shutdown(net::Shutdown::Both)
-- 
2.43.0


From c1762a950aac5ac5cf1a718c54c682e7f500f86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:32 +0000
Subject: [PATCH 49/57] fix: interrupted reads and writes are not connection
 errors

---
 net/poll/src/reactor.rs | 3 +++
 net/poll/src/socket.rs  | 1 +
 2 files changed, 4 insertions(+)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index c5d2b13..ed9409c 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -399,6 +399,9 @@ impl<Id: PeerId> Reactor<net::TcpStream, Id> {
                     // when there's data on the socket. We leave it here in case external
                     // conditions change.
                 }
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => {
+                    // We'll be notified again, there is still data to be read.
+                }
                 Err(err) => {
                     trace!("{}: Read error: {}", socket_addr, err.to_string());
 
diff --git a/net/poll/src/socket.rs b/net/poll/src/socket.rs
index d851af6..3272ad4 100644
--- a/net/poll/src/socket.rs
+++ b/net/poll/src/socket.rs
@@ -58,6 +58,7 @@ impl<R: Read + Write> Socket<R> {
 
         while !self.buffer.is_empty() {
             match self.raw.write(&self.buffer) {
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
                 Err(e) => return Err(e),
 
                 Ok(0) => return Err(io::Error::from(io::ErrorKind::WriteZero)),
-- 
2.43.0


From d723bb4cec2214d85130746ed65314e50bf9d990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:39 +0000
Subject: [PATCH 50/57] fix: a signal received while polling terminated the
 reactor

---
 net/poll/src/reactor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index ed9409c..55d8e64 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -261,6 +261,10 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                     }
                 }
                 Err(err) if err.kind() == io::ErrorKind::TimedOut => {}
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => {
+                    // Nb. These events are the ones of the previous round.
+                    events.clear();
+                }
                 Err(err) => return Err(err.into()),
             }
             // Nb. The way this is currently used basically ignores which keys have
-- 
2.43.0


From e0a763832ebffba5fc17e29cfb89f2483c43e84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:47 +0000
Subject: [PATCH 51/57] fix: an error on an accepted socket terminated the
 reactor

---
 net/poll/src/reactor.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 55d8e64..7f4b34d 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -225,9 +225,16 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                                     let addr = Id::from(socket_addr);
                                     trace!("{}: Accepting peer connection", socket_addr);
 
-                                    conn.set_nonblocking(true)?;
-
-                                    let local_addr = conn.local_addr()?;
+                                    let local_addr = match conn
+                                        .set_nonblocking(true)
+                                        .and_then(|_| conn.local_addr())
+                                    {
+                                        Ok(local_addr) => local_addr,
+                                        Err(e) => {
+                                            error!(target: "net", "{}: Accept error: {}", socket_addr, e.to_string());
+                                            continue;
+                                        }
+                                    };
                                     let link = Link::Inbound;
 
                                     self.register_peer(addr.clone(), conn, link);
-- 
2.43.0


From d6594daa4d32ffa7431d0777e64944524b9c199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:54 +0000
Subject: [PATCH 52/57] fix: connections from an address that is already
 connected

The former connection was replaced without telling the service, and left behind
as an invalid event source.
---
 net/poll/src/reactor.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 7f4b34d..b4a7440 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -237,6 +237,17 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                                     };
                                     let link = Link::Inbound;
 
+                                    // Nb. The peer may be using the same port as for a previous
+                                    // connection that we haven't noticed the loss of yet.
+                                    if self.peers.contains_key(&addr) {
+                                        self.unregister_peer(
+                                            addr.clone(),
+                                            Disconnect::ConnectionError(Arc::new(
+                                                io::ErrorKind::ConnectionReset.into(),
+                                            )),
+                                            &mut service,
+                                        );
+                                    }
                                     self.register_peer(addr.clone(), conn, link);
 
                                     service.connected(addr, &local_addr, link);
-- 
2.43.0


From c22381c66aff94c7439a1db7be4c0c325b6feaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:43 +0000
Subject: [PATCH 53/57] fix: wait for heights that are passed by several blocks
 at once

---
 client/src/client.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/src/client.rs b/client/src/client.rs
index 697f830..1dc4fda 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -705,7 +705,11 @@ impl<W: Waker> handle::Handle for Handle<W> {
             None => event::wait(
                 &events,
                 |e| match e {
-                    Event::BlockHeadersImported { height, hash, .. } if height == h => Some(hash),
+                    // Nb. Several blocks can be connected at once.
+                    Event::BlockHeadersImported { connected, .. } => connected
+                        .iter()
+                        .find(|(height, _)| *height == h)
+                        .map(|(_, header)| header.block_hash()),
                     _ => None,
                 },
                 self.timeout,
-- 
2.43.0


From de02fd92acef7d206a16c74424e00d49fde9a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:57 +0000
Subject: [PATCH 54/57] fix: wait for at least the given number of connected
 peers

---
 client/src/client.rs | 46 +++++++++++++++-----------------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/client/src/client.rs b/client/src/client.rs
index 1dc4fda..f7ed25a 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -1,6 +1,5 @@
 //! Core nakamoto client functionality. Wraps all the other modules under a unified
 //! interface.
-use std::collections::HashMap;
 use std::env;
 use std::fs;
 use std::io;
@@ -658,43 +657,30 @@ impl<W: Waker> handle::Handle for Handle<W> {
         let events = self.events.subscribe();
         let required_services = required_services.into();
 
-        let negotiated = self.get_peers(required_services)?;
-        if negotiated.len() == count {
-            return Ok(negotiated
-                .into_iter()
-                .map(|p| (p.addr, p.height, p.services))
-                .collect());
-        }
+        // The peers that are connected now, if there are enough of them.
+        let negotiated = || -> Result<Option<Vec<_>>, handle::Error> {
+            let peers = self.get_peers(required_services)?;
 
-        let mut negotiated = negotiated
-            .into_iter()
-            .map(|p| (p.addr, (p.height, p.services)))
-            .collect::<HashMap<_, _>>(); // Get already connected peers.
+            Ok((peers.len() >= count).then(|| {
+                peers
+                    .into_iter()
+                    .map(|p| (p.addr, p.height, p.services))
+                    .collect()
+            }))
+        };
+        if let Some(peers) = negotiated()? {
+            return Ok(peers);
+        }
 
+        // Nb. Peers can also disconnect in the meantime.
         event::wait(
             &events,
             |e| match e {
-                fsm::Event::PeerNegotiated {
-                    addr,
-                    height,
-                    services,
-                    ..
-                } => {
-                    if services.has(required_services) {
-                        negotiated.insert(addr, (height, services));
-                    }
-
-                    if negotiated.len() == count {
-                        Some(negotiated.iter().map(|(a, (h, s))| (*a, *h, *s)).collect())
-                    } else {
-                        None
-                    }
-                }
+                fsm::Event::PeerNegotiated { .. } => negotiated().transpose(),
                 _ => None,
             },
             self.timeout,
-        )
-        .map_err(handle::Error::from)
+        )?
     }
 
     fn wait_for_height(&self, h: Height) -> Result<BlockHash, handle::Error> {
-- 
2.43.0


From 6b3aeb434079387865b02b915d3bbe87286c8d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:43 +0000
Subject: [PATCH 55/57] fix: requests for empty ranges of filters are errors

---
 client/src/client.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/client/src/client.rs b/client/src/client.rs
index f7ed25a..ced4d3f 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -531,10 +531,6 @@ impl<W: Waker> handle::Handle for Handle<W> {
     }
 
     fn request_filters(&self, range: RangeInclusive<Height>) -> Result<(), handle::Error> {
-        assert!(
-            !range.is_empty(),
-            "client::Handle::request_filters: range cannot be empty"
-        );
         let (transmit, receive) = chan::bounded(1);
         self.command(Command::RequestFilters(range, transmit))?;
 
-- 
2.43.0


From a4aedc941009815b6f705a6f0ef6f13c65f66694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:21 +0000
Subject: [PATCH 56/57] fix: connecting to connected peers timed out

---
 client/src/client.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/client/src/client.rs b/client/src/client.rs
index ced4d3f..7cf2827 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -568,10 +568,20 @@ impl<W: Waker> handle::Handle for Handle<W> {
         let events = self.events.subscribe();
         self.command(Command::Connect(addr))?;
 
+        // We may be connected already.
+        if let Some(peer) = self
+            .get_peers(ServiceFlags::NONE)?
+            .into_iter()
+            .find(|p| p.addr == addr)
+        {
+            return Ok(peer.link);
+        }
+
         event::wait(
             &events,
             |e| match e {
                 fsm::Event::PeerConnected { addr: a, link, .. }
+                | fsm::Event::PeerNegotiated { addr: a, link, .. }
                     if a == addr || (addr.ip().is_unspecified() && a.port() == addr.port()) =>
                 {
                     Some(link)
-- 
2.43.0


From ff575360daabc3bb65c459c093984e5711d0f56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:07 +0000
Subject: [PATCH 57/57] fix: wallet: don't ignore database errors

A failing disk made the wallet miss or keep coins silently.
---
 wallet/src/wallet.rs    |  2 +-
 wallet/src/wallet/db.rs | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/wallet/src/wallet.rs b/wallet/src/wallet.rs
index 62a2bff..b7b9992 100644
--- a/wallet/src/wallet.rs
+++ b/wallet/src/wallet.rs
@@ -83,7 +83,7 @@ impl<H: Handle> Wallet<H> {
         // Look for inputs.
         for input in tx.input.iter() {
             // Spent coin. Remove the address from the set, since it is no longer ours.
-            if let Ok(Some((_, _output))) = self.db.remove_utxo(&input.previous_output) {
+            if let Some((_, _output)) = self.db.remove_utxo(&input.previous_output).unwrap() {
                 // TODO: Handle change addresses?
             }
         }
diff --git a/wallet/src/wallet/db.rs b/wallet/src/wallet/db.rs
index e61ea01..137e4f8 100644
--- a/wallet/src/wallet/db.rs
+++ b/wallet/src/wallet/db.rs
@@ -84,7 +84,7 @@ impl Read for Db {
             ])?
             .next();
 
-        if let Some(Ok(row)) = row {
+        if let Some(row) = row.transpose()? {
             let address = row.get::<String, _>("address");
             let script_pubkey = Address::from_str(&address)
                 .map_err(|_| Error::Decoding("address"))?
@@ -109,7 +109,7 @@ impl Read for Db {
             .into_cursor();
 
         let mut utxos = Vec::new();
-        while let Some(Ok(row)) = stmt.next() {
+        while let Some(row) = stmt.next().transpose()? {
             let Record((txid, vout, address, value)): Record<(String, i64, String, Balance)> =
                 row.try_into()?;
             let txid = txid.parse().map_err(|_| Error::Decoding("txid"))?;
@@ -139,7 +139,7 @@ impl Read for Db {
             .into_cursor();
         let mut addrs = Vec::new();
 
-        while let Some(Ok(row)) = stmt.next() {
+        while let Some(row) = stmt.next().transpose()? {
             let addr = AddressRecord::try_from(&row)?;
             addrs.push(addr);
         }
@@ -163,7 +163,8 @@ impl Write for Db {
                 sql::Value::Integer(value as i64),
                 sql::Value::Integer(0), // TODO: Set transaction time
             ])?
-            .next();
+            .next()
+            .transpose()?;
 
         Ok(self.raw.change_count() > 0)
     }
@@ -203,7 +204,8 @@ impl Write for Db {
                     .map(|s| sql::Value::String(s.to_owned()))
                     .unwrap_or(sql::Value::Null),
             ])?
-            .next();
+            .next()
+            .transpose()?;
 
         Ok(self.raw.change_count() > 0)
     }
-- 
2.43.0

