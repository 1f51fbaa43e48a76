//! Oracles about the header chain: validity, selection, event replay.
use std::collections::{BTreeSet, HashMap, HashSet};

use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin::{BlockHash, BlockHeader};
use nakamoto_common::block::tree::{Error as TreeError, ImportResult};
use nakamoto_p2p::fsm::Event;

use crate::oracle::Oracle;
use crate::refchain;
use crate::universe::{Id, Universe};
use crate::world::{short, Action, Note, Snap, World};

/// Static validity of a block and all its ancestors.
#[derive(Default)]
pub struct Validity(HashMap<Id, Result<(), String>>);

impl Validity {
    pub fn check(&mut self, w: &World, id: Id) -> Result<(), String> {
        let mut path = vec![];
        let mut i = id;
        let base = loop {
            if let Some(r) = self.0.get(&i) {
                break r.clone();
            }
            if i == 0 {
                break Ok(());
            }
            path.push(i);
            i = w.u.get(i).parent;
        };
        let mut r = base;
        for i in path.into_iter().rev() {
            if r.is_ok() {
                let b = w.u.get(i);
                if let Err(e) = refchain::check_static(&w.u, i) {
                    r = Err(format!("block {} at height {}: {:?}", short(&b.hash), b.height, e));
                } else if let Some((_, c)) = w.checkpoints.iter().find(|(h, _)| *h == b.height) {
                    if *c != b.hash {
                        r = Err(format!("block {} at height {} contradicts the checkpoint", short(&b.hash), b.height));
                    }
                }
            }
            self.0.insert(i, r.clone());
        }
        r
    }
}

/// The active chain is linked, known, valid, and was not from the future when accepted (C01).
#[derive(Default)]
pub struct ValidChain {
    validity: Validity,
    last: Vec<BlockHash>,
    max_local: u64,
    fresh: bool,
}

impl Oracle for ValidChain {
    fn wants_snapshot(&self) -> bool {
        true
    }
    fn on_boot(&mut self, _w: &mut World) {
        self.fresh = true;
        self.last.clear();
    }
    fn on_input(&mut self, w: &mut World, _a: &Action) {
        self.max_local = self.max_local.max(w.local_time().as_secs());
    }
    fn on_step(&mut self, w: &mut World, s: &Snap) {
        self.max_local = self.max_local.max(w.local_time().as_secs());
        if s.hashes.len() as u64 != s.height + 1 || s.best != s.height {
            w.violate("chain shape", format!("height {} but {} readable headers (best block {})", s.height, s.hashes.len(), s.best));
            return;
        }
        if s.hashes.last() != Some(&s.tip.0) {
            w.violate("chain shape", "the reported tip is not the block at the tip height");
            return;
        }
        let mut from = s.hashes.len().min(self.last.len());
        while from > 0 && s.hashes[from - 1] != self.last[from - 1] {
            from -= 1;
        }
        for i in from..s.hashes.len() {
            w.stats.evaluations += 1;
            let Some(b) = w.u.find(&s.hashes[i]) else {
                w.violate("invented header", format!("height {}: {} was never produced by anyone", i, s.hashes[i]));
                return;
            };
            let (id, hd) = (b.id, b.header());
            if b.height != i as u64 || (i > 0 && hd.prev_blockhash != s.hashes[i - 1]) {
                w.violate("broken link", format!("block {} sits at height {} on something that is not its parent", short(&s.hashes[i]), i));
                return;
            }
            if let Err(e) = self.validity.check(w, id) {
                w.violate("invalid block in active chain", e);
                return;
            }
            if !self.fresh && hd.time as u64 > self.max_local + refchain::MAX_FUTURE {
                w.violate(
                    "block from the future in active chain",
                    format!("block {} at height {} has time {} at local time {}", short(&s.hashes[i]), i, hd.time, self.max_local),
                );
                return;
            }
        }
        self.last.truncate(from);
        self.last.extend_from_slice(&s.hashes[from..]);
        self.fresh = false;
        self.max_local = 0;
    }
}

/// Reported work is the sum of block work and never falls (part of C02).
#[derive(Default)]
pub struct Work {
    sums: Vec<Uint256>,
    hashes: Vec<BlockHash>,
    last: Option<Uint256>,
}

impl Oracle for Work {
    fn wants_snapshot(&self) -> bool {
        true
    }
    fn on_boot(&mut self, _w: &mut World) {
        self.last = None;
    }
    fn on_step(&mut self, w: &mut World, s: &Snap) {
        let mut from = s.hashes.len().min(self.hashes.len());
        while from > 0 && s.hashes[from - 1] != self.hashes[from - 1] {
            from -= 1;
        }
        self.sums.truncate(from);
        self.hashes.truncate(from);
        for i in from..s.hashes.len() {
            let prev = self.sums.last().copied().unwrap_or_default();
            self.sums.push(prev + s.headers[i].work());
            self.hashes.push(s.hashes[i]);
        }
        w.stats.evaluations += 1;
        let sum = self.sums.last().copied().unwrap_or_default();
        if sum != s.work {
            w.violate("work sum", format!("reported work {} but the blocks sum to {}", s.work, sum));
            return;
        }
        if let Some(l) = self.last {
            if sum < l {
                w.violate("work fell", format!("active chain went from work {} to {}", l, sum));
            }
        }
        self.last = Some(sum);
    }
}

/// Chain selection over what the user imported (C02): exact, because every import is acknowledged.
#[derive(Default)]
pub struct Selection {
    validity: Validity,
    known: BTreeSet<Id>,
    pending: Vec<(Vec<BlockHeader>, crossbeam_channel::Receiver<Result<ImportResult, TreeError>>)>,
    boot: bool,
    last_tip: Option<BlockHash>,
    /// Too far in the future at some import; whether such a header counts is the node's choice.
    future: BTreeSet<Id>,
}

impl Selection {
    fn best(&mut self, w: &World) -> (Id, usize) {
        let mut best = 0;
        let mut n = 0;
        let ids: Vec<Id> = self.known.iter().copied().collect();
        for id in ids {
            // All ancestors known, and valid.
            let mut i = id;
            let mut ok = true;
            while i != 0 {
                if !self.known.contains(&i) || self.future.contains(&i) {
                    ok = false;
                    break;
                }
                i = w.u.get(i).parent;
            }
            if !ok || self.validity.check(w, id).is_err() {
                continue;
            }
            let (b, c) = (w.u.get(best), w.u.get(id));
            if c.work > b.work || (c.work == b.work && c.hash < b.hash) {
                best = id;
            }
            n += 1;
        }
        (best, n)
    }
}

impl Oracle for Selection {
    fn wants_snapshot(&self) -> bool {
        true
    }
    fn on_boot(&mut self, _w: &mut World) {
        self.boot = true;
        self.pending.clear();
        self.known.clear();
        self.future.clear();
    }
    fn on_note(&mut self, _w: &mut World, n: &Note) {
        if let Note::Import { headers, rx } = n {
            self.pending.push((headers.clone(), rx.clone()));
        }
    }
    fn on_step(&mut self, w: &mut World, s: &Snap) {
        if self.boot {
            // Only the active chain is stored.
            self.boot = false;
            for h in &s.hashes {
                if let Some(i) = w.u.by_hash.get(h) {
                    self.known.insert(*i);
                }
            }
            self.last_tip = Some(s.tip.0);
            return;
        }
        let pend = std::mem::take(&mut self.pending);
        if pend.is_empty() {
            return;
        }
        let limit = w.local_time().as_secs() + refchain::MAX_FUTURE;
        let mentioned: Vec<Id> = pend.iter().flat_map(|(h, _)| h.iter().map(|h| w.u.by_hash[&h.block_hash()])).collect();
        for id in self.known.iter().copied().chain(mentioned) {
            if w.u.get(id).block.header.time as u64 > limit {
                self.future.insert(id);
            }
        }
        for (headers, rx) in pend {
            let r = match rx.try_recv() {
                Ok(r) => r,
                Err(_) => {
                    w.violate("import not answered", "an import command got no answer");
                    return;
                }
            };
            match r {
                Ok(res) => {
                    for h in &headers {
                        self.known.insert(w.u.by_hash[&h.block_hash()]);
                    }
                    if let ImportResult::TipChanged { hash, height, .. } = &res {
                        if w.u.find(hash).map(|b| b.height) != Some(*height) {
                            w.violate("import result", format!("reports tip {} at height {}", hash, height));
                            return;
                        }
                    }
                }
                Err(TreeError::BlockImportAborted(_, n, _)) => {
                    for h in headers.iter().take(n) {
                        self.known.insert(w.u.by_hash[&h.block_hash()]);
                    }
                    w.probe("import-aborted");
                    // Some header of the batch must be at fault.
                    let id = w.u.by_hash[&headers[n].block_hash()];
                    let old = w.u.get(id).height <= w.checkpoints.iter().map(|c| c.0).max().unwrap_or(0);
                    if self.validity.check(w, id).is_ok() && !old && !self.future.contains(&id) {
                        w.violate("valid header refused", format!("header {} at height {}", short(&w.u.get(id).hash), w.u.get(id).height));
                        return;
                    }
                }
                Err(e) => {
                    w.violate("import failed", format!("{}", e));
                    return;
                }
            }
        }
        let (best, _) = self.best(w);
        w.stats.evaluations += 1;
        let b = w.u.get(best);
        let (bh, bw, bheight) = (b.hash, b.work, b.height);
        let ok = match w.u.by_hash.get(&s.tip.0).copied() {
            Some(t) => {
                let c = w.u.get(t);
                let atleast = c.work > bw || (c.work == bw && c.hash <= bh);
                atleast && self.validity.check(w, t).is_ok()
            }
            None => false,
        };
        if !ok {
            let have = w.u.find(&s.tip.0).map(|x| format!("work {} height {}", x.work, x.height)).unwrap_or_default();
            w.violate(
                "wrong chain selected",
                format!("imported headers contain {} (work {}, height {}), active tip is {} ({})", short(&bh), bw, bheight, short(&s.tip.0), have),
            );
            return;
        }
        if self.last_tip != Some(s.tip.0) {
            if let (Some(a), Some(b)) = (self.last_tip.and_then(|t| w.u.find(&t).map(|b| b.id)), w.u.find(&s.tip.0).map(|b| b.id)) {
                if !w.u.is_ancestor(a, b) {
                    w.probe("tip-reorganised");
                }
            }
            self.last_tip = Some(s.tip.0);
        }
    }
}

/// Events replay to the active chain (C03).
#[derive(Default)]
pub struct Replay {
    model: Vec<BlockHash>,
    boot: bool,
    conn: Vec<(u64, BlockHash)>,
    disc: Vec<(u64, BlockHash)>,
    seen: HashSet<u64>,
}

impl Oracle for Replay {
    fn wants_snapshot(&self) -> bool {
        true
    }
    fn on_boot(&mut self, _w: &mut World) {
        self.boot = true;
        self.model.clear();
        self.conn.clear();
        self.disc.clear();
    }
    fn on_event(&mut self, w: &mut World, e: &Event) {
        match e {
            Event::BlockConnected { header, height } => {
                let h = header.block_hash();
                if self.boot {
                    w.violate("event before start", "a block was connected before the chain could be read");
                    return;
                }
                w.stats.evaluations += 1;
                if *height != self.model.len() as u64 || self.model.last() != Some(&header.prev_blockhash) {
                    w.violate(
                        "connect does not extend",
                        format!("block {} at height {} connected while the replayed tip is at {}", short(&h), height, self.model.len() - 1),
                    );
                    return;
                }
                self.model.push(h);
                self.conn.push((*height, h));
            }
            Event::BlockDisconnected { header, height } => {
                let h = header.block_hash();
                w.stats.evaluations += 1;
                w.probe("disconnect-event");
                if self.model.len() <= 1 || *height != self.model.len() as u64 - 1 || self.model.last() != Some(&h) {
                    w.violate(
                        "disconnect is not the tip",
                        format!("block {} at height {} disconnected while the replayed tip is at {}", short(&h), height, self.model.len() as i64 - 1),
                    );
                    return;
                }
                self.model.pop();
                self.disc.push((*height, h));
            }
            Event::BlockHeadersImported { hash, height, connected, reverted, reorg } => {
                let c: Vec<_> = connected.iter().map(|(a, b)| (*a, b.block_hash())).collect();
                let r: Vec<_> = reverted.iter().map(|(a, b)| (*a, b.block_hash())).collect();
                if c != self.conn || r != self.disc {
                    w.violate(
                        "import summary",
                        format!("summary names {} connected and {} reverted blocks, events were {} and {}", c.len(), r.len(), self.conn.len(), self.disc.len()),
                    );
                    return;
                }
                if self.model.last() != Some(hash) || *height + 1 != self.model.len() as u64 {
                    w.violate("import summary", format!("summary tip {} at {} is not the replayed tip", hash, height));
                    return;
                }
                if *reorg != !r.is_empty() {
                    w.violate("import summary", "reorg flag does not match the reverted blocks");
                    return;
                }
                if !r.is_empty() {
                    w.probe("reorg-event");
                    if r.len() > 1 {
                        w.probe("deep-reorg-event");
                    }
                }
                self.conn.clear();
                self.disc.clear();
            }
            _ => {}
        }
    }
    fn on_step(&mut self, w: &mut World, s: &Snap) {
        if self.boot {
            self.boot = false;
            self.model = s.hashes.clone();
            return;
        }
        w.stats.evaluations += 1;
        if !self.conn.is_empty() || !self.disc.is_empty() {
            w.violate("import summary", "blocks were connected or disconnected without a headers-imported event");
            return;
        }
        if self.model.len() != s.hashes.len() || self.model.last() != s.hashes.last() || self.model != s.hashes {
            let mut i = 0;
            while i < self.model.len() && i < s.hashes.len() && self.model[i] == s.hashes[i] {
                i += 1;
            }
            w.violate(
                "events do not replay",
                format!("replayed chain has height {}, the node's {}; they differ from height {}", self.model.len() - 1, s.height, i),
            );
        }
        let k = s.height ^ (self.seen.len() as u64) << 32;
        self.seen.insert(k);
    }
}

pub fn headers_of(u: &Universe, ids: &[Id]) -> Vec<BlockHeader> {
    ids.iter().map(|i| u.get(*i).header()).collect()
}
