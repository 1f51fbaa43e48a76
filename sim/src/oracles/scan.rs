//! Rescans (C06), authenticity of filters and blocks (C07), delivery of what was asked for (C21).
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::ops::Bound;

use nakamoto_common::bitcoin::util::bip158::BlockFilter;
use nakamoto_common::bitcoin::{BlockHash, Script, Transaction};
use nakamoto_p2p::fsm::event::TxStatus;
use nakamoto_p2p::fsm::Event;

use crate::oracle::Oracle;
use crate::oracles::live::{FOLLOW, SETTLE};
use crate::universe::Id;
use crate::world::{short, Note, Snap, World};

fn hits(w: &World, id: Id, scripts: &BTreeSet<Script>) -> bool {
    if scripts.is_empty() {
        return false;
    }
    let b = w.u.get(id);
    BlockFilter::new(&b.filter).match_any(&b.hash, &mut scripts.iter().map(|s| s.as_bytes())).unwrap_or(false)
}

fn hits_tx(w: &World, id: Id, txs: &[Transaction]) -> bool {
    let b = w.u.get(id);
    txs.iter().any(|t| {
        let mut outs = t.output.iter().filter(|o| !o.script_pubkey.is_op_return()).map(|o| o.script_pubkey.as_bytes());
        BlockFilter::new(&b.filter).match_all(&b.hash, &mut outs).unwrap_or(false)
    })
}

/// Some honest full node which serves filters, is up, gets dialled, and has the node's whole chain.
pub fn served(w: &World, tip: &BlockHash) -> bool {
    let Some(tip) = w.u.find(tip).map(|b| b.id) else { return false };
    w.honest().iter().any(|p| {
        w.plan.cfg.nocf >> p & 1 == 0
            && w.plan.cfg.limited >> p & 1 == 0
            && w.peers[*p].up
            && (w.plan.cfg.mode != 2 || p % 2 == 0)
            && w.u.is_ancestor(tip, w.peers[*p].tip)
    })
}

struct Scan {
    start: u64,
    end: Option<u64>,
    /// Next height to be filtered.
    next: u64,
    at: u64,
    gen: u64,
}

/// A rescan filters every height once, in order, and delivers every match (C06).
#[derive(Default)]
pub struct Rescans {
    notes: VecDeque<(Bound<u64>, Bound<u64>, Vec<Script>, Vec<Script>, u64, u64)>,
    scan: Option<Scan>,
    gen: u64,
    /// Scripts certainly watched, and those perhaps watched.
    sure: BTreeSet<Script>,
    all: BTreeSet<Script>,
    txs: Vec<Transaction>,
    /// Matched blocks not yet delivered.
    pending: BTreeMap<u64, (BlockHash, u64, u64)>,
    since: Option<(BlockHash, u64)>,
    /// Range of chain heights since the last completed step.
    low: u64,
    high: u64,
}

impl Oracle for Rescans {
    fn wants_snapshot(&self) -> bool {
        true
    }
    fn on_boot(&mut self, _w: &mut World) {
        let (low, high) = (self.low, self.high);
        *self = Rescans { gen: self.gen, low, high, ..Default::default() };
    }
    fn on_note(&mut self, w: &mut World, n: &Note) {
        match n {
            Note::Rescan { from, to, watch } => {
                let h = w.view.len().saturating_sub(1) as u64;
                self.low = self.low.min(h);
                self.high = self.high.max(h);
                self.notes.push_back((*from, *to, watch.clone(), vec![], self.low, self.high));
                self.sure.clear();
                self.all.extend(watch.iter().cloned());
            }
            Note::Watch { watch } => {
                if let Some(n) = self.notes.back_mut() {
                    n.3.extend(watch.iter().cloned());
                }
                self.all.extend(watch.iter().cloned());
            }
            Note::Submit { tx, .. } => self.txs.push(tx.clone()),
            _ => {}
        }
    }
    fn on_event(&mut self, w: &mut World, e: &Event) {
        match e {
            Event::BlockConnected { height, .. } => self.high = self.high.max(*height),
            Event::BlockDisconnected { height, .. } => {
                self.low = self.low.min(height.saturating_sub(1));
                self.pending.remove(height);
                if let Some(s) = &mut self.scan {
                    if s.next > *height {
                        s.next = (*height).max(s.start);
                        w.probe("scan-rolled-back");
                    }
                }
            }
            Event::FilterRescanStarted { start, stop } => {
                let Some((from, to, watch, more, low, high)) = self.notes.pop_front() else {
                    w.violate("rescan without command", format!("a rescan of {}..{:?} started, and nobody asked for it", start, stop));
                    return;
                };
                let ok = match from {
                    Bound::Included(h) => *start == h,
                    Bound::Excluded(h) => *start == h + 1,
                    Bound::Unbounded => (low + 1..=high.max(self.high) + 1).contains(start),
                };
                let end = match to {
                    Bound::Included(h) => Some(h),
                    Bound::Excluded(h) => Some(h.saturating_sub(1)),
                    Bound::Unbounded => None,
                };
                if !ok || end != *stop {
                    w.violate("wrong rescan range", format!("asked for {:?} to {:?}, started {} to {:?}", from, to, start, stop));
                    return;
                }
                self.gen += 1;
                let start = *start;
                self.scan = Some(Scan { start, end, next: start, at: w.now, gen: self.gen });
                self.all = watch.iter().cloned().collect();
                self.sure = self.all.clone();
                self.all.extend(more);
                w.probe("rescan");
            }
            Event::FilterProcessed { block, height, matched, valid, .. } => {
                w.stats.evaluations += 1;
                if w.view.get(*height as usize) != Some(block) {
                    if w.gone.contains(&(*height, *block)) {
                        return; // processed just before its block was reverted
                    }
                    w.violate("filter of another chain", format!("filter of block {} processed for height {}", short(block), height));
                    return;
                }
                let Some(s) = &mut self.scan else {
                    w.violate("filter processed outside a rescan", format!("height {}", height));
                    return;
                };
                if *height != s.next || s.end.map_or(false, |e| *height > e) {
                    w.violate("filter out of turn", format!("height {} processed, expected {} (range {} to {:?})", height, s.next, s.start, s.end));
                    return;
                }
                s.next += 1;
                let Some(id) = w.u.find(block).map(|b| b.id) else { return };
                let want = hits(w, id, &self.sure);
                if !valid || (want && !matched) {
                    w.violate("match missed", format!("block {} at height {} pays to a watched script, the filter was not matched (valid: {})", short(block), height, valid));
                    return;
                }
                if *matched {
                    if !want && !hits(w, id, &self.all) && !hits_tx(w, id, &self.txs) {
                        w.violate("false match", format!("height {}: nothing in the filter of {} is watched", height, short(block)));
                        return;
                    }
                    w.probe("filter-matched");
                    let g = self.gen;
                    // A match of an earlier scan which is still to be delivered counts for both.
                    match self.pending.get(height) {
                        Some((b, ..)) if b == block => {}
                        _ => {
                            self.pending.insert(*height, (*block, g, w.now));
                        }
                    }
                }
            }
            Event::FilterRescanStopped { height } => {
                let Some(s) = self.scan.take() else {
                    w.violate("rescan stopped twice", format!("height {}", height));
                    return;
                };
                let Some(end) = s.end else {
                    w.violate("open-ended rescan stopped", format!("height {}", height));
                    return;
                };
                if w.gone.is_empty() && (end != *height || (s.next <= end && s.start <= end)) {
                    w.violate("rescan stopped early", format!("reported complete at {}, range {} to {}, next height to filter {}", height, s.start, end, s.next));
                    return;
                }
                w.probe("rescan-completed");
            }
            Event::BlockMatched { block, height } => {
                w.stats.evaluations += 1;
                let hash = block.block_hash();
                match self.pending.get(height) {
                    Some((h, g, _)) if *h == hash => {
                        let g = *g;
                        if let Some((l, _)) = self.pending.iter().find(|(l, (_, x, _))| *x == g && *l < height) {
                            w.violate("match out of order", format!("block at height {} delivered before the one at {}", height, l));
                            return;
                        }
                        self.pending.remove(height);
                        w.probe("match-delivered");
                    }
                    _ if w.gone.contains(&(*height, hash)) => {}
                    _ => w.violate("match not expected", format!("block {} at height {} delivered as a match", short(&hash), height)),
                }
            }
            Event::Scanned { height } => {
                if !w.gone.is_empty() {
                    return;
                }
                if let Some((l, _)) = self.pending.iter().next() {
                    if l <= height {
                        w.violate("scan reported past a match", format!("scanned up to {}, the match at {} was not delivered", height, l));
                        return;
                    }
                }
                if let Some(s) = &self.scan {
                    if *height >= s.next.max(1) {
                        w.violate("scan reported too far", format!("scanned up to {}, next height to filter {}", height, s.next));
                    }
                }
            }
            _ => {}
        }
    }
    fn on_step(&mut self, w: &mut World, s: &Snap) {
        self.low = s.height;
        self.high = s.height;
        if self.notes.is_empty() {
            self.sure = self.all.clone();
        }
        if let Some(sc) = &self.scan {
            if let Some(end) = sc.end {
                if sc.next > end {
                    w.violate("completion not reported", format!("all of {} to {} was filtered", sc.start, end));
                    return;
                }
            }
        }
        self.progress(w, s);
    }
    fn on_finish(&mut self, w: &mut World, s: &Snap) {
        self.progress(w, s);
    }
}

impl Rescans {
    fn progress(&mut self, w: &mut World, s: &Snap) {
        if !w.calm() {
            return;
        }
        let since = match self.since {
            Some((t, at)) if t == s.tip.0 => at,
            _ => {
                self.since = Some((s.tip.0, w.now));
                w.now
            }
        };
        let at = self.scan.as_ref().map_or(0, |s| s.at);
        if w.now < (w.quiet_since() + SETTLE).max(since.max(at) + 2 * FOLLOW) {
            return;
        }
        if !served(w, &s.tip.0) {
            self.since = None;
            return;
        }
        w.stats.evaluations += 1;
        if let Some(sc) = &self.scan {
            let goal = sc.end.map_or(s.height, |e| e.min(s.height));
            if sc.next <= goal {
                w.violate("rescan stuck", format!("{} s after faults stopped: range {} to {:?}, next height {}, chain height {} (scan {})", (w.now - w.plan.cfg.calm) / 1000, sc.start, sc.end, sc.next, s.height, sc.gen));
                return;
            }
            w.probe("scan-progress-checked");
        }
        if let Some((h, (b, ..))) = self.pending.iter().find(|(_, (_, _, at))| at + 2 * FOLLOW < w.now) {
            w.violate("match never delivered", format!("{} s after faults stopped block {} at height {} is not delivered", (w.now - w.plan.cfg.calm) / 1000, short(b), h));
        }
    }
}

/// Only authenticated data reaches the user (C07).
#[derive(Default)]
pub struct Authentic {
    /// Blocks somebody asked for: the user, or a matching filter.
    asked: BTreeSet<BlockHash>,
    processed: BTreeSet<BlockHash>,
}

impl Authentic {
    fn filter(&self, w: &mut World, height: u64, block: &BlockHash, content: Option<&[u8]>) {
        w.stats.evaluations += 1;
        if !w.on_chain(height, block) {
            w.violate("filter of a block that is not on the chain", format!("height {}: {}", height, short(block)));
            return;
        }
        let Some(b) = w.u.find(block) else { return };
        if let Some(c) = content {
            if c != b.filter.as_slice() {
                w.violate("forged filter", format!("height {}: the filter delivered is not the one committed to", height));
            }
        }
    }

    fn block(&self, w: &mut World, height: u64, block: &nakamoto_common::bitcoin::Block) {
        w.stats.evaluations += 1;
        let hash = block.block_hash();
        if !w.on_chain(height, &hash) {
            w.violate("block that is not on the chain", format!("{} delivered for height {}", short(&hash), height));
            return;
        }
        let Some(b) = w.u.find(&hash) else { return };
        let (mut want, mut got) = (b.block.clone(), block.clone());
        crate::world::strip(&mut want);
        crate::world::strip(&mut got);
        if want != got {
            w.violate("forged block", format!("the contents of block {} at height {} are not what its header commits to", short(&hash), height));
        }
    }
}

impl Oracle for Authentic {
    fn wants_snapshot(&self) -> bool {
        true
    }
    fn on_boot(&mut self, _w: &mut World) {
        *self = Authentic::default();
    }
    fn on_note(&mut self, _w: &mut World, n: &Note) {
        if let Note::ReqBlock { hash } = n {
            self.asked.insert(*hash);
        }
    }
    fn on_event(&mut self, w: &mut World, e: &Event) {
        match e {
            Event::FilterReceived { filter, height, block, .. } => {
                w.probe("filter-received");
                self.filter(w, *height, block, Some(&filter.content));
            }
            Event::FilterProcessed { block, height, matched, .. } => {
                self.filter(w, *height, block, None);
                if *matched {
                    self.asked.insert(*block);
                }
            }
            Event::BlockMatched { block, height } => self.block(w, *height, block),
            Event::BlockProcessed { block, height, .. } => {
                w.probe("block-processed");
                self.block(w, *height, block);
                self.processed.insert(block.block_hash());
            }
            Event::TxStatusChanged { txid, status: TxStatus::Confirmed { height, block } } => {
                w.stats.evaluations += 1;
                if !w.on_chain(*height, block) {
                    w.violate("confirmed in a block that is not on the chain", format!("{} in {}", txid, short(block)));
                } else if !w.u.find(block).map_or(false, |b| b.contains_tx(txid)) {
                    w.violate("confirmed by a block without it", format!("{} in {}", txid, short(block)));
                }
            }
            _ => {}
        }
    }
    fn on_step(&mut self, w: &mut World, _s: &Snap) {
        // Matching and processing can be reported in either order within a step.
        for b in std::mem::take(&mut self.processed) {
            if !self.asked.contains(&b) {
                w.violate("block nobody asked for", short(&b));
            }
        }
    }
}

/// Blocks asked for by the user arrive (C21).
#[derive(Default)]
pub struct Delivery {
    want: BTreeMap<BlockHash, u64>,
    since: Option<(BlockHash, u64)>,
}

impl Oracle for Delivery {
    fn wants_snapshot(&self) -> bool {
        true
    }
    fn on_boot(&mut self, _w: &mut World) {
        self.want.clear();
    }
    fn on_note(&mut self, w: &mut World, n: &Note) {
        if let Note::ReqBlock { hash } = n {
            self.want.entry(*hash).or_insert(w.now);
            w.probe("block-requested");
        }
    }
    fn on_event(&mut self, w: &mut World, e: &Event) {
        if let Event::BlockProcessed { block, .. } = e {
            if self.want.remove(&block.block_hash()).is_some() {
                w.probe("block-delivered");
            }
        }
        if let Event::BlockDisconnected { header, .. } = e {
            // A request for a block which leaves the chain may be dropped.
            self.want.remove(&header.block_hash());
        }
    }
    fn on_step(&mut self, w: &mut World, s: &Snap) {
        // What is not on the chain when it arrives cannot be delivered: only requests made for blocks
        // of the active chain count.
        let view = &w.view;
        let u = &w.u;
        self.want.retain(|h, _| u.find(h).map_or(false, |b| view.get(b.height as usize) == Some(h)));
        self.on_finish(w, s)
    }
    fn on_finish(&mut self, w: &mut World, s: &Snap) {
        if !w.calm() {
            return;
        }
        let since = match self.since {
            Some((t, at)) if t == s.tip.0 => at,
            _ => {
                self.since = Some((s.tip.0, w.now));
                w.now
            }
        };
        if w.now < (w.quiet_since() + SETTLE).max(since + FOLLOW) {
            return;
        }
        if !served(w, &s.tip.0) {
            self.since = None;
            return;
        }
        let late = self.want.iter().find(|(_, at)| **at + 2 * FOLLOW < w.now).map(|(h, _)| *h);
        w.stats.evaluations += 1;
        w.probe("delivery-checked");
        if let Some(h) = late {
            w.violate("requested block never delivered", format!("block {} was asked for {} s ago", short(&h), (w.now - self.want[&h]) / 1000));
        }
    }
}

