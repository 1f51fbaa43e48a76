//! Durability of the header store (C04) and alignment of the filter-header store (C05).
use std::path::Path;

use nakamoto_common::bitcoin::consensus::encode::{deserialize, serialize};
use nakamoto_common::bitcoin::{BlockHash, BlockHeader};

use crate::oracle::Oracle;
use crate::universe::Id;
use crate::world::{short, Snap, World};

pub fn records(dir: &str, name: &str, size: usize) -> Vec<Vec<u8>> {
    let b = crate::interpose::bypass(|| std::fs::read(Path::new(dir).join(name)).unwrap_or_default());
    b.chunks_exact(size).map(|c| c.to_vec()).collect()
}

/// Headers on disk survive any stop of the process (C04).
#[derive(Default)]
pub struct Durable {
    /// Active chain after the last completed step.
    last: Vec<BlockHash>,
    /// Complete records found on disk when the process had stopped.
    disk: Option<Vec<BlockHash>>,
    crashed: bool,
    power: bool,
    faulty: bool,
    boot: bool,
}

impl Oracle for Durable {
    fn wants_snapshot(&self) -> bool {
        true
    }
    fn on_boot(&mut self, _w: &mut World) {
        self.boot = true;
    }
    fn on_down(&mut self, w: &mut World, crashed: bool) {
        let recs = records(&w.dir, "headers.db", 80);
        self.disk = Some(
            recs.iter()
                .map(|r| deserialize::<BlockHeader>(r).map(|h| h.block_hash()).unwrap_or_else(|_| nakamoto_common::bitcoin_hashes::Hash::all_zeros()))
                .collect(),
        );
        self.crashed = crashed;
        self.power = w.last_power_loss;
        self.faulty = w.disk_faulted;
        w.probe(if crashed { "crashed" } else { "restarted" });
        if self.boot {
            // Died before its first step: what it should have loaded is still what it must load.
            self.boot = false;
        }
    }
    fn on_step(&mut self, w: &mut World, s: &Snap) {
        if self.boot {
            self.boot = false;
            if let Some(disk) = self.disk.take() {
                w.stats.evaluations += 1;
                self.loaded(w, s, &disk);
            } else if w.incarnation == 1 {
                // First start: the files were put there by the user.
                let n = w.plan.cfg.known_len as usize + 1;
                if s.hashes.len() != n {
                    w.violate("stored headers ignored", format!("{} headers on disk, {} loaded", n - 1, s.hashes.len() - 1));
                }
            }
        }
        if self.last != s.hashes {
            self.last.clone_from(&s.hashes);
        }
    }
}

impl Durable {
    fn loaded(&mut self, w: &mut World, s: &Snap, disk: &[BlockHash]) {
        // One linked chain of headers that exist.
        let mut path: Vec<Id> = vec![];
        for (i, h) in s.hashes.iter().enumerate() {
            let Some(b) = w.u.find(h) else {
                w.violate("garbage loaded", format!("height {}: header {} was never accepted by the node", i, h));
                return;
            };
            if b.height != i as u64 || (i > 0 && b.parent != path[i - 1]) {
                w.violate("unlinked chain loaded", format!("height {}: header {} does not follow its predecessor", i, short(h)));
                return;
            }
            path.push(b.id);
        }
        // Everything that is completely on disk and hangs together is there.
        let mut linked = 0;
        for (i, h) in disk.iter().enumerate() {
            match w.u.find(h) {
                Some(b) if b.height == i as u64 + 1 && (i == 0 || w.u.get(b.parent).hash == disk[i - 1]) => linked = i + 1,
                _ => break,
            }
        }
        if linked < disk.len() {
            w.violate("corrupt header store", format!("the file left behind does not hold a linked chain: record {} of {}", linked + 1, disk.len()));
            return;
        }
        if s.hashes.len() < linked + 1 || s.hashes[1..linked + 1] != disk[..linked] {
            w.violate("complete headers dropped at load", format!("{} complete headers on disk, {} loaded", linked, s.hashes.len() - 1));
            return;
        }
        // Against what the node had accepted before it stopped.
        if self.power || self.faulty {
            return;
        }
        let p = s.hashes.iter().zip(&self.last).take_while(|(a, b)| a == b).count();
        if p == self.last.len() {
            return; // nothing lost
        }
        if !self.crashed {
            w.violate("headers lost by a clean restart", format!("height {} before, common up to {}", self.last.len() - 1, p - 1));
            return;
        }
        // Some were: only a reorganisation under way may have removed them.
        let old = w.u.find(self.last.last().unwrap()).map(|b| (b.id, b.work));
        let Some((old, work)) = old else { return };
        let tip = *path.last().unwrap();
        let fork = p as u64 - 1;
        let anchor = w.u.ancestor(old, fork).unwrap();
        let excused = (0..w.u.blocks.len()).any(|x| {
            let b = w.u.get(x);
            b.work >= work
                && b.height > fork
                && w.u.is_ancestor(tip, x)
                && w.u.is_ancestor(anchor, x)
                && w.u.ancestor(x, fork + 1) != w.u.ancestor(old, fork + 1)
        });
        w.probe("crash-in-reorg");
        if !excused {
            w.violate(
                "accepted headers lost by a crash",
                format!("the chain had height {}, after the restart it is at {} and agrees up to {}, and no better branch explains it", self.last.len() - 1, s.hashes.len() - 1, p - 1),
            );
        }
    }
}

/// Filter headers mirror the active chain (C05, safety part).
#[derive(Default)]
pub struct Mirror {
    seen: u64,
    boot: bool,
    last_tip: Option<BlockHash>,
    /// Active chain after the last completed step of the previous incarnation.
    chain: Vec<BlockHash>,
    pub announced: u64,
}

/// Some stored filter header is not that of the block at its height. (A crash in a reorganisation leaves
/// such: a known finding of C05.)
pub fn foreign_filters(w: &World, chain: &[nakamoto_common::bitcoin::BlockHash]) -> bool {
    records(&w.dir, "filters.db", 64).iter().enumerate().any(|(i, r)| {
        let Some(b) = chain.get(i + 1).and_then(|h| w.u.find(h)) else { return false };
        let mut want = serialize(&b.filter_hash);
        want.extend(serialize(&b.filter_header));
        &want != r
    })
}

impl Mirror {
    fn check(&mut self, w: &mut World, s: &Snap, crash: bool) {
        if crate::interpose::errored() || (crash && w.disk_faulted) {
            return; // the file may lag behind the node's memory
        }
        let recs = records(&w.dir, "filters.db", 64);
        w.stats.evaluations += 1;
        if !crash && recs.len() as u64 > s.height {
            w.violate("filter headers ahead of block headers", format!("{} filter headers, block height {}", recs.len(), s.height));
            return;
        }
        for (i, r) in recs.iter().enumerate().rev() {
            let Some(h) = s.hashes.get(i + 1) else { continue };
            let Some(b) = w.u.find(h) else { return };
            let mut want = serialize(&b.filter_hash);
            want.extend(serialize(&b.filter_header));
            if &want != r {
                let class = if crash { "filter headers of another branch after a crash" } else { "filter header does not match the active chain" };
                w.violate(class, format!("height {}: not the commitment of block {} ({} filter headers, block height {})", i + 1, short(h), recs.len(), s.height));
                return;
            }
            // Commitments chain: the highest match vouches for the ones below.
            break;
        }
    }
}

impl Oracle for Mirror {
    fn wants_snapshot(&self) -> bool {
        true
    }
    fn on_boot(&mut self, _w: &mut World) {
        self.boot = true;
        self.last_tip = None;
    }
    fn on_event(&mut self, w: &mut World, e: &nakamoto_p2p::fsm::Event) {
        if let nakamoto_p2p::fsm::Event::FilterHeadersSynced { height } = e {
            w.probe("filter-headers-synced");
            self.announced = *height;
        }
    }
    fn on_step(&mut self, w: &mut World, s: &Snap) {
        let n = crate::interpose::file_version("filters.db");
        if !self.boot && n == self.seen && self.last_tip == Some(s.tip.0) {
            return;
        }
        // Only a crash in the middle of a reorganisation (or lost writes) can have separated the two files.
        let common = s.hashes.iter().zip(&self.chain).take_while(|(a, b)| a == b).count();
        let reorganising = common < self.chain.len();
        let fresh = self.boot && w.incarnation > 1 && w.last_stop_crashed && (w.last_power_loss || reorganising);
        if self.chain != s.hashes {
            self.chain.clone_from(&s.hashes);
        }
        self.boot = false;
        self.seen = n;
        self.last_tip = Some(s.tip.0);
        self.check(w, s, fresh);
    }
}
