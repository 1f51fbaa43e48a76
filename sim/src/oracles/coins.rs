//! The wallet's coins are those of the active chain (C20).
use std::collections::{BTreeMap, BTreeSet};

use nakamoto_common::bitcoin::{Block, BlockHash, OutPoint, Script, TxOut};
use nakamoto_p2p::fsm::Event;

use crate::oracle::Oracle;
use crate::oracles::live::{FOLLOW, SETTLE};
use crate::oracles::scan::served;
use crate::oracles::store::foreign_filters;
use crate::universe;
use crate::users::Ret;
use crate::world::{short, Snap, World};

type Set = BTreeMap<OutPoint, TxOut>;

#[derive(Default)]
pub struct Coins {
    mine: BTreeSet<Script>,
    /// The coins if blocks which leave the chain are not undone.
    kept: Set,
    /// Blocks of the active chain delivered to this wallet process.
    seen: BTreeSet<BlockHash>,
    /// All blocks ever delivered to the wallet.
    all: BTreeSet<BlockHash>,
    boot: u64,
    boots: u64,
    since: Option<(BlockHash, u64)>,
    /// The coins of stale blocks stay (reported at the end).
    stale: Option<String>,
    checked: Option<(BlockHash, usize)>,
}

fn apply(set: &mut Set, mine: &BTreeSet<Script>, b: &Block) {
    for tx in &b.txdata {
        let txid = tx.txid();
        for (i, o) in tx.output.iter().enumerate() {
            if mine.contains(&o.script_pubkey) {
                set.insert(OutPoint { txid, vout: i as u32 }, o.clone());
            }
        }
        for i in &tx.input {
            set.remove(&i.previous_output);
        }
    }
}

impl Coins {
    /// The blocks of the active chain from the birth height on which concern the wallet.
    fn mine<'a>(&self, w: &'a World) -> Vec<&'a universe::BlockInfo> {
        let birth = w.plan.cfg.birth as usize;
        w.view.iter().skip(birth).filter_map(|h| w.u.find(h)).filter(|b| b.scripts.iter().any(|s| self.mine.contains(s))).collect()
    }

    fn check(&mut self, w: &mut World) {
        if w.violation.borrow().is_some() || w.wallet.is_none() {
            return;
        }
        self.progress(w);
        let Some(tip) = w.view.last().copied() else { return };
        let now = (tip, self.seen.len());
        if !w.wallet_idle() {
            return;
        }
        let blocks = self.mine(w);
        if blocks.iter().any(|b| !self.seen.contains(&b.hash)) {
            return;
        }
        if self.checked == Some(now) {
            return;
        }
        let mut want = Set::new();
        for b in &blocks {
            apply(&mut want, &self.mine, &b.block);
        }
        let n = blocks.len();
        self.checked = Some(now);
        w.stats.evaluations += 1;
        w.probe("wallet-checked");
        if n > 0 {
            w.probe("wallet-checked-with-blocks");
        }
        if !want.is_empty() {
            w.probe("wallet-has-coins");
        }
        let (sum, list) = match w.wallet_coins() {
            Ok(x) => x,
            Err(e) => {
                w.violate("wallet file unreadable", e);
                return;
            }
        };
        let total: u64 = list.iter().map(|c| c.1.value).sum();
        if sum != total {
            w.violate("balance is not the sum of the coins", format!("{} instead of {}", sum, total));
            return;
        }
        let count = list.len();
        let got: Set = list.into_iter().collect();
        if count != got.len() {
            w.violate("coin listed twice", format!("{} coins, {} of them distinct", count, got.len()));
            return;
        }
        if got == want {
            return;
        }
        let extra: Vec<String> = got.keys().filter(|o| !want.contains_key(o)).take(3).map(|o| o.to_string()).collect();
        let lost: Vec<String> = want.keys().filter(|o| !got.contains_key(o)).take(3).map(|o| o.to_string()).collect();
        let detail = format!(
            "at height {} the balance is {} instead of {}; coins too many: {:?}; missing: {:?}",
            w.view.len() - 1,
            sum,
            want.values().map(|o| o.value).sum::<u64>(),
            extra,
            lost
        );
        let left = self.all.iter().find(|h| !w.view.contains(h));
        match left {
            Some(h) if got == self.kept => {
                w.probe("stale-coins");
                self.stale.get_or_insert(format!("the effects of block {}, which is no longer on the chain, stay: {}", short(h), detail));
            }
            _ => w.violate("wrong coins", detail),
        }
    }

    /// What concerns the wallet reaches it.
    fn progress(&mut self, w: &mut World) {
        let Some(tip) = w.view.last().copied() else { return };
        let since = match self.since {
            Some((t, at)) if t == tip => at,
            _ => {
                self.since = Some((tip, w.now));
                w.now
            }
        };
        if !w.calm() || w.now < (w.quiet_since().max(self.boot) + SETTLE).max(since + 2 * FOLLOW) || self.boot == u64::MAX {
            return;
        }
        if !served(w, &tip) {
            self.since = None;
            return;
        }
        w.probe("wallet-progress-checked");
        let missing = self.mine(w).into_iter().find(|b| !self.seen.contains(&b.hash)).map(|b| (b.hash, b.height));
        if let Some((h, height)) = missing {
            if self.boots > 1 && foreign_filters(w, &w.view) {
                w.probe("foreign-filter-headers");
                return;
            }
            w.violate("wallet not told of a block", format!("{} s after faults stopped block {} at height {} was not delivered (birth height {})", (w.now - w.plan.cfg.calm) / 1000, short(&h), height, w.plan.cfg.birth));
        }
    }
}

impl Oracle for Coins {
    fn wants_snapshot(&self) -> bool {
        true
    }
    fn on_boot(&mut self, w: &mut World) {
        self.mine = (0..w.plan.cfg.wallet as usize).map(universe::script).collect();
        self.seen.clear();
        self.checked = None;
        self.since = None;
        self.boot = w.now;
        self.boots += 1;
        self.kept = match w.wallet_coins() {
            Ok((_, l)) => l.into_iter().collect(),
            Err(e) => {
                w.violate("wallet file unreadable", e);
                return;
            }
        };
    }
    fn on_event(&mut self, w: &mut World, e: &Event) {
        match e {
            Event::BlockMatched { block, .. } => {
                let h = block.block_hash();
                self.seen.insert(h);
                self.all.insert(h);
                apply(&mut self.kept, &self.mine, block);
                w.probe("wallet-told");
            }
            Event::BlockDisconnected { header, .. } => {
                if self.seen.remove(&header.block_hash()) {
                    w.probe("wallet-block-reverted");
                }
            }
            _ => {}
        }
    }
    fn on_step(&mut self, w: &mut World, _s: &Snap) {
        self.check(w);
    }
    fn on_return(&mut self, w: &mut World, call: usize) {
        let Some(s) = &w.wallet else { return };
        if s.call != call || !s.disk.lock().unwrap().fired.is_empty() {
            return;
        }
        let how = match &w.calls[call].end {
            Some((_, Ret::Err(e))) | Some((_, Ret::Panic(e))) => e.clone(),
            _ => "it returned".to_owned(),
        };
        w.violate("wallet stopped", how);
    }
    fn on_end(&mut self, w: &mut World) {
        self.checked = None;
        self.check(w);
        if let Some(s) = self.stale.take() {
            w.violate("coins of stale blocks", s);
        }
    }
}
