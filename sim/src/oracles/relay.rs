//! Transactions the user submitted: announced, served, tracked (C08).
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;

use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::message_blockdata::Inventory;
use nakamoto_common::bitcoin::{BlockHash, Transaction, Txid};
use nakamoto_p2p::fsm::event::TxStatus;
use nakamoto_p2p::fsm::{CommandError, Event};

use crate::oracle::Oracle;
use crate::oracles::live::FOLLOW;
use crate::world::{short, NetMsg, Note, Snap, World};

/// Confirmed transactions are forgotten at this depth.
const DEPTH: u64 = 12;

struct Tx {
    tx: Transaction,
    /// Not known to be confirmed, since then.
    pending: Option<u64>,
    /// Confirmations reported and not reverted, with the greatest height of the chain since.
    confs: Vec<(u64, BlockHash, u64)>,
    /// Reverts that are due at the end of this step.
    due: Vec<(u64, BlockHash)>,
    /// Confirmed and submitted in one batch: it may be pending or not.
    loose: bool,
}

struct Peer {
    relay: bool,
    wtxid: bool,
    since: u64,
}

#[derive(Default)]
pub struct Relay {
    txs: BTreeMap<Txid, Tx>,
    peers: BTreeMap<SocketAddr, Peer>,
    /// Replies to check once the command was executed.
    replies: Vec<(crossbeam_channel::Receiver<Result<nakamoto_common::nonempty::NonEmpty<SocketAddr>, CommandError>>, BTreeSet<SocketAddr>, Txid)>,
    /// Relaying peers that came, and peers that went, in this step.
    seen: BTreeSet<SocketAddr>,
    lost: BTreeSet<SocketAddr>,
    submitted: BTreeSet<Txid>,
}

impl Relay {
    fn replies(&mut self, w: &mut World) {
        for (rx, want, txid) in std::mem::take(&mut self.replies) {
            w.stats.evaluations += 1;
            let got: BTreeSet<SocketAddr> = match rx.try_recv() {
                Ok(Ok(l)) => l.iter().copied().collect(),
                Ok(Err(CommandError::NotConnected)) => BTreeSet::new(),
                Err(_) => {
                    w.violate("submission not answered", format!("{}", txid));
                    return;
                }
            };
            // Peers that came or went in the same batch of inputs may or may not count.
            let (seen, lost) = (&self.seen, &self.lost);
            let ok = got.iter().all(|a| want.contains(a) || seen.contains(a)) && want.iter().all(|a| got.contains(a) || lost.contains(a));
            if !ok {
                w.violate("submission reported to the wrong peers", format!("{}: reported {:?}, relaying peers {:?}", txid, got, want));
                return;
            }
        }
    }
}

impl Oracle for Relay {
    fn wants_snapshot(&self) -> bool {
        true
    }
    fn on_boot(&mut self, _w: &mut World) {
        *self = Relay::default();
    }
    fn on_note(&mut self, w: &mut World, n: &Note) {
        if let Note::Submit { tx, rx } = n {
            let want = self.peers.iter().filter(|(_, p)| p.relay).map(|(a, _)| *a).collect();
            self.replies.push((rx.clone(), want, tx.txid()));
            let t = self.txs.entry(tx.txid()).or_insert(Tx { tx: tx.clone(), pending: None, loose: false, confs: vec![], due: vec![] });
            t.pending = t.pending.or(Some(w.now));
            t.loose = false;
            self.submitted.insert(tx.txid());
            w.probe("tx-submitted");
        }
    }
    fn on_event(&mut self, w: &mut World, e: &Event) {
        match e {
            Event::PeerNegotiated { addr, relay, wtxid_relay, .. } => {
                if *relay {
                    self.seen.insert(*addr);
                }
                self.peers.insert(*addr, Peer { relay: *relay, wtxid: *wtxid_relay, since: w.now });
            }
            Event::PeerDisconnected { addr, .. } => {
                self.lost.insert(*addr);
                self.peers.remove(addr);
            }
            Event::BlockConnected { height, .. } => {
                for t in self.txs.values_mut() {
                    for c in t.confs.iter_mut() {
                        c.2 = c.2.max(*height);
                    }
                }
            }
            Event::BlockDisconnected { header, height } => {
                let hash = header.block_hash();
                for t in self.txs.values_mut() {
                    let due: Vec<_> = t.confs.iter().filter(|c| c.0 == *height && c.1 == hash && c.2 - c.0 <= DEPTH).map(|c| (c.0, c.1)).collect();
                    t.due.extend(due);
                }
            }
            Event::TxStatusChanged { txid, status } => {
                w.stats.evaluations += 1;
                let Some(t) = self.txs.get_mut(txid) else {
                    w.violate("status of a transaction nobody submitted", format!("{}", txid));
                    return;
                };
                match status {
                    TxStatus::Unconfirmed => {}
                    TxStatus::Acknowledged { peer } => {
                        let asked = w.by_addr.get(peer).map_or(false, |id| w.tx_asked.contains_key(&(*id, *txid)));
                        // The connection may have been lost in the same batch of inputs.
                        let was = w.tx_asked.keys().any(|(_, t)| t == txid) && !w.by_addr.contains_key(peer);
                        if !asked && !was {
                            w.violate("acknowledged by a peer that never asked", format!("{} by {}", txid, peer));
                            return;
                        }
                        w.probe("tx-acknowledged");
                    }
                    TxStatus::Confirmed { height, block } => {
                        if t.pending.is_none() && !t.loose {
                            w.violate("confirmed twice", format!("{} in {}", txid, short(block)));
                            return;
                        }
                        if !w.on_chain(*height, block) {
                            w.violate("confirmed in a block that is not on the chain", format!("{} in {} at height {}", txid, short(block), height));
                            return;
                        }
                        if !w.u.find(block).map_or(false, |b| b.contains_tx(txid)) {
                            w.violate("confirmed by a block without it", format!("{} in {}", txid, short(block)));
                            return;
                        }
                        t.pending = None;
                        // Submitted again in the same batch of inputs: before or after this confirmation.
                        t.loose = self.submitted.contains(txid);
                        let top = (w.view.len() as u64).saturating_sub(1).max(*height);
                        t.confs.push((*height, *block, top));
                        w.probe("tx-confirmed");
                    }
                    TxStatus::Reverted { transaction } => {
                        if transaction.txid() != *txid || *transaction != t.tx {
                            w.violate("another transaction reverted", format!("{}", txid));
                            return;
                        }
                        let view = &w.view;
                        let Some(i) = t.confs.iter().position(|(h, b, _)| view.get(*h as usize) != Some(b)) else {
                            w.violate("reverted although still confirmed", format!("{}: confirmations {:?}", txid, t.confs.iter().map(|c| (c.0, short(&c.1))).collect::<Vec<_>>()));
                            return;
                        };
                        let (h, b, _) = t.confs.remove(i);
                        t.due.retain(|d| *d != (h, b));
                        t.pending = t.pending.or(Some(w.now));
                        w.probe("tx-reverted");
                    }
                    TxStatus::Stale { .. } => {}
                }
            }
            Event::BlockProcessed { block, .. } => {
                let hash = block.block_hash();
                for (txid, t) in &self.txs {
                    if t.pending.is_some() && w.u.find(&hash).map_or(false, |b| b.contains_tx(txid)) {
                        w.violate("confirmation not reported", format!("block {} contains {} and was processed", short(&hash), txid));
                        return;
                    }
                }
            }
            Event::FilterProcessed { block, matched: false, valid: true, height, .. } => {
                for (txid, t) in &self.txs {
                    // (Submitted before this batch of inputs.)
                    if t.pending.map_or(false, |at| at < w.now) && w.u.find(block).map_or(false, |b| b.contains_tx(txid)) {
                        w.violate("confirming block missed", format!("the filter of block {} at height {} was not matched, which contains {}", short(block), height, txid));
                        return;
                    }
                }
            }
            _ => {}
        }
    }
    fn on_sent(&mut self, w: &mut World, addr: &SocketAddr, conn: Option<u64>, m: &NetMsg) {
        match &**m {
            NetworkMessage::Inv(invs) => {
                for i in invs {
                    let (txid, kind) = match i {
                        Inventory::Transaction(t) => (Some(*t), false),
                        Inventory::WTx(x) => (w.tx_by_wtxid(x), true),
                        _ => continue,
                    };
                    w.stats.evaluations += 1;
                    let Some(t) = txid.and_then(|t| self.txs.get(&t)) else {
                        w.violate("announced what nobody submitted", format!("{:?} to {}", i, addr));
                        return;
                    };
                    if t.pending.is_none() && !t.loose {
                        w.violate("announced a confirmed transaction", format!("{} to {}", t.tx.txid(), addr));
                        return;
                    }
                    let Some(p) = self.peers.get(addr) else { continue };
                    if !p.relay {
                        w.violate("announced to a peer that doesn't relay", format!("{} to {}", t.tx.txid(), addr));
                        return;
                    }
                    if p.wtxid != kind {
                        w.violate("announced by the wrong kind of id", format!("{:?} to {}, which negotiated wtxid relay: {}", i, addr, p.wtxid));
                        return;
                    }
                    w.probe("tx-announced");
                }
            }
            NetworkMessage::Tx(tx) => {
                w.stats.evaluations += 1;
                let txid = tx.txid();
                if !self.txs.get(&txid).map_or(false, |t| t.tx == *tx) {
                    w.violate("sent what nobody submitted", format!("{} to {}", txid, addr));
                    return;
                }
                if let Some(id) = conn {
                    if !w.tx_asked.contains_key(&(id, txid)) {
                        w.violate("sent without being asked", format!("{} to {}", txid, addr));
                        return;
                    }
                }
                w.probe("tx-served");
            }
            _ => {}
        }
    }
    fn on_step(&mut self, w: &mut World, s: &Snap) {
        self.replies(w);
        self.seen.clear();
        self.lost.clear();
        self.submitted.clear();
        for (txid, t) in self.txs.iter_mut() {
            if let Some((h, b)) = t.due.first() {
                w.violate("revert not reported", format!("{} was confirmed in {} at height {}, which left the chain", txid, short(b), h));
                return;
            }
            // Forgotten at this depth.
            t.confs.retain(|c| c.2 - c.0 <= DEPTH + 50);
        }
        self.on_finish(w, s);
    }
    fn on_finish(&mut self, w: &mut World, _s: &Snap) {
        if !w.calm() {
            return;
        }
        let calm = w.quiet_since();
        for (addr, p) in self.peers.iter().filter(|(_, p)| p.relay) {
            let Some(id) = w.by_addr.get(addr) else { continue };
            let Some(c) = w.conns.get(id) else { continue };
            let ps = &w.peers[c.peer];
            if ps.evil || !ps.up {
                continue;
            }
            for (txid, t) in &self.txs {
                let Some(at) = t.pending else { continue };
                if w.now < at.max(p.since).max(calm) + FOLLOW {
                    continue;
                }
                w.stats.evaluations += 1;
                *w.stats.probes.entry("relay-checked").or_default() += 1;
                let asked = w.tx_asked.get(&(*id, *txid)).copied();
                let always = w.plan.cfg.aux2 & 2 == 0;
                if !ps.mempool.contains_key(txid) || (always && (asked.is_none() || (at > calm + FOLLOW && asked.map_or(false, |a| a + FOLLOW < at)))) {
                    let class = if asked.is_some() && !ps.mempool.contains_key(txid) { "request not served" } else { "transaction not announced" };
                    w.violate(class, format!("{} to {}, connected for {} s, submitted {} s ago", txid, addr, (w.now - p.since) / 1000, (w.now - at) / 1000));
                    return;
                }
            }
        }
    }
}
