//! Misbehaving peers are dropped and honest ones never are (C11).
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, SocketAddr};

use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::util::bip158::BlockFilter;
use nakamoto_common::bitcoin::BlockHash;
use nakamoto_p2p::fsm::Event;

use crate::oracle::Oracle;
use crate::refchain;
use crate::world::{short, Action, NetMsg, Note, Rx, Snap, World};

use super::session::stored_filters;

#[derive(Default)]
struct Sess {
    version: bool,
    verack: bool,
    tx_verack: bool,
    /// Its disconnection was decided.
    gone: bool,
}

#[derive(Default)]
pub struct Behave {
    all: BTreeMap<SocketAddr, Sess>,
    /// Peers which must be disconnected by the end of the step, and why.
    due: BTreeMap<SocketAddr, String>,
    /// Header messages since the last step.
    headers: u64,
    /// Something that may change the filter headers happened in this step.
    filters: u64,
    /// Addresses never to be dialled again, unless the user asks.
    banned: BTreeMap<IpAddr, String>,
    allowed: BTreeSet<SocketAddr>,
    reorgs: u64,
    /// Filter headers asked for: stop hash -> (time, reorganisations so far).
    asked: BTreeMap<BlockHash, (u64, u64)>,
}

fn misbehaviour(reason: &str) -> bool {
    reason.contains("misbehaving") || reason.contains("decode error") || reason.contains("invalid magic")
}

/// The node would take these reasons as permanent.
fn permanent(reason: &str) -> bool {
    misbehaviour(reason)
}

fn forged(w: &World) -> bool {
    stored_filters(&w.dir).iter().enumerate().any(|(i, (_, h))| match w.view.get(i + 1).and_then(|b| w.u.find(b)) {
        Some(b) => b.filter_header != *h,
        None => false,
    })
}

impl Behave {
    fn blame(&mut self, w: &mut World, addr: &SocketAddr, what: String) {
        let Some(p) = w.peer_of(addr) else { return };
        let p = &w.peers[p];
        if p.evil || p.tainted {
            w.probe("culprit-reported");
            return;
        }
        if forged(w) {
            w.violate("honest peer punished after forged filter headers", format!("{} follows the protocol: {}; the node had accepted forged filter headers", addr, what));
        } else {
            w.violate("honest peer punished", format!("{} follows the protocol: {}", addr, what));
        }
    }

    /// Is this list of headers provably invalid?
    fn bad_headers(&self, w: &World, hs: &[nakamoto_common::bitcoin::BlockHeader]) -> Option<String> {
        if hs.len() > 2000 {
            return Some(format!("{} headers in one message", hs.len()));
        }
        if hs.len() > 24 {
            return None; // may be ignored when unsolicited
        }
        let mut tip = *w.view.last()?;
        let present = w.local_time().as_secs().min(w.true_secs());
        for h in hs {
            let hash = h.block_hash();
            if w.view.contains(&hash) {
                continue;
            }
            if h.prev_blockhash != tip || h.time as u64 > present + 2900 {
                return None;
            }
            let (id, height) = w.u.find(&hash).map(|b| (b.id, b.height))?;
            if w.checkpoints.iter().any(|(at, _)| *at >= height) {
                return None;
            }
            if let Err(e) = refchain::check_static(&w.u, id) {
                return Some(format!("invalid header {}: {:?}", short(&hash), e));
            }
            tip = hash;
        }
        None
    }
}

impl Oracle for Behave {
    fn wants_snapshot(&self) -> bool {
        true
    }

    fn on_boot(&mut self, w: &mut World) {
        *self = Behave::default();
        for a in &w.persistent() {
            self.allowed.insert(*a);
        }
    }

    fn on_note(&mut self, _w: &mut World, n: &Note) {
        if let Note::Connect { addr } = n {
            self.allowed.insert(*addr);
        }
    }

    fn on_input(&mut self, _w: &mut World, a: &Action) {
        match a {
            Action::Connected(_, addr, _) => {
                self.all.insert(*addr, Sess::default());
            }
            Action::Lost(_, addr, _) => {
                self.all.remove(addr);
                self.due.remove(addr);
            }
            _ => {}
        }
    }

    fn on_received(&mut self, w: &mut World, addr: &SocketAddr, _conn: u64, m: &Rx) {
        let Some(s) = self.all.get_mut(addr) else { return };
        if s.gone {
            return;
        }
        let done = s.version && s.verack && s.tx_verack;
        let why = match m {
            Rx::Magic => Some("a message of another network".to_string()),
            Rx::Garbage => Some("undecodable bytes".to_string()),
            Rx::Msg(m) => match &**m {
                NetworkMessage::Version(_) => {
                    s.version = true;
                    None
                }
                NetworkMessage::Verack if s.version && !s.verack => {
                    s.verack = true;
                    None
                }
                NetworkMessage::Verack if done => Some("a second verack".into()),
                NetworkMessage::WtxidRelay if done => Some("wtxidrelay after verack".into()),
                NetworkMessage::Headers(hs) if done => {
                    self.headers += 1;
                    if self.headers == 1 || hs.len() > 2000 {
                        self.bad_headers(w, hs)
                    } else {
                        None
                    }
                }
                NetworkMessage::GetCFHeaders(g) if done && g.filter_type != 0 => Some("a request for filters of an unknown type".into()),
                NetworkMessage::CFHeaders(c) if done => {
                    self.filters += 1;
                    match self.asked.remove(&c.stop_hash) {
                        Some((at, reorgs)) if w.now < at + 5_000 && reorgs == self.reorgs && self.headers == 0 && self.filters == 1 && w.view.contains(&c.stop_hash) => {
                            let stored = stored_filters(&w.dir);
                            let stop = w.view.iter().position(|h| *h == c.stop_hash).unwrap();
                            let tip = stored.last().map(|s| s.1).unwrap_or(w.u.get(0).filter_header);
                            if c.filter_type != 0 {
                                Some("filter headers of another type than requested".into())
                            } else if stop > stored.len() && c.previous_filter_header == tip && c.filter_hashes.len() != stop - stored.len() {
                                Some(format!("{} filter headers instead of {}", c.filter_hashes.len(), stop - stored.len()))
                            } else {
                                None
                            }
                        }
                        _ => None,
                    }
                }
                NetworkMessage::CFilter(c) if done && c.filter_type == 0 && self.headers == 0 && self.filters == 0 => {
                    match w.view.iter().position(|h| *h == c.block_hash) {
                        Some(h) if h > 0 => {
                            let stored = stored_filters(&w.dir);
                            let prev = if h == 1 { Some(w.u.get(0).filter_header) } else { stored.get(h - 2).map(|s| s.1) };
                            match (prev, stored.get(h - 1)) {
                                (Some(prev), Some((_, header))) if BlockFilter::new(&c.filter).filter_header(&prev) != *header => {
                                    Some(format!("a filter for {} which contradicts its header", short(&c.block_hash)))
                                }
                                _ => None,
                            }
                        }
                        _ => None,
                    }
                }
                _ => None,
            },
        };
        if let Some(why) = why {
            w.probe("provable-misbehaviour");
            w.stats.evaluations += 1;
            self.due.entry(*addr).or_insert(why);
        }
    }

    fn on_event(&mut self, w: &mut World, e: &Event) {
        match e {
            Event::PeerMisbehaved { addr, reason } => {
                w.stats.evaluations += 1;
                self.blame(w, addr, format!("reported as misbehaving: {}", reason));
            }
            Event::BlockHeadersImported { reorg: true, .. } => self.reorgs += 1,
            _ => {}
        }
    }

    fn on_sent(&mut self, w: &mut World, addr: &SocketAddr, conn: Option<u64>, m: &NetMsg) {
        if conn.is_none() {
            return;
        }
        match &**m {
            NetworkMessage::Verack => {
                if let Some(s) = self.all.get_mut(addr) {
                    s.tx_verack = true;
                }
            }
            NetworkMessage::GetCFHeaders(g) => {
                self.asked.insert(g.stop_hash, (w.now, self.reorgs));
            }
            _ => {}
        }
    }

    fn on_disconnect(&mut self, w: &mut World, addr: &SocketAddr, reason: &str) {
        self.due.remove(addr);
        if let Some(s) = self.all.get_mut(addr) {
            s.gone = true;
        }
        if misbehaviour(reason) {
            w.stats.evaluations += 1;
            self.blame(w, addr, format!("disconnected: {}", reason));
        }
        if permanent(reason) {
            self.banned.insert(addr.ip(), reason.to_string());
            self.allowed.retain(|a| a.ip() != addr.ip() || w.persistent().contains(a));
        }
    }

    fn on_dial(&mut self, w: &mut World, addr: &SocketAddr) {
        w.stats.evaluations += 1;
        if let Some(why) = self.banned.get(&addr.ip()) {
            if !self.allowed.contains(addr) {
                w.violate("banned peer dialled", format!("{} was dialled again after having been disconnected: {}", addr, why));
            }
        }
    }

    fn on_step(&mut self, w: &mut World, _s: &Snap) {
        self.headers = 0;
        self.filters = 0;
        if let Some((addr, why)) = self.due.iter().next() {
            let d = format!("{} sent {} and is still connected", addr, why);
            w.violate("misbehaving peer kept", d);
        }
        self.due.clear();
    }
}
