//! Connectivity (C17).
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, SocketAddr};

use nakamoto_net::Link;
use nakamoto_p2p::fsm::Event;

use crate::oracle::Oracle;
use crate::world::{Action, Note, Snap, World};

use super::book;

/// A configured peer that is not connected.
#[derive(Clone, Debug, Default)]
struct Down {
    at: u64,
    skew: i64,
    /// Failures since the last success.
    fails: u64,
    /// The delay of the previous redial in this series.
    last: Option<u64>,
    /// Waiting to be redialled.
    waiting: bool,
    /// The clock or the user interfered.
    excused: bool,
}

#[derive(Default)]
pub struct Links {
    negotiated: BTreeMap<SocketAddr, Link>,
    down: BTreeMap<SocketAddr, Down>,
    banned: BTreeSet<IpAddr>,
    /// Since when there are too few connections, and who could be connected.
    few: Option<(u64, BTreeSet<SocketAddr>)>,
    book: Vec<SocketAddr>,
    read_at: u64,
    /// Since when a configured peer could be connected.
    apart: BTreeMap<SocketAddr, u64>,
    skew: i64,
}

const MAX_WAIT: u64 = 3_600_000;

impl Links {
    fn slack(w: &World) -> u64 {
        w.plan.cfg.slop + w.plan.cfg.batch + 2_200
    }

    fn failed(&mut self, w: &World, addr: &SocketAddr) {
        if !w.persistent().contains(addr) {
            return;
        }
        let d = self.down.entry(*addr).or_default();
        d.at = w.now;
        d.skew = w.clock_skew;
        d.fails += 1;
        d.waiting = true;
    }

    fn check(&mut self, w: &mut World) {
        let persistent = w.persistent();
        if self.skew != w.clock_skew {
            self.skew = w.clock_skew;
            for d in self.down.values_mut() {
                d.excused = true;
            }
        }
        for (addr, d) in &self.down {
            if d.waiting && !d.excused && w.now > d.at + MAX_WAIT + Self::slack(w) {
                let s = format!("{} was lost {} s ago ({} failures) and not redialled", addr, (w.now - d.at) / 1000, d.fails);
                w.violate("configured peer abandoned", s);
                return;
            }
        }
        if !w.calm() {
            return;
        }
        let since = w.quiet_since();
        for addr in &persistent {
            let Some(p) = w.peer_of(addr) else { continue };
            let ok = !w.peers[p].evil && !w.peers[p].tainted && w.peers[p].up && w.plan.cfg.limited >> p & 1 == 0 && w.peers[p].addr == *addr;
            if !ok || self.negotiated.contains_key(addr) {
                self.apart.remove(addr);
                continue;
            }
            let at = (*self.apart.entry(*addr).or_insert(w.now)).max(since);
            if w.now > at + MAX_WAIT + 300_000 {
                w.violate("configured peer not reconnected", format!("{} can be reached since {} s", addr, (w.now - at) / 1000));
                return;
            }
        }
        if !persistent.is_empty() {
            w.stats.evaluations += 1;
            if w.now > since + MAX_WAIT + 300_000 {
                w.probe("configured-peers-checked");
            }
            return;
        }
        if w.now >= self.read_at + 60_000 {
            self.read_at = w.now;
            self.book = book::read(&w.dir).ok().flatten().unwrap_or_default().values().map(|e| e.addr).collect();
        }
        let able: BTreeSet<SocketAddr> = self
            .book
            .iter()
            .filter(|a| {
                let Some(p) = w.peer_of(a) else { return false };
                let q = &w.peers[p];
                let inbound = w.by_addr.iter().any(|(b, id)| b.ip() == a.ip() && w.conns.get(id).map_or(false, |c| c.link.is_inbound()));
                q.addr == **a && !q.evil && !q.tainted && q.up && w.plan.cfg.limited >> p & 1 == 0 && !self.banned.contains(&a.ip()) && !inbound
            })
            .copied()
            .collect();
        let have = self.negotiated.values().filter(|l| l.is_outbound()).count();
        let need = able.len().min(w.plan.cfg.max_out as usize);
        if have >= need {
            self.few = None;
            w.stats.evaluations += 1;
            if need > 0 && w.now > since + 2_000_000 {
                w.probe("outbound-target-checked");
            }
            return;
        }
        match &mut self.few {
            Some((at, who)) => {
                if !able.is_subset(who) {
                    *at = w.now;
                }
                *who = able.clone();
            }
            None => self.few = Some((w.now, able.clone())),
        }
        let at = self.few.as_ref().unwrap().0.max(since);
        let bound = 1_800_000 + 20_000 * self.book.len() as u64;
        if w.now > at + bound {
            w.violate(
                "too few connections",
                format!("for {} s the node has had {} outbound peers, with a target of {} and {} reachable addresses in its book: {:?}", (w.now - at) / 1000, have, w.plan.cfg.max_out, able.len(), able),
            );
        }
    }
}

impl Oracle for Links {
    fn on_boot(&mut self, w: &mut World) {
        *self = Links::default();
        self.skew = w.clock_skew;
    }

    fn on_note(&mut self, _w: &mut World, n: &Note) {
        match n {
            Note::Connect { addr } | Note::Disconnect { addr } => {
                self.down.entry(*addr).or_default().excused = true;
            }
            _ => {}
        }
    }

    fn on_input(&mut self, w: &mut World, a: &Action) {
        match a {
            Action::Connected(_, addr, Link::Outbound) => {
                if let Some(d) = self.down.get_mut(addr) {
                    *d = Down::default();
                }
            }
            Action::Lost(_, addr, _) => {
                self.negotiated.remove(addr);
                self.failed(w, addr);
            }
            _ => {}
        }
    }

    fn on_event(&mut self, w: &mut World, e: &Event) {
        match e {
            Event::PeerNegotiated { addr, link, .. } => {
                // (It may be gone by now.)
                if w.by_addr.contains_key(addr) {
                    self.negotiated.insert(*addr, *link);
                }
            }
            Event::PeerDisconnected { addr, reason } => {
                if book::bans(reason) {
                    self.banned.insert(addr.ip());
                }
            }
            _ => {}
        }
    }

    fn on_disconnect(&mut self, w: &mut World, addr: &SocketAddr, _reason: &str) {
        self.negotiated.remove(addr);
        if w.by_addr.contains_key(addr) {
            self.failed(w, addr);
        }
    }

    fn on_dial(&mut self, w: &mut World, addr: &SocketAddr) {
        let slack = Self::slack(w);
        let Some(d) = self.down.get_mut(addr) else { return };
        if !d.waiting {
            return;
        }
        d.waiting = false;
        if d.skew != w.clock_skew {
            d.excused = true;
        }
        if d.excused {
            d.last = None;
            return;
        }
        let delay = w.now - d.at;
        w.stats.evaluations += 1;
        w.probe("redial");
        if d.fails >= 3 {
            w.probe("redial-after-failures");
        }
        let why = if delay > MAX_WAIT + slack {
            Some("too late".to_string())
        } else if d.fails == 1 && delay > 5_000 + slack {
            Some("too late for the first time".to_string())
        } else if d.last.map_or(false, |l| delay + slack < l) {
            Some(format!("sooner than the previous time ({} ms)", d.last.unwrap()))
        } else if d.fails >= 8 && delay < 20_000 {
            Some("without a growing delay".to_string())
        } else {
            None
        };
        d.last = Some(delay);
        if let Some(why) = why {
            let s = format!("{} was redialled after {} ms and {} failures: {}", addr, delay, d.fails, why);
            w.violate("redial delay", s);
        }
    }

    fn on_step(&mut self, w: &mut World, _s: &Snap) {
        self.check(w);
    }

    fn on_finish(&mut self, w: &mut World, _s: &Snap) {
        self.check(w);
    }
}
