//! Hostile input stays without consequences for anyone else (C13).
use std::collections::BTreeMap;
use std::net::SocketAddr;

use crate::oracle::Oracle;
use crate::world::{Action, Rx, Snap, World};

#[derive(Default)]
pub struct Contained {
    /// Connections with undecodable bytes handed over in this step, and whether anything else was.
    bad: BTreeMap<SocketAddr, u64>,
    other: bool,
    cut: Vec<SocketAddr>,
    reads: u64,
}

impl Oracle for Contained {
    fn wants_snapshot(&self) -> bool {
        true
    }
    fn on_boot(&mut self, _w: &mut World) {
        *self = Contained::default();
    }
    fn on_input(&mut self, _w: &mut World, a: &Action) {
        if !matches!(a, Action::Msg(..)) {
            self.other = true;
        }
    }
    fn on_received(&mut self, w: &mut World, addr: &SocketAddr, conn: u64, m: &Rx) {
        if w.peer_of(addr).map_or(false, |p| w.plan.cfg.evil >> p & 1 == 1) {
            w.probe("hostile-input");
        }
        match m {
            Rx::Garbage | Rx::Magic => {
                w.probe("undecodable-input");
                self.bad.insert(*addr, conn);
            }
            _ if self.bad.contains_key(addr) => {}
            _ => self.other = true,
        }
    }
    fn on_disconnect(&mut self, _w: &mut World, addr: &SocketAddr, _reason: &str) {
        self.cut.push(*addr);
    }
    fn on_step(&mut self, w: &mut World, s: &Snap) {
        w.stats.evaluations += 1;
        if !self.bad.is_empty() && !self.other {
            if let Some(a) = self.cut.iter().find(|a| !self.bad.contains_key(a)) {
                w.violate("another connection ended", format!("undecodable bytes from {:?} ended the connection to {}", self.bad, a));
                return;
            }
        }
        for (a, id) in self.bad.iter() {
            if w.by_addr.get(a) == Some(id) {
                w.violate("undecodable stream not ended", format!("the bytes of {} can't be followed any more", a));
                return;
            }
        }
        if s.reads == self.reads {
            w.violate("query not executed", "a query of the user was not executed");
            return;
        }
        self.reads = s.reads;
        self.bad.clear();
        self.cut.clear();
        self.other = false;
    }
}
