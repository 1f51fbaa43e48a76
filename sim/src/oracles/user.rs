//! Answers, waits and subscriptions of user threads (C19).
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;

use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::{BlockHash, BlockHeader, Txid};
use nakamoto_net::Link;
use nakamoto_p2p::fsm::Event;

use crate::oracle::Oracle;
use crate::users::{Call, Ret};
use crate::world::{NetMsg, Snap, World};

/// What is allowed for the schedule: a user thread is delayed for some seconds at most, a few times per call.
const SLACK: u64 = 20_000;

enum Want {
    Any,
    Tip(u64, BlockHeader, nakamoto_common::bitcoin::util::uint::Uint256),
    Block(Option<(u64, BlockHeader)>),
    Header(Option<BlockHeader>),
    Branch(BTreeMap<BlockHash, u64>, bool),
    Peers(BTreeSet<SocketAddr>),
    Tx(bool),
    Refused,
    /// The tip after the import.
    Import(BlockHash, Option<(u64, BlockHash)>),
}

#[derive(Default)]
pub struct Answers {
    /// Negotiated peers, as the events have it.
    neg: BTreeMap<SocketAddr, (ServiceFlags, Link)>,
    conn: BTreeMap<SocketAddr, Link>,
    /// Every change of them.
    neg_log: Vec<(u64, BTreeMap<SocketAddr, ServiceFlags>)>,
    /// Time, number of the event, address, connected with this link or disconnected.
    conn_log: Vec<(u64, usize, SocketAddr, Option<Link>)>,
    heights: Vec<(u64, u64)>,
    /// Blocks of the active chain: height, hash, from, to.
    active: Vec<(u64, BlockHash, u64, u64)>,
    chain: Vec<BlockHash>,
    /// Connected blocks as the events have it; the state is only looked at between the steps.
    connected: Vec<(u64, BlockHash, u64)>,
    want: BTreeMap<usize, Want>,
    /// Peers that were disconnected by a command whose events are not out.
    leaving: BTreeSet<SocketAddr>,
    submitted: BTreeSet<Txid>,
    importing: Vec<usize>,
    /// The last command of every user that was executed.
    last: BTreeMap<usize, usize>,
    feefilters: BTreeMap<u64, Vec<SocketAddr>>,
    published: usize,
    /// Number of published events, by time.
    rate: Vec<(u64, usize)>,
}

impl Answers {
    /// Slack for a reaction to something at time `a`, when there are events to go through.
    fn slack(&self, a: u64, b: u64) -> u64 {
        let n = |t: u64| self.rate.partition_point(|r| r.0 <= t);
        SLACK + 30 * (n(b) - n(a.saturating_sub(60_000))) as u64
    }

    fn imported(&mut self, s: &Snap) {
        for c in std::mem::take(&mut self.importing) {
            if let Some(Want::Import(_, after)) = self.want.get_mut(&c) {
                *after = Some((s.height, s.tip.0));
            }
        }
    }

    fn see(&mut self, now: u64, s: &Snap) {
        self.imported(s);
        if self.heights.last().map(|h| h.1) != Some(s.height) {
            self.heights.push((now, s.height));
        }
        let mut keep = self.chain.len().min(s.hashes.len());
        // The common part.
        while keep > 0 && self.chain[keep - 1] != s.hashes[keep - 1] {
            keep -= 1;
        }
        if keep < self.chain.len() {
            for a in self.active.iter_mut().rev() {
                if a.3 == u64::MAX && a.0 >= keep as u64 {
                    a.3 = now;
                }
            }
            self.chain.truncate(keep);
        }
        for h in keep..s.hashes.len() {
            self.chain.push(s.hashes[h]);
            self.active.push((h as u64, s.hashes[h], now, u64::MAX));
        }
    }

    /// When the chain was at least that high, from `start` on and without interruption until `end`.
    fn reached(&self, h: u64, start: u64, end: u64) -> Option<u64> {
        let mut x = None;
        for (i, (t, n)) in self.heights.iter().enumerate() {
            let until = self.heights.get(i + 1).map_or(u64::MAX, |n| n.0);
            if *t > end || until < start {
                continue;
            }
            if *n >= h {
                x = x.or(Some((*t).max(start)));
            } else {
                x = None;
            }
        }
        x
    }

    /// Periods (within the two times) in which there were enough peers.
    fn enough(&self, count: u64, services: u64, start: u64, end: u64) -> Vec<(u64, u64)> {
        let s = ServiceFlags::from(services);
        let mut v: Vec<(u64, u64)> = vec![];
        let mut open = None;
        if count == 0 && self.neg_log.is_empty() {
            return vec![(start, end)];
        }
        for (i, (t, m)) in self.neg_log.iter().enumerate() {
            let until = self.neg_log.get(i + 1).map_or(u64::MAX, |n| n.0);
            let ok = m.values().filter(|x| x.has(s)).count() as u64 >= count;
            if ok {
                open = open.or(Some(*t));
            }
            if let Some(o) = open {
                if !ok {
                    v.push((o, *t));
                    open = None;
                } else if until == u64::MAX {
                    v.push((o, until));
                }
            }
        }
        v.into_iter().map(|(a, b)| (a.max(start), b.min(end))).filter(|(a, b)| a <= b).collect()
    }

    fn check(&mut self, w: &mut World, id: usize, stopped: Option<u64>) {
        let rec = w.calls[id].clone();
        let Some((start, from)) = rec.start else { return };
        let (end, r) = match &rec.end {
            Some(e) => e.clone(),
            None => return,
        };
        w.stats.evaluations += 1;
        let bad = |w: &World, class: &str, text: String| w.violate(class.to_string(), format!("{:?}: {}", rec.call, text).chars().take(400).collect::<String>());
        match &r {
            Ret::Panic(e) => return bad(w, "panic in a user's call", e.clone()),
            Ret::Bad(e) => return bad(w, "subscription", e.clone()),
            _ => {}
        }
        // The node was stopped in the meantime.
        let over = stopped.is_some() || w.shutting;
        if let Some(stop) = stopped {
            if !rec.call.waits() && start < stop && start + self.slack(start, stop) < stop {
                bad(w, "late answer", format!("none after {} ms", stop - start));
            }
        }
        if matches!(r, Ret::Disconnected) {
            if !over {
                bad(w, "call failed", "disconnected although the node is running".into());
            }
            return;
        }
        let slack = self.slack(start, end);
        if rec.call.waits() {
            if matches!(r, Ret::Timeout) {
                // Nb. The clock of a busy thread runs ahead by a microsecond whenever it is read.
                if end + 20 < start + rec.timeout {
                    bad(w, "early timeout", format!("after {} ms of {}", end - start, rec.timeout));
                }
                w.probe("wait-timed-out");
            } else {
                w.probe("wait-satisfied");
            }
            if end > start + rec.timeout + slack {
                bad(w, "late timeout", format!("after {} ms of {}", end - start, rec.timeout));
            }
        } else if end > start + slack {
            bad(w, "late answer", format!("after {} ms", end - start));
        }
        let end = stopped.map_or(end, |s| end.min(s).max(start));
        if rec.call.single() && !over {
            if rec.executed != 1 || rec.sent != 1 {
                // Calls that don't wait for an answer return before they are executed.
                let late = matches!(rec.call, Call::Rescan(..) | Call::Watch(_) | Call::ReqBlock(_) | Call::Addresses(_));
                if !late || rec.sent != 1 {
                    bad(w, "not executed once", format!("sent {} times, executed {} times", rec.sent, rec.executed));
                }
            }
        }
        let want = self.want.remove(&id).unwrap_or(Want::Any);
        let wrong = |w: &World, text: String| bad(w, "wrong answer", text);
        match (&rec.call, &r, want) {
            (_, Ret::Tip(a, b, c), Want::Tip(x, y, z)) => {
                if (a, b, c) != (&x, &y, &z) {
                    wrong(w, format!("tip at height {} instead of {}", a, x));
                }
            }
            (_, Ret::Block(a), Want::Block(b)) => {
                if *a != b {
                    wrong(w, format!("{:?} instead of {:?}", a.map(|x| x.0), b.map(|x| x.0)));
                }
            }
            (_, Ret::Header(a), Want::Header(b)) => {
                if *a != b {
                    wrong(w, format!("{:?} instead of {:?}", a.map(|x| x.block_hash()), b.map(|x| x.block_hash())));
                }
            }
            (Call::Branch(to), Ret::Branch(a), Want::Branch(chain, known)) => match a {
                None => {
                    if known {
                        wrong(w, "no branch to a block that was once active".into());
                    }
                }
                Some((h, v)) => {
                    let on = chain.get(to).copied();
                    let ok = !v.is_empty()
                        && v.last().unwrap().block_hash() == *to
                        && v.windows(2).all(|x| x[1].prev_blockhash == x[0].block_hash())
                        && chain.get(&v[0].block_hash()) == Some(h)
                        && v[1..].iter().all(|x| !chain.contains_key(&x.block_hash()))
                        && on.map_or(v.len() > 1, |n| v.len() == 1 && n == *h);
                    if !ok {
                        wrong(w, format!("a branch of {} headers at height {}", v.len(), h));
                    }
                    if v.len() > 1 {
                        w.probe("stale-branch-found");
                    }
                }
            },
            (Call::Peers(_), Ret::Peers(v), Want::Peers(x)) => {
                if v.iter().copied().collect::<BTreeSet<_>>() != x || v.len() != x.len() {
                    wrong(w, format!("{:?} instead of {:?}", v, x));
                }
            }
            (Call::Broadcast(n, _), Ret::Addrs(v), Want::Peers(x)) => {
                if v.iter().copied().collect::<BTreeSet<_>>() != x || v.len() != x.len() {
                    wrong(w, format!("{:?} instead of {:?}", v, x));
                }
                let _ = n;
            }
            (_, Ret::Tx(t), Want::Tx(b)) => {
                if let Call::Submitted(id) = &rec.call {
                    if t.is_some() != b || t.as_ref().map_or(false, |t| t.txid() != *id) {
                        wrong(w, format!("{} instead of {}", t.is_some(), b));
                    }
                }
            }
            (Call::Filters(..), Ret::Unit, Want::Refused) => wrong(w, "an invalid range was accepted".into()),
            (Call::Submit(_), Ret::Addrs(v), _) => {
                if v.is_empty() {
                    wrong(w, "announced to nobody".into());
                }
            }
            (_, Ret::Imported(t), Want::Import(before, Some(after))) if w.plan.cfg.batch == 0 => {
                let ok = match t {
                    Some(t) => *t == after,
                    None => before == after.1,
                };
                if !ok {
                    wrong(w, format!("{:?}, but the tip is {:?}", t, after));
                }
            }
            (Call::WaitHeight(h), r, _) => {
                let x = self.reached(*h, start, end);
                if let Some(x) = x {
                    let slack = self.slack(x, end);
                    if x + slack < end {
                        bad(w, "missed wait", format!("height {} was reached {} ms before it returned {:?}", h, end - x, r));
                    }
                }
                if let Ret::Hash(b) = r {
                    if !self.active.iter().any(|a| a.0 == *h && a.1 == *b && a.2 <= end && a.3 >= start)
                        && !self.connected.iter().any(|a| a.0 == *h && a.1 == *b && a.2 >= start)
                    {
                        wrong(w, format!("{} is not the block at height {}", b, h));
                    }
                    w.probe("waited-for-height");
                }
            }
            (Call::WaitPeers(n, s), r, _) => {
                for (a, b) in self.enough(*n, *s, start, end) {
                    let slack = self.slack(a, b);
                    if a + slack < b {
                        bad(w, "missed wait", format!("there were {} peers for {} ms before it returned {:?}", n, b - a, r));
                    }
                }
                if let Ret::Peers(v) = r {
                    let need = ServiceFlags::from(*s);
                    let mut ok = v.len() as u64 >= *n && v.iter().collect::<BTreeSet<_>>().len() == v.len();
                    // All of them at the same time.
                    ok &= v.is_empty()
                        || w.plan.cfg.batch > 0
                        || self.neg_log.iter().enumerate().any(|(i, (t, m))| {
                            let until = self.neg_log.get(i + 1).map_or(u64::MAX, |n| n.0);
                            *t <= end && until >= start && v.iter().all(|a| m.get(a).map_or(false, |x| x.has(need)))
                        });
                    if !ok {
                        wrong(w, format!("{:?} were not connected at the same time", v));
                    }
                    w.probe("waited-for-peers");
                }
            }
            (Call::Connect(a), r, _) => {
                // It was connected all the time, or got connected.
                let mut since = None;
                for (t, n, x, l) in &self.conn_log {
                    if x == a && *t <= end {
                        since = match l {
                            Some(_) => since.or(Some((*t, *n))),
                            None => {
                                if *n >= from {
                                    // Once is enough.
                                    if let Some((t0, n0)) = since {
                                        if n0 >= from && t0 + self.slack(t0, end) < end {
                                            break;
                                        }
                                    }
                                }
                                None
                            }
                        };
                    }
                }
                if let Some((t, _)) = since {
                    let t = t.max(start);
                    if t + self.slack(t, end) < end {
                        bad(w, "missed wait", format!("connected {} ms before it returned {:?}", end - t, r));
                    }
                }
                if let Ret::Link(l) = r {
                    let mut open = None;
                    let mut ok = false;
                    for (t, n, x, link) in &self.conn_log {
                        if x != a || *t > end {
                            continue;
                        }
                        match link {
                            Some(l) => open = Some(*l),
                            None => {
                                ok |= open == Some(*l) && (*t >= start || *n >= from);
                                open = None;
                            }
                        }
                    }
                    ok |= open == Some(*l);
                    if !ok {
                        wrong(w, format!("{} was not connected ({:?})", a, l));
                    }
                    w.probe("connected-by-user");
                }
            }
            (Call::Disconnect(a), r, _) => {
                let x = self.conn_log.iter().find(|(t, n, x, l)| x == a && l.is_none() && *n >= from && *t <= end);
                match (r, x) {
                    (Ret::Unit, None) => wrong(w, format!("{} was not disconnected", a)),
                    (_, Some((t, ..))) if t + self.slack(*t, end) < end => {
                        bad(w, "missed wait", format!("disconnected {} ms before it returned {:?}", end - t, r))
                    }
                    (Ret::Unit, _) => w.probe("disconnected-by-user"),
                    _ => {}
                }
            }
            (Call::Wait(n), r, _) => {
                let i = from.saturating_add(*n as usize);
                if let (true, Some(t)) = (*n > 0, self.rate.get(i.wrapping_sub(1)).map(|r| r.0)) {
                    if t + self.slack(start, end) < end {
                        bad(w, "missed wait", format!("{} events were published {} ms before it returned {:?}", n, end - t, r));
                    }
                }
            }
            (Call::Read(..) | Call::ReadAll, Ret::Read(n), _) => {
                if *n > 0 {
                    w.probe("events-read");
                }
            }
            (c, Ret::Err(e), _) => {
                if !matches!(c, Call::Filters(..) | Call::Submit(_)) {
                    bad(w, "call failed", e.clone());
                }
            }
            (c, Ret::Timeout, _) => bad(w, "call failed", format!("{:?} timed out", c)),
            _ => {}
        }
    }
}

impl Oracle for Answers {
    fn wants_snapshot(&self) -> bool {
        true
    }

    fn on_boot(&mut self, _w: &mut World) {
        *self = Answers::default();
    }

    fn on_event(&mut self, w: &mut World, e: &Event) {
        let n = self.published;
        self.published += 1;
        self.rate.push((w.now, self.published));
        match e {
            Event::PeerConnected { addr, link, .. } => {
                self.conn.insert(*addr, *link);
                self.conn_log.push((w.now, n, *addr, Some(*link)));
            }
            Event::PeerNegotiated { addr, services, link, .. } => {
                self.neg.insert(*addr, (*services, *link));
            }
            Event::PeerDisconnected { addr, .. } => {
                self.conn.remove(addr);
                self.neg.remove(addr);
                self.leaving.remove(addr);
                self.conn_log.push((w.now, n, *addr, None));
            }
            Event::BlockConnected { header, height } => {
                self.connected.push((*height, header.block_hash(), w.now));
                return;
            }
            _ => return,
        }
        self.neg_log.push((w.now, self.neg.iter().map(|(a, s)| (*a, s.0)).collect()));
    }

    fn on_sent(&mut self, _w: &mut World, addr: &SocketAddr, _conn: Option<u64>, m: &NetMsg) {
        if let NetworkMessage::FeeFilter(n) = **m {
            self.feefilters.entry(n as u64).or_default().push(*addr);
        }
    }

    fn on_exec(&mut self, w: &mut World, call: usize, n: u64, s: &Snap) {
        self.see(w.now, s);
        let rec = &w.calls[call];
        if let Some(l) = self.last.insert(rec.user, call) {
            if l > call {
                w.violate("wrong order", format!("{:?} of user {} was executed after {:?}", rec.call, rec.user, w.calls[l].call));
            }
        }
        if n > 0 {
            if rec.call.single() {
                w.violate("not executed once", format!("{:?}: command number {}", rec.call, n + 1));
            }
            return;
        }
        let exact = w.plan.cfg.batch == 0;
        let on_chain = |h: &BlockHash| s.hashes.iter().position(|x| x == h);
        let want = match &rec.call {
            Call::Tip => Want::Tip(s.height, *s.headers.last().unwrap(), s.work),
            Call::Block(h) => Want::Block(on_chain(h).map(|i| (i as u64, s.headers[i]))),
            Call::Height(h) => Want::Header(s.headers.get(usize::try_from(*h).unwrap_or(usize::MAX)).copied()),
            Call::Branch(h) => {
                let once = self.active.iter().any(|a| a.1 == *h);
                Want::Branch(s.hashes.iter().enumerate().map(|(i, h)| (*h, i as u64)).collect(), once)
            }
            Call::Peers(x) if exact => {
                let x = ServiceFlags::from(*x);
                Want::Peers(self.neg.iter().filter(|(a, n)| n.0.has(x) && !self.leaving.contains(a)).map(|(a, _)| *a).collect())
            }
            Call::Broadcast(_, out) if exact => {
                Want::Peers(self.neg.iter().filter(|(a, n)| (!out || n.1.is_outbound()) && !self.leaving.contains(a)).map(|(a, _)| *a).collect())
            }
            Call::Filters(a, b) if a > b || *b > s.height => Want::Refused,
            Call::Submit(t) => {
                self.submitted.insert(t.txid());
                Want::Any
            }
            Call::Submitted(t) => Want::Tx(self.submitted.contains(t)),
            Call::Import(_) => {
                self.importing.push(call);
                Want::Import(s.tip.0, None)
            }
            Call::Disconnect(a) => {
                self.leaving.insert(*a);
                Want::Any
            }
            _ => Want::Any,
        };
        self.want.insert(call, want);
    }

    fn on_return(&mut self, w: &mut World, call: usize) {
        self.check(w, call, None);
    }

    fn on_step(&mut self, w: &mut World, s: &Snap) {
        self.leaving.clear();
        self.see(w.now, s);
    }

    fn on_end(&mut self, w: &mut World) {
        let stop = w.now;
        for id in 0..w.calls.len() {
            let rec = &w.calls[id];
            if rec.start.is_some() && rec.end.is_none() {
                w.violate("call never returns", format!("{:?}", rec.call).chars().take(200).collect::<String>());
                return;
            }
            // Calls that were under way when the node stopped.
            if rec.after {
                self.check(w, id, Some(stop));
            }
        }
        if w.plan.cfg.batch > 0 {
            return;
        }
        // Messages of the user were sent once to each of the peers that were named, and to no other one.
        for id in 0..w.calls.len() {
            if let (Call::Broadcast(n, _), Some((_, Ret::Addrs(v)))) = (&w.calls[id].call, &w.calls[id].end) {
                let mut sent = self.feefilters.get(n).cloned().unwrap_or_default();
                sent.sort();
                if sent != *v {
                    w.violate("wrong broadcast", format!("reported {:?}, sent to {:?}", v, sent));
                }
                w.probe("broadcast");
            }
        }
        let n = w.calls.iter().filter(|c| c.end.is_some()).count() as u64;
        *w.stats.probes.entry("calls").or_default() += n;
    }
}
