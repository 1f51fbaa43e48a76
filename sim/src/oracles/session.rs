//! Peer sessions (C10), pings (C12) and replies to peers (C16).
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, SocketAddr};

use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::message_blockdata::GetHeadersMessage;
use nakamoto_common::bitcoin::network::message_filter::{CFHeaders, GetCFHeaders};
use nakamoto_common::bitcoin::network::message_network::VersionMessage;
use nakamoto_common::bitcoin::hash_types::{FilterHash, FilterHeader};
use nakamoto_common::bitcoin::BlockHash;
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_net::Link;
use nakamoto_p2p::fsm::Event;

use crate::oracle::Oracle;
use crate::world::{short, Action, CState, NetMsg, Note, Rx, Snap, World};

/// A timer may be late by as much (the node wakes up at least once a minute for its periodic work).
const SLACK: u64 = 90_000;

struct Session {
    link: Link,
    opened: u64,
    set_back: u64,
    connected: u64,
    negotiated: u64,
    disconnected: u64,
    ended: bool,
    version: Option<VersionMessage>,
    versions: u64,
    verack: bool,
    tx_version: bool,
    tx_verack: bool,
    own: bool,
    /// Bytes of it arrived after which nothing it sends counts.
    broken: bool,
}

/// The life of each connection, as told by events and seen on the wire.
#[derive(Default)]
pub struct Sessions {
    all: BTreeMap<SocketAddr, Session>,
    /// Ended sessions and dials whose end is yet to be reported.
    trusted: BTreeSet<IpAddr>,
    /// Blocks only ever heard of from peers which had not completed the handshake.
    secret: BTreeSet<BlockHash>,
    known: BTreeSet<BlockHash>,
    /// Addresses only ever heard of from such peers.
    hearsay: BTreeSet<SocketAddr>,
    learnt: BTreeSet<SocketAddr>,
    /// Dials ended by the node itself.
    dials: BTreeSet<SocketAddr>,
    asked: BTreeSet<SocketAddr>,
}

impl Sessions {
    fn end(&mut self, addr: &SocketAddr) {
        match self.all.get_mut(addr) {
            Some(s) => s.ended = true,
            None => {
                self.dials.insert(*addr);
            }
        }
    }
}

pub fn handshake_msg(m: &NetworkMessage) -> bool {
    matches!(
        m,
        NetworkMessage::Version(_) | NetworkMessage::Verack | NetworkMessage::WtxidRelay | NetworkMessage::SendHeaders | NetworkMessage::SendAddrV2
    )
}

impl Oracle for Sessions {
    fn on_boot(&mut self, _w: &mut World) {
        self.all.clear();
        self.dials.clear();
        self.trusted.clear();
        self.asked.clear();
    }

    fn on_input(&mut self, w: &mut World, a: &Action) {
        match a {
            Action::Connected(_, addr, link) => {
                let own = w.conn_of(addr).map_or(false, |c| c.twin.is_some());
                self.all.insert(
                    *addr,
                    Session {
                        link: *link,
                        opened: w.now,
                        set_back: w.set_back,
                        connected: 0,
                        negotiated: 0,
                        disconnected: 0,
                        ended: false,
                        version: None,
                        versions: 0,
                        verack: false,
                        tx_version: false,
                        tx_verack: false,
                        own,
                        broken: false,
                    },
                );
            }
            Action::Lost(_, addr, dial) => {
                if !*dial {
                    self.end(addr);
                }
            }
            _ => {}
        }
    }

    fn on_note(&mut self, _w: &mut World, n: &Note) {
        match n {
            Note::Connect { addr } => {
                self.trusted.insert(addr.ip());
                self.asked.insert(*addr);
                self.learnt.insert(*addr);
            }
            Note::Import { headers, .. } => self.known.extend(headers.iter().map(|h| h.block_hash())),
            Note::Addresses { addrs } => self.learnt.extend(addrs.iter().filter_map(|a| a.socket_addr().ok())),
            _ => {}
        }
    }

    fn on_received(&mut self, w: &mut World, addr: &SocketAddr, _conn: u64, m: &Rx) {
        let Some(s) = self.all.get_mut(addr) else { return };
        if s.ended || s.broken {
            return;
        }
        let Rx::Msg(m) = m else {
            s.broken = true;
            return;
        };
        let done = s.version.is_some() && s.verack;
        match &**m {
            NetworkMessage::Version(v) => {
                s.versions += 1;
                if s.version.is_none() {
                    s.version = Some(v.clone());
                }
            }
            NetworkMessage::Verack if s.version.is_some() => s.verack = true,
            NetworkMessage::Headers(hs) => {
                for h in hs {
                    let h = h.block_hash();
                    if done {
                        self.known.insert(h);
                    } else {
                        w.probe("early-headers");
                        self.secret.insert(h);
                    }
                }
            }
            NetworkMessage::Addr(v) => {
                for (_, a) in v {
                    if let Ok(a) = a.socket_addr() {
                        if done {
                            self.learnt.insert(a);
                        } else {
                            self.hearsay.insert(a);
                        }
                    }
                }
            }
            _ => {}
        }
        if !done && !handshake_msg(m) {
            w.probe("early-message");
        }
    }

    fn on_sent(&mut self, w: &mut World, addr: &SocketAddr, conn: Option<u64>, m: &NetMsg) {
        if conn.is_none() {
            return;
        }
        let Some(s) = self.all.get_mut(addr) else { return };
        w.stats.evaluations += 1;
        match &**m {
            NetworkMessage::Version(_) => s.tx_version = true,
            NetworkMessage::Verack => s.tx_verack = true,
            _ => {}
        }
        if !(s.verack && s.tx_verack) && !handshake_msg(m) {
            w.violate(
                "message before the handshake",
                format!("the node sent {} to {} which has not completed the handshake", crate::world::brief(m), addr),
            );
        }
    }

    fn on_dial(&mut self, w: &mut World, addr: &SocketAddr) {
        if self.hearsay.contains(addr) && !self.learnt.contains(addr) && w.peers.iter().all(|p| p.addr != *addr) {
            w.violate("acted before the handshake", format!("the node dials {}, which it heard of only from peers that had not completed the handshake", addr));
        }
    }

    fn on_disconnect(&mut self, w: &mut World, addr: &SocketAddr, _reason: &str) {
        if let Some(c) = w.conn_of(addr) {
            if c.state == CState::Dialing {
                self.all.remove(addr);
            }
            self.end(addr);
        }
    }

    fn on_event(&mut self, w: &mut World, e: &Event) {
        match e {
            Event::PeerConnected { addr, link, .. } => {
                w.stats.evaluations += 1;
                match self.all.get_mut(addr) {
                    Some(s) if s.connected == 0 && s.disconnected == 0 && s.link == *link => s.connected = 1,
                    _ => w.violate("session events", format!("connected event for {} out of place", addr)),
                }
            }
            Event::PeerNegotiated { addr, link, services, height, version, relay, .. } => {
                w.stats.evaluations += 1;
                w.probe("negotiated");
                let (max_in, user) = (w.plan.cfg.max_in, self.asked.contains(addr));
                let _ = (max_in, user);
                let trusted = self.trusted.contains(&addr.ip());
                let Some(s) = self.all.get_mut(addr) else {
                    w.violate("session events", format!("negotiated event for {}, which is not connected", addr));
                    return;
                };
                if s.connected != 1 || s.negotiated != 0 || s.disconnected != 0 || s.link != *link {
                    w.violate(
                        "session events",
                        format!("negotiated event for {} out of place: {} connected, {} negotiated and {} disconnected events before it", addr, s.connected, s.negotiated, s.disconnected),
                    );
                    return;
                }
                s.negotiated = 1;
                let Some(v) = s.version.as_ref().filter(|_| s.verack) else {
                    w.violate("handshake incomplete", format!("{} negotiated without a version and a verack after it", addr));
                    return;
                };
                if !s.tx_version || !s.tx_verack {
                    w.violate("handshake incomplete", format!("{} negotiated before our version and verack were sent", addr));
                }
                if s.own {
                    w.violate("connected to itself", format!("the connection to itself at {} was negotiated", addr));
                }
                if v.version < 70012 {
                    w.violate("unsuitable peer", format!("{} negotiated with version {}", addr, v.version));
                }
                if link.is_outbound() && !trusted && !v.services.has(ServiceFlags::NETWORK) {
                    w.violate("unsuitable peer", format!("outbound {} negotiated with services {}", addr, v.services));
                }
                if *services != v.services || *relay != v.relay || *version != v.version.min(70016) || (v.start_height >= 0 && *height != v.start_height as u64) {
                    w.violate("peer details", format!("{} negotiated with details other than those of its version message", addr));
                }
            }
            Event::PeerDisconnected { addr, .. } => {
                w.stats.evaluations += 1;
                if let Some(s) = self.all.get_mut(addr) {
                    if s.connected == 1 && s.disconnected == 0 && s.ended {
                        s.disconnected = 1;
                    } else {
                        w.violate(
                            "session events",
                            format!("disconnected event for {} out of place: {} connected, {} disconnected events before it, the connection is {}", addr, s.connected, s.disconnected, if s.ended { "over" } else { "not over" }),
                        );
                    }
                } else if !self.dials.contains(addr) {
                    w.violate("session events", format!("disconnected event for {}, which was not connected", addr));
                }
            }
            Event::BlockConnected { header, height } => {
                let h = header.block_hash();
                if self.secret.contains(&h) && !self.known.contains(&h) {
                    w.violate(
                        "acted before the handshake",
                        format!("block {} at height {} was accepted from a peer that had not completed the handshake", short(&h), height),
                    );
                }
            }
            Event::FilterReceived { from, .. } => {
                if self.all.get(from).map_or(true, |s| s.negotiated == 0) {
                    w.violate("acted before the handshake", format!("a filter was accepted from {}, which had not completed the handshake", from));
                }
            }
            _ => {}
        }
    }

    fn on_step(&mut self, w: &mut World, _s: &Snap) {
        let mut inbound = 0;
        for (addr, s) in &self.all {
            if s.ended && (s.disconnected != 1 || s.connected != 1) {
                w.violate(
                    "session events",
                    format!("the connection with {} is over, with {} connected and {} disconnected events", addr, s.connected, s.disconnected),
                );
                return;
            }
            if !s.ended && s.connected != 1 {
                w.violate("session events", format!("the connection with {} is up, with {} connected events", addr, s.connected));
                return;
            }
            if !s.ended && s.link.is_inbound() {
                inbound += 1;
            }
            let due = s.opened + (w.set_back - s.set_back) + 24_000 + SLACK;
            if !s.ended && s.negotiated == 0 && w.now > due {
                w.violate("handshake timeout", format!("{} is kept for {} s without a handshake", addr, (w.now - s.opened) / 1000));
                return;
            }
            if !s.ended && s.broken && w.now > s.opened + 600_000 {
                // (Checked by C11, C13.)
            }
        }
        if inbound > w.plan.cfg.max_in {
            w.violate("inbound limit", format!("{} inbound connections, allowed: {}", inbound, w.plan.cfg.max_in));
        }
        if w.plan.cfg.mode == 1 {
            let t = w.plan.cfg.max_out;
            let out = w.by_addr.iter().filter(|(a, i)| w.conns.get(i).map_or(false, |c| c.link.is_outbound()) && !self.asked.contains(a)).count() as u64;
            if out > t + t / 2 {
                w.violate("outbound limit", format!("{} outbound connections and attempts, target: {}", out, t));
            }
        }
        self.all.retain(|_, s| !s.ended);
        self.dials.clear();
    }
}

struct PingState {
    negotiated: bool,
    since: u64,
    set_back: u64,
    outstanding: Option<(u64, u64, u64)>,
    /// Pings received that are to be answered.
    owed: Vec<u64>,
    last_pong: u64,
}

/// Pings and pongs.
#[derive(Default)]
pub struct Pings {
    all: BTreeMap<SocketAddr, PingState>,
    hs: BTreeMap<SocketAddr, (bool, bool, bool)>,
}

impl Oracle for Pings {
    fn on_boot(&mut self, _w: &mut World) {
        self.all.clear();
        self.hs.clear();
    }
    fn on_input(&mut self, _w: &mut World, a: &Action) {
        match a {
            Action::Connected(_, addr, _) => {
                self.hs.insert(*addr, Default::default());
                self.all.remove(addr);
            }
            Action::Lost(_, addr, _) => {
                self.hs.remove(addr);
                self.all.remove(addr);
            }
            _ => {}
        }
    }
    fn on_event(&mut self, w: &mut World, e: &Event) {
        if let Event::PeerNegotiated { addr, .. } = e {
            if let Some(p) = self.all.get_mut(addr) {
                p.negotiated = true;
                p.since = w.now;
                p.set_back = w.set_back;
            }
        }
    }
    fn on_received(&mut self, w: &mut World, addr: &SocketAddr, _conn: u64, m: &Rx) {
        let Some(h) = self.hs.get_mut(addr) else { return };
        let Rx::Msg(m) = m else {
            h.2 = true;
            return;
        };
        if h.2 {
            return; // nothing after undecodable bytes counts
        }
        match &**m {
            NetworkMessage::Version(_) if h.0 => h.2 = true, // misbehaves
            NetworkMessage::Version(_) => h.0 = true,
            NetworkMessage::Verack if h.1 => h.2 = true,
            NetworkMessage::Verack if h.0 => {
                h.1 = true;
                let p = PingState { negotiated: false, since: w.now, set_back: w.set_back, outstanding: None, owed: vec![], last_pong: w.now };
                self.all.insert(*addr, p);
            }
            NetworkMessage::Ping(n) if h.1 => {
                w.probe("ping-received");
                if let Some(p) = self.all.get_mut(addr) {
                    p.owed.push(*n);
                }
            }
            NetworkMessage::Pong(n) => {
                if let Some(p) = self.all.get_mut(addr) {
                    if p.outstanding.map_or(false, |(x, ..)| x == *n) {
                        p.outstanding = None;
                        p.last_pong = w.now;
                        p.set_back = w.set_back;
                        w.probe("pong-received");
                    }
                }
            }
            _ => {}
        }
    }
    fn on_sent(&mut self, w: &mut World, addr: &SocketAddr, conn: Option<u64>, m: &NetMsg) {
        if conn.is_none() {
            return;
        }
        match &**m {
            NetworkMessage::Ping(n) => {
                w.stats.evaluations += 1;
                if let Some(p) = self.all.get_mut(addr) {
                    if p.outstanding.is_some() {
                        w.violate("ping", format!("{} was pinged again before it answered", addr));
                    }
                    p.outstanding = Some((*n, w.now, w.set_back));
                }
            }
            NetworkMessage::Pong(n) => {
                w.stats.evaluations += 1;
                match self.all.get_mut(addr) {
                    Some(p) if p.owed.first() == Some(n) => {
                        p.owed.remove(0);
                        w.probe("pong-sent");
                    }
                    _ => w.violate("pong", format!("the node sent {} a pong {:x} that doesn't answer a ping", addr, n)),
                }
            }
            _ => {}
        }
    }
    fn on_disconnect(&mut self, w: &mut World, addr: &SocketAddr, reason: &str) {
        let p = self.all.remove(addr);
        self.hs.remove(addr);
        if reason.contains("timeout") && reason.contains("ping") {
            w.stats.evaluations += 1;
            w.probe("ping-timeout");
            match p.and_then(|p| p.outstanding) {
                Some((_, at, _)) if w.now + jumps(w) >= at + 30_000 => {}
                Some((_, at, _)) => w.violate("ping timeout too early", format!("{} was disconnected {} ms after it was pinged", addr, w.now - at)),
                None => w.violate("live peer timed out", format!("{} was disconnected for not answering a ping, although it did", addr)),
            }
        }
    }
    fn on_step(&mut self, w: &mut World, _s: &Snap) {
        for (addr, p) in &self.all {
            if !p.negotiated || self.hs.get(addr).map_or(true, |h| h.2) || w.conn_of(addr).map_or(true, |c| c.state != CState::Up) {
                continue;
            }
            if !p.owed.is_empty() {
                w.violate("ping not answered", format!("the ping {:x} of {} was not answered", p.owed[0], addr));
                return;
            }
            match p.outstanding {
                Some((_, at, back)) => {
                    if w.now > at + (w.set_back - back) + 30_000 + SLACK {
                        w.violate("unresponsive peer kept", format!("{} was pinged {} s ago, did not answer and is still connected", addr, (w.now - at) / 1000));
                        return;
                    }
                }
                None => {
                    let last = p.last_pong.max(p.since);
                    if w.now > last + (w.set_back - p.set_back) + 120_000 + SLACK {
                        w.violate("peer not pinged", format!("{} was not pinged for {} s", addr, (w.now - last) / 1000));
                        return;
                    }
                }
            }
        }
    }
}

/// How far the clock was set forward in total.
fn jumps(w: &World) -> u64 {
    (w.clock_skew + w.set_back as i64).max(0) as u64
}

/// Requests of peers and the replies to them.
#[derive(Default)]
pub struct Served {
    /// Active chains since the last step began.
    views: Vec<Vec<BlockHash>>,
    /// Filter headers, by height, since the last step began.
    stored: Vec<Vec<(FilterHash, FilterHeader)>>,
    headers: BTreeMap<SocketAddr, Vec<GetHeadersMessage>>,
    cfheaders: BTreeMap<SocketAddr, Vec<GetCFHeaders>>,
    done: BTreeMap<SocketAddr, (bool, bool)>,
    /// Last header each peer sent us.
    tails: BTreeMap<SocketAddr, BTreeSet<BlockHash>>,
    /// When the node last asked for headers.
    asked: u64,
    /// Locators sent so far.
    sent: BTreeSet<Vec<BlockHash>>,
}

pub fn stored_filters(dir: &str) -> Vec<(FilterHash, FilterHeader)> {
    crate::oracles::store::records(dir, "filters.db", 64)
        .iter()
        .map(|r| (FilterHash::from_slice(&r[..32]).unwrap(), FilterHeader::from_slice(&r[32..64]).unwrap()))
        .collect()
}

impl Served {
    fn expected(view: &[BlockHash], g: &GetHeadersMessage) -> Vec<BlockHash> {
        let at = |h: &BlockHash| view.iter().position(|x| x == h);
        if g.locator_hashes.is_empty() {
            return at(&g.stop_hash).map(|i| vec![view[i]]).unwrap_or_default();
        }
        let start = g.locator_hashes.iter().find_map(at).unwrap_or(0) + 1;
        let stop = at(&g.stop_hash).unwrap_or(view.len().saturating_sub(1));
        view.iter().take(stop + 1).skip(start).take(2000).copied().collect()
    }
}

impl Oracle for Served {
    fn wants_snapshot(&self) -> bool {
        true
    }
    fn on_boot(&mut self, _w: &mut World) {
        *self = Served::default();
    }
    fn on_input(&mut self, w: &mut World, a: &Action) {
        match a {
            Action::Connected(_, addr, _) => {
                self.done.insert(*addr, (false, false));
                self.headers.remove(addr);
                self.cfheaders.remove(addr);
                self.tails.remove(addr);
            }
            Action::Lost(_, addr, _) => {
                self.done.remove(addr);
            }
            _ => {}
        }
        if self.views.is_empty() {
            self.views.push(w.view.clone());
        }
    }
    fn on_received(&mut self, w: &mut World, addr: &SocketAddr, _conn: u64, m: &Rx) {
        let Some(d) = self.done.get_mut(addr) else { return };
        let Rx::Msg(m) = m else { return };
        let done = d.0 && d.1;
        match &**m {
            NetworkMessage::Version(_) => d.0 = true,
            NetworkMessage::Verack if d.0 => d.1 = true,
            NetworkMessage::GetHeaders(g) if done => {
                w.probe("headers-asked");
                self.headers.entry(*addr).or_default().push(g.clone())
            }
            NetworkMessage::GetCFHeaders(g) if done => {
                w.probe("cfheaders-asked");
                self.cfheaders.entry(*addr).or_default().push(g.clone());
                let f = stored_filters(&w.dir);
                if self.stored.last() != Some(&f) {
                    self.stored.push(f);
                }
            }
            NetworkMessage::Headers(hs) => {
                self.tails.entry(*addr).or_default().extend(hs.last().map(|h| h.block_hash()));
            }
            _ => {}
        }
    }
    fn on_event(&mut self, w: &mut World, e: &Event) {
        if let Event::BlockHeadersImported { .. } = e {
            self.views.push(w.view.clone());
        }
    }
    fn on_sent(&mut self, w: &mut World, addr: &SocketAddr, conn: Option<u64>, m: &NetMsg) {
        if conn.is_none() {
            return;
        }
        match &**m {
            NetworkMessage::Headers(hs) => {
                w.stats.evaluations += 1;
                w.probe("headers-served");
                let got: Vec<BlockHash> = hs.iter().map(|h| h.block_hash()).collect();
                let asked = self.headers.get(addr).cloned().unwrap_or_default();
                let ok = asked.iter().position(|g| self.views.iter().chain([&w.view]).any(|v| Self::expected(v, g) == got));
                // A new tip is announced to inbound peers.
                let tip = got.len() == 1 && self.views.iter().chain([&w.view]).any(|v| v.last() == got.first());
                match ok {
                    Some(i) => {
                        self.headers.get_mut(addr).unwrap().drain(..=i);
                    }
                    None if tip => w.probe("tip-announced"),
                    None => w.violate(
                        "wrong headers served",
                        format!("{} got {} headers ({} .. {}) which no request of it asks for on the active chain", addr, got.len(), got.first().map(short).unwrap_or_default(), got.last().map(short).unwrap_or_default()),
                    ),
                }
            }
            NetworkMessage::CFHeaders(c) => {
                w.stats.evaluations += 1;
                w.probe("cfheaders-served");
                let asked = self.cfheaders.get(addr).cloned().unwrap_or_default();
                let now = stored_filters(&w.dir);
                let views: Vec<&Vec<BlockHash>> = self.views.iter().chain([&w.view]).collect();
                let ok = asked.iter().position(|g| self.stored.iter().chain([&now]).any(|f| views.iter().any(|v| cf_ok(v, f, g, c))));
                match ok {
                    Some(i) => {
                        self.cfheaders.get_mut(addr).unwrap().drain(..=i);
                    }
                    None => w.violate(
                        "wrong filter headers served",
                        format!("{} got {} filter headers up to {}, which no request of it asks for; last request: {:?}", addr, c.filter_hashes.len(), short(&c.stop_hash), asked.last().map(|g| (g.start_height, short(&g.stop_hash)))),
                    ),
                }
            }
            NetworkMessage::GetHeaders(g) => {
                w.stats.evaluations += 1;
                self.asked = w.now;
                let tail = self.tails.get(addr).map_or(false, |t| g.locator_hashes.len() == 1 && t.contains(&g.locator_hashes[0]));
                let floor = |v: &[BlockHash]| w.checkpoints.iter().map(|(h, _)| *h).filter(|h| (*h as usize) < v.len()).max().unwrap_or(0);
                let ok = tail
                    // A request which times out is repeated as it was.
                    || self.sent.contains(&g.locator_hashes)
                    || self.views.iter().chain([&w.view]).any(|v| {
                        let at: Option<Vec<usize>> = g.locator_hashes.iter().map(|h| v.iter().position(|x| x == h)).collect();
                        at.map_or(false, |at| !at.is_empty() && at.windows(2).all(|p| p[0] > p[1]) && *at.last().unwrap() as u64 <= floor(v))
                    });
                self.sent.insert(g.locator_hashes.clone());
                if !ok {
                    w.violate("wrong locators", format!("locators sent to {} are not newest-first blocks of the active chain down to one the peer must know: {:?}", addr, g.locator_hashes.iter().map(short).collect::<Vec<_>>()));
                }
            }
            _ => {}
        }
    }
    fn on_step(&mut self, w: &mut World, _s: &Snap) {
        // Requests are answered at once, unless the node is synchronising.
        if w.calm() && w.now > self.asked + 45_000 {
            for (addr, gs) in &self.headers {
                for g in gs {
                    let want = self.views.iter().chain([&w.view]).map(|v| Self::expected(v, g).len()).min().unwrap_or(0);
                    if want > 0 && w.conn_of(addr).is_some() {
                        w.stats.evaluations += 1;
                        let what = format!("{} asked for headers after {} and got none of {}", addr, g.locator_hashes.first().map(short).unwrap_or_default(), want);
                        w.violate("no headers served", what);
                        return;
                    }
                }
            }
        }
        self.views.clear();
        self.stored.clear();
        // Requests are answered at once or never.
        self.headers.clear();
        self.cfheaders.clear();
    }
}

fn cf_ok(view: &[BlockHash], f: &[(FilterHash, FilterHeader)], g: &GetCFHeaders, c: &CFHeaders) -> bool {
    let Some(stop) = view.iter().position(|x| *x == g.stop_hash) else { return false };
    let start = g.start_height as usize;
    if c.stop_hash != g.stop_hash || c.filter_type != g.filter_type || start > stop || stop - start + 1 > 2000 || c.filter_hashes.len() != stop - start + 1 {
        return false;
    }
    // Genesis is not stored.
    let hash = |h: usize| if h == 0 { None } else { f.get(h - 1).map(|r| r.0) };
    let header = |h: usize| f.get(h - 1).map(|r| r.1);
    for (i, x) in c.filter_hashes.iter().enumerate() {
        if start + i > 0 && hash(start + i) != Some(*x) {
            return false;
        }
    }
    match start {
        0 => c.previous_filter_header == FilterHeader::all_zeros(),
        1 => true, // checked against the first stored header below
        s => header(s - 1) == Some(c.previous_filter_header),
    }
}
