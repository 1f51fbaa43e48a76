//! The address book (C14).
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};

use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_net::Disconnect;
use nakamoto_p2p::fsm::{DisconnectReason, Event};

use crate::oracle::Oracle;
use crate::world::{Action, CState, NetMsg, Note, Rx, Snap, World};

/// One saved address.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Entry {
    pub ip: IpAddr,
    pub addr: SocketAddr,
    pub services: u64,
    pub success: Option<u64>,
    pub attempt: Option<u64>,
    pub sampled: Option<u64>,
    pub active: Option<u64>,
    pub source: String,
}

/// An IPv4 address mapped into IPv6 is an IPv4 address.
pub fn plain(a: SocketAddr) -> SocketAddr {
    if let IpAddr::V6(v6) = a.ip() {
        if let [0, 0, 0, 0, 0, 0xffff, x, y] = v6.segments() {
            return SocketAddr::new(IpAddr::V4(Ipv4Addr::new((x >> 8) as u8, x as u8, (y >> 8) as u8, y as u8)), a.port());
        }
    }
    a
}

/// Read the saved address book. `Err` if it cannot be understood.
pub fn read(dir: &str) -> Result<Option<BTreeMap<IpAddr, Entry>>, String> {
    let path = std::path::Path::new(dir).join("peers.json");
    let Ok(text) = crate::interpose::bypass(|| std::fs::read_to_string(&path)) else { return Ok(None) };
    if text.trim().is_empty() {
        return Ok(Some(BTreeMap::new()));
    }
    let mut p = Json { s: text.as_bytes(), i: 0 };
    let v = p.value().ok_or_else(|| format!("not JSON at byte {}", p.i))?;
    p.blank();
    if p.i != p.s.len() {
        return Err(format!("trailing bytes at {}", p.i));
    }
    let V::Obj(o) = v else { return Err("not an object".into()) };
    let mut m = BTreeMap::new();
    for (k, v) in o {
        let bad = || format!("entry {:?}", k);
        let ip: IpAddr = k.parse().map_err(|_| bad())?;
        let V::Obj(f) = v else { return Err(bad()) };
        let get = |n: &str| f.iter().find(|x| x.0 == n).map(|x| x.1.clone());
        let num = |n: &str| match get(n) {
            Some(V::Num(n)) => Ok(Some(n)),
            Some(V::Null) | None => Ok(None),
            _ => Err(bad()),
        };
        let Some(V::Str(a)) = get("address") else { return Err(bad()) };
        let addr = plain(a.parse().map_err(|_| bad())?);
        let Some(V::Str(source)) = get("source") else { return Err(bad()) };
        let e = Entry {
            ip,
            addr,
            services: num("services")?.unwrap_or(0),
            success: num("last_success")?,
            attempt: num("last_attempt")?,
            sampled: num("last_sampled")?,
            active: num("last_active")?,
            source,
        };
        if m.insert(ip, e).is_some() {
            return Err(format!("two entries for {}", ip));
        }
    }
    Ok(Some(m))
}

#[derive(Clone, Debug)]
enum V {
    Null,
    Num(u64),
    Str(String),
    Obj(Vec<(String, V)>),
}

struct Json<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> Json<'a> {
    fn blank(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        self.blank();
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn string(&mut self) -> Option<String> {
        self.eat(b'"')?;
        let from = self.i;
        while *self.s.get(self.i)? != b'"' {
            if self.s[self.i] == b'\\' {
                return None;
            }
            self.i += 1;
        }
        self.i += 1;
        String::from_utf8(self.s[from..self.i - 1].to_vec()).ok()
    }
    fn value(&mut self) -> Option<V> {
        self.blank();
        match *self.s.get(self.i)? {
            b'n' if self.s[self.i..].starts_with(b"null") => {
                self.i += 4;
                Some(V::Null)
            }
            b'"' => self.string().map(V::Str),
            b'0'..=b'9' => {
                let from = self.i;
                while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                    self.i += 1;
                }
                std::str::from_utf8(&self.s[from..self.i]).ok()?.parse().ok().map(V::Num)
            }
            b'{' => {
                self.i += 1;
                let mut o = vec![];
                if self.eat(b'}').is_some() {
                    return Some(V::Obj(o));
                }
                loop {
                    self.blank();
                    let k = self.string()?;
                    self.eat(b':')?;
                    o.push((k, self.value()?));
                    if self.eat(b',').is_none() {
                        self.eat(b'}')?;
                        return Some(V::Obj(o));
                    }
                }
            }
            _ => None,
        }
    }
}

/// Addresses of the public internet (IPv4; nothing is said about IPv6).
fn routable(ip: &IpAddr) -> bool {
    match ip {
        IpAddr::V4(a) => {
            let o = a.octets();
            !(o[0] == 0
                || o[0] == 10
                || o[0] == 127
                || (o[0] == 172 && (16..32).contains(&o[1]))
                || (o[0] == 192 && o[1] == 168)
                || (o[0] == 169 && o[1] == 254)
                || o == [255; 4]
                || o[..3] == [192, 0, 2]
                || o[..3] == [198, 51, 100]
                || o[..3] == [203, 0, 113])
        }
        IpAddr::V6(_) => true,
    }
}

/// The group an address belongs to.
fn group(ip: &IpAddr) -> (u8, u8, u16) {
    match ip {
        IpAddr::V4(a) => (a.octets()[0], a.octets()[1], 0),
        IpAddr::V6(a) => (6, 6, a.segments()[0]),
    }
}

/// Disconnections after which a peer is not to be used again.
pub fn bans(r: &Disconnect<DisconnectReason>) -> bool {
    match r {
        Disconnect::StateMachine(r) => !matches!(
            r,
            DisconnectReason::ConnectionLimit | DisconnectReason::PeerTimeout(_) | DisconnectReason::PeerHeight(_)
        ),
        _ => false,
    }
}

#[derive(Default)]
pub struct Book {
    /// Everything any source ever offered.
    learned: BTreeMap<IpAddr, BTreeSet<SocketAddr>>,
    /// What the user or the configuration asked to connect to.
    told: BTreeSet<SocketAddr>,
    /// Since when these are not to be used (true time, clock changes).
    banned: BTreeMap<IpAddr, (u64, u64)>,
    /// These might have been removed for some reason.
    excused: BTreeSet<IpAddr>,
    /// To be saved soon.
    due: BTreeMap<IpAddr, (u64, u64)>,
    /// Addresses of the node itself, as told by peers.
    own: BTreeSet<SocketAddr>,
    negotiated: BTreeSet<SocketAddr>,
    /// Offers of this step, by peer.
    offers: Vec<(SocketAddr, Vec<IpAddr>)>,
    dialled: BTreeMap<IpAddr, (u64, i64)>,
    /// The saved book, as of the last look.
    saved: Option<BTreeMap<IpAddr, Entry>>,
    seen_at: u64,
    booted: bool,
    disk: bool,
}

impl Book {
    fn learn(&mut self, addr: SocketAddr) -> bool {
        let s = self.learned.entry(addr.ip()).or_default();
        s.insert(addr)
    }

    /// Would every implementation of the rules take this address?
    fn valid(&self, w: &World, time: Option<u32>, a: &Address) -> Option<SocketAddr> {
        let addr = plain(a.socket_addr().ok()?);
        if !addr.is_ipv4() || !routable(&addr.ip()) || self.own.contains(&addr) || addr.ip() == crate::world::local_addr().ip() {
            return None;
        }
        if !a.services.has(ServiceFlags::NETWORK) || a.services.has(ServiceFlags::GETUTXO) || a.services.has(ServiceFlags::BLOOM) {
            return None;
        }
        match time {
            Some(t) if t == 0 || t as u64 > w.local_time().as_secs().saturating_sub(200) => None,
            _ => Some(addr),
        }
    }

    fn look(&mut self, w: &mut World, force: bool) {
        if !force && w.now < self.seen_at + 30_000 {
            return;
        }
        self.seen_at = w.now;
        let book = match read(&w.dir) {
            Ok(Some(b)) => b,
            Ok(None) => return,
            Err(e) => {
                w.violate("address book unreadable", e);
                return;
            }
        };
        w.stats.evaluations += 1;
        let mut groups: BTreeMap<(u8, u8, u16), usize> = BTreeMap::new();
        for (ip, e) in &book {
            if e.addr.ip() != *ip {
                w.violate("address book inconsistent", format!("{} is saved under {}", e.addr, ip));
            }
            if !routable(ip) {
                w.violate("unroutable address saved", format!("{} is in the address book", ip));
            }
            if w.plan.cfg.domains == 1 && !ip.is_ipv4() {
                w.violate("address of a disabled network saved", format!("{} is in the address book", ip));
            }
            if !self.learned.get(ip).map_or(false, |s| s.contains(&e.addr)) {
                w.violate("unknown address saved", format!("nobody offered {}, which is in the address book", e.addr));
            }
            if let Some((at, back)) = self.banned.get(ip) {
                if !self.disk && w.now > at + 130_000 + w.set_back && *back == w.set_back {
                    w.violate("banned address saved", format!("{} is in the address book {} s after it was banned", ip, (w.now - at) / 1000));
                }
            }
            *groups.entry(group(ip)).or_default() += 1;
        }
        if let Some((g, n)) = groups.iter().find(|(_, n)| **n > 256) {
            w.violate("too many addresses of one group", format!("{} addresses of the group {}.{} are saved", n, g.0, g.1));
        }
        // What was saved stays, unless there was a reason to remove it.
        if self.learned.len() <= 256 {
            for ip in self.saved.iter().flat_map(|b| b.keys()) {
                if !book.contains_key(ip) && !self.excused.contains(ip) {
                    w.violate("saved address lost", format!("{} was in the address book, and no longer is", ip));
                }
            }
            let (now, back) = (w.now, w.set_back);
            let disk = self.disk;
            let mut late = None;
            let excused = &self.excused;
            self.due.retain(|ip, (at, b)| {
                if book.contains_key(ip) || excused.contains(ip) || *b != back || disk {
                    return false;
                }
                if now > *at + 130_000 + back {
                    late = Some((*ip, *at));
                }
                true
            });
            if let Some((ip, at)) = late {
                w.violate("offered address forgotten", format!("{} was offered {} s ago and is not in the address book", ip, (now - at) / 1000));
            }
            if !book.is_empty() {
                w.probe("book-checked");
            }
        }
        self.saved = Some(book);
    }
}

impl Oracle for Book {
    fn on_boot(&mut self, w: &mut World) {
        self.told = w.persistent().into_iter().collect();
        self.banned.clear();
        self.excused.clear();
        self.due.clear();
        self.own.clear();
        self.negotiated.clear();
        self.offers.clear();
        self.dialled.clear();
        self.booted = false;
        self.disk = w.disk_faulted;
        if w.incarnation == 1 {
            if let Ok(Some(b)) = read(&w.dir) {
                for e in b.values() {
                    self.learn(e.addr);
                }
            }
        }
        self.saved = read(&w.dir).ok().flatten();
    }

    fn on_note(&mut self, w: &mut World, n: &Note) {
        match n {
            Note::Connect { addr } => {
                self.told.insert(*addr);
            }
            Note::Addresses { addrs } => {
                w.probe("addresses-imported");
                for a in addrs {
                    if let Ok(s) = a.socket_addr() {
                        self.learn(plain(s));
                    }
                    if let Some(s) = self.valid(w, None, a) {
                        if !self.excused.contains(&s.ip()) {
                            self.due.entry(s.ip()).or_insert((w.now, w.set_back));
                        }
                    }
                }
            }
            _ => {}
        }
    }

    fn on_input(&mut self, w: &mut World, a: &Action) {
        if let Action::Lost(_, addr, _) = a {
            self.negotiated.remove(addr);
            self.offers.retain(|o| o.0 != *addr);
        }
        if w.disk_trouble() {
            self.disk = true;
        }
    }

    fn on_received(&mut self, w: &mut World, addr: &SocketAddr, _conn: u64, m: &Rx) {
        let Rx::Msg(m) = m else { return };
        match &**m {
            NetworkMessage::Version(v) => {
                if let Ok(a) = v.receiver.socket_addr() {
                    self.own.insert(plain(a));
                    self.due.remove(&plain(a).ip());
                }
            }
            NetworkMessage::Addr(list) => {
                for (_, a) in list {
                    if let Ok(a) = a.socket_addr() {
                        self.learn(plain(a));
                    }
                }
                if !list.is_empty() && list.len() <= 1000 && self.negotiated.contains(addr) {
                    let ips = list.iter().filter_map(|(t, a)| self.valid(w, Some(*t), a)).map(|a| a.ip()).collect();
                    self.offers.push((*addr, ips));
                }
            }
            _ => {}
        }
    }

    fn on_event(&mut self, w: &mut World, e: &Event) {
        match e {
            Event::PeerNegotiated { addr, .. } => {
                self.negotiated.insert(*addr);
            }
            Event::PeerDisconnected { addr, reason } => {
                self.negotiated.remove(addr);
                if bans(reason) {
                    w.probe("address-banned");
                    let at = (w.now, w.set_back);
                    self.banned.entry(addr.ip()).or_insert(at);
                    self.excused.insert(addr.ip());
                }
            }
            _ => {}
        }
    }

    fn on_disconnect(&mut self, _w: &mut World, addr: &SocketAddr, _reason: &str) {
        self.negotiated.remove(addr);
        self.offers.retain(|o| o.0 != *addr);
        // Whatever the reason, it might be removed by the end of the step.
    }

    fn on_sent(&mut self, w: &mut World, addr: &SocketAddr, _conn: Option<u64>, m: &NetMsg) {
        let NetworkMessage::Addr(list) = &**m else { return };
        w.stats.evaluations += 1;
        w.probe("addresses-served");
        if list.len() > 1000 {
            w.violate("too many addresses served", format!("{} addresses in one message to {}", list.len(), addr));
        }
        let mut groups = BTreeSet::new();
        for (_, a) in list {
            let Ok(s) = a.socket_addr().map(plain) else { continue };
            if !self.learned.get(&s.ip()).map_or(false, |l| l.contains(&s)) {
                w.violate("unknown address served", format!("nobody offered {}, which was sent to {}", s, addr));
            }
            if !routable(&s.ip()) {
                w.violate("unroutable address served", format!("{} was sent to {}", s, addr));
            }
            if self.banned.get(&s.ip()).map_or(false, |(at, _)| w.now > at + w.plan.cfg.batch) {
                w.violate("banned address served", format!("{} was sent to {}", s, addr));
            }
            if s.is_ipv4() && !groups.insert(group(&s.ip())) {
                w.violate("two addresses of a group served", format!("{} is not the only one of its group sent to {}", s, addr));
            }
        }
    }

    fn on_dial(&mut self, w: &mut World, addr: &SocketAddr) {
        if self.told.contains(addr) {
            return;
        }
        w.stats.evaluations += 1;
        w.probe("book-dial");
        let ip = addr.ip();
        if !self.learned.get(&ip).map_or(false, |l| l.contains(addr)) {
            w.violate("unknown address dialled", format!("nobody offered {}", addr));
        }
        if !routable(&ip) {
            w.violate("unroutable address dialled", format!("{}", addr));
        }
        if w.plan.cfg.domains == 1 && !ip.is_ipv4() {
            w.violate("address of a disabled network dialled", format!("{}", addr));
        }
        if self.banned.get(&ip).map_or(false, |(at, _)| w.now > at + w.plan.cfg.batch) {
            w.violate("banned address dialled", format!("{}", addr));
        }
        if w.plan.cfg.batch == 0 {
            let twice = w.by_addr.iter().any(|(a, id)| *a == *addr || (a.ip() == ip && w.conns.get(id).map_or(false, |c| c.state == CState::Up)));
            if twice {
                w.violate("connected address dialled", format!("{} was dialled while there was a connection", addr));
            }
        }
        if let Some((at, skew)) = self.dialled.get(&ip) {
            // (A flooded book may forget an address and learn it anew.)
            if *skew == w.clock_skew && w.now < at + 110_000 && self.learned.len() <= 256 {
                w.violate("address dialled too soon", format!("{} was dialled again after {} ms", addr, w.now - at));
            }
        }
        self.dialled.insert(ip, (w.now, w.clock_skew));
    }

    fn on_step(&mut self, w: &mut World, _s: &Snap) {
        for (from, ips) in std::mem::take(&mut self.offers) {
            if !self.negotiated.contains(&from) {
                continue;
            }
            for ip in ips {
                if !self.excused.contains(&ip) && !self.own.iter().any(|a| a.ip() == ip) {
                    w.probe("address-offered");
                    self.due.entry(ip).or_insert((w.now, w.set_back));
                }
            }
        }
        if !self.booted {
            self.booted = true;
            // What was saved is read back identically.
            let before = self.saved.clone().unwrap_or_default();
            if let (Ok(Some(after)), true) = (read(&w.dir), before.len() <= 256 && !self.disk) {
                w.stats.evaluations += 1;
                for (ip, a) in &after {
                    match before.get(ip) {
                        None => w.violate("address appeared at start", format!("{} was not saved before", ip)),
                        Some(b) => {
                            let grew = |x: Option<u64>, y: Option<u64>| x == y || x.unwrap_or(0) < y.unwrap_or(0);
                            let same = a.addr == b.addr && a.services == b.services && a.success == b.success && a.active == b.active && a.source == b.source;
                            if !same || !grew(b.attempt, a.attempt) || !grew(b.sampled, a.sampled) {
                                w.violate("saved address changed by a restart", format!("before: {:?}, after: {:?}", b, a));
                            }
                        }
                    }
                }
                if let Some(ip) = before.keys().find(|ip| !after.contains_key(ip)) {
                    w.violate("saved address lost by a restart", format!("{}", ip));
                }
                if w.incarnation > 1 && !after.is_empty() {
                    w.probe("book-reloaded");
                }
            }
        }
        self.look(w, false);
    }

    fn on_down(&mut self, w: &mut World, _crashed: bool) {
        if w.last_power_loss {
            // The latest savings may be undone.
            self.saved = None;
            self.due.clear();
            self.banned.clear();
        }
        self.look(w, true);
    }

    fn on_finish(&mut self, w: &mut World, _s: &Snap) {
        self.look(w, true);
    }
}
