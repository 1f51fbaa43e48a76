//! The real poll reactor over the simulated kernel, with a scripted service that checks what it is told (C18).
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, TcpStream};

use crossbeam_channel as chan;
use nakamoto_net::time::{LocalDuration, LocalTime};
use nakamoto_net::{Disconnect, Io, Link, Publisher, Reactor as _, Service, StateMachine, Waker as _};

use crate::driver::Outcome;
use crate::kernel::{self, Call, CState, Fate, Fault, Hook};
use crate::plan::{Op, Plan, K};
use crate::rng::{mix, Rng};
use crate::runner::Tier;
use crate::world::{Stats, Violation};

type Reactor = nakamoto_net_poll::Reactor<TcpStream>;
type Waker = <Reactor as nakamoto_net::Reactor>::Waker;

const BASE: u64 = 1_600_000_000;

#[derive(Debug)]
pub struct Why(u64);

impl std::fmt::Display for Why {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "reason {}", self.0)
    }
}

impl From<Why> for Disconnect<Why> {
    fn from(w: Why) -> Self {
        Disconnect::StateMachine(w)
    }
}

#[derive(Debug)]
enum Do {
    Write(u64, u64),
    Connect(SocketAddr),
    Disconnect(u64),
    Timer(u64),
    Events(u64),
}

struct Cmd {
    n: u64,
    act: Do,
}

enum Out {
    Write(SocketAddr, u64, u64),
    Connect(SocketAddr),
    Disconnect(SocketAddr),
    Timer(u64),
    Event,
}

struct Peer {
    up: bool,
    attempted: bool,
    conn: Option<u64>,
    inbound: bool,
    wrote: u64,
    delivered: u64,
    closing: bool,
}

struct Rec {
    ops: VecDeque<Op>,
    extra: VecDeque<(u64, Op)>,
    cmds: chan::Sender<Cmd>,
    shut: chan::Sender<()>,
    waker: Option<Waker>,
    sent: u64,
    woken: u64,
    got: u64,
    shutting: bool,
    links: BTreeMap<SocketAddr, Peer>,
    timers: Vec<u64>,
    /// Timers that may still make the reactor call.
    credits: Vec<u64>,
    tick: u64,
    ticked: bool,
    jumped: bool,
    resumed: u64,
    emitted: u64,
    published: u64,
    stats: Stats,
    log: Vec<String>,
    logging: bool,
    greet: u64,
    echo: u64,
}

thread_local! {
    static REC: RefCell<Option<Rec>> = const { RefCell::new(None) };
}

fn rec<T>(f: impl FnOnce(&mut Rec) -> T) -> T {
    kernel::inside(|| REC.with(|r| f(r.borrow_mut().as_mut().expect("harness: no run"))))
}

fn now() -> u64 {
    kernel::with(|k| k.now).unwrap_or(0)
}

fn violate(class: &str, detail: String) {
    kernel::with(|k| k.violate(class, detail));
}

impl Rec {
    fn say(&mut self, f: impl FnOnce() -> String) {
        if self.logging {
            let t = now();
            let s = f();
            if std::env::var("SIM_LIVE").is_ok() {
                eprintln!("[{:>12} us] {}", t, s);
            }
            self.log.push(format!("[{:>12} us] {}", t, s));
        }
    }

    fn note(&mut self, what: &str, x: u64) {
        self.stats.steps += 1;
        self.stats.trace = mix(self.stats.trace ^ crate::world::fnv(what.as_bytes()) ^ mix(x));
        let up = self.links.values().filter(|l| l.up).count() as u64;
        let key = mix(up ^ (self.links.len() as u64) << 8 ^ (self.timers.len() as u64) << 16 ^ crate::world::fnv(what.as_bytes()));
        if self.stats.states.len() < 5000 {
            self.stats.states.insert(key);
        }
    }

    fn probe(&mut self, p: &'static str) {
        *self.stats.probes.entry(p).or_default() += 1;
    }

    fn fault(&mut self, p: &'static str) {
        *self.stats.faults.entry(p).or_default() += 1;
    }

    fn input(&mut self, what: &'static str) {
        *self.stats.inputs.entry(what).or_default() += 1;
        self.stats.evaluations += 1;
        if !self.ticked {
            violate("stale time", format!("{} without the time since the reactor last woke up", what));
        }
    }

    fn nth(&self, a: u64) -> Option<SocketAddr> {
        let up: Vec<_> = self.links.iter().filter(|(_, l)| l.up && !l.closing).map(|(a, _)| *a).collect();
        if up.is_empty() {
            None
        } else {
            Some(up[(a % up.len() as u64) as usize])
        }
    }

    fn schedule(&self) {
        let a = self.ops.front().map_or(u64::MAX, |o| o.at * 1000);
        let b = self.extra.iter().map(|e| e.0).min().unwrap_or(u64::MAX);
        kernel::with(|k| k.due = a.min(b));
    }
}

struct Svc {
    out: VecDeque<Out>,
}

impl Iterator for Svc {
    type Item = Io<Vec<u8>, u64, Why, SocketAddr>;

    fn next(&mut self) -> Option<Self::Item> {
        loop {
            let o = self.out.pop_front()?;
            let io = rec(|r| match o {
                Out::Write(a, conn, n) => {
                    let l = r.links.get_mut(&a)?;
                    if !l.up || l.closing || l.conn != Some(conn) {
                        return None;
                    }
                    let bytes: Vec<u8> = (0..n).map(|i| kernel::out_byte(conn, l.wrote + i)).collect();
                    l.wrote += n;
                    r.note("write", n);
                    r.say(|| format!("service writes {} bytes to {}", n, a));
                    Some(Io::Write(a, bytes))
                }
                Out::Connect(a) => {
                    if r.links.contains_key(&a) {
                        return None;
                    }
                    r.links.insert(
                        a,
                        Peer { up: false, attempted: false, conn: None, inbound: false, wrote: 0, delivered: 0, closing: false },
                    );
                    r.note("connect", 0);
                    r.say(|| format!("service connects to {}", a));
                    Some(Io::Connect(a))
                }
                Out::Disconnect(a) => {
                    let l = r.links.get_mut(&a)?;
                    if l.closing {
                        return None;
                    }
                    l.closing = true;
                    r.note("disconnect", 0);
                    r.say(|| format!("service disconnects {}", a));
                    Some(Io::Disconnect(a, Why(1)))
                }
                Out::Timer(ms) => {
                    r.timers.push(r.tick + ms);
                    r.credits.push(r.tick + ms);
                    r.note("timer", ms);
                    r.probe("timer-set");
                    r.say(|| format!("service sets a timer of {} ms", ms));
                    Some(Io::SetTimer(LocalDuration::from_millis(ms as u128)))
                }
                Out::Event => {
                    r.emitted += 1;
                    Some(Io::Event(r.emitted))
                }
            });
            if io.is_some() {
                return io;
            }
        }
    }
}

impl StateMachine for Svc {
    type Message = [u8];
    type Event = u64;
    type DisconnectReason = Why;

    fn initialize(&mut self, time: LocalTime) {
        rec(|r| {
            r.tick = millis(time);
            r.ticked = true;
            check_time(r);
        });
    }

    fn tick(&mut self, time: LocalTime) {
        rec(|r| {
            r.tick = millis(time);
            r.ticked = true;
            check_time(r);
        });
    }

    fn message_received(&mut self, addr: &SocketAddr, message: Cow<[u8]>) {
        let echo = rec(|r| {
            r.input("message");
            r.note("message", message.len() as u64);
            r.say(|| format!("service is given {} bytes from {}", message.len(), addr));
            let Some(l) = r.links.get_mut(addr) else {
                violate("bytes of a stranger", format!("{} bytes from {}, which is not connected", message.len(), addr));
                return None;
            };
            let Some(conn) = l.conn else { return None };
            if !l.up {
                violate("bytes before connection", format!("{} bytes from {}", message.len(), addr));
                return None;
            }
            if let Some(i) = message.iter().enumerate().position(|(i, b)| *b != kernel::in_byte(conn, l.delivered + i as u64)) {
                violate("bytes altered", format!("byte {} from {} is not the one the peer sent", l.delivered + i as u64, addr));
            }
            l.delivered += message.len() as u64;
            if kernel::with(|k| k.conns.get(&conn).map_or(true, |c| c.read < l.delivered)) == Some(true) {
                violate("bytes made up", format!("{} bytes from {} were delivered", l.delivered, addr));
            }
            r.probe("bytes-delivered");
            (mix(r.echo ^ l_hash(addr)) % 4 == 1).then_some((conn, message.len() as u64 / 2 + 1))
        });
        if let Some((conn, n)) = echo {
            self.out.push_back(Out::Write(*addr, conn, n));
        }
    }

    fn attempted(&mut self, addr: &SocketAddr) {
        rec(|r| {
            r.note("attempted", 0);
            match r.links.get_mut(addr) {
                Some(l) if !l.up && !l.attempted => {
                    l.attempted = true;
                    l.conn = kernel::with(|k| k.conns.values().rev().find(|c| c.addr == *addr && !c.inbound).map(|c| c.id)).flatten();
                }
                _ => violate("unexpected attempt", format!("{}", addr)),
            }
        })
    }

    fn connected(&mut self, addr: SocketAddr, local: &SocketAddr, link: Link) {
        let greet = rec(|r| {
            r.input("connected");
            r.note("connected", link.is_inbound() as u64);
            r.say(|| format!("service is connected to {} ({:?})", addr, link));
            let inbound = link.is_inbound();
            let found = kernel::with(|k| {
                k.conns
                    .values()
                    .rev()
                    .find(|c| c.addr == addr && c.inbound == inbound && c.fd.is_some() && !c.closed)
                    .map(|c| (c.id, c.was_up, c.local))
            })
            .flatten();
            let Some((conn, was_up, at)) = found else {
                violate("connected without a connection", format!("{} ({:?}): there is no such socket", addr, link));
                return None;
            };
            if !was_up {
                violate("connected without a connection", format!("the connection to {} was never established", addr));
            }
            if at != *local {
                violate("wrong local address", format!("{} instead of {}", local, at));
            }
            match r.links.get_mut(&addr) {
                Some(l) if !inbound && !l.up => {
                    if l.conn != Some(conn) {
                        violate("connected without a connection", format!("{} was not dialled on this socket", addr));
                    }
                    l.up = true;
                }
                None if inbound => {
                    r.links.insert(
                        addr,
                        Peer { up: true, attempted: false, conn: Some(conn), inbound, wrote: 0, delivered: 0, closing: false },
                    );
                }
                Some(_) => violate("connected twice", format!("{} ({:?})", addr, link)),
                None => violate("connected without being dialled", format!("{}", addr)),
            }
            r.probe(if inbound { "inbound" } else { "outbound" });
            (r.greet > 0).then(|| (conn, mix(r.greet ^ conn) % r.greet))
        });
        if let Some((conn, n)) = greet {
            self.out.push_back(Out::Write(addr, conn, n + 1));
        }
    }

    fn disconnected(&mut self, addr: &SocketAddr, reason: Disconnect<Why>) {
        rec(|r| {
            r.input("disconnected");
            r.note("disconnected", reason.is_dial_err() as u64);
            r.say(|| format!("service is disconnected from {} ({})", addr, reason));
            let Some(l) = r.links.remove(addr) else {
                violate("disconnected twice", format!("{} is not connected", addr));
                return;
            };
            r.probe(if l.up { "disconnected" } else { "dial-failed" });
            if l.closing {
                if !matches!(reason, Disconnect::StateMachine(Why(1))) {
                    // Something else may have been noticed first, but not as well.
                    r.probe("closing-otherwise");
                }
                return;
            }
            if matches!(reason, Disconnect::StateMachine(_)) {
                violate("disconnected for no reason", format!("the service did not disconnect {}", addr));
            }
            let Some(conn) = l.conn else { return };
            kernel::with(|k| {
                let displaced = k.conns.values().any(|c| c.addr == *addr && c.id != conn && c.fd.is_some() && !c.closed);
                let Some(c) = k.conns.get(&conn) else { return };
                let ended = c.told || c.faulted || displaced;
                let (state, was, read, sent) = (c.state, c.was_up, c.read, c.sent);
                let orderly = c.fin && !c.rst && !c.faulted && !displaced;
                let closed = c.closed;
                if !ended && state != CState::Connecting {
                    k.violate("disconnected for no reason", format!("the connection with {} is fine", addr));
                } else if !ended && !was && !closed {
                    k.violate("disconnected for no reason", format!("{} is still being dialled", addr));
                } else if l.up && l.delivered < read && !displaced {
                    k.violate("bytes lost", format!("{} of {} bytes read from {} were delivered", l.delivered, read, addr));
                } else if l.up && orderly && l.delivered < sent {
                    k.violate("bytes lost", format!("{} of {} bytes sent by {} were delivered before it closed", l.delivered, sent, addr));
                }
            });
        })
    }

    fn timer_expired(&mut self) {
        rec(|r| {
            r.input("timer");
            let t = r.tick;
            let n = r.timers.len();
            r.timers.retain(|d| *d > t);
            r.note("expired", (n - r.timers.len()) as u64);
            let m = n - r.timers.len();
            r.say(|| format!("service: {} timers expired", m));
            let due = r.credits.iter().any(|d| *d <= t);
            r.credits.retain(|d| d + 1000 > t);
            if !due {
                violate("timer early", format!("at {} ms, the next one is due at {:?}", t, r.timers.iter().min()));
            }
            r.probe("timer-expired");
        })
    }
}

impl Service for Svc {
    type Command = Cmd;

    fn command_received(&mut self, cmd: Cmd) {
        let out = &mut self.out;
        rec(|r| {
            r.input("command");
            r.note("command", cmd.n);
            r.say(|| format!("service gets command {}: {:?}", cmd.n, cmd.act));
            if cmd.n != r.got {
                violate("commands out of order", format!("command {} came instead of {}", cmd.n, r.got));
            }
            r.got += 1;
            match cmd.act {
                Do::Write(a, n) => {
                    if let Some(addr) = r.nth(a) {
                        if let Some(conn) = r.links[&addr].conn {
                            out.push_back(Out::Write(addr, conn, n));
                        }
                    }
                }
                Do::Connect(a) => out.push_back(Out::Connect(a)),
                Do::Disconnect(a) => {
                    // Also while still connecting.
                    let all: Vec<_> = r.links.keys().copied().collect();
                    if !all.is_empty() {
                        out.push_back(Out::Disconnect(all[(a % all.len() as u64) as usize]));
                    }
                }
                Do::Timer(ms) => out.push_back(Out::Timer(ms)),
                Do::Events(n) => out.extend((0..n).map(|_| Out::Event)),
            }
        })
    }
}

fn millis(t: LocalTime) -> u64 {
    let d = t.duration_since(LocalTime::from_secs(0));
    d.as_millis() as u64
}

fn check_time(r: &mut Rec) {
    let wall = kernel::with(|k| k.wall() / 1000).unwrap_or(0);
    r.stats.evaluations += 1;
    if !std::mem::take(&mut r.jumped) && wall.abs_diff(r.tick) > 2000 {
        violate("wrong time", format!("the service is told {} ms, the clock says {} ms", r.tick, wall));
    }
}

fn l_hash(a: &SocketAddr) -> u64 {
    crate::world::fnv(a.to_string().as_bytes())
}

struct Pub;

impl Publisher<u64> for Pub {
    fn publish(&mut self, e: u64) {
        rec(|r| {
            r.published += 1;
            r.stats.evaluations += 1;
            if r.published != e {
                violate("events out of order", format!("event {} was published instead of {}", e, r.published));
            }
        })
    }
}

fn hook(h: Hook) {
    match h {
        Hook::Run => run_ops(),
        Hook::Resume => rec(|r| {
            r.resumed = now();
            r.ticked = false;
        }),
        Hook::Wait(timeout) => rec(|r| waiting(r, timeout)),
    }
}

/// The reactor has nothing left to do.
fn waiting(r: &mut Rec, timeout: i32) {
    r.stats.evaluations += 1;
    if r.emitted != r.published {
        violate("events lost", format!("{} of {} were published", r.published, r.emitted));
    }
    let wake = kernel::with(|k| k.wake_pending()).unwrap_or(false);
    if r.got < r.woken && !wake {
        violate("command lost", format!("{} of {} commands were handed to the service", r.got, r.woken));
    }
    if r.shutting && !wake {
        violate("shutdown lost", "the reactor goes on".into());
    }
    if let Some(d) = r.timers.iter().min() {
        let wall = kernel::with(|k| k.wall() / 1000).unwrap_or(0);
        if r.tick >= d + 1000 {
            violate("timer late", format!("due at {} ms, not fired at {} ms", d, r.tick));
        }
        // Granularity of a second, and of the clock.
        let latest = (*d + 1000).max(wall);
        if timeout < 0 || wall + timeout as u64 > latest + 1 {
            violate("timer late", format!("the reactor sleeps for {} ms at {} ms, with a timer due at {} ms", timeout, wall, d));
        }
    }
    let resumed = r.resumed;
    let links = &r.links;
    kernel::with(|k| {
        let mut bad: Option<(&str, String)> = None;
        for c in k.conns.values() {
            if let Some(b) = &c.bad {
                bad = Some(("bytes altered", b.clone()));
            }
            let l = links.get(&c.addr).filter(|l| l.conn == Some(c.id));
            if c.fd.is_some() && !c.closed && l.is_none() {
                bad = Some((
                    if c.told { "socket leaked" } else { "connection not reported" },
                    format!("the service does not know connection {} with {}", c.id, c.addr),
                ));
            }
            if let Some(l) = l {
                if c.closed || (c.told && l.up) {
                    bad = Some(("disconnect not reported", format!("connection {} with {} is gone", c.id, c.addr)));
                } else if !l.up && c.state != CState::Connecting && c.since < resumed {
                    bad = Some(("dial not reported", format!("dialling {} ended at {} us as {:?}", c.addr, c.since, c.state)));
                } else if l.closing {
                    bad = Some(("disconnect ignored", format!("connection {} with {}", c.id, c.addr)));
                }
                if c.accepted > l.wrote {
                    bad = Some(("bytes made up", format!("{} bytes were sent to {}, {} written", c.accepted, c.addr, l.wrote)));
                }
            }
        }
        for (a, l) in links {
            if l.conn.is_none() {
                bad = Some(("dial not reported", format!("dialling {} had no outcome", a)));
            }
        }
        if let Some((c, d)) = bad {
            k.violate(c, d);
        }
    });
}

fn peer_addr(a: u64, b: u64) -> SocketAddr {
    if a % 5 == 4 {
        SocketAddr::new(IpAddr::V6(Ipv6Addr::new(0x2600, 1, 0, 0, 0, 0, 0, a as u16)), 8000 + b as u16)
    } else {
        SocketAddr::new(IpAddr::V4(Ipv4Addr::new(44, 1, 0, a as u8)), 8000 + b as u16)
    }
}

fn run_ops() {
    loop {
        let op = rec(|r| {
            let t = now();
            if let Some(i) = r.extra.iter().position(|e| e.0 <= t) {
                return r.extra.remove(i).map(|e| e.1);
            }
            if r.ops.front().map_or(false, |o| o.at * 1000 <= t) {
                return r.ops.pop_front();
            }
            None
        });
        let Some(op) = op else { break };
        rec(|r| r.say(|| format!("op {} {} {} {}", op.k.name(), op.a, op.b, op.c)));
        let mut command = |act: Do| {
            let (w, delay) = rec(|r| {
                let n = r.sent;
                r.sent += 1;
                let _ = r.cmds.send(Cmd { n, act });
                (r.waker.clone(), op.c % 5 == 4)
            });
            if delay {
                // The user's thread is preempted between the two.
                rec(|r| {
                    let at = now() + 1 + mix(op.at) % 3000;
                    r.extra.push_back((at, Op { at: 0, k: K::Query, a: 0, b: 0, c: 0 }));
                });
            } else {
                wake(w);
            }
        };
        match op.k {
            K::Query => wake(rec(|r| r.waker.clone())),
            K::X0 => command(Do::Write(op.a, op.b.max(1))),
            K::X1 => {
                let addr = peer_addr(op.a, 0);
                let errs = [libc::ECONNREFUSED, libc::ETIMEDOUT, libc::EHOSTUNREACH, libc::ECONNRESET, libc::ENETUNREACH];
                let e = errs[(op.b / 8 % 5) as usize];
                let fate = match op.b % 8 {
                    0..=3 => (Fate::Up, 1 + op.b / 8 % 500_000),
                    4 => (Fate::Up, 0),
                    5 => (Fate::Fail(e), 1 + op.b / 8 % 2_000_000),
                    6 => (Fate::Fail(e), 0),
                    _ => (Fate::Never, 1),
                };
                if let (Fate::Fail(_), _) | (Fate::Never, _) = fate {
                    rec(|r| r.fault("failing-dial"));
                }
                kernel::with(|k| {
                    k.fates.insert(addr, fate);
                });
                command(Do::Connect(addr));
            }
            K::X2 => command(Do::Disconnect(op.a)),
            K::X3 => command(Do::Timer(op.b)),
            K::X9 => command(Do::Events(op.b)),
            K::X4 => {
                kernel::with(|k| {
                    if let Some(id) = pick(k, op.a) {
                        k.peer_send(id, op.b.max(1));
                    }
                });
            }
            K::X5 => {
                kernel::with(|k| {
                    if let Some(id) = pick(k, op.a) {
                        match op.b % 3 {
                            0 => k.peer_close(id, false),
                            1 => k.peer_close(id, true),
                            _ => k.peer_abort(id),
                        }
                    }
                });
                rec(|r| r.fault(if op.b % 3 == 0 { "peer-close" } else { "peer-reset" }));
            }
            K::X6 => {
                let dup = rec(|r| {
                    if op.b % 4 != 0 || r.links.is_empty() {
                        return None;
                    }
                    let i = op.b / 4 % r.links.len() as u64;
                    r.links.iter().nth(i as usize).map(|(a, l)| (*a, l.inbound, l.conn))
                });
                let addr = match dup {
                    Some((a, inbound, conn)) => {
                        if inbound {
                            // A peer that lost its state uses the same port again.
                            if let Some(c) = conn {
                                kernel::with(|k| k.peer_abort(c));
                            }
                        }
                        rec(|r| r.fault("address-reused"));
                        a
                    }
                    None => peer_addr(op.a, 1 + op.b % 1000),
                };
                kernel::with(|k| {
                    let live = k.conns.values().any(|c| c.addr == addr && c.inbound && !c.closed && !c.rst);
                    if !live && k.listening() && addr.is_ipv4() {
                        k.inbound(addr);
                    }
                });
            }
            K::X7 => {
                let (call, fault) = match op.a % 16 {
                    0 | 1 => (Call::Recv, Fault::Errno(libc::EINTR)),
                    2 => (Call::Recv, Fault::Errno(libc::EAGAIN)),
                    3 => (Call::Recv, Fault::Short(op.b % 50)),
                    4 => (Call::Send, Fault::Errno(libc::EINTR)),
                    5 => (Call::Send, Fault::Errno(libc::EAGAIN)),
                    6 | 7 => (Call::Send, Fault::Short(op.b % 50)),
                    8 | 9 => (Call::Poll, Fault::Errno(libc::EINTR)),
                    10 => (Call::Accept, Fault::Errno([libc::ECONNABORTED, libc::EMFILE, libc::EPROTO, libc::EINTR][(op.b % 4) as usize])),
                    11 => (Call::Socket, Fault::Errno([libc::EMFILE, libc::ENFILE, libc::ENOBUFS][(op.b % 3) as usize])),
                    12 => (Call::Connect, Fault::Errno([libc::ENETUNREACH, libc::EADDRNOTAVAIL, libc::EACCES][(op.b % 3) as usize])),
                    13 => (Call::Name, Fault::Errno(libc::ENOBUFS)),
                    14 => (Call::Send, Fault::Errno([libc::ECONNRESET, libc::ENOBUFS, libc::ETIMEDOUT][(op.b % 3) as usize])),
                    _ => (Call::Recv, Fault::Errno([libc::ECONNRESET, libc::ENOMEM, libc::ETIMEDOUT][(op.b % 3) as usize])),
                };
                kernel::with(|k| {
                    let n = 1 + op.c % 3;
                    for _ in 0..n {
                        k.faults.entry(call).or_default().push_back(fault);
                    }
                });
            }
            K::X8 => {
                kernel::with(|k| {
                    if let Some(id) = pick(k, op.a) {
                        let until = k.now + op.b * 1000;
                        if let Some(c) = k.conns.get_mut(&id) {
                            c.stalled = c.stalled.max(until);
                        }
                    }
                });
                rec(|r| r.fault("stalled-reader"));
            }
            K::ClockJump => {
                kernel::with(|k| {
                    let d = op.a as i64 * 1000;
                    k.skew += if op.b % 2 == 0 { d } else { -d };
                });
                rec(|r| {
                    r.jumped = true;
                    r.fault("clock-jump");
                });
            }
            K::Restart => finish(),
            _ => {}
        }
    }
    rec(|r| {
        let fired: Vec<_> = kernel::with(|k| std::mem::take(&mut k.fired)).unwrap_or_default();
        for (f, _) in fired {
            r.fault(f);
        }
        r.schedule();
    });
}

fn wake(w: Option<Waker>) {
    if let Some(w) = w {
        if kernel::inside(|| w.wake()).is_err() {
            violate("waking failed", "the reactor could not be woken up".into());
        }
        rec(|r| r.woken = r.sent);
    }
}

/// A connection the peer can do something on.
fn pick(k: &kernel::Kernel, a: u64) -> Option<u64> {
    let ids: Vec<u64> = k.conns.values().filter(|c| c.state == CState::Up && !c.closed && !c.fin_sent && !c.rst).map(|c| c.id).collect();
    if ids.is_empty() {
        None
    } else {
        Some(ids[(a % ids.len() as u64) as usize])
    }
}

/// Faults stopped long ago: everything has arrived. Then shut down.
fn finish() {
    rec(|r| {
        r.stats.evaluations += 1;
        r.probe("completed");
        let links = &r.links;
        kernel::with(|k| {
            let mut bad = None;
            if !k.backlog.is_empty() && k.faults.get(&Call::Accept).map_or(true, |f| f.is_empty()) {
                bad = Some(("connection not reported", format!("{} connections were never accepted", k.backlog.len())));
            }
            for (a, l) in links {
                let Some(c) = l.conn.and_then(|c| k.conns.get(&c)) else { continue };
                if c.closed || c.state != CState::Up {
                    continue;
                }
                if c.rst || c.fin {
                    bad = Some(("disconnect not reported", format!("{} closed the connection", a)));
                } else if l.delivered != c.sent {
                    bad = Some(("bytes lost", format!("{} of {} bytes sent by {} were delivered", l.delivered, c.sent, a)));
                } else if c.taken != l.wrote {
                    bad = Some(("bytes lost", format!("{} of {} bytes written to {} were sent", c.taken, l.wrote, a)));
                }
            }
            if let Some((c, d)) = bad {
                k.violate(c, d);
            }
        });
        let _ = r.shut.send(());
        r.shutting = true;
    });
    wake(rec(|r| r.waker.clone()));
}

pub fn run(plan: &Plan, logging: bool) -> Outcome {
    let plan = plan.clone();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            crate::interpose::set_hash_seed(mix(plan.seed ^ 0x50c));
            run_here(&plan, logging)
        })
        .unwrap()
        .join()
        .expect("harness: simulation thread failed")
}

fn run_here(plan: &Plan, logging: bool) -> Outcome {
    let (cmd_tx, cmd_rx) = chan::unbounded();
    let (shut_tx, shut_rx) = chan::bounded(1);
    let (listen_tx, listen_rx) = chan::unbounded();
    let mut ops: Vec<Op> = plan.ops.clone();
    ops.retain(|o| o.at < plan.cfg.calm);
    ops.push(Op { at: plan.cfg.end.max(plan.cfg.calm + 120_000), k: K::Restart, a: 0, b: 0, c: 0 });
    REC.with(|r| {
        *r.borrow_mut() = Some(Rec {
            ops: ops.into(),
            extra: VecDeque::new(),
            cmds: cmd_tx,
            shut: shut_tx,
            waker: None,
            sent: 0,
            woken: 0,
            got: 0,
            shutting: false,
            links: BTreeMap::new(),
            timers: vec![],
            credits: vec![],
            tick: 0,
            ticked: false,
            jumped: false,
            resumed: 0,
            emitted: 0,
            published: 0,
            stats: Stats { trace: plan.seed, ..Default::default() },
            log: vec![],
            logging,
            greet: plan.cfg.aux,
            echo: plan.cfg.aux2,
        })
    });
    kernel::start(mix(plan.seed ^ 0xfeed), BASE, hook);
    kernel::with(|k| {
        k.lag = plan.cfg.slop;
        k.lat = plan.cfg.lat_max * 1000;
        k.calm = plan.cfg.calm * 1000;
    });
    let listen: Vec<SocketAddr> = if plan.cfg.listen != 0 { vec!["0.0.0.0:8333".parse().unwrap()] } else { vec![] };
    let result = crate::reactor::guarded(|| {
        let mut reactor = <Reactor as nakamoto_net::Reactor>::new(shut_rx, listen_tx).expect("harness: reactor");
        rec(|r| {
            r.waker = Some(reactor.waker());
            r.schedule();
        });
        let out = reactor.run(&listen, Svc { out: VecDeque::new() }, Pub, cmd_rx).map_err(|e| e.to_string());
        // What is left is closed within the simulation.
        rec(|r| r.waker = None);
        drop(reactor);
        out
    });
    if let Err(p) = &result {
        violate("panic in the reactor", p.clone());
    }
    let told = listen_rx.try_recv().ok();
    if plan.cfg.listen != 0 && told != Some("10.0.0.1:8333".parse().unwrap()) {
        violate("listening address not told", format!("{:?}", told));
    }
    REC.with(|r| {
        if let Some(r) = r.borrow_mut().as_mut() {
            r.waker = None;
        }
    });
    let k = kernel::stop().expect("harness: kernel");
    let r = REC.with(|r| r.borrow_mut().take()).expect("harness: record");
    let mut stats = r.stats;
    stats.sim_ms = k.now / 1000;
    stats.incarnations = 1;
    let mut violation = k.violation.clone();
    if violation.is_none() {
        match result {
            Ok(Ok(())) if r.shutting => {}
            Ok(Ok(())) => violation = Some(("stopped unasked".into(), "the reactor returned".into())),
            Ok(Err(e)) => {
                if !k.stop {
                    violation = Some(("reactor failed".into(), e));
                }
            }
            Err(_) => {}
        }
    }
    let mut log = r.log;
    if let (Some((c, d)), true) = (&violation, logging) {
        log.push(format!("[{:>12} us] VIOLATION {}: {}", k.now, c, d));
    }
    Outcome {
        violation: violation.map(|(class, detail)| Violation { class, detail, at: k.now / 1000 }),
        stats,
        log,
        history: vec![],
    }
}

pub fn gen(seed: u64, tier: Tier) -> Plan {
    let mut r = Rng::new(seed);
    let mut p = Plan { seed, cfg: Default::default(), ops: vec![] };
    let c = &mut p.cfg;
    c.world = 2;
    c.calm = *r.pick(&[5_000, 60_000, 600_000, 3_000_000]);
    c.end = c.calm + 600_000;
    c.listen = (r.below(4) != 0) as u64;
    c.slop = *r.pick(&[0, 5, 100, 2000]);
    c.lat_max = *r.pick(&[0, 1, 20, 200]);
    c.aux = *r.pick(&[0, 1, 100, 5_000, 100_000]);
    c.aux2 = r.next();
    let npeers = r.range(1, 8);
    let n = r.range(5, if tier == Tier::Quick { 150 } else { 400 });
    let calm = c.calm;
    // Often close together.
    let bursts: Vec<u64> = (0..r.range(1, 6)).map(|_| r.below(calm)).collect();
    let faulty = r.below(4);
    for _ in 0..n {
        let at = if r.below(3) > 0 {
            (*r.pick(&bursts) + r.below(40)).min(calm - 1)
        } else {
            r.below(calm)
        };
        let size = |r: &mut Rng| {
            let m = *r.pick(&[2, 100, 3_000, 100_000, 300_000]);
            1 + r.below(m)
        };
        let k = r.below(100);
        let (k, a, b) = match k {
            0..=19 => (K::X0, r.below(64), size(&mut r)),
            20..=34 => (K::X1, r.below(npeers), r.below(1 << 24)),
            35..=39 => (K::X2, r.below(64), 0),
            40..=49 => {
                let m = *r.pick(&[1, 10, 1000, 3000, 60_000, 600_000]);
                (K::X3, 0, r.below(m))
            }
            50..=67 => (K::X4, r.below(64), size(&mut r)),
            68..=74 => (K::X5, r.below(64), r.below(3)),
            75..=84 => (K::X6, r.below(npeers), r.below(10_000)),
            85..=88 => (K::X8, r.below(64), r.below(60_000)),
            89..=90 => (K::X9, 0, r.below(5)),
            91 => {
                let m = *r.pick(&[10, 2000, 90_000, 7_200_000]);
                (K::ClockJump, r.below(m), r.below(2))
            }
            _ if faulty > 0 => (K::X7, r.below(16), r.next() % 1000),
            _ => continue,
        };
        p.ops.push(Op { at, k, a, b, c: r.below(1000) });
    }
    p.ops.sort_by_key(|o| o.at);
    p
}
