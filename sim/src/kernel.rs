//! A simulated kernel for the socket reactor: sockets, poll and the clock behind the libc calls std makes.
//!
//! Only threads that called `start` see it; every other thread gets the plain system calls. The calls of the
//! simulated thread are the scheduling points: the user's threads and the network act whenever simulated time
//! passes, inside any call.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

use crate::rng::Rng;

pub const FD: i32 = 0x3000_0000;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    /// The harness itself is calling (no scheduling then).
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static K: RefCell<Option<Kernel>> = const { RefCell::new(None) };
    static HOOK: Cell<Option<fn(Hook)>> = const { Cell::new(None) };
}

pub enum Hook {
    /// Something is due, or time has passed.
    Run,
    /// The reactor is about to wait, for so many milliseconds.
    Wait(i32),
    /// The reactor resumes.
    Resume,
}

/// What becomes of a dial.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fate {
    Up,
    Fail(i32),
    Never,
}

#[derive(Clone, Debug)]
enum Flight {
    Data(u64),
    Fin,
    Rst,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CState {
    Connecting,
    Up,
    Failed,
}

#[derive(Debug)]
pub struct Conn {
    pub id: u64,
    pub addr: SocketAddr,
    pub local: SocketAddr,
    pub inbound: bool,
    pub fd: Option<i32>,
    pub state: CState,
    pub since: u64,
    resolve: Option<(u64, Fate)>,
    pub err: i32,
    flight: VecDeque<(u64, Flight)>,
    /// Bytes the peer has sent, that have arrived, that were read by the reactor.
    pub sent: u64,
    pub arrived: u64,
    pub read: u64,
    pub fin_sent: bool,
    pub fin: bool,
    pub rst: bool,
    /// Bytes accepted from the reactor, and taken by the peer.
    pub accepted: u64,
    pub taken: u64,
    sndbuf: u64,
    take_at: Option<u64>,
    pub stalled: u64,
    pub shut: bool,
    pub closed: bool,
    pub was_up: bool,
    /// An injected error may have ended it.
    pub faulted: bool,
    /// EOF or an error was reported to the reactor.
    pub told: bool,
    /// Bytes that do not belong where they are.
    pub bad: Option<String>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Obj {
    Fresh(bool),
    Listener,
    Conn(u64),
    WakeR,
    WakeW,
}

struct Sock {
    obj: Obj,
    nonblock: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Call {
    Recv,
    Send,
    Poll,
    Accept,
    Socket,
    Connect,
    Name,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    Errno(i32),
    Short(u64),
}

pub struct Kernel {
    pub rng: Rng,
    /// Microseconds.
    pub now: u64,
    pub base: u64,
    pub skew: i64,
    pub lag: u64,
    fds: BTreeMap<i32, Sock>,
    next_fd: i32,
    pub conns: BTreeMap<u64, Conn>,
    pub backlog: VecDeque<u64>,
    next_conn: u64,
    wake: u64,
    wake_cap: u64,
    pub faults: BTreeMap<Call, VecDeque<Fault>>,
    pub fired: Vec<(&'static str, Call)>,
    pub fates: BTreeMap<SocketAddr, (Fate, u64)>,
    /// The next operation of the plan.
    pub due: u64,
    pub calls: u64,
    pub stop: bool,
    pub violation: Option<(String, String)>,
    /// Latency of the network, and the time from which it is small.
    pub lat: u64,
    pub calm: u64,
    /// The reactor has been set up.
    ready: bool,
}

pub fn in_byte(id: u64, i: u64) -> u8 {
    (crate::rng::mix(id.wrapping_mul(0x1234_5677) ^ (i / 8)) >> (8 * (i % 8))) as u8
}

pub fn out_byte(id: u64, i: u64) -> u8 {
    (crate::rng::mix(id.wrapping_mul(0x7654_3211) ^ 0xabcd ^ (i / 8)) >> (8 * (i % 8))) as u8
}

pub fn start(seed: u64, base: u64, hook: fn(Hook)) {
    let mut rng = Rng::new(seed);
    let wake_cap = 1 + rng.below(12);
    K.with(|k| {
        *k.borrow_mut() = Some(Kernel {
            rng,
            now: 0,
            base,
            skew: 0,
            lag: 100,
            fds: BTreeMap::new(),
            next_fd: FD,
            conns: BTreeMap::new(),
            backlog: VecDeque::new(),
            next_conn: 1,
            wake: 0,
            wake_cap,
            faults: BTreeMap::new(),
            fired: vec![],
            fates: BTreeMap::new(),
            due: u64::MAX,
            calls: 0,
            stop: false,
            violation: None,
            lat: 20_000,
            calm: u64::MAX,
            ready: false,
        })
    });
    HOOK.with(|h| h.set(Some(hook)));
    ON.with(|o| o.set(true));
}

pub fn stop() -> Option<Kernel> {
    ON.with(|o| o.set(false));
    HOOK.with(|h| h.set(None));
    K.with(|k| k.borrow_mut().take())
}

pub fn with<T>(f: impl FnOnce(&mut Kernel) -> T) -> Option<T> {
    K.with(|k| k.try_borrow_mut().ok().and_then(|mut k| k.as_mut().map(f)))
}

/// Harness code: no scheduling, no simulated clock progress.
pub fn inside<T>(f: impl FnOnce() -> T) -> T {
    let was = INSIDE.with(|i| i.replace(true));
    let r = f();
    INSIDE.with(|i| i.set(was));
    r
}

fn on() -> bool {
    ON.try_with(|o| o.get()).unwrap_or(false)
}

fn mine(fd: i32) -> bool {
    fd >= FD && on()
}

fn hook(h: Hook) {
    if let Some(f) = HOOK.with(|h| h.get()) {
        inside(|| f(h));
    }
}

/// A scheduling point.
fn point() {
    if INSIDE.with(|i| i.get()) {
        return;
    }
    let due = with(|k| {
        k.calls += 1;
        k.now += match k.rng.below(40) {
            0 => k.rng.below(k.lag * 100 + 1),
            _ => k.rng.below(k.lag + 1),
        };
        k.advance();
        k.due <= k.now
    });
    if due == Some(true) {
        hook(Hook::Run);
    }
}

unsafe fn fail(e: i32) -> i32 {
    *libc::__errno_location() = e;
    -1
}

impl Kernel {
    pub fn violate(&mut self, class: &str, detail: String) {
        if self.violation.is_none() {
            self.violation = Some((class.to_string(), detail));
        }
        self.stop = true;
    }

    pub fn wall(&self) -> u64 {
        ((self.base * 1_000_000 + self.now) as i64 + self.skew) as u64
    }

    pub fn wake_pending(&self) -> bool {
        self.wake > 0
    }

    pub fn listening(&self) -> bool {
        self.fds.values().any(|s| s.obj == Obj::Listener)
    }

    fn fault(&mut self, c: Call) -> Option<Fault> {
        if !self.ready {
            return None;
        }
        let f = self.faults.get_mut(&c).and_then(|q| q.pop_front())?;
        let name = match f {
            Fault::Errno(libc::EINTR) => "interrupted-call",
            Fault::Errno(libc::EAGAIN) => "spurious-readiness",
            Fault::Errno(libc::EMFILE) | Fault::Errno(libc::ENFILE) | Fault::Errno(libc::ENOBUFS) => "out-of-resources",
            Fault::Errno(_) => "failing-call",
            Fault::Short(_) => "short-transfer",
        };
        self.fired.push((name, c));
        Some(f)
    }

    fn alloc(&mut self, obj: Obj, nonblock: bool) -> i32 {
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, Sock { obj, nonblock });
        fd
    }

    fn new_conn(&mut self, addr: SocketAddr, inbound: bool) -> u64 {
        let id = self.next_conn;
        self.next_conn += 1;
        let local = match (inbound, addr.is_ipv4()) {
            (true, _) => SocketAddr::new(Ipv4Addr::new(10, 0, 0, 1).into(), 8333),
            (false, true) => SocketAddr::new(Ipv4Addr::new(10, 0, 0, 1).into(), 30000 + id as u16),
            (false, false) => SocketAddr::new(Ipv6Addr::new(0x2600, 0, 0, 0, 0, 0, 0, 1).into(), 30000 + id as u16),
        };
        let sndbuf = 1 << self.rng.range(8, 17);
        self.conns.insert(
            id,
            Conn {
                id,
                addr,
                local,
                inbound,
                fd: None,
                state: if inbound { CState::Up } else { CState::Connecting },
                since: self.now,
                resolve: None,
                err: 0,
                flight: VecDeque::new(),
                sent: 0,
                arrived: 0,
                read: 0,
                fin_sent: false,
                fin: false,
                rst: false,
                accepted: 0,
                taken: 0,
                sndbuf,
                take_at: None,
                stalled: 0,
                shut: false,
                closed: false,
                was_up: inbound,
                faulted: false,
                told: false,
                bad: None,
            },
        );
        id
    }

    /// A peer connects.
    pub fn inbound(&mut self, addr: SocketAddr) -> u64 {
        let id = self.new_conn(addr, true);
        self.backlog.push_back(id);
        id
    }

    fn fly(&mut self, id: u64, f: Flight) {
        let lat = self.lat;
        let d = self.rng.below(lat + 1);
        let now = self.now;
        if let Some(c) = self.conns.get_mut(&id) {
            let at = (now + d).max(c.flight.back().map_or(0, |f| f.0));
            c.flight.push_back((at, f));
        }
    }

    /// The peer sends bytes.
    pub fn peer_send(&mut self, id: u64, n: u64) {
        if let Some(c) = self.conns.get_mut(&id) {
            if c.state == CState::Connecting || c.fin_sent {
                return;
            }
            c.sent += n;
        }
        let mut left = n;
        while left > 0 {
            let m = 1 + self.rng.below(left.min(70_000));
            self.fly(id, Flight::Data(m));
            left -= m;
        }
    }

    pub fn peer_close(&mut self, id: u64, rst: bool) {
        if let Some(c) = self.conns.get_mut(&id) {
            if c.state == CState::Connecting || c.fin_sent {
                return;
            }
            c.fin_sent = true;
        }
        self.fly(id, if rst { Flight::Rst } else { Flight::Fin });
    }

    /// The peer resets at once (its other packets are lost).
    pub fn peer_abort(&mut self, id: u64) {
        if let Some(c) = self.conns.get_mut(&id) {
            c.fin_sent = true;
            c.rst = true;
            c.err = libc::ECONNRESET;
            c.flight.clear();
        }
    }

    /// Time has passed.
    pub fn advance(&mut self) {
        let now = self.now;
        if now > self.calm {
            self.lat = self.lat.min(1000);
        }
        let mut ids: Vec<u64> = vec![];
        for c in self.conns.values_mut() {
            if let Some((at, fate)) = c.resolve {
                if at <= now {
                    match fate {
                        Fate::Up => {
                            c.state = CState::Up;
                            c.was_up = true;
                        }
                        Fate::Fail(e) => {
                            c.state = CState::Failed;
                            c.err = e;
                        }
                        Fate::Never => continue,
                    }
                    c.since = at;
                    c.resolve = None;
                }
            }
            while c.flight.front().map_or(false, |f| f.0 <= now) {
                match c.flight.pop_front().unwrap().1 {
                    Flight::Data(n) => c.arrived += n,
                    Flight::Fin => c.fin = true,
                    Flight::Rst => {
                        c.rst = true;
                        c.err = libc::ECONNRESET;
                    }
                }
            }
            if c.accepted > c.taken && now >= c.stalled {
                match c.take_at {
                    None => ids.push(c.id),
                    Some(at) if at <= now => {
                        c.taken = c.accepted;
                        c.take_at = None;
                    }
                    _ => {}
                }
            }
        }
        for id in ids {
            let d = self.rng.below(self.lat + 1);
            if let Some(c) = self.conns.get_mut(&id) {
                c.take_at = Some(now + d);
            }
        }
    }

    /// When something happens next.
    fn next(&self) -> u64 {
        let mut t = self.due;
        for c in self.conns.values() {
            if c.closed {
                continue;
            }
            if let Some((at, fate)) = c.resolve {
                if fate != Fate::Never {
                    t = t.min(at);
                }
            }
            if let Some(f) = c.flight.front() {
                t = t.min(f.0);
            }
            if c.accepted > c.taken {
                t = t.min(c.take_at.unwrap_or(self.now + 1).max(c.stalled));
            }
        }
        t
    }

    fn revents(&self, fd: i32, events: i16) -> i16 {
        let Some(s) = self.fds.get(&fd) else { return libc::POLLNVAL };
        let (mut r, mut always) = (0i16, 0i16);
        match s.obj {
            Obj::Fresh(_) => always |= libc::POLLHUP,
            Obj::WakeW => r |= libc::POLLOUT,
            Obj::WakeR => {
                if self.wake > 0 {
                    r |= libc::POLLIN;
                }
            }
            Obj::Listener => {
                if !self.backlog.is_empty() {
                    r |= libc::POLLIN;
                }
            }
            Obj::Conn(id) => {
                let c = &self.conns[&id];
                match c.state {
                    CState::Connecting => {}
                    CState::Failed => {
                        r |= libc::POLLIN | libc::POLLOUT;
                        always |= libc::POLLHUP;
                        if c.err != 0 {
                            always |= libc::POLLERR;
                        }
                    }
                    CState::Up => {
                        if c.arrived > c.read || c.fin || c.rst || c.shut {
                            r |= libc::POLLIN;
                        }
                        if c.accepted - c.taken <= c.sndbuf * 2 / 3 || c.rst || c.shut {
                            r |= libc::POLLOUT | libc::POLLWRBAND;
                        }
                        if c.rst || c.shut {
                            always |= libc::POLLHUP;
                        }
                        if c.err != 0 {
                            always |= libc::POLLERR;
                        }
                    }
                }
            }
        }
        (r & events) | always
    }
}

unsafe fn put_addr(a: SocketAddr, out: *mut libc::sockaddr, len: *mut libc::socklen_t) {
    match a {
        SocketAddr::V4(a) => {
            let s = libc::sockaddr_in {
                sin_family: libc::AF_INET as u16,
                sin_port: a.port().to_be(),
                sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes(a.ip().octets()) },
                sin_zero: [0; 8],
            };
            let n = std::mem::size_of::<libc::sockaddr_in>();
            std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, out as *mut u8, n.min(*len as usize));
            *len = n as u32;
        }
        SocketAddr::V6(a) => {
            let s = libc::sockaddr_in6 {
                sin6_family: libc::AF_INET6 as u16,
                sin6_port: a.port().to_be(),
                sin6_flowinfo: 0,
                sin6_addr: libc::in6_addr { s6_addr: a.ip().octets() },
                sin6_scope_id: 0,
            };
            let n = std::mem::size_of::<libc::sockaddr_in6>();
            std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, out as *mut u8, n.min(*len as usize));
            *len = n as u32;
        }
    }
}

unsafe fn get_addr(a: *const libc::sockaddr) -> SocketAddr {
    if (*a).sa_family == libc::AF_INET as u16 {
        let a = &*(a as *const libc::sockaddr_in);
        SocketAddr::new(IpAddr::V4(Ipv4Addr::from(a.sin_addr.s_addr.to_ne_bytes())), u16::from_be(a.sin_port))
    } else {
        let a = &*(a as *const libc::sockaddr_in6);
        SocketAddr::new(IpAddr::V6(Ipv6Addr::from(a.sin6_addr.s6_addr)), u16::from_be(a.sin6_port))
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if on() {
        point();
        if let Some(us) = with(|k| if id == libc::CLOCK_REALTIME { k.wall() } else { 1_000_000_000 + k.now }) {
            (*ts).tv_sec = (us / 1_000_000) as i64;
            (*ts).tv_nsec = (us % 1_000_000 * 1000) as i64;
            return 0;
        }
    }
    if let Some((mono, wall)) = crate::users::clock() {
        let us = if id == libc::CLOCK_REALTIME { wall } else { mono };
        (*ts).tv_sec = (us / 1_000_000) as i64;
        (*ts).tv_nsec = (us % 1_000_000 * 1000) as i64;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as i32
}

#[no_mangle]
pub unsafe extern "C" fn socket(domain: i32, ty: i32, proto: i32) -> i32 {
    if !on() {
        return libc::syscall(libc::SYS_socket, domain, ty, proto) as i32;
    }
    point();
    with(|k| match k.fault(Call::Socket) {
        Some(Fault::Errno(e)) => fail(e),
        _ => k.alloc(Obj::Fresh(domain == libc::AF_INET6), ty & libc::SOCK_NONBLOCK != 0),
    })
    .unwrap_or_else(|| fail(libc::ENOMEM))
}

#[no_mangle]
pub unsafe extern "C" fn socketpair(domain: i32, ty: i32, proto: i32, sv: *mut i32) -> i32 {
    if !on() {
        return libc::syscall(libc::SYS_socketpair, domain, ty, proto, sv) as i32;
    }
    with(|k| {
        *sv = k.alloc(Obj::WakeW, false);
        *sv.add(1) = k.alloc(Obj::WakeR, false);
        0
    })
    .unwrap_or_else(|| fail(libc::ENOMEM))
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: i32, addr: *const libc::sockaddr, len: libc::socklen_t) -> i32 {
    if !mine(fd) {
        return libc::syscall(libc::SYS_bind, fd, addr, len) as i32;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn listen(fd: i32, n: i32) -> i32 {
    if !mine(fd) {
        return libc::syscall(libc::SYS_listen, fd, n) as i32;
    }
    with(|k| {
        if let Some(s) = k.fds.get_mut(&fd) {
            s.obj = Obj::Listener;
        }
    });
    0
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: i32, addr: *const libc::sockaddr, len: libc::socklen_t) -> i32 {
    if !mine(fd) {
        return libc::syscall(libc::SYS_connect, fd, addr, len) as i32;
    }
    point();
    let a = get_addr(addr);
    with(|k| {
        if let Some(Fault::Errno(e)) = k.fault(Call::Connect) {
            return fail(e);
        }
        if !k.fds.get(&fd).map_or(false, |s| s.nonblock) {
            k.violate("blocking call", format!("connect to {}", a));
        }
        let (fate, delay) = k.fates.get(&a).copied().unwrap_or((Fate::Up, 1000));
        if let (Fate::Fail(e), 0) = (fate, delay) {
            return fail(e);
        }
        let id = k.new_conn(a, false);
        let at = k.now + delay;
        if let Some(s) = k.fds.get_mut(&fd) {
            s.obj = Obj::Conn(id);
        }
        if let Some(c) = k.conns.get_mut(&id) {
            c.fd = Some(fd);
            if fate == Fate::Up && delay == 0 {
                c.state = CState::Up;
                c.was_up = true;
                return 0;
            }
            c.resolve = Some((at, fate));
        }
        fail(libc::EINPROGRESS)
    })
    .unwrap_or_else(|| fail(libc::ENOMEM))
}

#[no_mangle]
pub unsafe extern "C" fn accept4(fd: i32, addr: *mut libc::sockaddr, len: *mut libc::socklen_t, flags: i32) -> i32 {
    if !mine(fd) {
        return libc::syscall(libc::SYS_accept4, fd, addr, len, flags) as i32;
    }
    point();
    with(|k| {
        if let Some(Fault::Errno(e)) = k.fault(Call::Accept) {
            if e == libc::ECONNABORTED {
                if let Some(id) = k.backlog.pop_front() {
                    if let Some(c) = k.conns.get_mut(&id) {
                        c.closed = true;
                    }
                }
            }
            return fail(e);
        }
        let Some(id) = k.backlog.pop_front() else {
            if !k.fds.get(&fd).map_or(false, |s| s.nonblock) {
                k.violate("blocking call", "accept".into());
            }
            return fail(libc::EAGAIN);
        };
        let f = k.alloc(Obj::Conn(id), flags & libc::SOCK_NONBLOCK != 0);
        let now = k.now;
        if let Some(c) = k.conns.get_mut(&id) {
            c.fd = Some(f);
            c.since = now;
            put_addr(c.addr, addr, len);
        }
        f
    })
    .unwrap_or_else(|| fail(libc::ENOMEM))
}

unsafe fn take(fd: i32, buf: *mut u8, n: usize) -> isize {
    point();
    with(|k| {
        let Some(s) = k.fds.get(&fd) else { return fail(libc::EBADF) as isize };
        let (obj, nb) = (s.obj, s.nonblock);
        match obj {
            Obj::WakeR => {
                if k.wake == 0 {
                    return fail(libc::EAGAIN) as isize;
                }
                let m = k.wake.min(n as u64);
                k.wake -= m;
                m as isize
            }
            Obj::Conn(id) => {
                if let Some(f) = k.fault(Call::Recv) {
                    match f {
                        Fault::Errno(e) => {
                            if e != libc::EAGAIN && e != libc::EINTR {
                                if let Some(c) = k.conns.get_mut(&id) {
                                    c.faulted = true;
                                    c.told = true;
                                }
                            }
                            return fail(e) as isize;
                        }
                        Fault::Short(m) => return k.receive(id, buf, n.min(m.max(1) as usize), nb),
                    }
                }
                k.receive(id, buf, n, nb)
            }
            _ => fail(libc::ENOTCONN) as isize,
        }
    })
    .unwrap_or_else(|| fail(libc::EIO) as isize)
}

impl Kernel {
    unsafe fn receive(&mut self, id: u64, buf: *mut u8, n: usize, nb: bool) -> isize {
        let c = self.conns.get_mut(&id).unwrap();
        if c.arrived > c.read {
            let m = (c.arrived - c.read).min(n as u64);
            for i in 0..m {
                *buf.add(i as usize) = in_byte(id, c.read + i);
            }
            c.read += m;
            return m as isize;
        }
        if c.err != 0 {
            c.told = true;
            return fail(std::mem::take(&mut c.err)) as isize;
        }
        if c.fin || c.rst || c.shut {
            c.told = true;
            return 0;
        }
        if c.state == CState::Failed {
            return fail(libc::ENOTCONN) as isize;
        }
        if !nb {
            self.violate("blocking call", format!("read on connection {}", id));
        }
        fail(libc::EAGAIN) as isize
    }
}

unsafe fn put(fd: i32, buf: *const u8, n: usize) -> isize {
    point();
    with(|k| {
        let Some(s) = k.fds.get(&fd) else { return fail(libc::EBADF) as isize };
        let (obj, nb) = (s.obj, s.nonblock);
        match obj {
            Obj::WakeW => {
                let m = (k.wake_cap - k.wake.min(k.wake_cap)).min(n as u64);
                if m == 0 {
                    return fail(libc::EAGAIN) as isize;
                }
                k.wake += m;
                m as isize
            }
            Obj::Conn(id) => {
                let mut most = n as u64;
                match k.fault(Call::Send) {
                    Some(Fault::Errno(e)) => {
                        if e != libc::EAGAIN && e != libc::EINTR {
                            if let Some(c) = k.conns.get_mut(&id) {
                                c.faulted = true;
                                c.told = true;
                            }
                        }
                        return fail(e) as isize;
                    }
                    Some(Fault::Short(m)) => most = most.min(m.max(1)),
                    None => {}
                }
                let c = k.conns.get_mut(&id).unwrap();
                if c.err != 0 {
                    c.told = true;
                    return fail(std::mem::take(&mut c.err)) as isize;
                }
                if c.rst || c.shut || c.state == CState::Failed {
                    c.told = true;
                    return fail(libc::EPIPE) as isize;
                }
                let room = c.sndbuf.saturating_sub(c.accepted - c.taken);
                if c.state == CState::Connecting || room == 0 {
                    if !nb {
                        k.violate("blocking call", format!("write on connection {}", id));
                    }
                    return fail(libc::EAGAIN) as isize;
                }
                let m = most.min(room);
                for i in 0..m {
                    let b = *buf.add(i as usize);
                    if b != out_byte(id, c.accepted + i) && c.bad.is_none() {
                        c.bad = Some(format!("byte {} sent to {} is not the one the service wrote", c.accepted + i, c.addr));
                    }
                }
                c.accepted += m;
                m as isize
            }
            _ => fail(libc::ENOTCONN) as isize,
        }
    })
    .unwrap_or_else(|| fail(libc::EIO) as isize)
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: i32, buf: *mut libc::c_void, n: usize, flags: i32) -> isize {
    if !mine(fd) {
        return libc::syscall(libc::SYS_recvfrom, fd, buf, n, flags, 0usize, 0usize) as isize;
    }
    take(fd, buf as *mut u8, n)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut libc::c_void, n: usize) -> isize {
    if !mine(fd) {
        if let Some(e) = crate::wallet::read_op() {
            *libc::__errno_location() = e;
            return -1;
        }
        return libc::syscall(libc::SYS_read, fd, buf, n) as isize;
    }
    take(fd, buf as *mut u8, n)
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: i32, buf: *const libc::c_void, n: usize, flags: i32) -> isize {
    if !mine(fd) {
        return libc::syscall(libc::SYS_sendto, fd, buf, n, flags, 0usize, 0usize) as isize;
    }
    put(fd, buf as *const u8, n)
}

/// Called by the interposed `write`.
pub unsafe fn kernel_write(fd: i32, buf: *const libc::c_void, n: usize) -> Option<isize> {
    if mine(fd) {
        Some(put(fd, buf as *const u8, n))
    } else {
        None
    }
}

/// Called by the interposed `close`.
pub fn kernel_close(fd: i32) -> bool {
    if !mine(fd) {
        return false;
    }
    with(|k| {
        if let Some(Sock { obj: Obj::Conn(id), .. }) = k.fds.remove(&fd) {
            if let Some(c) = k.conns.get_mut(&id) {
                c.closed = true;
                c.resolve = None;
            }
        }
    });
    true
}

#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: i32, how: i32) -> i32 {
    if !mine(fd) {
        return libc::syscall(libc::SYS_shutdown, fd, how) as i32;
    }
    point();
    with(|k| {
        if let Some(Sock { obj: Obj::Conn(id), .. }) = k.fds.get(&fd) {
            if let Some(c) = k.conns.get_mut(id) {
                if c.state != CState::Up || c.rst {
                    return fail(libc::ENOTCONN);
                }
                c.shut = true;
                return 0;
            }
        }
        fail(libc::ENOTCONN)
    })
    .unwrap_or_else(|| fail(libc::EBADF))
}

#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: i32, addr: *mut libc::sockaddr, len: *mut libc::socklen_t) -> i32 {
    if !mine(fd) {
        return libc::syscall(libc::SYS_getsockname, fd, addr, len) as i32;
    }
    point();
    with(|k| {
        let obj = k.fds.get(&fd).map(|s| s.obj);
        if let Some(Obj::Conn(id)) = obj {
            if let Some(Fault::Errno(e)) = k.fault(Call::Name) {
                if let Some(c) = k.conns.get_mut(&id) {
                    c.faulted = true;
                    c.told = true;
                }
                return fail(e);
            }
            let a = k.conns[&id].local;
            put_addr(a, addr, len);
            return 0;
        }
        put_addr(SocketAddr::new(Ipv4Addr::new(10, 0, 0, 1).into(), 8333), addr, len);
        0
    })
    .unwrap_or_else(|| fail(libc::EBADF))
}

#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: i32, addr: *mut libc::sockaddr, len: *mut libc::socklen_t) -> i32 {
    if !mine(fd) {
        return libc::syscall(libc::SYS_getpeername, fd, addr, len) as i32;
    }
    with(|k| {
        if let Some(Sock { obj: Obj::Conn(id), .. }) = k.fds.get(&fd) {
            let c = &k.conns[id];
            if c.state == CState::Up && !c.rst {
                put_addr(c.addr, addr, len);
                return 0;
            }
        }
        fail(libc::ENOTCONN)
    })
    .unwrap_or_else(|| fail(libc::EBADF))
}

#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: i32, level: i32, name: i32, val: *mut libc::c_void, len: *mut libc::socklen_t) -> i32 {
    if !mine(fd) {
        return libc::syscall(libc::SYS_getsockopt, fd, level, name, val, len) as i32;
    }
    point();
    let mut v = 0i32;
    if level == libc::SOL_SOCKET && name == libc::SO_ERROR {
        with(|k| {
            if let Some(Sock { obj: Obj::Conn(id), .. }) = k.fds.get(&fd) {
                if let Some(c) = k.conns.get_mut(id) {
                    v = std::mem::take(&mut c.err);
                    c.told |= v != 0;
                }
            }
        });
    }
    std::ptr::copy_nonoverlapping(&v as *const i32 as *const u8, val as *mut u8, 4.min(*len as usize));
    *len = 4;
    0
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: i32, level: i32, name: i32, val: *const libc::c_void, len: libc::socklen_t) -> i32 {
    if !mine(fd) {
        return libc::syscall(libc::SYS_setsockopt, fd, level, name, val, len) as i32;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: i32, req: libc::c_ulong, arg: usize) -> i32 {
    if req == libc::TIOCGWINSZ && crate::users::is_user() {
        *(arg as *mut libc::winsize) = libc::winsize { ws_row: 24, ws_col: 80, ws_xpixel: 0, ws_ypixel: 0 };
        return 0;
    }
    if !mine(fd) {
        return libc::syscall(libc::SYS_ioctl, fd, req, arg) as i32;
    }
    if req == libc::FIONBIO {
        let v = *(arg as *const i32);
        with(|k| {
            if let Some(s) = k.fds.get_mut(&fd) {
                s.nonblock = v != 0;
            }
        });
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    if !mine(fd) {
        return libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as i32;
    }
    with(|k| {
        let Some(s) = k.fds.get_mut(&fd) else { return fail(libc::EBADF) };
        match cmd {
            libc::F_GETFL => libc::O_RDWR | if s.nonblock { libc::O_NONBLOCK } else { 0 },
            libc::F_SETFL => {
                s.nonblock = arg as i32 & libc::O_NONBLOCK != 0;
                0
            }
            _ => 0,
        }
    })
    .unwrap_or_else(|| fail(libc::EBADF))
}

#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: i32) -> i32 {
    if !on() {
        return libc::syscall(libc::SYS_poll, fds, n, timeout) as i32;
    }
    hook(Hook::Wait(timeout));
    point();
    let list = std::slice::from_raw_parts_mut(fds, n as usize);
    with(|k| k.ready = true);
    let until = with(|k| if timeout < 0 { u64::MAX } else { k.now + timeout as u64 * 1000 }).unwrap_or(0);
    loop {
        let r = with(|k| {
            if k.stop || k.calls > 400_000 {
                k.stop = true;
                return Some(fail(libc::EBADF));
            }
            if let Some(Fault::Errno(e)) = k.fault(Call::Poll) {
                return Some(fail(e));
            }
            let mut count = 0;
            for p in list.iter_mut() {
                p.revents = k.revents(p.fd, p.events);
                if p.revents != 0 {
                    count += 1;
                }
            }
            if count > 0 {
                return Some(count);
            }
            if k.now >= until {
                return Some(0);
            }
            let t = k.next().max(k.now + 1).min(until);
            if t == u64::MAX {
                // Nothing will ever happen.
                k.violate("endless wait", "the reactor waits forever".into());
                return Some(fail(libc::EBADF));
            }
            k.now = t;
            k.advance();
            None
        });
        match r {
            None => return fail(libc::EBADF),
            Some(None) => {
                if with(|k| k.due <= k.now) == Some(true) {
                    hook(Hook::Run);
                }
            }
            Some(Some(r)) => {
                // (The caller looks at errno.)
                let e = *libc::__errno_location();
                if r >= 0 {
                    hook(Hook::Resume);
                }
                *libc::__errno_location() = e;
                return r;
            }
        }
    }
}
