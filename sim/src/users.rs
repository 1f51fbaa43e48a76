//! Threads of simulated users. They are real threads which call the real client handle, but only one thread
//! of a run (a user, or the one of the simulator) runs at any time: a user thread gives up its turn whenever
//! it blocks (the futex system call is interposed), after it has woken up the node, and sometimes when it
//! reads the clock; the seeded schedule decides when it continues. Its clock is the simulated one.
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::net::SocketAddr;
use std::ops::Bound;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::thread::JoinHandle;

use nakamoto_client::handle::{Error, Handle as _};
use nakamoto_client::Peer;
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin::{BlockHash, BlockHeader, Script, Transaction, Txid};
use nakamoto_common::block::tree::ImportResult;
use nakamoto_net::Link;
use nakamoto_p2p::fsm::Event;

use crate::reactor::guarded;
use crate::rng::{mix, Rng};
use crate::world::H;

/// State of a user thread that does not have its turn.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    /// No call under way.
    Idle,
    /// Can go on.
    Ready,
    /// Blocked until the word at this address changes, or until the deadline (ns).
    Wait { addr: usize, val: u32, deadline: Option<u64> },
    Gone,
}

pub type Job = Box<dyn FnOnce(&mut Ctx) -> Ret + Send>;

/// What a call returned.
#[derive(Clone, Debug)]
pub enum Ret {
    Unit,
    Tip(u64, BlockHeader, Uint256),
    Block(Option<(u64, BlockHeader)>),
    Header(Option<BlockHeader>),
    Branch(Option<(u64, Vec<BlockHeader>)>),
    Peers(Vec<SocketAddr>),
    Hash(BlockHash),
    Link(Link),
    Addrs(Vec<SocketAddr>),
    Tx(Option<Transaction>),
    /// The tip changed to this, or it didn't.
    Imported(Option<(u64, BlockHash)>),
    /// The headers were refused.
    Refused,
    Read(u64),
    Timeout,
    Disconnected,
    Err(String),
    /// The caller noticed a wrong answer.
    Bad(String),
    Panic(String),
}

struct User {
    st: St,
    jobs: VecDeque<(usize, Job)>,
    timed_out: bool,
    /// The time it has seen.
    clock: u64,
    /// The call under way.
    cur: Option<usize>,
}

struct Inner {
    turn: Option<usize>,
    users: Vec<User>,
    rng: Rng,
    quit: bool,
    started: Option<usize>,
    woken: bool,
    done: Vec<(usize, Ret)>,
    switches: u64,
}

/// An event that was published: digests of the event, of the block and of the filter it carries.
#[derive(Clone, Copy, Debug)]
pub struct Pub {
    pub event: u64,
    pub block: Option<u64>,
    pub filter: Option<u64>,
    pub name: &'static str,
}

pub struct Shared {
    m: Mutex<Inner>,
    cv: Condvar,
    /// Simulated time, µs.
    clock: AtomicU64,
    wall: AtomicU64,
    pub published: Mutex<Vec<Pub>>,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Shared>, usize)>> = const { RefCell::new(None) };
    /// This thread is inside the simulator's own synchronisation.
    static INSIDE: Cell<bool> = const { Cell::new(true) };
    /// The simulator's thread of a run with users.
    static SIM: RefCell<Option<Arc<Shared>>> = const { RefCell::new(None) };
}

fn me() -> Option<(Arc<Shared>, usize)> {
    ME.try_with(|m| m.borrow().clone()).ok().flatten()
}

fn inside() -> bool {
    INSIDE.try_with(|i| i.get()).unwrap_or(true)
}

fn set_inside(v: bool) -> bool {
    INSIDE.try_with(|i| i.replace(v)).unwrap_or(true)
}

/// Inside the simulator's own synchronisation, for as long as it lives.
pub struct In(bool);

impl In {
    pub fn new(v: bool) -> In {
        In(set_inside(v))
    }
}

impl Drop for In {
    fn drop(&mut self) {
        set_inside(self.0);
    }
}

pub fn is_user() -> bool {
    me().is_some()
}

/// The simulated clock, in user threads (µs: monotonic, wall).
pub fn clock() -> Option<(u64, u64)> {
    if inside() {
        return None;
    }
    let (s, id) = me()?;
    set_inside(true);
    let pause = {
        let mut i = s.m.lock().unwrap();
        i.rng.chance(1, 32)
    };
    if pause {
        s.give_up(id, St::Ready);
    }
    let mono = {
        // Time passes while a thread runs.
        let mut i = s.m.lock().unwrap();
        let u = &mut i.users[id];
        u.clock = s.clock.load(Ordering::SeqCst).max(u.clock + 1);
        u.clock
    };
    set_inside(false);
    Some((mono, s.wall.load(Ordering::SeqCst)))
}

/// A user thread has put a command into the channel, and woken up the node.
pub fn woke() {
    if inside() {
        return;
    }
    let Some((s, id)) = me() else { return };
    set_inside(true);
    {
        let mut i = s.m.lock().unwrap();
        i.woken = true;
    }
    s.give_up(id, St::Ready);
    set_inside(false);
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    r
}

/// All other interposed calls end up here, too.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && !inside() {
        let cmd = b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        if cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET {
            if let Some((s, id)) = me() {
                set_inside(true);
                let ts = d as *const libc::timespec;
                let deadline = if ts.is_null() {
                    None
                } else {
                    let t = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
                    // Plain waits have relative timeouts.
                    Some(if cmd == libc::FUTEX_WAIT { s.clock.load(Ordering::SeqCst) * 1000 + t } else { t })
                };
                s.give_up(id, St::Wait { addr: a as usize, val: c as u32, deadline });
                let late = {
                    let mut i = s.m.lock().unwrap();
                    std::mem::take(&mut i.users[id].timed_out)
                };
                set_inside(false);
                if late {
                    *libc::__errno_location() = libc::ETIMEDOUT;
                    return -1;
                }
                return 0;
            }
            let sim = SIM.try_with(|s| s.borrow().clone()).ok().flatten();
            if let Some(s) = sim {
                // The node waits for something a user thread holds.
                set_inside(true);
                let ok = s.unblock(a as usize, c as u32);
                set_inside(false);
                if ok {
                    return 0;
                }
                // A lock shared by all runs of this process?
                let ts = libc::timespec { tv_sec: 0, tv_nsec: 20_000_000 };
                for _ in 0..1000 {
                    if changed(a as usize, c as u32) {
                        return 0;
                    }
                    raw(n, a, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, c, &ts as *const _ as i64, 0, 0);
                }
                eprintln!("deadlock: the node waits for a lock that is never released");
                libc::abort();
            }
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

fn changed(addr: usize, val: u32) -> bool {
    unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val }
}

impl Shared {
    /// Let the simulator go on, and wait for the next turn.
    fn give_up(&self, id: usize, st: St) {
        let _q = In::new(true);
        let mut i = self.m.lock().unwrap();
        i.users[id].st = st;
        i.turn = None;
        self.cv.notify_all();
        while i.turn != Some(id) {
            i = self.cv.wait(i).unwrap();
        }
        i.users[id].st = St::Ready;
    }

    /// Give a user thread its turn, until it gives it up.
    fn turn(&self, id: usize) {
        let _q = In::new(true);
        let mut i = self.m.lock().unwrap();
        i.turn = Some(id);
        i.switches += 1;
        self.cv.notify_all();
        while i.turn.is_some() {
            i = self.cv.wait(i).unwrap();
        }
    }

    /// The thread can go on now.
    fn can_run(&self, id: usize) -> bool {
        let _q = In::new(true);
        let now = self.clock.load(Ordering::SeqCst);
        let mut i = self.m.lock().unwrap();
        let u = &mut i.users[id];
        match u.st {
            St::Idle => !u.jobs.is_empty(),
            St::Ready => true,
            St::Wait { addr, val, deadline } => {
                if changed(addr, val) {
                    true
                } else if deadline.map_or(false, |d| d <= now * 1000) {
                    u.timed_out = true;
                    true
                } else {
                    false
                }
            }
            St::Gone => false,
        }
    }

    fn unblock(&self, addr: usize, val: u32) -> bool {
        let _q = In::new(true);
        for _ in 0..1000 {
            if changed(addr, val) {
                return true;
            }
            let n = self.m.lock().unwrap().users.len();
            let mut any = false;
            for id in 0..n {
                if self.can_run(id) {
                    self.turn(id);
                    any = true;
                }
            }
            if !any {
                break;
            }
        }
        changed(addr, val)
    }
}

/// What a user thread has at hand.
pub struct Ctx {
    pub handle: H,
    pub shared: Arc<Shared>,
    pub subs: Vec<Sub>,
    /// Anything else a simulated program keeps.
    pub any: Option<Box<dyn std::any::Any>>,
}

pub enum Feed {
    Events(crossbeam_channel::Receiver<Event>),
    Blocks(crossbeam_channel::Receiver<(nakamoto_common::bitcoin::Block, u64)>),
    Filters(crossbeam_channel::Receiver<(nakamoto_common::block::filter::BlockFilter, BlockHash, u64)>),
}

pub struct Sub {
    pub feed: Feed,
    /// The next published event.
    pub next: usize,
}

pub fn digest_event(e: &impl std::fmt::Debug) -> u64 {
    struct W(u64);
    impl std::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for x in s.as_bytes() {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
            Ok(())
        }
    }
    let mut w = W(0xcbf29ce484222325);
    let _ = std::fmt::Write::write_fmt(&mut w, format_args!("{:?}", e));
    w.0
}

pub fn digest_block(b: &nakamoto_common::bitcoin::Block, h: u64) -> u64 {
    mix(crate::world::fnv(&nakamoto_common::bitcoin::consensus::encode::serialize(b)) ^ mix(h))
}

pub fn digest_filter(f: &nakamoto_common::block::filter::BlockFilter, b: &BlockHash, h: u64) -> u64 {
    mix(crate::world::fnv(&f.content) ^ crate::world::fnv(b.as_ref()) ^ mix(h))
}

impl Sub {
    /// Take up to `n` items; they must be the ones published since the subscription.
    pub fn read(&mut self, n: u64, shared: &Shared) -> Result<u64, String> {
        let _q = In::new(true);
        let published = shared.published.lock().unwrap();
        let mut got = 0;
        while got < n {
            let want = match &self.feed {
                Feed::Events(_) => published[self.next..].iter().position(|_| true),
                Feed::Blocks(_) => published[self.next..].iter().position(|p| p.block.is_some()),
                Feed::Filters(_) => published[self.next..].iter().position(|p| p.filter.is_some()),
            }
            .map(|i| i + self.next);
            let (item, expected) = match &self.feed {
                Feed::Events(r) => (r.try_recv().ok().map(|e| digest_event(&e)), want.map(|i| published[i].event)),
                Feed::Blocks(r) => (r.try_recv().ok().map(|(b, h)| digest_block(&b, h)), want.and_then(|i| published[i].block)),
                Feed::Filters(r) => {
                    (r.try_recv().ok().map(|(f, b, h)| digest_filter(&f, &b, h)), want.and_then(|i| published[i].filter))
                }
            };
            let name = want.map_or("nothing", |i| published[i].name);
            match (item, expected) {
                (None, None) => break,
                (Some(a), Some(b)) if a == b => {
                    self.next = want.unwrap() + 1;
                    got += 1;
                }
                (None, Some(_)) => return Err(format!("event #{} ({}) was not delivered", want.unwrap(), name)),
                (Some(_), None) => return Err("an item was delivered that was not published since the last one".into()),
                _ => return Err(format!("event #{} ({}) was due, another item was delivered", want.unwrap(), name)),
            }
        }
        Ok(got)
    }
}

/// What a user thread did in its turn.
pub struct Turn {
    pub started: Option<usize>,
    /// The call it was in.
    pub call: Option<usize>,
    pub done: Option<(usize, Ret)>,
    /// The node was woken up.
    pub woken: bool,
}

/// The simulator's side.
pub struct Users {
    pub shared: Arc<Shared>,
    threads: Vec<JoinHandle<()>>,
    /// A turn is scheduled.
    pub scheduled: Vec<bool>,
    pub rng: Rng,
}

impl Users {
    pub fn start(n: usize, seed: u64, handle: &H) -> Users {
        let _q = In::new(true);
        let shared = Arc::new(Shared {
            m: Mutex::new(Inner {
                turn: None,
                users: (0..n).map(|_| User { st: St::Idle, jobs: VecDeque::new(), timed_out: false, clock: 0, cur: None }).collect(),
                rng: Rng::stream(seed, 0x05e5, 1),
                quit: false,
                started: None,
                woken: false,
                done: vec![],
                switches: 0,
            }),
            cv: Condvar::new(),
            clock: AtomicU64::new(1_000_000_000),
            wall: AtomicU64::new(0),
            published: Mutex::new(vec![]),
        });
        let mut threads = vec![];
        for id in 0..n {
            let s = shared.clone();
            let h = handle.clone();
            threads.push(
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn(move || {
                        crate::interpose::set_hash_seed(mix(seed ^ mix(id as u64 + 77)));
                        ME.with(|m| *m.borrow_mut() = Some((s.clone(), id)));
                        let mut ctx = Ctx { handle: h, shared: s.clone(), subs: vec![], any: None };
                        work(&s, id, &mut ctx);
                        drop(ctx);
                        ME.with(|m| *m.borrow_mut() = None);
                        let mut i = s.m.lock().unwrap();
                        i.users[id].st = St::Gone;
                        i.turn = None;
                        s.cv.notify_all();
                    })
                    .unwrap(),
            );
        }
        SIM.with(|x| *x.borrow_mut() = Some(shared.clone()));
        Users { shared, threads, scheduled: vec![false; n], rng: Rng::stream(seed, 0x05e5, 2) }
    }

    pub fn len(&self) -> usize {
        self.scheduled.len()
    }

    pub fn set_time(&self, ms: u64, wall_us: u64) {
        self.shared.clock.store(1_000_000_000 + ms * 1000, Ordering::SeqCst);
        self.shared.wall.store(wall_us, Ordering::SeqCst);
    }

    pub fn call(&self, user: usize, id: usize, job: Job) {
        let _q = In::new(true);
        self.shared.m.lock().unwrap().users[user].jobs.push_back((id, job));
    }

    pub fn can_run(&self, u: usize) -> bool {
        self.shared.can_run(u)
    }

    /// Deadline of a blocked thread, ms.
    pub fn deadline(&self, u: usize) -> Option<u64> {
        let _q = In::new(true);
        match self.shared.m.lock().unwrap().users[u].st {
            St::Wait { deadline: Some(d), .. } => Some((d.saturating_sub(1_000_000_000_000) + 999_999) / 1_000_000),
            _ => None,
        }
    }

    pub fn state(&self, u: usize) -> St {
        let _q = In::new(true);
        self.shared.m.lock().unwrap().users[u].st
    }

    pub fn busy(&self, u: usize) -> bool {
        let _q = In::new(true);
        let i = self.shared.m.lock().unwrap();
        i.users[u].cur.is_some() || !i.users[u].jobs.is_empty()
    }

    /// Let the user run.
    pub fn turn(&self, u: usize) -> Turn {
        let _q = In::new(true);
        self.shared.turn(u);
        let mut i = self.shared.m.lock().unwrap();
        let done = i.done.pop();
        Turn {
            started: i.started.take(),
            call: done.as_ref().map(|d| d.0).or(i.users[u].cur),
            done,
            woken: std::mem::take(&mut i.woken),
        }
    }

    pub fn switches(&self) -> u64 {
        let _q = In::new(true);
        self.shared.m.lock().unwrap().switches
    }

    pub fn publish(&self, p: Pub) {
        let _q = In::new(true);
        self.shared.published.lock().unwrap().push(p);
    }

    /// The node is gone: let the calls under way end. Returns whether all of them did.
    pub fn wind_up(&mut self, mut done: impl FnMut(u64, usize, Option<Ret>)) -> bool {
        let _q = In::new(true);
        let mut stuck = false;
        let mut guard = 0;
        loop {
            guard += 1;
            let mut any = false;
            for u in 0..self.len() {
                if self.can_run(u) {
                    let t = self.turn(u);
                    if let Some(c) = t.started {
                        done(self.now_ms(), c, None);
                    }
                    if let Some((c, r)) = t.done {
                        done(self.now_ms(), c, Some(r));
                    }
                    any = true;
                }
            }
            if any && guard < 100_000 {
                continue;
            }
            if (0..self.len()).all(|u| !self.busy(u)) {
                break;
            }
            // Only time can help the others.
            match (0..self.len()).filter_map(|u| self.deadline(u)).min() {
                Some(ms) if guard < 100_000 => {
                    let t = 1_000_000_000 + ms * 1000;
                    let now = self.shared.clock.load(Ordering::SeqCst);
                    self.shared.clock.store(t.max(now + 1), Ordering::SeqCst);
                }
                _ => {
                    stuck = true;
                    break;
                }
            }
        }
        !stuck
    }

    pub fn now_ms(&self) -> u64 {
        (self.shared.clock.load(Ordering::SeqCst) - 1_000_000_000) / 1000
    }

    /// End the threads. Those that are stuck are left behind.
    pub fn stop(mut self) {
        let _q = In::new(true);
        SIM.with(|x| *x.borrow_mut() = None);
        self.shared.m.lock().unwrap().quit = true;
        for (u, t) in std::mem::take(&mut self.threads).into_iter().enumerate() {
            let st = self.state(u);
            if st == St::Idle {
                self.shared.turn(u);
                let _ = t.join();
            } else if st == St::Gone {
                let _ = t.join();
            }
        }
    }
}

fn work(s: &Arc<Shared>, id: usize, ctx: &mut Ctx) {
    loop {
        let (call, job) = {
            let mut i = s.m.lock().unwrap();
            loop {
                if i.turn == Some(id) {
                    if let Some(j) = i.users[id].jobs.pop_front() {
                        i.users[id].cur = Some(j.0);
                        i.started = Some(j.0);
                        i.users[id].st = St::Ready;
                        break j;
                    }
                    if i.quit {
                        return;
                    }
                    i.users[id].st = St::Idle;
                    i.turn = None;
                    s.cv.notify_all();
                }
                i = s.cv.wait(i).unwrap();
            }
        };
        let r = guarded(|| job(ctx));
        let r = r.unwrap_or_else(Ret::Panic);
        let mut i = s.m.lock().unwrap();
        i.users[id].cur = None;
        i.done.push((call, r));
        // The next call starts with the next turn.
        if i.users[id].jobs.is_empty() && !i.quit {
            i.users[id].st = St::Idle;
        }
        i.turn = None;
        s.cv.notify_all();
    }
}

/// A call of a simulated user.
#[derive(Clone, Debug)]
pub enum Call {
    Tip,
    Block(BlockHash),
    Height(u64),
    Branch(BlockHash),
    Peers(u64),
    WaitHeight(u64),
    WaitPeers(u64, u64),
    Connect(SocketAddr),
    Disconnect(SocketAddr),
    Filters(u64, u64),
    Submit(Transaction),
    Submitted(Txid),
    Import(Vec<BlockHeader>),
    /// 0 events, 1 blocks, 2 filters.
    Subscribe(u64),
    /// Read from the subscription picked by the first number.
    Read(u64, u64),
    ReadAll,
    Unsubscribe(u64),
    /// A recognisable message, to outbound peers only or to all.
    Broadcast(u64, bool),
    Rescan(Bound<u64>, Bound<u64>, Vec<Script>),
    Watch(Vec<Script>),
    ReqBlock(BlockHash),
    /// Wait for this many events, checking each of them.
    Wait(u64),
    Timeout(u64),
    Addresses(Vec<Address>),
    Shutdown,
    /// The main loop of the wallet.
    Wallet,
}

fn error(e: Error) -> Ret {
    match e {
        Error::Timeout => Ret::Timeout,
        Error::Disconnected => Ret::Disconnected,
        e => Ret::Err(e.to_string()),
    }
}

fn ret<T>(r: Result<T, Error>, f: impl FnOnce(T) -> Ret) -> Ret {
    match r {
        Ok(t) => f(t),
        Err(e) => error(e),
    }
}

fn sorted(mut v: Vec<SocketAddr>) -> Vec<SocketAddr> {
    v.sort();
    v
}

impl Call {
    /// Calls that consist of one command and its answer.
    pub fn single(&self) -> bool {
        use Call::*;
        matches!(
            self,
            Tip | Block(_) | Height(_) | Branch(_) | Peers(_) | Filters(..) | Submit(_) | Submitted(_) | Import(_) | Broadcast(..) | Rescan(..)
                | Watch(_) | ReqBlock(_) | Addresses(_)
        )
    }

    pub fn waits(&self) -> bool {
        matches!(self, Call::WaitHeight(_) | Call::WaitPeers(..) | Call::Connect(_) | Call::Disconnect(_) | Call::Wait(_))
    }

    pub fn job(self) -> Job {
        Box::new(move |c: &mut Ctx| {
            let h = &c.handle;
            match self {
                Call::Wallet => Ret::Unit,
                Call::Tip => ret(h.get_tip(), |(a, b, w)| Ret::Tip(a, b, w)),
                Call::Block(x) => ret(h.get_block(&x), Ret::Block),
                Call::Height(x) => ret(h.get_block_by_height(x), Ret::Header),
                Call::Branch(x) => ret(h.find_branch(&x), |o| Ret::Branch(o.map(|(a, b)| (a, b.into())))),
                Call::Peers(s) => {
                    ret(h.get_peers(ServiceFlags::from(s)), |v| Ret::Peers(sorted(v.into_iter().map(|p| p.addr).collect())))
                }
                Call::WaitHeight(x) => ret(h.wait_for_height(x), Ret::Hash),
                Call::WaitPeers(n, s) => ret(h.wait_for_peers(n as usize, ServiceFlags::from(s)), |v| {
                    Ret::Peers(sorted(v.into_iter().map(|p| p.0).collect()))
                }),
                Call::Connect(a) => ret(h.connect(a), Ret::Link),
                Call::Disconnect(a) => ret(h.disconnect(a), |_| Ret::Unit),
                Call::Filters(a, b) => ret(h.request_filters(a..=b), |_| Ret::Unit),
                Call::Submit(t) => ret(h.submit_transaction(t), |v| Ret::Addrs(sorted(v.into()))),
                Call::Submitted(t) => ret(h.get_submitted_transaction(&t), Ret::Tx),
                Call::Import(v) => ret(h.import_headers(v), |r| match r {
                    Ok(ImportResult::TipChanged { hash, height, .. }) => Ret::Imported(Some((height, hash))),
                    Ok(ImportResult::TipUnchanged) => Ret::Imported(None),
                    Err(_) => Ret::Refused,
                }),
                Call::Subscribe(k) => {
                    let next = c.shared.published.lock().unwrap().len();
                    let feed = match k {
                        0 => Feed::Events(h.events()),
                        1 => Feed::Blocks(h.blocks()),
                        _ => Feed::Filters(h.filters()),
                    };
                    c.subs.push(Sub { feed, next });
                    Ret::Unit
                }
                Call::Read(i, n) => {
                    if c.subs.is_empty() {
                        return Ret::Read(0);
                    }
                    let i = i as usize % c.subs.len();
                    match c.subs[i].read(n, &c.shared) {
                        Ok(n) => Ret::Read(n),
                        Err(e) => Ret::Bad(e),
                    }
                }
                Call::ReadAll => {
                    let mut n = 0;
                    for s in c.subs.iter_mut() {
                        match s.read(u64::MAX, &c.shared) {
                            Ok(m) => n += m,
                            Err(e) => return Ret::Bad(e),
                        }
                    }
                    Ret::Read(n)
                }
                Call::Unsubscribe(i) => {
                    if !c.subs.is_empty() {
                        let i = i as usize % c.subs.len();
                        c.subs.remove(i);
                    }
                    Ret::Unit
                }
                Call::Broadcast(n, out) => {
                    let m = NetworkMessage::FeeFilter(n as i64);
                    let f: fn(Peer) -> bool = if out { |p| p.is_outbound() } else { |_| true };
                    ret(h.broadcast(m, f), |v| Ret::Addrs(sorted(v)))
                }
                Call::Rescan(a, b, w) => ret(h.rescan((a, b), w.into_iter()), |_| Ret::Unit),
                Call::Watch(w) => ret(h.watch(w.into_iter()), |_| Ret::Unit),
                Call::ReqBlock(x) => ret(h.request_block(&x), |_| Ret::Unit),
                Call::Wait(n) => {
                    let mut next = c.shared.published.lock().unwrap().len();
                    let mut left = n;
                    let shared = c.shared.clone();
                    let r = h.wait(|e| {
                        let want = shared.published.lock().unwrap().get(next).copied();
                        next += 1;
                        match want {
                            Some(p) if p.event == digest_event(&e) => {
                                left = left.saturating_sub(1);
                                (left == 0).then_some(Ok(()))
                            }
                            Some(p) => Some(Err(format!("event #{} ({}) was due, another one was delivered", next - 1, p.name))),
                            None => Some(Err("an event was delivered that was not published".to_string())),
                        }
                    });
                    match r {
                        Ok(Ok(())) => Ret::Read(n),
                        Ok(Err(e)) => Ret::Bad(e),
                        // What was published by now may still be under way; it was when it waited.
                        Err(e) => error(e),
                    }
                }
                Call::Timeout(ms) => {
                    c.handle.set_timeout(std::time::Duration::from_millis(ms));
                    Ret::Unit
                }
                Call::Addresses(v) => ret(h.import_addresses(v), |_| Ret::Unit),
                Call::Shutdown => ret(h.clone().shutdown(), |_| Ret::Unit),
            }
        })
    }
}
