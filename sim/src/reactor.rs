//! The simulated reactor: drives the real client service from the world's event queue, and hands its
//! outputs back to the world. Mirrors the contract of the poll reactor.
use std::borrow::Cow;
use std::cell::RefCell;
use std::io;
use std::net::SocketAddr;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

use crossbeam_channel as chan;
use nakamoto_client::handle::Handle as _;
use nakamoto_net::{error::Error, Disconnect, Io, Publisher, Reactor, Service, Waker};
use nakamoto_p2p::fsm::Command;

use crate::oracle::Oracle;
use crate::world::{local_addr, Action, BlockHash0, StopWhy, World};

pub struct Run {
    pub world: World,
    pub oracles: Vec<Box<dyn Oracle>>,
}

thread_local! {
    pub static RUN: RefCell<Option<Rc<RefCell<Run>>>> = const { RefCell::new(None) };
}

#[derive(Clone)]
pub struct SimWaker;

impl Waker for SimWaker {
    fn wake(&self) -> io::Result<()> {
        crate::users::woke();
        Ok(())
    }
}

pub struct SimReactor {
    run: Rc<RefCell<Run>>,
    keep: (chan::Receiver<()>, chan::Sender<SocketAddr>),
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Panics inside the node are caught and reported by the simulator; keep them off stderr.
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                String::new()
            };
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        } else {
            default(info);
        }
    }));
}

/// Call into the node; a panic there is an observation, not a harness failure.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = {
        let _q = crate::users::In::new(false);
        catch_unwind(AssertUnwindSafe(f))
    };
    QUIET.with(|q| q.set(old));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

impl SimReactor {
    /// Report a node panic. After a simulated crash the process does not exist any more.
    fn panicked(&self, what: &str, msg: String) {
        let mut run = self.run.borrow_mut();
        if crate::interpose::with_disk(|d| d.dead) {
            run.world.stop = StopWhy::Crashed;
            return;
        }
        run.world.violate(format!("panic in {}", what), msg);
        run.world.stop = StopWhy::Finished;
    }

    /// A user thread runs until it blocks or pauses.
    fn user_turn<C>(&self, u: usize, q: &Queue<C>) {
        let mut run = self.run.borrow_mut();
        let run = &mut *run;
        let (call, done) = run.world.user_turn(u);
        for c in q.commands.try_iter() {
            match call {
                Some(id) => {
                    run.world.calls[id].sent += 1;
                    q.held.borrow_mut().push_back((id, c));
                }
                None => run.world.violate("unasked command", "a command was sent without a call"),
            }
        }
        if self.keep.0.try_recv().is_ok() {
            run.world.shutting = true;
        }
        if let Some(id) = done {
            for o in run.oracles.iter_mut() {
                o.on_return(&mut run.world, id);
            }
        }
    }

    fn drain<S, E>(&self, service: &mut S, publisher: &mut E, q: &Queue<S::Command>) -> bool
    where
        S: Service<SocketAddr>,
        S::DisconnectReason: Into<Disconnect<S::DisconnectReason>>,
        E: Publisher<S::Event>,
    {
        let mut guard = 0u64;
        loop {
            guard += 1;
            if guard > 3_000_000 {
                self.run.borrow().world.violate("endless output", "the node produces outputs without end");
                return false;
            }
            let io = match guarded(|| service.next()) {
                Ok(Some(io)) => io,
                Ok(None) => return true,
                Err(e) => {
                    self.panicked("output", e);
                    return false;
                }
            };
            match io {
                Io::Write(addr, bytes) => {
                    let mut run = self.run.borrow_mut();
                    let run = &mut *run;
                    run.world.record(|| {
                        let h = crate::rng::mix(crate::world::fnv(&bytes) ^ crate::world::fnv(addr.to_string().as_bytes()));
                        (h, format!("to {}: {} bytes {:?}", addr, bytes.len(), String::from_utf8_lossy(&bytes[4..16.min(bytes.len())])))
                    });
                    let (conn, msgs) = run.world.node_write(&addr, bytes);
                    for m in msgs {
                        run.world.say(|| format!("node -> {} {}", addr, crate::world::brief(&m)));
                        for o in run.oracles.iter_mut() {
                            o.on_sent(&mut run.world, &addr, conn, &m);
                        }
                    }
                }
                Io::Connect(addr) => {
                    let r = {
                        let mut run = self.run.borrow_mut();
                        let run = &mut *run;
                        run.world.say(|| format!("node dials {}", addr));
                        run.world.record_text(|| format!("dials {}", addr));
                        for o in run.oracles.iter_mut() {
                            o.on_dial(&mut run.world, &addr);
                        }
                        run.world.dial(addr)
                    };
                    let res = match r {
                        Ok(()) => guarded(|| service.attempted(&addr)),
                        Err(true) => Ok(()),
                        Err(false) => {
                            {
                                let mut run = self.run.borrow_mut();
                                let run = &mut *run;
                                let a = Action::Lost(run.world.local_time(), addr, true);
                                run.world.say(|| format!("dialling {} fails", addr));
                                for o in run.oracles.iter_mut() {
                                    o.on_input(&mut run.world, &a);
                                }
                            }
                            let e = Arc::new(io::Error::from_raw_os_error(libc::ENETUNREACH));
                            guarded(|| service.disconnected(&addr, Disconnect::DialError(e)))
                        }
                    };
                    if let Err(e) = res {
                        self.panicked("attempted", e);
                        return false;
                    }
                }
                Io::Disconnect(addr, reason) => {
                    let text = format!("{}", reason);
                    let existed = {
                        let mut run = self.run.borrow_mut();
                        let run = &mut *run;
                        run.world.say(|| format!("node disconnects {}: {}", addr, text));
                        run.world.record_text(|| format!("disconnects {}: {}", addr, text));
                        for o in run.oracles.iter_mut() {
                            o.on_disconnect(&mut run.world, &addr, &text);
                        }
                        run.world.node_disconnect(&addr)
                    };
                    if existed {
                        if let Err(e) = guarded(|| service.disconnected(&addr, reason.into())) {
                            self.panicked("disconnected", e);
                            return false;
                        }
                    }
                }
                Io::SetTimer(d) => {
                    let w = &mut self.run.borrow_mut().world;
                    w.record_text(|| format!("timer {:?}", d));
                    w.set_timer(d.as_millis() as u64);
                }
                Io::Event(e) => {
                    let digest = self.run.borrow().world.users.is_some().then(|| crate::users::digest_event(&e));
                    if let Err(e) = guarded(|| publisher.publish(e)) {
                        self.panicked("publisher", e);
                        return false;
                    }
                    let turn = {
                        let mut run = self.run.borrow_mut();
                        let run = &mut *run;
                        let evs: Vec<_> = run.world.events.as_ref().map(|r| r.try_iter().collect()).unwrap_or_default();
                        if let Some(d) = digest {
                            if evs.len() != 1 || crate::users::digest_event(&evs[0]) != d {
                                run.world.violate("subscription", format!("{} items delivered for an event", evs.len()));
                            }
                            run.world.published(&evs);
                        }
                        self.observe(run, evs);
                        run.world.user_midway()
                    };
                    if let Some(u) = turn {
                        self.user_turn(u, q);
                    }
                }
            }
        }
    }

    fn observe(&self, run: &mut Run, evs: Vec<nakamoto_p2p::fsm::Event>) {
        for ev in evs {
            run.world.say(|| format!("event {}", event_brief(&ev)));
            run.world.record_text(|| format!("event {}", event_brief(&ev)));
            run.world.stats.trace = crate::rng::mix(run.world.stats.trace ^ crate::world::fnv(event_name(&ev).as_bytes()));
            run.world.follow_event(&ev);
            for o in run.oracles.iter_mut() {
                o.on_event(&mut run.world, &ev);
            }
        }
    }
}

/// Commands of the user threads, on their way to the node.
struct Queue<C> {
    commands: chan::Receiver<C>,
    held: RefCell<std::collections::VecDeque<(usize, C)>>,
}

pub fn event_name(e: &nakamoto_p2p::fsm::Event) -> &'static str {
    use nakamoto_p2p::fsm::Event as E;
    match e {
        E::Initializing => "Initializing",
        E::Ready { .. } => "Ready",
        E::PeerConnected { .. } => "PeerConnected",
        E::PeerConnecting { .. } => "PeerConnecting",
        E::PeerDisconnected { .. } => "PeerDisconnected",
        E::PeerTimedOut { .. } => "PeerTimedOut",
        E::PeerConnectionFailed { .. } => "PeerConnectionFailed",
        E::PeerNegotiated { .. } => "PeerNegotiated",
        E::PeerHeightUpdated { .. } => "PeerHeightUpdated",
        E::PeerMisbehaved { .. } => "PeerMisbehaved",
        E::BlockConnected { .. } => "BlockConnected",
        E::BlockDisconnected { .. } => "BlockDisconnected",
        E::BlockProcessed { .. } => "BlockProcessed",
        E::BlockMatched { .. } => "BlockMatched",
        E::BlockHeadersSynced { .. } => "BlockHeadersSynced",
        E::BlockHeadersImported { .. } => "BlockHeadersImported",
        E::FilterProcessed { .. } => "FilterProcessed",
        E::FilterReceived { .. } => "FilterReceived",
        E::Scanned { .. } => "Scanned",
        E::TxStatusChanged { .. } => "TxStatusChanged",
        _ => "Other",
    }
}

pub fn event_brief(e: &nakamoto_p2p::fsm::Event) -> String {
    use nakamoto_p2p::fsm::Event as E;
    match e {
        E::FilterProcessed { height, matched, valid, cached, block } => {
            format!("FilterProcessed height={} block={} matched={} valid={} cached={}", height, crate::world::short(block), matched, valid, cached)
        }
        E::FilterReceived { height, from, .. } => format!("FilterReceived height={} from={}", height, from),
        E::Scanned { height } => format!("Scanned height={}", height),
        E::BlockMatched { height, block } => format!("BlockMatched height={} block={}", height, crate::world::short(&block.block_hash())),
        E::BlockProcessed { height, block, .. } => format!("BlockProcessed height={} block={}", height, crate::world::short(&block.block_hash())),
        E::Error { error } => format!("Error {}", error),
        e => format!("{}: {}", event_name(e), e),
    }
}

impl Reactor for SimReactor {
    type Waker = SimWaker;

    fn new(shutdown: chan::Receiver<()>, listening: chan::Sender<SocketAddr>) -> Result<Self, io::Error> {
        let run = RUN.with(|r| r.borrow().clone()).expect("harness: no run installed");
        Ok(SimReactor { run, keep: (shutdown, listening) })
    }

    fn run<S, E>(
        &mut self,
        _listen: &[SocketAddr],
        mut service: S,
        mut publisher: E,
        commands: chan::Receiver<S::Command>,
    ) -> Result<(), Error>
    where
        S: Service<SocketAddr>,
        S::DisconnectReason: Into<Disconnect<S::DisconnectReason>>,
        E: Publisher<S::Event>,
    {
        let q = Queue { commands: commands.clone(), held: RefCell::new(Default::default()) };
        loop {
            let act = self.run.borrow_mut().world.next_action();
            if let Action::User(u) = act {
                self.user_turn(u, &q);
                continue;
            }
            if !matches!(act, Action::Drain) {
                let mut run = self.run.borrow_mut();
                run.world.stats.steps += 1;
                if run.world.stats.steps > 400_000 {
                    *run.world.stats.probes.entry("step-cap").or_default() += 1;
                    run.world.stop = StopWhy::Finished;
                    return Ok(());
                }
                let run = &mut *run;
                for o in run.oracles.iter_mut() {
                    o.on_input(&mut run.world, &act);
                }
                if let Action::Msg(_, addr, bytes) = &act {
                    if let Some((id, rx)) = run.world.tap(addr, bytes) {
                        for m in rx {
                            for o in run.oracles.iter_mut() {
                                o.on_received(&mut run.world, addr, id, &m);
                            }
                        }
                    }
                }
                if let Action::Commands(_) = act {
                    for n in std::mem::take(&mut run.world.notes) {
                        for o in run.oracles.iter_mut() {
                            o.on_note(&mut run.world, &n);
                        }
                    }
                }
            }
            let mut what = "";
            let res = match act {
                Action::Stop => {
                    // A finished run gets a last look at the tree.
                    if self.run.borrow().world.stop == StopWhy::Finished && self.run.borrow().world.violation.borrow().is_none() {
                        if !self.drain(&mut service, &mut publisher, &q) {
                            return Ok(());
                        }
                        self.snapshot(&mut service, &commands, true);
                        let mut run = self.run.borrow_mut();
                        let run = &mut *run;
                        let snap = run.world.snap.clone();
                        let snap = snap.lock().unwrap();
                        for o in run.oracles.iter_mut() {
                            o.on_finish(&mut run.world, &snap);
                        }
                    }
                    return Ok(());
                }
                Action::Drain => {
                    if !self.drain(&mut service, &mut publisher, &q) {
                        return Ok(());
                    }
                    if !self.after_step(&mut service, &commands) {
                        return Ok(());
                    }
                    continue;
                }
                Action::Init(t) => {
                    what = "initialize";
                    guarded(|| service.initialize(t))
                }
                Action::Timer(t) => {
                    what = "timer";
                    guarded(|| {
                        service.tick(t);
                        service.timer_expired();
                    })
                }
                Action::Msg(t, addr, bytes) if self.run.borrow().world.plan.cfg.split != 0 => {
                    // The same bytes in several pieces.
                    what = "message";
                    let (cuts, flush) = self.run.borrow_mut().world.cuts(&bytes);
                    let mut res = Ok(());
                    let mut from = 0;
                    for to in cuts {
                        let piece = bytes[from..to].to_vec();
                        from = to;
                        // Nothing more is read from a connection that was closed.
                        if !self.run.borrow().world.by_addr.contains_key(&addr) {
                            break;
                        }
                        res = guarded(|| {
                            service.tick(t);
                            service.message_received(&addr, Cow::Owned(piece));
                        });
                        if res.is_err() {
                            break;
                        }
                        if flush && to < bytes.len() && !self.drain(&mut service, &mut publisher, &q) {
                            return Ok(());
                        }
                    }
                    res
                }
                Action::Msg(t, addr, bytes) => {
                    what = "message";
                    guarded(|| {
                        service.tick(t);
                        service.message_received(&addr, Cow::Owned(bytes));
                    })
                }
                Action::Connected(t, addr, link) => {
                    what = "connected";
                    guarded(|| {
                        service.tick(t);
                        service.connected(addr, &local_addr(), link);
                    })
                }
                Action::Lost(t, addr, dial) => {
                    what = "disconnected";
                    let e = Arc::new(io::Error::from(if dial { io::ErrorKind::ConnectionRefused } else { io::ErrorKind::ConnectionReset }));
                    guarded(|| {
                        service.tick(t);
                        service.disconnected(&addr, if dial { Disconnect::DialError(e) } else { Disconnect::ConnectionError(e) });
                    })
                }
                Action::User(_) => Ok(()),
                Action::Commands(_) if self.run.borrow().world.shutting => {
                    // As the poll reactor does: the outputs are processed, queued commands are not.
                    self.drain(&mut service, &mut publisher, &q);
                    self.run.borrow_mut().world.stop = StopWhy::Finished;
                    return Ok(());
                }
                Action::Commands(t) if self.run.borrow().world.users.is_some() => {
                    what = "command";
                    let mut res = guarded(|| service.tick(t));
                    loop {
                        let Some((id, c)) = q.held.borrow_mut().pop_front() else { break };
                        if !self.snapshot(&mut service, &commands, false) {
                            return Ok(());
                        }
                        {
                            let mut run = self.run.borrow_mut();
                            let run = &mut *run;
                            let n = run.world.calls[id].executed;
                            run.world.calls[id].executed += 1;
                            let snap = run.world.snap.clone();
                            let snap = snap.lock().unwrap();
                            for o in run.oracles.iter_mut() {
                                o.on_exec(&mut run.world, id, n, &snap);
                            }
                        }
                        if res.is_ok() {
                            res = guarded(|| service.command_received(c));
                        }
                    }
                    res
                }
                Action::Commands(t) => {
                    what = "command";
                    guarded(|| {
                        service.tick(t);
                        for c in commands.try_iter() {
                            service.command_received(c);
                        }
                    })
                }
            };
            if let Err(e) = res {
                self.panicked(what, e);
                return Ok(());
            }
        }
    }

    fn waker(&self) -> SimWaker {
        SimWaker
    }
}

impl SimReactor {
    fn after_step<S: Service<SocketAddr>>(&self, service: &mut S, commands: &chan::Receiver<S::Command>) -> bool {
        if crate::interpose::with_disk(|d| d.dead) {
            return true; // next_action stops
        }
        let wants = {
            let run = self.run.borrow();
            run.oracles.iter().any(|o| o.wants_snapshot())
        };
        if self.run.borrow().world.pending_cmds {
            // The queued user commands come first; the step ends with them.
            return true;
        }
        if wants && !self.snapshot(service, commands, false) {
            return false;
        }
        let mut run = self.run.borrow_mut();
        let run = &mut *run;
        let snap = run.world.snap.clone();
        let snap = snap.lock().unwrap();
        if wants {
            run.world.follow_step(&snap);
        }
        for o in run.oracles.iter_mut() {
            o.on_step(&mut run.world, &snap);
        }
        true
    }

    /// Read the node's chain through its query interface.
    fn snapshot<S: Service<SocketAddr>>(&self, service: &mut S, commands: &chan::Receiver<S::Command>, full: bool) -> bool {
        // Commands of the simulated user that wait in the channel must not be run by this query.
        let (snap, handle) = {
            let run = self.run.borrow();
            if run.world.pending_cmds {
                return true;
            }
            (run.world.snap.clone(), run.world.handle.clone())
        };
        let Some(handle) = handle else { return true };
        let q = move |t: &dyn nakamoto_common::block::tree::BlockReader| {
            let mut s = snap.lock().unwrap();
            let h = t.height();
            s.reads += 1;
            s.height = h;
            s.tip = BlockHash0(t.tip().0);
            s.work = t.chain_work();
            s.best = t.best_block().0;
            let n = h as usize + 1;
            if full {
                s.headers.clear();
                s.hashes.clear();
            }
            s.headers.truncate(n);
            s.hashes.truncate(n);
            let have = s.headers.len();
            // New part.
            for i in have..n {
                match t.get_block_by_height(i as u64) {
                    Some(hd) => {
                        s.headers.push(*hd);
                        s.hashes.push(hd.block_hash());
                    }
                    None => break,
                }
            }
            // Changed part, downwards until it agrees.
            let mut i = have.min(n);
            while i > 0 {
                i -= 1;
                match t.get_block_by_height(i as u64) {
                    Some(hd) if s.headers[i] == *hd => break,
                    Some(hd) => {
                        s.headers[i] = *hd;
                        s.hashes[i] = hd.block_hash();
                    }
                    None => {
                        s.headers.truncate(i);
                        s.hashes.truncate(i);
                    }
                }
            }
        };
        handle.command(Command::QueryTree(Arc::new(q))).expect("harness: command channel");
        let r = guarded(|| {
            for c in commands.try_iter() {
                service.command_received(c);
            }
        });
        if let Err(e) = r {
            self.panicked("query", e);
            return false;
        }
        true
    }
}
