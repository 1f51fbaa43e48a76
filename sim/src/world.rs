//! The simulated world around one real node: clock, event queue, network, stub peers, user, faults.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, VecDeque};
use std::ops::Bound;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::sync::{Arc, Mutex};

use crossbeam_channel as chan;
use nakamoto_client::Handle;
use nakamoto_client::handle::Handle as _;
use nakamoto_common::bitcoin;
use nakamoto_common::bitcoin::consensus::encode::{deserialize_partial, serialize, Encodable};
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_blockdata::{GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::network::message_filter::{CFHeaders, CFilter, GetCFHeaders, GetCFilters};
use nakamoto_common::bitcoin::network::message_network::VersionMessage;
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin::{Block, BlockHash, BlockHeader, Transaction, TxOut, Txid, Witness, Wtxid};
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_common::block::time::LocalTime;
use nakamoto_common::network::Network;
use nakamoto_net::Link;
use nakamoto_common::bitcoin::Script;
use nakamoto_common::block::tree::{Error as TreeError, ImportResult};
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_p2p::fsm::{Command, CommandError, Event, GetFiltersError, Peer};

use crate::interpose;
use crate::plan::{Op, Plan, K};
use crate::reactor::SimWaker;
use crate::rng::{mix, Rng};
use crate::universe::{self, Content, Id, Universe};
use crate::users::{Call, Ret, Users};

pub type H = Handle<SimWaker>;

// Lies of adversarial peers (cfg.lies).
pub const LIE_HEADERS: u64 = 1; // invalid headers in replies
pub const LIE_CFHEADERS: u64 = 2; // forged filter header chain
pub const LIE_CFILTER: u64 = 4; // forged filters
pub const LIE_BLOCK: u64 = 8; // altered block contents
pub const LIE_NOTFOUND: u64 = 16; // refuses to serve blocks
pub const LIE_SILENT: u64 = 32; // never answers requests
pub const LIE_STALE: u64 = 64; // serves blocks of other branches
pub const LIE_HEIGHT: u64 = 128; // exaggerated height in its version
pub const LIE_CFTYPE: u64 = 256; // wrong filter type
pub const LIE_MUTATE: u64 = 512; // altered bytes in any message, with a correct checksum

#[derive(Clone, Debug)]
pub enum Ev {
    Op(usize),
    Timer,
    DialDone(u64, bool),
    /// The next bytes under way reach the other end (streams keep their order).
    ToNode(u64),
    ToPeer(u64),
    CloseNode(u64, bool),
    CloseBoth(u64),
    PeerSend(u64, Vec<NetMsg>),
    InboundUp(u64),
    Unmute(usize),
    Chat(u64),
    Script(u64),
    /// A user thread gets a turn.
    User(usize),
    /// The node notices that it was woken up.
    Cmds,
    End,
}

pub type NetMsg = Arc<NetworkMessage>;

/// What the bytes handed to the node amount to.
#[derive(Clone, Debug)]
pub enum Rx {
    Msg(NetMsg),
    /// A message of another network.
    Magic,
    /// A complete frame that is no message, or no frame at all.
    Garbage,
}

struct QItem(u64, u64, Ev);
impl PartialEq for QItem {
    fn eq(&self, o: &Self) -> bool {
        (self.0, self.1) == (o.0, o.1)
    }
}
impl Eq for QItem {}
impl PartialOrd for QItem {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for QItem {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.0, o.1).cmp(&(self.0, self.1))
    }
}

/// What the node is given next.
#[derive(Debug)]
pub enum Action {
    Stop,
    Init(LocalTime),
    Timer(LocalTime),
    Msg(LocalTime, SocketAddr, Vec<u8>),
    Connected(LocalTime, SocketAddr, Link),
    /// Connection lost (or refused, when never established).
    Lost(LocalTime, SocketAddr, bool),
    Commands(LocalTime),
    /// A user thread runs.
    User(usize),
    /// End of a group of inputs: drain the outputs.
    Drain,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CState {
    Dialing,
    Up,
    Closed,
}

#[derive(Debug)]
pub struct Conn {
    pub id: u64,
    pub peer: usize,
    pub addr: SocketAddr,
    pub link: Link,
    pub state: CState,
    /// Node-side bytes not yet decoded (node to peer direction, for the observer and the peer).
    pub inbuf: Vec<u8>,
    pub obsbuf: Vec<u8>,
    /// Bytes handed to the node, not yet decoded (peer to node direction, for the oracles).
    pub tapbuf: Vec<u8>,
    pub last_to_node: u64,
    pub last_to_peer: u64,
    // Remote protocol state.
    pub got_version: bool,
    pub got_verack: bool,
    pub sent_version: bool,
    pub sendheaders: bool,
    /// Latest block of ours the node is known to have.
    pub node_has: Id,
    pub held: VecDeque<Vec<u8>>,
    /// Bytes under way in either direction.
    pub to_node: VecDeque<Vec<u8>>,
    pub to_peer: VecDeque<Vec<u8>>,
    /// The other end of a connection of the node to itself.
    pub twin: Option<u64>,
    /// Rest of the peculiar session of the remote.
    pub script: Option<(u64, u64)>,
    pub opened: u64,
    pub rng: Rng,
}

pub struct PeerS {
    pub addr: SocketAddr,
    pub services: ServiceFlags,
    pub version: u32,
    pub tip: Id,
    pub up: bool,
    pub mute_until: u64,
    pub delay: u64,
    pub evil: bool,
    pub clock: i64,
    pub relay: bool,
    pub mempool: BTreeMap<Txid, Transaction>,
    pub conn: Option<u64>,
    pub partitioned_until: u64,
    pub nonce: u64,
    /// Peculiar sessions: (tokens, quirk of the version message).
    pub script: Option<(u64, u64)>,
    /// The address is the node's own.
    pub mirror: bool,
    /// Never answers pings.
    /// How pings are answered: 0 properly, 1 not at all, otherwise with a wrong nonce.
    pub pong: u64,
    last_ping: u64,
    /// Said something odd at some time.
    pub tainted: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub steps: u64,
    pub inputs: BTreeMap<&'static str, u64>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub sim_ms: u64,
    pub trace: u64,
    pub states: BTreeSet<u64>,
    pub incarnations: u64,
    pub evaluations: u64,
}

/// The node's chain as last observed.
#[derive(Default, Clone)]
pub struct Snap {
    pub headers: Vec<BlockHeader>,
    pub hashes: Vec<BlockHash>,
    pub work: Uint256,
    pub tip: BlockHash0,
    pub height: u64,
    pub best: u64,
    /// Queries executed so far.
    pub reads: u64,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct BlockHash0(pub BlockHash);
impl Default for BlockHash0 {
    fn default() -> Self {
        BlockHash0(BlockHash::all_zeros())
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
    pub at: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum StopWhy {
    Running,
    Finished,
    Crashed,
    Restart,
}

pub struct World {
    pub plan: Plan,
    pub now: u64,
    pub clock_skew: i64,
    pub base_secs: u64,
    seq: u64,
    queue: BinaryHeap<QItem>,
    pub u: Universe,
    pub best: Id,
    pub peers: Vec<PeerS>,
    pub conns: BTreeMap<u64, Conn>,
    /// Live connection of each address, as the reactor sees it.
    pub by_addr: BTreeMap<SocketAddr, u64>,
    next_conn: u64,
    pub handle: Option<H>,
    pub events: Option<chan::Receiver<Event>>,
    pub stop: StopWhy,
    pub stats: Stats,
    pub violation: RefCell<Option<Violation>>,
    pub snap: Arc<Mutex<Snap>>,
    pub initialized: bool,
    pub pending_cmds: bool,
    pub incarnation: u64,
    pub log: RefCell<Vec<String>>,
    pub history: Vec<(u64, u64, String)>,
    pub split_rng: Rng,
    pub logging: bool,
    pub txs: Vec<Transaction>,
    pub armed_crash: Option<(u64, u64, bool)>,
    pub power_loss: bool,
    /// How the previous incarnation ended.
    pub last_power_loss: bool,
    pub last_stop_crashed: bool,
    pub rng: Rng,
    batch_until: Option<u64>,
    need_drain: bool,
    batch_conns: BTreeSet<u64>,
    pub dir: String,
    pub honest_seen: BTreeSet<Id>,
    pub last_input: Option<(SocketAddr, &'static str)>,
    pub fault_free_since: u64,
    /// The node may have been denied disk writes (memory and disk may differ).
    pub disk_faulted: bool,
    pub cell: Cell<u64>,
    pub extra_ops: Vec<Op>,
    pub checkpoints: Vec<(u64, BlockHash)>,
    pub notes: Vec<Note>,
    /// The active chain as the events tell it.
    pub view: Vec<BlockHash>,
    /// When the node's timers are due, by its local clock (ms, without the base).
    timers: BTreeSet<i64>,
    /// How far its clock was set back in total.
    pub set_back: u64,
    /// Blocks that left it since the last completed step.
    pub gone: Vec<(u64, BlockHash)>,
    /// The offsets the node has sampled, and the one it should use (C15).
    pub samples: Vec<i64>,
    pub adjust: i64,
    /// Transactions peers asked for, by connection.
    pub tx_asked: BTreeMap<(u64, Txid), u64>,
    pub users: Option<Users>,
    pub wallet: Option<crate::wallet::Session>,
    pub calls: Vec<CallRec>,
    deadlines: Vec<u64>,
    timeouts: Vec<u64>,
    cmds_due: bool,
    pub shutting: bool,
}

/// A call of a user thread.
#[derive(Clone, Debug)]
pub struct CallRec {
    pub user: usize,
    pub call: Call,
    pub timeout: u64,
    /// When it started, and how many events had been published.
    pub start: Option<(u64, usize)>,
    pub sent: u64,
    pub executed: u64,
    pub end: Option<(u64, Ret)>,
    /// It returned after the node had stopped.
    pub after: bool,
}

/// What the simulated user did (handed to the oracles when the node executes the command).
#[derive(Clone)]
pub enum Note {
    Rescan { from: Bound<u64>, to: Bound<u64>, watch: Vec<Script> },
    Watch { watch: Vec<Script> },
    Submit { tx: Transaction, rx: chan::Receiver<Result<NonEmpty<SocketAddr>, CommandError>> },
    Filters { from: u64, to: u64, rx: chan::Receiver<Result<(), GetFiltersError>> },
    ReqBlock { hash: BlockHash },
    Import { headers: Vec<BlockHeader>, rx: chan::Receiver<Result<ImportResult, TreeError>> },
    Peers { rx: chan::Receiver<Vec<Peer>> },
    Connect { addr: SocketAddr },
    Disconnect { addr: SocketAddr },
    Addresses { addrs: Vec<Address> },
    Broadcast { rx: chan::Receiver<Vec<SocketAddr>> },
}

pub fn peer_addr(i: usize) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::new(44, 10 + i as u8, 1 + (i as u8 % 3), 7)), 18444)
}

pub fn local_addr() -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::new(33, 33, 33, 33)), 18334)
}

impl World {
    pub fn new(plan: &Plan, dir: String) -> World {
        let cfg = &plan.cfg;
        let mut u = Universe::with_base(cfg.base_len as usize);
        if cfg.interval > 0 {
            u.params.pow_target_spacing = cfg.spacing;
            u.params.pow_target_timespan = cfg.spacing * cfg.interval;
            u.params.no_pow_retargeting = false;
            u.params.allow_min_difficulty_blocks = cfg.mindiff != 0;
        }
        let best = u.blocks.len() - 1;
        let start = if cfg.base_len > 0 { u.get(best).block.header.time as u64 + 900 } else { universe::T0 as u64 };
        let mut peers = Vec::new();
        let mut rng = Rng::stream(plan.seed, 1, 0);
        for i in 0..cfg.npeers as usize {
            let mut services = ServiceFlags::NETWORK | ServiceFlags::WITNESS;
            if cfg.nocf >> i & 1 == 0 {
                services |= ServiceFlags::COMPACT_FILTERS;
            }
            if cfg.limited >> i & 1 == 1 {
                services = ServiceFlags::NONE;
            }
            let clock = if cfg.skew > 0 { rng.below(2 * cfg.skew + 1) as i64 - cfg.skew as i64 } else { 0 };
            peers.push(PeerS {
                addr: peer_addr(i),
                services,
                version: 70016,
                tip: best,
                up: true,
                mute_until: 0,
                delay: 0,
                evil: cfg.evil >> i & 1 == 1,
                clock,
                relay: cfg.norelay >> i & 1 == 0,
                mempool: BTreeMap::new(),
                conn: None,
                partitioned_until: 0,
                nonce: mix(plan.seed ^ (i as u64 + 77)),
                script: None,
                mirror: false,
                pong: 0,
                last_ping: 0,
                tainted: false,
            });
        }
        let mut w = World {
            plan: plan.clone(),
            now: 0,
            clock_skew: 0,
            base_secs: start,
            seq: 0,
            queue: BinaryHeap::new(),
            u,
            best,
            peers,
            conns: BTreeMap::new(),
            by_addr: BTreeMap::new(),
            next_conn: 1,
            handle: None,
            events: None,
            stop: StopWhy::Running,
            stats: Stats::default(),
            violation: RefCell::new(None),
            snap: Arc::new(Mutex::new(Snap::default())),
            initialized: false,
            pending_cmds: false,
            incarnation: 0,
            log: RefCell::new(vec![]),
            history: vec![],
            split_rng: Rng::stream(plan.seed, plan.cfg.split, 0x5911),
            logging: false,
            txs: vec![],
            armed_crash: None,
            power_loss: false,
            last_power_loss: false,
            last_stop_crashed: false,
            rng,
            batch_until: None,
            need_drain: false,
            batch_conns: BTreeSet::new(),
            dir,
            honest_seen: BTreeSet::new(),
            last_input: None,
            fault_free_since: 0,
            disk_faulted: false,
            cell: Cell::new(0),
            extra_ops: vec![],
            checkpoints: vec![],
            notes: vec![],
            view: vec![],
            gone: vec![],
            tx_asked: BTreeMap::new(),
            users: None,
            wallet: None,
            calls: vec![],
            deadlines: vec![0; cfg.users as usize],
            timeouts: vec![60_000; cfg.users as usize],
            cmds_due: false,
            shutting: false,
            samples: vec![],
            adjust: 0,
            timers: Default::default(),
            set_back: 0,
        };
        if w.plan.cfg.ckpt > 0 {
            // The true chain, as known to whoever wrote the checkpoints down.
            w.base_secs += 100_000;
            let mut tip = 0;
            for i in 0..3 * w.plan.cfg.ckpt + 2 {
                let mut r = Rng::stream(plan.seed, 4242, i);
                tip = w.u.mine(tip, universe::T0 + 600 * i as u32 + r.below(300) as u32, Content::default(), &mut r);
                if i % 3 == 2 {
                    w.checkpoints.push((i + 1, w.u.get(tip).hash));
                }
            }
            w.best = tip;
        }
        if w.plan.cfg.world == 1 {
            w.base_secs += 4_000_000;
        }
        for (i, op) in plan.ops.iter().enumerate() {
            w.push(op.at, Ev::Op(i));
        }
        w.push(cfg.end, Ev::End);
        w
    }

    pub fn say(&self, f: impl FnOnce() -> String) {
        if std::env::var_os("SIM_LIVE").is_some() {
            eprintln!("[{:9} ms] {}", self.now, f());
            return;
        }
        if self.logging {
            let s = format!("[{:>9} ms] {}", self.now, f());
            self.log.borrow_mut().push(s);
        }
    }

    pub fn violate(&self, class: impl Into<String>, detail: impl Into<String>) {
        let mut v = self.violation.borrow_mut();
        if v.is_none() {
            let v0 = Violation { class: class.into(), detail: detail.into(), at: self.now };
            self.say(|| format!("VIOLATION {}: {}", v0.class, v0.detail));
            *v = Some(v0);
        }
    }

    pub fn calm(&self) -> bool {
        self.now >= self.plan.cfg.calm
    }

    /// Since when the node had its chance to work without faults.
    pub fn quiet_since(&self) -> u64 {
        self.plan.cfg.calm + self.set_back
    }

    pub fn local_time(&self) -> LocalTime {
        let ms = self.base_secs as i64 * 1000 + self.now as i64 + self.clock_skew;
        LocalTime::from_secs((ms / 1000) as u64) + nakamoto_net::LocalDuration::from_millis((ms % 1000) as u128)
    }

    /// Keep track of the active chain.
    pub fn follow_event(&mut self, e: &Event) {
        match e {
            Event::BlockConnected { header, height } => {
                let h = *height as usize;
                if self.view.len() >= h {
                    self.view.truncate(h);
                    self.view.push(header.block_hash());
                }
            }
            Event::BlockDisconnected { header, height } => {
                self.gone.push((*height, header.block_hash()));
                let h = *height as usize;
                self.view.truncate(h);
            }
            _ => {}
        }
    }

    /// A step has completed, and this is the chain.
    pub fn follow_step(&mut self, s: &Snap) {
        self.gone.clear();
        if !s.hashes.is_empty() && (self.view.len() != s.hashes.len() || self.view.last() != s.hashes.last()) {
            self.view.clone_from(&s.hashes);
        }
    }

    /// The block is (or was until this very step) the one at this height of the active chain.
    pub fn on_chain(&self, height: u64, hash: &BlockHash) -> bool {
        self.view.get(height as usize) == Some(hash) || self.gone.contains(&(height, *hash))
    }

    pub fn true_secs(&self) -> u64 {
        self.base_secs + self.now / 1000
    }

    pub fn push(&mut self, at: u64, e: Ev) {
        self.seq += 1;
        self.queue.push(QItem(at.max(self.now), self.seq, e));
    }

    pub fn fault(&mut self, name: &'static str) {
        *self.stats.faults.entry(name).or_default() += 1;
        self.fault_free_since = self.now;
    }

    pub fn probe(&mut self, name: &'static str) {
        *self.stats.probes.entry(name).or_default() += 1;
    }

    fn trace(&mut self, a: u64, b: u64) {
        self.stats.trace = mix(self.stats.trace ^ mix(a.wrapping_mul(31).wrapping_add(b)));
    }

    pub fn peer_of(&self, addr: &SocketAddr) -> Option<usize> {
        self.peers.iter().position(|p| p.addr == *addr || p.addr.ip() == addr.ip())
    }

    /// Peers the node is configured to stay connected with.
    pub fn persistent(&self) -> Vec<SocketAddr> {
        self.peers
            .iter()
            .enumerate()
            .filter(|(i, _)| match self.plan.cfg.mode {
                0 => true,
                1 => false,
                _ => i % 2 == 0,
            })
            .map(|(_, p)| p.addr)
            .collect()
    }

    pub fn conn_of(&self, addr: &SocketAddr) -> Option<&Conn> {
        self.by_addr.get(addr).and_then(|i| self.conns.get(i))
    }

    // ---------------------------------------------------------------- node side (called by the reactor)

    /// Start of an incarnation.
    pub fn boot(&mut self, handle: H) {
        self.events = Some(handle.events());
        if self.plan.cfg.wallet > 0 {
            self.start_wallet(&handle);
        } else if self.plan.cfg.users > 0 && self.users.is_none() {
            self.users = Some(Users::start(self.plan.cfg.users as usize, self.plan.seed, &handle));
        }
        self.handle = Some(handle);
        self.initialized = false;
        self.pending_cmds = false;
        self.notes.clear();
        self.view.clear();
        self.gone.clear();
        self.stop = StopWhy::Running;
        self.incarnation += 1;
        self.stats.incarnations += 1;
        self.batch_until = None;
        self.batch_conns.clear();
        self.need_drain = false;
    }

    /// End of an incarnation: all connections break, timers vanish.
    pub fn shutdown_node(&mut self) {
        let ids: Vec<u64> = self.conns.keys().copied().collect();
        for id in ids {
            self.drop_conn(id);
        }
        self.by_addr.clear();
        self.timers.clear();
        let items: Vec<QItem> = std::mem::take(&mut self.queue).into_vec();
        for q in items {
            match q.2 {
                Ev::Timer | Ev::DialDone(..) | Ev::ToNode(..) | Ev::ToPeer(..) | Ev::CloseNode(..) | Ev::PeerSend(..)
                | Ev::InboundUp(..) | Ev::CloseBoth(..) | Ev::Chat(..) | Ev::Script(..) | Ev::User(_) | Ev::Cmds => {}
                _ => self.queue.push(q),
            }
        }
        self.handle = None;
        self.events = None;
    }

    fn drop_conn(&mut self, id: u64) {
        if let Some(c) = self.conns.get_mut(&id) {
            c.state = CState::Closed;
            let p = c.peer;
            if p < self.peers.len() && self.peers[p].conn == Some(id) {
                self.peers[p].conn = None;
            }
        }
        self.conns.remove(&id);
    }

    /// Next thing to hand to the node.
    pub fn next_action(&mut self) -> Action {
        if self.violation.borrow().is_some() {
            self.stop = StopWhy::Finished;
            return Action::Stop;
        }
        if !self.initialized {
            self.initialized = true;
            self.need_drain = true;
            self.trace(1, 0);
            return Action::Init(self.local_time());
        }
        if interpose::with_disk(|d| d.dead) || self.wallet_gone() {
            self.stop = StopWhy::Crashed;
            return Action::Stop;
        }
        if self.stop == StopWhy::Restart {
            return Action::Stop;
        }
        loop {
            if self.pending_cmds {
                self.pending_cmds = false;
                self.need_drain = true;
                self.trace(2, 0);
                return Action::Commands(self.local_time());
            }
            self.poll_users();
            let (next_at, clash) = match self.queue.peek() {
                // One round of the reactor handles each socket once, and timers only in rounds without
                // socket events.
                Some(QItem(at, _, ev)) => (
                    *at,
                    match ev {
                        Ev::Timer => true,
                        Ev::DialDone(id, _) | Ev::ToNode(id) | Ev::CloseNode(id, _) | Ev::InboundUp(id) => self.batch_conns.contains(id),
                        _ => false,
                    },
                ),
                None => (u64::MAX, true),
            };
            if self.need_drain {
                // Outputs of the node must be drained before time moves past the batch window.
                match self.batch_until {
                    Some(t) if next_at <= t && !clash => {}
                    _ => {
                        self.need_drain = false;
                        self.batch_until = None;
                        self.batch_conns.clear();
                        return Action::Drain;
                    }
                }
            }
            let Some(QItem(at, _, ev)) = self.queue.pop() else {
                self.stop = StopWhy::Finished;
                return Action::Stop;
            };
            self.now = at;
            self.stats.sim_ms = self.now;
            let conn = match &ev {
                Ev::DialDone(id, _) | Ev::ToNode(id) | Ev::CloseNode(id, _) | Ev::InboundUp(id) => Some(*id),
                _ => None,
            };
            let timer = matches!(ev, Ev::Timer);
            if let Ev::User(u) = ev {
                return Action::User(u);
            }
            if let Some(a) = self.handle_ev(ev) {
                self.need_drain = true;
                self.batch_conns.extend(conn);
                if self.plan.cfg.batch > 0 && self.batch_until.is_none() && !timer {
                    self.batch_until = Some(self.now + self.rng.below(self.plan.cfg.batch + 1));
                }
                return a;
            }
            if self.stop == StopWhy::Restart && self.need_drain {
                // A clean shutdown processes the outputs first.
                self.need_drain = false;
                return Action::Drain;
            }
            if self.stop != StopWhy::Running {
                return Action::Stop;
            }
        }
    }

    fn handle_ev(&mut self, ev: Ev) -> Option<Action> {
        let t = self.local_time();
        match ev {
            Ev::End => {
                self.stop = StopWhy::Finished;
                None
            }
            Ev::User(_) => None,
            Ev::Cmds => {
                self.cmds_due = false;
                Some(Action::Commands(t))
            }
            Ev::Timer => {
                self.trace(3, 0);
                let due = self.now as i64 + self.clock_skew;
                self.timers = self.timers.split_off(&(due + 1));
                Some(Action::Timer(t))
            }
            Ev::Op(i) => {
                let op = if i < self.plan.ops.len() { self.plan.ops[i].clone() } else { self.extra_ops[i - self.plan.ops.len()].clone() };
                self.say(|| format!("op {} {} {} {}", op.k.name(), op.a, op.b, op.c));
                self.do_op(&op)
            }
            Ev::DialDone(id, ok) => {
                let c = self.conns.get_mut(&id)?;
                if c.state != CState::Dialing {
                    return None;
                }
                let addr = c.addr;
                let p = c.peer;
                self.trace(4, p as u64 * 2 + ok as u64);
                if ok && self.peers[p].up && self.peers[p].partitioned_until <= self.now {
                    if let Some(old) = self.peers[p].conn {
                        // The remote keeps one connection to us: the new one.
                        let at = self.now;
                        self.push(at, Ev::CloseNode(old, true));
                    }
                    let calm = self.calm();
                    let c = self.conns.get_mut(&id).unwrap();
                    c.state = CState::Up;
                    c.script = if calm { None } else { self.peers[p].script };
                    self.peers[p].conn = Some(id);
                    self.say(|| format!("connection to {} established", addr));
                    if self.peers[p].mirror {
                        // The other end is the node itself.
                        let id2 = self.next_conn;
                        self.next_conn += 1;
                        let mut from = local_addr();
                        from.set_port(40000 + (id2 % 20000) as u16);
                        let mut c2 = self.new_conn(id2, p, from, Link::Inbound);
                        c2.twin = Some(id);
                        self.conns.insert(id2, c2);
                        self.conns.get_mut(&id).unwrap().twin = Some(id2);
                        self.fault("self-connection");
                        let at = self.now;
                        self.push(at, Ev::InboundUp(id2));
                    }
                    // Held writes go out now.
                    let held: Vec<Vec<u8>> = self.conns.get_mut(&id).unwrap().held.drain(..).collect();
                    for b in held {
                        self.transmit(id, b);
                    }
                    self.last_input = Some((addr, "connected"));
                    Some(Action::Connected(t, addr, Link::Outbound))
                } else {
                    self.by_addr.remove(&addr);
                    self.drop_conn(id);
                    self.fault("dial-refused");
                    self.say(|| format!("connection to {} refused", addr));
                    self.last_input = Some((addr, "refused"));
                    Some(Action::Lost(t, addr, true))
                }
            }
            Ev::InboundUp(id) => {
                let calm = self.calm();
                let c = self.conns.get_mut(&id)?;
                let (addr, p) = (c.addr, c.peer);
                c.state = CState::Up;
                c.script = if calm { None } else { self.peers[p].script };
                let twin = c.twin.is_some();
                if !twin {
                    self.peers[p].conn = Some(id);
                }
                self.by_addr.insert(addr, id);
                self.trace(5, p as u64);
                self.say(|| format!("inbound connection from {}", addr));
                // The remote speaks first.
                if twin {
                    // (It is the node.)
                } else if self.conns[&id].script.is_some() {
                    self.run_script(id);
                } else {
                    let m = self.version_msg(p, id);
                    self.conns.get_mut(&id).unwrap().sent_version = true;
                    self.peer_reply(id, vec![m]);
                }
                self.last_input = Some((addr, "inbound"));
                Some(Action::Connected(t, addr, Link::Inbound))
            }
            Ev::ToNode(id) => {
                let c = self.conns.get(&id)?;
                if c.state != CState::Up {
                    return None;
                }
                let p = c.peer;
                if self.peers[p].partitioned_until > self.now {
                    // TCP would retransmit: deliver after the partition heals.
                    let at = self.peers[p].partitioned_until;
                    self.push(at, Ev::ToNode(id));
                    return None;
                }
                let addr = c.addr;
                let bytes = self.conns.get_mut(&id)?.to_node.pop_front()?;
                let h = fnv(&bytes);
                self.trace(6 + p as u64 * 16, h);
                self.last_input = Some((addr, "bytes"));
                Some(Action::Msg(t, addr, bytes))
            }
            Ev::ToPeer(id) => {
                let c = self.conns.get(&id)?;
                let p = c.peer;
                if self.peers[p].partitioned_until > self.now {
                    let at = self.peers[p].partitioned_until;
                    self.push(at, Ev::ToPeer(id));
                    return None;
                }
                if !self.peers[p].up {
                    return None;
                }
                if self.peers[p].mute_until > self.now {
                    let at = self.peers[p].mute_until;
                    self.push(at, Ev::ToPeer(id));
                    return None;
                }
                let bytes = self.conns.get_mut(&id)?.to_peer.pop_front()?;
                if let Some(t) = self.conns[&id].twin {
                    self.peer_bytes(t, bytes);
                    return None;
                }
                self.peer_input(id, &bytes);
                None
            }
            Ev::PeerSend(id, msgs) => {
                if self.conns.contains_key(&id) {
                    self.peer_reply(id, msgs);
                }
                None
            }
            Ev::CloseNode(id, _graceful) => {
                let c = self.conns.get(&id)?;
                if c.state != CState::Up {
                    return None;
                }
                let (addr, p) = (c.addr, c.peer);
                if self.peers[p].partitioned_until > self.now {
                    let at = self.peers[p].partitioned_until;
                    self.push(at, Ev::CloseNode(id, true));
                    return None;
                }
                if self.by_addr.get(&addr) == Some(&id) {
                    self.by_addr.remove(&addr);
                }
                self.drop_conn(id);
                self.trace(7, p as u64);
                self.say(|| format!("connection to {} lost", addr));
                self.last_input = Some((addr, "lost"));
                Some(Action::Lost(t, addr, false))
            }
            Ev::CloseBoth(id) => {
                if let Some(t) = self.conns.get(&id).and_then(|c| c.twin) {
                    let at = self.now;
                    self.push(at, Ev::CloseNode(t, true));
                }
                self.drop_conn(id);
                None
            }
            Ev::Unmute(_) => None,
            Ev::Script(id) => {
                self.run_script(id);
                None
            }
            Ev::Chat(id) => {
                self.chat(id);
                None
            }
        }
    }

    /// The node asked for a timer.
    pub fn disk_trouble(&self) -> bool {
        interpose::errored()
    }

    pub fn set_timer(&mut self, ms: u64) {
        let slop = if self.plan.cfg.slop > 0 && !self.calm() { self.rng.below(self.plan.cfg.slop + 1) } else { 0 };
        if slop > 0 {
            *self.stats.faults.entry("late-timer").or_default() += 1;
        }
        let mut at = self.now + ms + slop;
        let mut due = at as i64 + self.clock_skew;
        // Reactors merge timers that are close to each other. The poll reactor rounds them up to whole seconds
        // of the local clock.
        if self.plan.cfg.merge > 0 {
            let up = (1000 - due.rem_euclid(1000)) % 1000;
            due += up;
            at += up as u64;
        }
        if self.timers.range(due..due + 1000).next().is_some() {
            return;
        }
        self.timers.insert(due);
        self.push(at, Ev::Timer);
    }

    /// The node asked to connect. Returns false when the dial fails right away.
    pub fn dial(&mut self, addr: SocketAddr) -> Result<(), bool> {
        if self.by_addr.contains_key(&addr) {
            return Err(true); // already connected or connecting
        }
        if self.plan.cfg.nodial > 0 && !self.calm() && self.rng.below(1000) < self.plan.cfg.nodial {
            self.fault("dial-error");
            return Err(false);
        }
        let id = self.next_conn;
        self.next_conn += 1;
        let Some(p) = self.peer_of(&addr) else {
            // Nobody lives there: the SYN is lost.
            let c = self.new_conn(id, usize::MAX, addr, Link::Outbound);
            self.conns.insert(id, c);
            self.by_addr.insert(addr, id);
            self.fault("dial-blackhole");
            return Ok(());
        };
        let c = self.new_conn(id, p, addr, Link::Outbound);
        self.conns.insert(id, c);
        self.by_addr.insert(addr, id);
        let lat = self.latency(p) * 2;
        let part = self.peers[p].partitioned_until > self.now;
        if part {
            self.fault("dial-partitioned");
            return Ok(()); // times out
        }
        let ok = self.peers[p].up;
        let at = self.now + lat;
        self.push(at, Ev::DialDone(id, ok));
        Ok(())
    }

    fn new_conn(&self, id: u64, peer: usize, addr: SocketAddr, link: Link) -> Conn {
        Conn {
            id,
            peer,
            addr,
            link,
            state: CState::Dialing,
            inbuf: vec![],
            obsbuf: vec![],
            tapbuf: vec![],
            twin: None,
            script: None,
            last_to_node: 0,
            last_to_peer: 0,
            got_version: false,
            got_verack: false,
            sent_version: false,
            sendheaders: false,
            node_has: 0,
            held: VecDeque::new(),
            to_node: VecDeque::new(),
            to_peer: VecDeque::new(),
            opened: self.now,
            rng: Rng::stream(self.plan.seed, 1000 + id, peer as u64),
        }
    }

    /// The node disconnected a peer. Returns whether the connection existed.
    pub fn node_disconnect(&mut self, addr: &SocketAddr) -> bool {
        let Some(id) = self.by_addr.remove(addr) else { return false };
        if let Some(c) = self.conns.get_mut(&id) {
            c.state = CState::Closed;
            let p = c.peer;
            if p == usize::MAX {
                self.conns.remove(&id);
                return true;
            }
            if self.peers[p].conn == Some(id) {
                self.peers[p].conn = None;
            }
        }
        let at = self.now;
        self.push(at, Ev::CloseBoth(id));
        true
    }

    /// The messages completed by bytes handed to the node.
    pub fn record(&mut self, f: impl FnOnce() -> (u64, String)) {
        match self.plan.cfg.record {
            0 => {}
            k => {
                let (h, t) = f();
                self.history.push((self.stats.steps, h, if k > 1 { t } else { String::new() }));
            }
        }
    }

    pub fn record_text(&mut self, f: impl FnOnce() -> String) {
        self.record(|| {
            let t = f();
            (fnv(t.as_bytes()), t)
        })
    }

    /// Where to cut a chunk of bytes in a split run, and whether outputs are drained in between.
    pub fn cuts(&mut self, bytes: &[u8]) -> (Vec<usize>, bool) {
        let n = bytes.len();
        let r = &mut self.split_rng;
        let mut v: Vec<usize> = match r.below(5) {
            0 if n <= 300 => (1..n).collect(),
            0 | 1 => (0..r.below(4)).map(|_| r.below(n as u64) as usize).collect(),
            // Around the frame header.
            2 => vec![*r.pick(&[1, 4, 16, 20, 23, 24, 25])],
            // Frame by frame.
            3 => {
                let mut v = vec![];
                let mut off = 0;
                while off + 24 <= n {
                    off += 24 + u32::from_le_bytes([bytes[off + 16], bytes[off + 17], bytes[off + 18], bytes[off + 19]]) as usize;
                    v.push(off + r.below(3) as usize);
                }
                v
            }
            _ => {
                let k = r.range(1, 5000) as usize;
                (1..n / k + 1).map(|i| i * k).collect()
            }
        };
        v.retain(|c| *c > 0 && *c < n);
        v.push(n);
        v.sort_unstable();
        v.dedup();
        (v, self.plan.cfg.batch == 0 && r.chance(2, 3))
    }

    pub fn tap(&mut self, addr: &SocketAddr, bytes: &[u8]) -> Option<(u64, Vec<Rx>)> {
        let id = *self.by_addr.get(addr)?;
        let c = self.conns.get_mut(&id)?;
        c.tapbuf.extend_from_slice(bytes);
        Some((id, decode_rx(&mut c.tapbuf)))
    }

    /// The node wrote bytes to a peer. Returns the messages they complete, for the observers.
    pub fn node_write(&mut self, addr: &SocketAddr, bytes: Vec<u8>) -> (Option<u64>, Vec<NetMsg>) {
        let Some(id) = self.by_addr.get(addr).copied() else { return (None, vec![]) };
        let c = self.conns.get_mut(&id).unwrap();
        c.obsbuf.extend_from_slice(&bytes);
        let msgs = decode_all(&mut c.obsbuf);
        match c.state {
            CState::Dialing => c.held.push_back(bytes),
            CState::Up => self.transmit(id, bytes),
            CState::Closed => {}
        }
        (Some(id), msgs)
    }

    fn transmit(&mut self, id: u64, bytes: Vec<u8>) {
        let p = self.conns[&id].peer;
        let lat = self.latency(p);
        let c = self.conns.get_mut(&id).unwrap();
        let at = (self.now + lat).max(c.last_to_peer);
        c.last_to_peer = at;
        c.to_peer.push_back(bytes);
        self.push(at, Ev::ToPeer(id));
    }

    fn latency(&mut self, p: usize) -> u64 {
        let cfg = &self.plan.cfg;
        let (lo, hi) = (cfg.lat_min, cfg.lat_max.max(cfg.lat_min));
        let d = if p < self.peers.len() && !self.calm() { self.peers[p].delay } else { 0 };
        self.rng.range(lo, hi) + d
    }

    // ---------------------------------------------------------------- remote peers

    pub fn peer_reply(&mut self, id: u64, msgs: Vec<NetMsg>) {
        let mut buf = Vec::new();
        let liar = self.plan.cfg.lies & LIE_MUTATE != 0
            && self.conns.get(&id).map_or(false, |c| c.peer < self.peers.len() && self.peers[c.peer].evil && self.plan.cfg.evil >> c.peer & 1 == 1)
            && !self.calm();
        for m in msgs {
            if liar && self.conns.get_mut(&id).unwrap().rng.chance(1, 5) {
                let mut b = Vec::new();
                encode(&m, &mut b);
                let s = self.conns.get_mut(&id).unwrap().rng.next();
                buf.extend(self.mutate(b, s));
                self.fault("mutated-message");
            } else {
                encode(&m, &mut buf);
            }
        }
        self.peer_bytes(id, buf);
    }

    /// Alter the payload of one encoded message; the frame stays well-formed.
    fn mutate(&self, bytes: Vec<u8>, seed: u64) -> Vec<u8> {
        use nakamoto_common::bitcoin::hashes::{sha256d, Hash as _};
        let mut r = Rng::stream(seed, 0x3a7, 1);
        if bytes.len() <= 24 {
            return bytes;
        }
        let mut p = bytes[24..].to_vec();
        for _ in 0..r.range(1, 4) {
            let n = p.len() as u64;
            let i = if r.chance(1, 3) { r.below(n.min(12) + 1) } else { r.below(n + 1) } as usize;
            match r.below(7) {
                0 => p.iter_mut().skip(i).take(1).for_each(|b| *b ^= 1 << r.below(8)),
                1 => p.iter_mut().skip(i).take(1).for_each(|b| *b = *r.pick(&[0, 1, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff])),
                2 => {
                    let v = *r.pick(&[0u8, 0xff, 0x7f]);
                    let k = *r.pick(&[2, 4, 8, 32]);
                    p.iter_mut().skip(i).take(k).for_each(|b| *b = v)
                }
                3 => p.truncate(i),
                4 => {
                    let k = r.range(1, 40) as usize;
                    let ins: Vec<u8> = (0..k).map(|_| r.next() as u8).collect();
                    let i = i.min(p.len());
                    p.splice(i..i, ins);
                }
                5 => {
                    let j = (i + r.range(1, 90) as usize).min(p.len());
                    let i = i.min(j);
                    p.drain(i..j);
                }
                _ => {
                    let j = (i + r.range(1, 90) as usize).min(p.len());
                    let i = i.min(j);
                    let copy = p[i..j].to_vec();
                    p.splice(i..i, copy);
                }
            }
            if p.is_empty() {
                break;
            }
        }
        let mut b = bytes[..16].to_vec();
        b.extend((p.len() as u32).to_le_bytes());
        b.extend(&sha256d::Hash::hash(&p)[..4]);
        b.extend(&p);
        // Work is cheap in this network: never forge what an honest node would have to follow, nor the filter
        // headers nobody can tell from true ones.
        let forged = match deserialize_partial::<RawNetworkMessage>(&b) {
            Ok((m, _)) => match m.payload {
                NetworkMessage::Headers(h) => h.iter().any(|h| self.u.find(&h.block_hash()).is_none() && h.validate_pow(&h.target()).is_ok()),
                NetworkMessage::CFHeaders(h) => !h.filter_hashes.is_empty() && h.filter_type == 0,
                _ => false,
            },
            Err(_) => false,
        };
        if forged {
            return bytes;
        }
        b
    }

    pub fn peer_bytes(&mut self, id: u64, buf: Vec<u8>) {
        if buf.is_empty() {
            return;
        }
        let Some(c) = self.conns.get(&id) else { return };
        let p = c.peer;
        let chunks: Vec<Vec<u8>> = match self.plan.cfg.frag {
            0 => vec![buf],
            2 if buf.len() < 400 => buf.chunks(1).map(|c| c.to_vec()).collect(),
            _ => {
                let c = self.conns.get_mut(&id).unwrap();
                let mut v = Vec::new();
                let mut i = 0;
                while i < buf.len() {
                    let n = match c.rng.below(4) {
                        0 => 1 + c.rng.below(30),
                        1 => 1 + c.rng.below(1500),
                        _ => 1 + c.rng.below(70000),
                    } as usize;
                    let j = (i + n).min(buf.len());
                    v.push(buf[i..j].to_vec());
                    i = j;
                }
                v
            }
        };
        for chunk in chunks {
            let lat = self.latency(p);
            let c = self.conns.get_mut(&id).unwrap();
            let at = (self.now + lat).max(c.last_to_node);
            c.last_to_node = at;
            c.to_node.push_back(chunk);
            self.push(at, Ev::ToNode(id));
        }
        if self.plan.cfg.reset > 0 && !self.calm() && self.rng.below(1000) < self.plan.cfg.reset {
            self.fault("conn-reset");
            let lat = self.latency(p);
            let at = self.now + lat / 2;
            self.push(at, Ev::CloseNode(id, false));
        }
    }

    pub fn version_msg(&mut self, p: usize, _id: u64) -> NetMsg {
        let ps = &self.peers[p];
        let ts = (self.base_secs as i64 + (self.now / 1000) as i64).saturating_add(ps.clock);
        let mut height = self.u.get(ps.tip).height as i32;
        if ps.evil && self.plan.cfg.lies & LIE_HEIGHT != 0 {
            height += 1000;
        }
        Arc::new(NetworkMessage::Version(VersionMessage {
            version: ps.version,
            services: ps.services,
            timestamp: ts,
            receiver: Address::new(&local_addr(), ServiceFlags::NONE),
            sender: Address::new(&ps.addr, ps.services),
            nonce: ps.nonce,
            user_agent: format!("/stub:{}/", p),
            start_height: height,
            relay: ps.relay,
        }))
    }

    fn peer_input(&mut self, id: u64, bytes: &[u8]) {
        let c = self.conns.get_mut(&id).unwrap();
        c.inbuf.extend_from_slice(bytes);
        let msgs = decode_all(&mut c.inbuf);
        for m in msgs {
            self.peer_msg(id, m);
            if !self.conns.contains_key(&id) {
                break;
            }
        }
    }

    fn peer_msg(&mut self, id: u64, m: NetMsg) {
        let p = self.conns[&id].peer;
        let evil = self.peers[p].evil;
        let lies = if evil { self.plan.cfg.lies } else { 0 };
        self.say(|| format!("peer {} <- {}", p, brief(&m)));
        let is_request = matches!(
            &*m,
            NetworkMessage::GetHeaders(_) | NetworkMessage::GetCFHeaders(_) | NetworkMessage::GetCFilters(_) | NetworkMessage::GetData(_)
        );
        if is_request {
            if lies & LIE_SILENT != 0 {
                return;
            }
            if !self.calm() && self.plan.cfg.dropreq > 0 && self.rng.below(1000) < self.plan.cfg.dropreq {
                self.fault("request-ignored");
                return;
            }
        }
        let mut out: Vec<NetMsg> = Vec::new();
        match &*m {
            NetworkMessage::Version(_) => {
                let c = self.conns.get_mut(&id).unwrap();
                c.got_version = true;
                if c.script.is_some() {
                    if c.link.is_outbound() {
                        self.run_script(id);
                    }
                    return;
                }
                if !c.sent_version {
                    c.sent_version = true;
                    out.push(self.version_msg(p, id));
                }
                if self.plan.cfg.wtx >> p & 1 == 1 {
                    out.push(Arc::new(NetworkMessage::WtxidRelay));
                }
                out.push(Arc::new(NetworkMessage::Verack));
            }
            NetworkMessage::Verack => {
                self.conns.get_mut(&id).unwrap().got_verack = true;
                if self.plan.cfg.chatty != 0 {
                    let d = self.rng.range(10, 20_000);
                    let at = self.now + d;
                    self.push(at, Ev::Chat(id));
                }
            }
            NetworkMessage::SendHeaders => self.conns.get_mut(&id).unwrap().sendheaders = true,
            NetworkMessage::Ping(n) => {
                let last = std::mem::replace(&mut self.peers[p].last_ping, *n);
                let answer = match self.peers[p].pong {
                    0 => Some(*n),
                    1 => None,
                    2 => Some(0),
                    3 => Some(last),
                    4 => Some(*n ^ 1),
                    5 => Some(*n as u32 as u64),
                    6 => Some(n.swap_bytes()),
                    7 => Some(*n ^ 1 << 63),
                    _ => Some(u64::MAX),
                };
                out.extend(answer.map(|n| Arc::new(NetworkMessage::Pong(n))));
            }
            NetworkMessage::GetHeaders(g) => {
                let hs = self.serve_headers(p, g);
                if let Some(last) = hs.last().and_then(|h| self.u.by_hash.get(&h.block_hash())) {
                    self.conns.get_mut(&id).unwrap().node_has = *last;
                } else if let Some(h) = g.locator_hashes.iter().find_map(|h| self.u.by_hash.get(h)) {
                    if self.u.is_ancestor(*h, self.peers[p].tip) {
                        let h = *h;
                        self.conns.get_mut(&id).unwrap().node_has = h;
                    }
                }
                out.push(Arc::new(NetworkMessage::Headers(hs)));
            }
            NetworkMessage::GetCFHeaders(g) => {
                if let Some(r) = self.serve_cfheaders(p, g, lies) {
                    out.push(Arc::new(NetworkMessage::CFHeaders(r)));
                }
            }
            NetworkMessage::GetCFilters(g) => {
                for f in self.serve_cfilters(p, g, lies) {
                    out.push(Arc::new(NetworkMessage::CFilter(f)));
                }
            }
            NetworkMessage::GetData(invs) => {
                let mut missing = Vec::new();
                for inv in invs {
                    match inv {
                        Inventory::Block(h) | Inventory::WitnessBlock(h) => {
                            let known = self.u.by_hash.get(h).copied().filter(|b| self.u.is_ancestor(*b, self.peers[p].tip));
                            match known {
                                Some(_) if lies & LIE_NOTFOUND != 0 => missing.push(*inv),
                                Some(b) => {
                                    let mut block = self.serve_block(b, lies);
                                    if matches!(inv, Inventory::Block(_)) {
                                        strip(&mut block);
                                    }
                                    out.push(Arc::new(NetworkMessage::Block(block)))
                                }
                                None => missing.push(*inv),
                            }
                        }
                        Inventory::Transaction(t) | Inventory::WitnessTransaction(t) => match self.peers[p].mempool.get(t) {
                            Some(tx) => out.push(Arc::new(NetworkMessage::Tx(tx.clone()))),
                            None => missing.push(*inv),
                        },
                        _ => {}
                    }
                }
                if !missing.is_empty() {
                    out.push(Arc::new(NetworkMessage::NotFound(missing)));
                }
            }
            NetworkMessage::Inv(invs) => {
                let want: Vec<Inventory> = invs
                    .iter()
                    .filter(|i| match i {
                        // (Some peers only ask for what they don't have.)
                        Inventory::Transaction(t) => self.plan.cfg.aux2 & 2 == 0 || !self.peers[p].mempool.contains_key(t),
                        Inventory::WTx(t) => self.plan.cfg.aux2 & 2 == 0 || self.tx_by_wtxid(t).map_or(false, |t| !self.peers[p].mempool.contains_key(&t)),
                        _ => false,
                    })
                    .cloned()
                    .collect();
                if !want.is_empty() {
                    if !self.calm() && self.plan.cfg.dropreq > 0 && self.rng.below(1000) < self.plan.cfg.dropreq {
                        self.fault("announcement-ignored");
                    } else {
                        self.ask_tx(id, want);
                    }
                }
            }
            NetworkMessage::Tx(tx) => {
                self.peers[p].mempool.insert(tx.txid(), tx.clone());
            }
            NetworkMessage::GetAddr => {
                let t = self.true_secs() as u32;
                let list: Vec<(u32, Address)> =
                    self.peers.iter().enumerate().filter(|(i, _)| *i != p).map(|(_, q)| (t - 600, Address::new(&q.addr, q.services))).collect();
                if !list.is_empty() {
                    out.push(Arc::new(NetworkMessage::Addr(list)));
                }
            }
            _ => {}
        }
        if out.is_empty() {
            return;
        }
        if is_request && !self.calm() && self.plan.cfg.dup > 0 && self.rng.below(1000) < self.plan.cfg.dup {
            self.fault("reply-duplicated");
            let copy = out.clone();
            let d = self.rng.range(1, 9000);
            let at = self.now + d;
            self.push(at, Ev::PeerSend(id, copy));
        }
        for m in &out {
            self.say(|| format!("peer {} -> {}", p, brief(m)));
        }
        self.peer_reply(id, out);
    }

    pub fn tx_by_wtxid(&self, w: &Wtxid) -> Option<Txid> {
        self.txs.iter().find(|t| t.wtxid() == *w).map(|t| t.txid())
    }

    /// A peer asks the node for transactions.
    fn ask_tx(&mut self, id: u64, want: Vec<Inventory>) {
        for i in &want {
            let t = match i {
                Inventory::Transaction(t) | Inventory::WitnessTransaction(t) => Some(*t),
                Inventory::WTx(t) => self.tx_by_wtxid(t),
                _ => None,
            };
            let now = self.now;
            self.tx_asked.extend(t.map(|t| ((id, t), now)));
        }
        let m = Arc::new(NetworkMessage::GetData(want));
        self.say(|| format!("conn {} -> {}", id, brief(&m)));
        self.peer_reply(id, vec![m]);
    }

    fn serve_headers(&mut self, p: usize, g: &GetHeadersMessage) -> Vec<BlockHeader> {
        let tip = self.peers[p].tip;
        let chain = self.u.chain(tip);
        let mut start = 0u64;
        if g.locator_hashes.is_empty() {
            return self.u.find(&g.stop_hash).map(|b| vec![b.header()]).unwrap_or_default();
        }
        for h in &g.locator_hashes {
            if let Some(b) = self.u.find(h) {
                if chain.get(b.height as usize) == Some(&b.id) {
                    start = b.height;
                    break;
                }
            }
        }
        let mut hs = Vec::new();
        for id in chain.iter().skip(start as usize + 1).take(2000) {
            hs.push(self.u.get(*id).header());
            if self.u.get(*id).hash == g.stop_hash {
                break;
            }
        }
        hs
    }

    fn chain_range(&self, p: usize, start: u32, stop: &BlockHash, max: u64) -> Option<Vec<Id>> {
        let b = self.u.find(stop)?;
        if !self.u.is_ancestor(b.id, self.peers[p].tip) && self.plan.cfg.aux2 & 1 == 0 {
            // A peer serves what it has seen; blocks it left behind are known to it as well,
            // but it is free not to serve them.
            return None;
        }
        if (start as u64) > b.height || b.height - start as u64 + 1 > max {
            return None;
        }
        let mut v = Vec::new();
        let mut i = b.id;
        loop {
            v.push(i);
            if self.u.get(i).height == start as u64 {
                break;
            }
            i = self.u.get(i).parent;
        }
        v.reverse();
        Some(v)
    }

    fn serve_cfheaders(&mut self, p: usize, g: &GetCFHeaders, lies: u64) -> Option<CFHeaders> {
        let r = self.chain_range(p, g.start_height, &g.stop_hash, 2000)?;
        let first = self.u.get(r[0]);
        let prev = if first.id == 0 {
            nakamoto_common::bitcoin::hash_types::FilterHeader::all_zeros()
        } else {
            self.u.get(first.parent).filter_header
        };
        let mut hashes: Vec<_> = r.iter().map(|i| self.u.get(*i).filter_hash).collect();
        if lies & LIE_CFHEADERS != 0 {
            let i = self.rng.below(hashes.len() as u64) as usize;
            hashes[i] = nakamoto_common::bitcoin::hash_types::FilterHash::hash(&[1, 2, 3, i as u8]);
            self.fault("forged-cfheaders");
        }
        let ft = if lies & LIE_CFTYPE != 0 { 7 } else { g.filter_type };
        Some(CFHeaders { filter_type: ft, stop_hash: g.stop_hash, previous_filter_header: prev, filter_hashes: hashes })
    }

    fn serve_cfilters(&mut self, p: usize, g: &GetCFilters, lies: u64) -> Vec<CFilter> {
        let Some(r) = self.chain_range(p, g.start_height, &g.stop_hash, 1000) else { return vec![] };
        let mut v = Vec::new();
        for i in r {
            let b = self.u.get(i);
            let mut f = b.filter.clone();
            let mut hash = b.hash;
            if lies & LIE_CFILTER != 0 && self.rng.chance(1, 3) {
                match self.rng.below(3) {
                    0 => f.push(0x55),
                    1 => f = vec![0],
                    _ => hash = self.u.get(self.rng.below(self.u.blocks.len() as u64) as usize).hash,
                }
                *self.stats.faults.entry("forged-cfilter").or_default() += 1;
            }
            let ft = if lies & LIE_CFTYPE != 0 && self.rng.chance(1, 4) { 9 } else { g.filter_type };
            v.push(CFilter { filter_type: ft, block_hash: hash, filter: f });
        }
        v
    }

    fn serve_block(&mut self, b: Id, lies: u64) -> Block {
        let mut block = self.u.get(b).block.clone();
        if lies & LIE_BLOCK != 0 && self.rng.chance(2, 3) {
            *self.stats.faults.entry("forged-block").or_default() += 1;
            self.tamper(&mut block);
        } else if lies & LIE_STALE != 0 && self.rng.chance(1, 2) {
            let o = self.rng.below(self.u.blocks.len() as u64) as usize;
            block = self.u.get(o).block.clone();
        }
        block
    }

    /// Change the contents of a block without touching its header.
    pub fn tamper(&mut self, block: &mut Block) {
        match self.rng.below(5) {
            0 => {
                let s = self.rng.below(universe::SCRIPTS as u64) as usize;
                block.txdata[0].output[0].script_pubkey = universe::script(s);
            }
            1 if block.txdata.len() > 1 => {
                block.txdata.pop();
            }
            2 if block.txdata.len() > 1 => block.txdata.swap(0, 1),
            3 => {
                let mut t = block.txdata[0].clone();
                t.lock_time = nakamoto_common::bitcoin::PackedLockTime(self.rng.next() as u32);
                if !self.txs.is_empty() && self.rng.chance(1, 2) {
                    let i = self.rng.below(self.txs.len() as u64) as usize;
                    t = self.txs[i].clone();
                }
                block.txdata.push(t);
            }
            _ => block.txdata[0].output[0].value = self.rng.next() >> 8,
        }
    }

    fn chat(&mut self, id: u64) {
        let Some(c) = self.conns.get(&id) else { return };
        if c.state != CState::Up || !c.got_verack {
            return;
        }
        let p = c.peer;
        if self.peers[p].mute_until <= self.now && self.peers[p].up {
            let m = match self.rng.below(4) {
                0 => NetworkMessage::Ping(self.rng.next()),
                1 => {
                    let chain = self.u.chain(self.peers[p].tip);
                    let i = self.rng.below(chain.len() as u64) as usize;
                    let loc = vec![self.u.get(chain[i]).hash];
                    NetworkMessage::GetHeaders(GetHeadersMessage::new(loc, BlockHash::all_zeros()))
                }
                2 => NetworkMessage::FeeFilter(1000),
                _ => NetworkMessage::GetAddr,
            };
            self.peer_reply(id, vec![Arc::new(m)]);
        }
        let d = self.rng.range(1000, 120_000);
        let at = self.now + d;
        self.push(at, Ev::Chat(id));
    }

    /// A peer moves to a new tip and tells its connection.
    pub fn adopt(&mut self, p: usize, tip: Id) {
        if self.peers[p].tip == tip {
            return;
        }
        self.peers[p].tip = tip;
        self.honest_seen.insert(tip);
        self.announce(p);
    }

    pub fn announce(&mut self, p: usize) {
        let tip = self.peers[p].tip;
        let Some(id) = self.peers[p].conn else { return };
        let Some(c) = self.conns.get(&id) else { return };
        if !(c.got_verack && c.got_version && c.state == CState::Up) || self.peers[p].mute_until > self.now {
            return;
        }
        let by_headers = match self.plan.cfg.announce {
            0 => false,
            1 => c.sendheaders,
            _ => c.sendheaders && self.rng.chance(1, 2),
        };
        let mut msg = NetworkMessage::Inv(vec![Inventory::Block(self.u.get(tip).hash)]);
        if by_headers {
            // Headers from the last block the node is known to have, when they connect and are few.
            let mut v = Vec::new();
            let mut i = tip;
            let known = self.conns[&id].node_has;
            let mut ok = false;
            for _ in 0..8 {
                if i == 0 {
                    break;
                }
                v.push(self.u.get(i).header());
                i = self.u.get(i).parent;
                if self.u.is_ancestor(i, known) {
                    ok = true;
                    break;
                }
            }
            if ok {
                v.reverse();
                msg = NetworkMessage::Headers(v);
                self.conns.get_mut(&id).unwrap().node_has = tip;
            }
        }
        let m = Arc::new(msg);
        self.say(|| format!("peer {} -> {}", p, brief(&m)));
        self.peer_reply(id, vec![m]);
    }

    // ---------------------------------------------------------------- operations

    pub fn new_time(&mut self, parent: Id) -> u32 {
        let mtp = crate::refchain::median_time(&self.u, parent);
        let t = (self.true_secs() as u32).max(mtp + 1);
        if self.plan.cfg.interval > 0 && self.hardness(parent, t) > 10 {
            // The honest miners slow down (their clocks are allowed to).
            let p = self.u.get(parent).block.header.time;
            return t.max(p + 3 * self.plan.cfg.spacing as u32).min(self.true_secs() as u32 + 5000).max(mtp + 1);
        }
        t
    }

    /// log2 of the expected number of attempts to mine a block here.
    pub fn hardness(&self, parent: Id, time: u32) -> usize {
        let req = crate::refchain::required_bits(&self.u, parent, time);
        256 - BlockHeader::u256_from_compact_target(req).bits()
    }

    pub fn mine_on(&mut self, parent: Id, n: u64, c: u64) -> Id {
        let mut tip = parent;
        for _ in 0..n {
            let time = self.new_time(tip);
            if self.hardness(tip, time) > 16 {
                break;
            }
            let mut r = Rng::stream(self.plan.seed, 50_000 + self.u.blocks.len() as u64, c);
            let mut content = Content { txs: (r.below(3)) as usize, ..Content::default() };
            if r.chance(1, 4) {
                content.pay = Some(r.below(universe::SCRIPTS as u64) as usize);
            }
            if self.plan.cfg.wallet > 0 {
                self.wallet_content(tip, &mut content, &mut r);
            }
            tip = self.u.mine(tip, time, content, &mut r);
        }
        tip
    }

    /// The honest best chain moves if the candidate has more work.
    pub fn consider_best(&mut self, tip: Id) {
        if self.u.get(tip).work > self.u.get(self.best).work {
            self.best = tip;
        }
    }

    pub fn honest(&self) -> Vec<usize> {
        (0..self.peers.len()).filter(|i| !self.peers[*i].evil).collect()
    }

    fn pick_peer(&self, a: u64) -> usize {
        (a % self.peers.len() as u64) as usize
    }

    // ---------------------------------------------------------------- wallet

    pub fn wallet_path(&self) -> std::path::PathBuf {
        std::path::Path::new(&self.dir).parent().and_then(|p| p.parent()).expect("harness: scratch directory").join("wallet.db")
    }

    /// The wallet is started along with the node.
    fn start_wallet(&mut self, handle: &H) {
        let path = self.wallet_path();
        interpose::bypass(|| {
            if !path.exists() {
                crate::wallet::create(&path, self.plan.cfg.wallet);
            }
        });
        let us = Users::start(1, mix(self.plan.seed ^ mix(self.incarnation + 0x3a11e7)), handle);
        let call = self.calls.len();
        let (s, job) = crate::wallet::start(path, self.plan.cfg.birth, handle.events(), call);
        us.call(0, call, job);
        self.calls.push(CallRec { user: 0, call: Call::Wallet, timeout: 0, start: None, sent: 0, executed: 0, end: None, after: false });
        self.users = Some(us);
        self.wallet = Some(s);
    }

    /// The wallet died, or ended because its disk failed.
    fn wallet_gone(&mut self) -> bool {
        let Some(s) = &self.wallet else { return false };
        let (dead, fired) = {
            let d = s.disk.lock().unwrap();
            (d.dead, !d.fired.is_empty())
        };
        dead || fired && self.calls[s.call].end.is_some()
    }

    /// The wallet waits, and has seen everything that was published.
    pub fn wallet_idle(&self) -> bool {
        let (Some(s), Some(us)) = (&self.wallet, &self.users) else { return false };
        s.events.is_empty()
            && matches!(us.state(0), crate::users::St::Wait { .. })
            && !us.can_run(0)
            && self.calls[s.call].executed > 0
            && !s.disk.lock().unwrap().dead
    }

    pub fn wallet_coins(&self) -> Result<(u64, Vec<(bitcoin::OutPoint, bitcoin::TxOut)>), String> {
        let path = self.wallet_path();
        interpose::bypass(|| crate::wallet::coins(&path))
    }

    /// Let the wallet go on until it waits.
    pub fn settle_wallet(&mut self) {
        for _ in 0..10_000 {
            if !self.users.as_ref().map_or(false, |u| u.can_run(0)) {
                break;
            }
            self.user_turn(0);
        }
    }

    /// The wallet's process ends along with the node.
    pub fn end_wallet(&mut self, crashed: bool) {
        let (Some(mut us), Some(s)) = (self.users.take(), self.wallet.take()) else { return };
        let was_dead = {
            let mut d = s.disk.lock().unwrap();
            for f in d.fired.clone() {
                *self.stats.faults.entry(f).or_default() += 1;
            }
            let was = !d.fired.is_empty();
            d.dead |= crashed;
            was
        };
        let _ = s.signals.send(nakamoto_wallet::input::Signal::Interrupted);
        us.set_time(self.now, self.wall_us());
        let mut end = None;
        let ok = us.wind_up(|_, _, r| end = r.or(end.take()));
        if let (false, true) = (crashed || was_dead, ok) {
            if let Some(Ret::Panic(e)) = &end {
                self.violate("wallet stopped", e.clone());
            }
        }
        if !ok {
            self.violate("wallet stuck", "it does not react to an interrupt");
        }
        us.stop();
    }

    /// Transactions of a block for a world with a wallet: also those of blocks of other branches.
    fn wallet_content(&self, tip: Id, c: &mut Content, r: &mut Rng) {
        c.wallet = self.plan.cfg.wallet;
        c.txs = r.below(4) as usize;
        if r.chance(1, 3) {
            c.pay = Some(r.below(c.wallet) as usize);
        }
        if !r.chance(1, 2) {
            return;
        }
        let mut have: Vec<bitcoin::OutPoint> = self.u.get(tip).utxos.iter().map(|u| u.0).collect();
        for b in self.u.blocks.iter().rev().take(12).rev() {
            if self.u.is_ancestor(b.id, tip) {
                continue;
            }
            for tx in b.block.txdata.iter().skip(1) {
                if tx.input.iter().all(|i| have.contains(&i.previous_output)) && r.chance(2, 3) {
                    let txid = tx.txid();
                    have.retain(|o| tx.input.iter().all(|i| i.previous_output != *o));
                    have.extend((0..tx.output.len()).map(|i| bitcoin::OutPoint { txid, vout: i as u32 }));
                    c.include.push(tx.clone());
                }
            }
        }
    }

    // ---------------------------------------------------------------- user threads

    fn wall_us(&self) -> u64 {
        ((self.base_secs * 1000 + self.now) as i64 + self.clock_skew) as u64 * 1000
    }

    /// When a user thread that can go on does so.
    fn user_delay(&mut self) -> u64 {
        match self.users.as_mut().map_or(0, |u| u.rng.below(20)) {
            0..=9 => 0,
            10..=15 => self.users.as_mut().unwrap().rng.below(6),
            16..=18 => self.users.as_mut().unwrap().rng.below(200),
            _ => self.users.as_mut().unwrap().rng.below(3000),
        }
    }

    /// Schedule the user threads that can go on.
    fn poll_users(&mut self) {
        let Some(us) = &self.users else { return };
        us.set_time(self.now, self.wall_us());
        for u in 0..us.len() {
            let us = self.users.as_ref().unwrap();
            if us.scheduled[u] {
                continue;
            }
            if us.can_run(u) {
                let d = self.user_delay();
                self.users.as_mut().unwrap().scheduled[u] = true;
                self.push(self.now + d, Ev::User(u));
            } else if let Some(d) = us.deadline(u) {
                if self.deadlines[u] != d {
                    self.deadlines[u] = d;
                    self.push(d, Ev::User(u));
                }
            }
        }
    }

    /// Give a user thread a turn; returns the call it made progress with.
    pub fn user_turn(&mut self, u: usize) -> (Option<usize>, Option<usize>) {
        let now = self.now;
        let wall = self.wall_us();
        let Some(us) = &mut self.users else { return (None, None) };
        us.set_time(now, wall);
        us.scheduled[u] = false;
        if !us.can_run(u) {
            return (None, None);
        }
        let t = us.turn(u);
        let n = us.shared.published.lock().unwrap().len();
        if let Some(c) = t.started {
            self.calls[c].start = Some((now, n));
            let k = self.calls[c].call.clone();
            self.say(|| format!("user {} calls {:?}", u, k));
        }
        let mut done = None;
        if let Some((c, r)) = t.done {
            self.say(|| format!("user {} gets {}", u, format!("{:?}", r).chars().take(160).collect::<String>()));
            self.calls[c].end = Some((now, r));
            done = Some(c);
        }
        if t.woken && !self.cmds_due {
            self.cmds_due = true;
            let d = match self.rng.below(4) {
                0..=1 => 0,
                2 => self.rng.below(5),
                _ => self.rng.below(60),
            };
            self.push(now + d, Ev::Cmds);
        }
        (t.call, done)
    }

    /// Sometimes a user thread runs between two events.
    pub fn user_midway(&mut self) -> Option<usize> {
        let us = self.users.as_mut()?;
        if !us.rng.chance(1, 8) {
            return None;
        }
        let u = us.rng.below(us.len() as u64) as usize;
        us.can_run(u).then_some(u)
    }

    /// These events were published.
    pub fn published(&self, evs: &[Event]) {
        let Some(us) = &self.users else { return };
        for e in evs {
            us.publish(crate::users::Pub {
                event: crate::users::digest_event(e),
                block: match e {
                    Event::BlockProcessed { block, height, .. } => Some(crate::users::digest_block(block, *height)),
                    _ => None,
                },
                filter: match e {
                    Event::FilterReceived { filter, block, height, .. } => Some(crate::users::digest_filter(filter, block, *height)),
                    _ => None,
                },
                name: crate::reactor::event_name(e),
            });
        }
    }

    /// A user calls something: kind `b`, argument `c`.
    fn user_call(&mut self, a: u64, b: u64, c: u64) {
        let mut r = Rng::stream(self.plan.seed, 0x0ca1, c);
        let hash = |w: &World, r: &mut Rng| match r.below(8) {
            0 => BlockHash::hash(&c.to_le_bytes()),
            1..=3 if !w.view.is_empty() => *r.pick(&w.view),
            4 if !w.view.is_empty() => *w.view.last().unwrap(),
            _ => w.u.get(r.below(w.u.blocks.len() as u64) as usize).hash,
        };
        let tip = (self.view.len() as u64).saturating_sub(1);
        let height = |r: &mut Rng| match r.below(12) {
            0 => u64::MAX,
            1 => r.next(),
            2 => 0,
            3 | 4 => tip,
            5 => tip + 1,
            6 => tip + 2 + r.below(4),
            _ => r.below(tip + 4),
        };
        let addr = |w: &World, r: &mut Rng| match r.below(8) {
            0 => peer_addr(100 + r.below(20) as usize),
            _ => w.peers[r.below(w.peers.len() as u64) as usize].addr,
        };
        let services = [0, 1, 64, 65, 1 << 20][r.below(5) as usize];
        let call = match b {
            0 => Call::Tip,
            1 => Call::Block(hash(self, &mut r)),
            2 => Call::Height(height(&mut r)),
            3 => Call::Branch(hash(self, &mut r)),
            4 => Call::Peers(services),
            5 => Call::WaitHeight(match r.below(6) {
                0 => height(&mut r),
                1 => r.below(tip + 1),
                _ => tip + 1 + r.below(12),
            }),
            6 => Call::WaitPeers(r.below(self.peers.len() as u64 + 2), services),
            7 => Call::Connect(addr(self, &mut r)),
            8 => Call::Disconnect(addr(self, &mut r)),
            9 => {
                let x = height(&mut r);
                match r.below(3) {
                    0 => Call::Filters(x, height(&mut r)),
                    1 => Call::Filters(x, x.saturating_sub(1 + r.below(5))),
                    _ => Call::Filters(x, x.saturating_add(r.below(8))),
                }
            }
            10 => {
                let utxos = self.u.get(self.best).utxos.clone();
                if utxos.is_empty() {
                    return;
                }
                let from = vec![r.pick(&utxos).clone()];
                let tx = self.u.make_tx(&from, &[r.below(1000) as usize], &mut r);
                self.txs.push(tx.clone());
                Call::Submit(tx)
            }
            11 => match self.txs.len() {
                n if n > 0 && r.chance(3, 4) => Call::Submitted(self.txs[r.below(n as u64) as usize].txid()),
                _ => Call::Submitted(Txid::hash(&c.to_le_bytes())),
            },
            12 => {
                let tip = if r.chance(1, 2) { self.best } else { r.below(self.u.blocks.len() as u64) as usize };
                let chain = self.u.chain(tip);
                let skip = if r.chance(1, 2) { 1 } else { r.below(chain.len() as u64) as usize };
                let n = if r.chance(1, 2) { chain.len() } else { r.below(12) as usize };
                Call::Import(chain.iter().skip(skip).take(n).map(|i| self.u.get(*i).header()).collect())
            }
            13 => Call::Subscribe(r.below(3)),
            14 => Call::Read(r.next(), r.below(40)),
            15 => Call::Unsubscribe(r.next()),
            16 => Call::Broadcast(1_000_000 + self.calls.len() as u64, r.chance(1, 2)),
            17 => {
                let bound = |r: &mut Rng| match r.below(4) {
                    0 => Bound::Unbounded,
                    1 => Bound::Excluded(height(r)),
                    _ => Bound::Included(height(r)),
                };
                let from = if r.chance(1, 2) { Bound::Included(r.below(tip + 2)) } else { bound(&mut r) };
                let to = if r.chance(1, 2) { Bound::Unbounded } else { bound(&mut r) };
                Call::Rescan(from, to, mask_scripts(r.next()))
            }
            18 => Call::Watch(mask_scripts(r.next() & r.next())),
            19 => Call::ReqBlock(hash(self, &mut r)),
            20 => Call::Wait(1 + r.below(*r.clone().pick(&[2, 12, 60]))),
            21 => Call::Timeout(*r.pick(&[0, 1, 1500, 20_000, 60_000, 60_000, 300_000])),
            22 => Call::Addresses(self.gossip(usize::MAX, r.below(6), r.next()).into_iter().map(|x| x.1).collect()),
            _ => Call::Shutdown,
        };
        self.call(a as usize, call);
    }

    pub fn call(&mut self, user: usize, call: Call) {
        let id = self.calls.len();
        let Some(us) = &self.users else { return };
        let user = user % us.len();
        us.call(user, id, call.clone().job());
        if let Call::Timeout(ms) = call {
            self.timeouts[user] = ms;
        }
        self.calls.push(CallRec { user, call, timeout: self.timeouts[user], start: None, sent: 0, executed: 0, end: None, after: false });
    }

    pub fn command(&mut self, c: Command) {
        if let Some(h) = &self.handle {
            h.command(c).expect("harness: command channel");
            self.pending_cmds = true;
        }
    }

    pub fn do_op(&mut self, op: &Op) -> Option<Action> {
        match op.k {
            K::Mine => {
                // Mine `a` blocks on the best honest chain; peers in mask `b` adopt it.
                let tip = self.mine_on(self.best, op.a.max(1), op.c);
                self.consider_best(tip);
                for p in self.honest() {
                    if op.b >> p & 1 == 1 {
                        self.adopt(p, self.best);
                    }
                }
            }
            K::Fork => {
                // A branch `a` blocks below the best tip, longer by `b % 8` + 1 (or, with c bit 32, shorter).
                let h = self.u.get(self.best).height;
                let depth = op.a.min(h);
                let from = self.u.ancestor(self.best, h - depth).unwrap();
                let len = if op.c >> 32 & 1 == 1 { depth.saturating_sub(1).max(1) } else { depth + 1 + op.b % 8 };
                let tip = self.mine_on(from, len, op.c ^ 0xf0);
                let old = self.best;
                self.consider_best(tip);
                if self.best != old && depth > 0 {
                    self.probe("reorg");
                }
                for p in self.honest() {
                    if (op.c >> p) & 1 == 1 && self.u.get(tip).work > self.u.get(self.peers[p].tip).work {
                        self.adopt(p, tip);
                    }
                }
            }
            K::Adopt => {
                let p = self.pick_peer(op.a);
                if !self.peers[p].evil {
                    let b = self.best;
                    self.adopt(p, b);
                }
            }
            K::Retreat => {}
            K::Drop => {
                let p = self.pick_peer(op.a);
                if let Some(id) = self.peers[p].conn {
                    self.fault("conn-drop");
                    if op.b & 1 == 0 {
                        let at = self.now;
                        self.push(at, Ev::CloseNode(id, false));
                    } else {
                        // Graceful: after everything in flight was delivered.
                        let at = self.conns[&id].last_to_node.max(self.now);
                        self.push(at, Ev::CloseNode(id, true));
                    }
                }
            }
            K::Partition => {
                for p in 0..self.peers.len() {
                    if op.a >> p & 1 == 1 {
                        self.peers[p].partitioned_until = (self.now + op.b).min(self.plan.cfg.calm).max(self.now);
                        self.fault("partition");
                    }
                }
            }
            K::Mute => {
                let p = self.pick_peer(op.a);
                self.peers[p].mute_until = (self.now + op.b).min(self.plan.cfg.calm).max(self.now);
                self.fault("peer-stall");
            }
            K::Slow => {
                let p = self.pick_peer(op.a);
                self.peers[p].delay = op.b;
                self.fault("peer-slow");
            }
            K::PeerDown => {
                let p = self.pick_peer(op.a);
                self.peers[p].up = false;
                self.fault("peer-down");
                if let Some(id) = self.peers[p].conn {
                    let at = self.now;
                    self.push(at, Ev::CloseNode(id, false));
                }
            }
            K::PeerUp => {
                let p = self.pick_peer(op.a);
                self.peers[p].up = true;
            }
            K::Inbound => {
                let p = self.pick_peer(op.a);
                let mut addr = self.peers[p].addr;
                addr.set_port(40000 + (self.next_conn % 20000) as u16);
                if op.b > 0 {
                    // From another host.
                    addr.set_ip(IpAddr::V4(Ipv4Addr::new(45, (op.b >> 8) as u8, op.b as u8, 9)));
                }
                if self.peers[p].conn.is_none() && self.peers[p].up && !self.by_addr.contains_key(&addr) && self.conn_of(&self.peers[p].addr).is_none() {
                    let id = self.next_conn;
                    self.next_conn += 1;
                    let c = self.new_conn(id, p, addr, Link::Inbound);
                    self.conns.insert(id, c);
                    let at = self.now;
                    self.push(at, Ev::InboundUp(id));
                }
            }
            K::ClockJump => {
                let d = op.a as i64 * if op.b & 1 == 1 { -1 } else { 1 };
                self.clock_skew += d;
                self.set_back += (-d).max(0) as u64;
                self.fault("clock-jump");
                // Timers are kept by the local clock.
                let items: Vec<QItem> = std::mem::take(&mut self.queue).into_vec();
                self.queue = items.into_iter().filter(|q| !matches!(q.2, Ev::Timer)).collect();
                for due in self.timers.clone() {
                    let at = (due - self.clock_skew).max(self.now as i64) as u64;
                    self.push(at, Ev::Timer);
                }
            }
            K::Crash | K::PowerLoss => {
                // Die inside the a-th disk operation from now (b bytes of it done), or right away.
                self.power_loss = op.k == K::PowerLoss;
                if op.a == 0 {
                    self.fault(if self.power_loss { "power-loss" } else { "crash-now" });
                    self.stop = StopWhy::Crashed;
                } else {
                    let b = op.b as u32;
                    interpose::with_disk(|d| {
                        let k = d.ops + op.a - 1;
                        d.plan.insert(k, interpose::DiskFault::Crash(b));
                    });
                }
            }
            K::Restart => {
                self.fault("clean-restart");
                self.stop = StopWhy::Restart;
            }
            K::DiskErr => {
                let e = [libc::EIO, libc::ENOSPC, libc::EDQUOT][(op.b % 3) as usize];
                interpose::with_disk(|d| {
                    let k = d.ops + op.a;
                    d.plan.insert(k, interpose::DiskFault::Errno(e));
                });
            }
            K::ShortWrite => {
                let f = if op.b % 2 == 0 { interpose::DiskFault::Short(1 + (op.b / 2) as u32) } else { interpose::DiskFault::Intr };
                interpose::with_disk(|d| {
                    let k = d.ops + op.a;
                    d.plan.insert(k, f);
                });
            }
            K::DiskFull => {
                let on = op.a == 1;
                interpose::with_disk(|d| d.full = on);
                if on {
                    self.fault("disk-full");
                }
            }
            K::Rescan => {
                // From height `a` to height `b` (0: open ended), for the scripts of mask `c`.
                // Bit 40 of c: exclusive upper bound; bit 41: unbounded start.
                let watch = mask_scripts(op.c);
                // Bit 42: exclusive lower bound; bit 43: up to, and without, height `b`.
                let from = if op.c >> 41 & 1 == 1 {
                    Bound::Unbounded
                } else if op.c >> 42 & 1 == 1 {
                    Bound::Excluded(op.a)
                } else {
                    Bound::Included(op.a)
                };
                let to = if op.c >> 43 & 1 == 1 {
                    Bound::Excluded(op.b)
                } else if op.b == 0 {
                    Bound::Unbounded
                } else if op.c >> 40 & 1 == 1 {
                    Bound::Excluded(op.b + 1)
                } else {
                    Bound::Included(op.b)
                };
                self.user(Command::Rescan { from, to, watch: watch.clone() }, Note::Rescan { from, to, watch });
            }
            K::Watch => {
                let watch = mask_scripts(op.c);
                self.user(Command::Watch { watch: watch.clone() }, Note::Watch { watch });
            }
            K::Submit => {
                // A fresh transaction which spends an output available on the best chain.
                // c bit 1: with a data output; bit 2: with a witness; bit 3: submit an old one again.
                if op.c >> 3 & 1 == 1 && !self.txs.is_empty() {
                    let tx = self.txs[op.a as usize % self.txs.len()].clone();
                    let (s, rx) = chan::bounded(1);
                    self.user(Command::SubmitTransaction(tx.clone(), s), Note::Submit { tx, rx });
                    return None;
                }
                let utxos = self.u.get(self.best).utxos.clone();
                if utxos.is_empty() || self.handle.is_none() {
                    return None;
                }
                let mut r = Rng::stream(self.plan.seed, 0x7a7a, op.a);
                let from = vec![r.pick(&utxos).clone()];
                let to = [(op.b % universe::SCRIPTS as u64) as usize, universe::SCRIPTS + r.below(1000) as usize];
                let mut tx = self.u.make_tx(&from, &to[..1 + (op.c & 1) as usize], &mut r);
                if op.c >> 1 & 1 == 1 {
                    tx.output.push(TxOut { value: 0, script_pubkey: Script::new_op_return(&r.next().to_le_bytes()) });
                }
                if op.c >> 2 & 1 == 1 {
                    tx.input[0].witness = Witness::from_vec(vec![r.next().to_le_bytes().to_vec()]);
                }
                self.txs.push(tx.clone());
                let (s, rx) = chan::bounded(1);
                self.user(Command::SubmitTransaction(tx.clone(), s), Note::Submit { tx, rx });
            }
            K::Confirm => {
                // The best chain grows by a block which includes the a-th submitted transaction (if it can).
                if self.txs.is_empty() {
                    return None;
                }
                let n = self.txs.len();
                let mut txs: Vec<Transaction> = vec![];
                // Or several of them.
                let many = if op.c & 1 == 0 { n } else { 1 };
                for i in 0..many {
                    let tx = &self.txs[(op.a as usize + i) % n];
                    if !txs.iter().any(|t| t.input.iter().any(|i| tx.input.iter().any(|j| i.previous_output == j.previous_output))) {
                        txs.push(tx.clone());
                    }
                }
                let parent = self.best;
                let tip = self.mine_with(parent, txs, op.c);
                self.consider_best(tip);
                for p in self.honest() {
                    if op.b >> p & 1 == 1 {
                        self.adopt(p, self.best);
                    }
                }
            }
            K::ReqBlock => {
                // The a-th block below the best tip; b 1: any block of the universe, b 2: no block at all.
                let chain = self.u.chain(self.best);
                let h = (chain.len() as u64 - 1).saturating_sub(op.a) as usize;
                let hash = match op.b {
                    0 => self.u.get(chain[h]).hash,
                    1 => self.u.get(op.c as usize % self.u.blocks.len()).hash,
                    _ => BlockHash::hash(&op.c.to_le_bytes()),
                };
                self.user(Command::RequestBlock(hash), Note::ReqBlock { hash });
            }
            K::ReqFilters => {
                let (s, rx) = chan::bounded(1);
                self.user(Command::RequestFilters(op.a..=op.b, s), Note::Filters { from: op.a, to: op.b, rx });
            }
            K::Import => {
                // The user imports a slice of the best chain (or of any branch, c bit 0).
                let tip = if op.c & 1 == 1 { (op.c >> 1) as usize % self.u.blocks.len() } else { self.best };
                let chain = self.u.chain(tip);
                let headers: Vec<BlockHeader> =
                    chain.iter().skip(op.a as usize).take((op.b as usize).max(1)).map(|i| self.u.get(*i).header()).collect();
                if headers.is_empty() {
                    return None;
                }
                let (s, rx) = chan::bounded(1);
                self.user(Command::ImportHeaders(headers.clone(), s), Note::Import { headers, rx });
            }
            K::GetPeers => {
                let (s, rx) = chan::bounded(1);
                self.user(Command::GetPeers(ServiceFlags::NONE, s), Note::Peers { rx });
            }
            K::Connect => {
                let addr = if op.a >= 100 { peer_addr(op.a as usize) } else { self.peers[self.pick_peer(op.a)].addr };
                self.user(Command::Connect(addr), Note::Connect { addr });
            }
            K::Disconnect => {
                let addr = self.peers[self.pick_peer(op.a)].addr;
                self.user(Command::Disconnect(addr), Note::Disconnect { addr });
            }
            K::ImportAddrs => {
                let addrs: Vec<Address> = if op.b > 0 {
                    self.gossip(usize::MAX, op.b, op.c).into_iter().map(|x| x.1).collect()
                } else {
                    self.peers
                        .iter()
                        .enumerate()
                        .filter(|(i, _)| op.a >> i & 1 == 1)
                        .map(|(_, p)| Address::new(&p.addr, p.services))
                        .collect()
                };
                self.user(Command::ImportAddresses(addrs.clone()), Note::Addresses { addrs });
            }
            K::Query => self.user_call(op.a, op.b, op.c),
            K::X0 => {
                // Blocks come into existence: `b` of them on a block picked by `a`, one of them perhaps bad.
                self.grow(op.a, op.b.max(1), op.c);
            }
            K::X1 => self.import_batch(op.a, op.b, op.c),
            K::X2 => self.unsolicited(op.a, op.b, op.c),
            K::X3 => {
                // A peer asks for a transaction, announced to it or not.
                let p = self.pick_peer(op.a);
                let Some(id) = self.peers[p].conn else { return None };
                if self.txs.is_empty() || !self.conns.get(&id).map_or(false, |c| c.state == CState::Up && c.got_verack) {
                    return None;
                }
                let t = &self.txs[op.b as usize % self.txs.len()];
                let inv = match op.c % 3 {
                    0 => Inventory::Transaction(t.txid()),
                    1 => Inventory::WitnessTransaction(t.txid()),
                    _ => Inventory::WTx(t.wtxid()),
                };
                self.ask_tx(id, vec![inv]);
            }
            K::X4 => {
                // Peer `a` has peculiar sessions from now on: tokens `b`, quirk `c` (none: ordinary ones).
                let p = self.pick_peer(op.a);
                self.peers[p].tainted = true;
                self.peers[p].script = if op.b == 0 { None } else { Some((op.b, op.c)) };
                self.fault("odd-session");
            }
            K::X5 => {
                // Peer `a` sends something odd, whatever the state of its connection.
                let p = self.pick_peer(op.a);
                let Some(id) = self.peers[p].conn else { return None };
                if !self.conns.get(&id).map_or(false, |c| c.state == CState::Up) {
                    return None;
                }
                let bytes = self.odd_bytes(p, id, op.b, op.c);
                self.peers[p].tainted = true;
                self.fault("odd-message");
                self.peer_bytes(id, bytes);
            }
            K::X6 => {
                let p = self.pick_peer(op.a);
                self.peers[p].tainted = true;
                match op.b {
                    0 => self.peers[p].mirror = op.c == 1,
                    1 => self.peers[p].pong = op.c,
                    3 => self.peers[p].clock = op.c as i64,
                    _ => self.peers[p].version = op.c as u32,
                }
            }
            K::Probe => {
                // The user imports a block from the future.
                let base = match op.a % 4 {
                    0 => self.adjust,
                    1 if !self.samples.is_empty() => self.samples[op.b as usize % self.samples.len()],
                    2 => [-4200, 4200, -4201, 4201][op.b as usize % 4],
                    _ => 0,
                };
                let t = (self.local_time().as_secs() as i64).saturating_add(7200).saturating_add(base).saturating_add([0, 1, -1][op.c as usize % 3]);
                let Some(tip) = self.view.last().and_then(|h| self.u.find(h)).map(|b| b.id) else { return None };
                let t = t.clamp(universe::T0 as i64 + 1, u32::MAX as i64 - 1) as u32;
                let mut r = Rng::stream(self.plan.seed, 95_000, self.u.blocks.len() as u64);
                let id = self.u.mine(tip, t, Content::default(), &mut r);
                let headers = vec![self.u.get(id).header()];
                let (s, rx) = chan::bounded(1);
                self.user(Command::ImportHeaders(headers.clone(), s), Note::Import { headers, rx });
            }
            K::WalletFault => {
                let Some(s) = &self.wallet else { return None };
                let mut d = s.disk.lock().unwrap();
                if op.b == 0 {
                    d.plan.clear();
                    d.read_plan.clear();
                    return None;
                }
                if op.b == 4 {
                    let at = d.reads + op.a;
                    d.read_plan.insert(at, libc::EIO);
                    return None;
                }
                let at = d.ops + op.a;
                let f = match op.b {
                    1 => crate::wallet::WFault::Crash(op.c % 9),
                    2 => crate::wallet::WFault::Errno(libc::EIO),
                    _ => crate::wallet::WFault::Errno(libc::ENOSPC),
                };
                d.plan.insert(at, f);
            }
            K::WalletInput => {
                use termion::event::{Event, Key};
                let Some(s) = &self.wallet else { return None };
                let _ = match op.a % 4 {
                    0 => s.inputs.send(Event::Key(Key::Right)).is_ok(),
                    1 => s.inputs.send(Event::Key(Key::Left)).is_ok(),
                    2 => s.inputs.send(Event::Key(Key::Char('\t'))).is_ok(),
                    _ => s.signals.send(nakamoto_wallet::input::Signal::WindowResized).is_ok(),
                };
            }
            K::X9 => {
                // Peer `a` sends addresses.
                let p = self.pick_peer(op.a);
                let Some(id) = self.peers[p].conn else { return None };
                if !self.conns.get(&id).map_or(false, |c| c.state == CState::Up) {
                    return None;
                }
                let list = self.gossip(p, op.b, op.c);
                self.fault("gossip");
                self.peer_reply(id, vec![Arc::new(NetworkMessage::Addr(list))]);
            }
            K::X8 => {
                // Peer `a` sends some message (kind `b`) with altered contents.
                let p = self.pick_peer(op.a);
                let Some(id) = self.peers[p].conn else { return None };
                if !self.conns.get(&id).map_or(false, |c| c.state == CState::Up) {
                    return None;
                }
                let bytes = self.odd_bytes(p, id, op.b, op.c);
                let bytes = self.mutate(bytes, op.c);
                self.peers[p].tainted = true;
                self.fault("mutated-message");
                self.peer_bytes(id, bytes);
            }
            K::X7 => {
                // The user broadcasts a message.
                let m = NetworkMessage::FeeFilter(1000 + op.a as i64);
                let (s, rx) = chan::bounded(1);
                self.user(Command::Broadcast(m, |_| true, s), Note::Broadcast { rx });
            }
            K::Evil => {
                // An adversarial peer moves to a branch with a bad block in it.
                // a: kind, b: depth of the fork + 16 * length, c: peer.
                let Some(p) = (0..self.peers.len()).map(|i| (i + op.c as usize) % self.peers.len()).find(|i| self.peers[*i].evil) else { return None };
                let h = self.u.get(self.best).height;
                let depth = (op.b % 16).min(h);
                let len = op.b / 16 % 64 + 1;
                let from = self.u.ancestor(self.best, h - depth).unwrap();
                let bad_at = op.b / 1024 % len;
                let mut tip = from;
                for i in 0..len {
                    let mut r = Rng::stream(self.plan.seed, 70_000 + self.u.blocks.len() as u64, op.c);
                    let time = self.new_time(tip);
                    tip = if i == bad_at { self.bad_block(tip, time, op.a, &mut r) } else { self.u.mine(tip, time, Content::default(), &mut r) };
                }
                self.fault("invalid-branch");
                self.peers[p].tip = tip;
                self.announce(p);
            }
            _ => return None,
        }
        None
    }

    /// Addresses, as peers or the user might offer them.
    fn gossip(&mut self, p: usize, flavour: u64, seed: u64) -> Vec<(u32, Address)> {
        use std::net::Ipv6Addr;
        let mut r = Rng::stream(self.plan.seed, 90_000 + seed, flavour);
        let now = self.true_secs() as u32;
        let good = ServiceFlags::NETWORK | ServiceFlags::WITNESS | ServiceFlags::COMPACT_FILTERS;
        let v4 = |a: u8, b: u8, c: u8, d: u8| IpAddr::V4(Ipv4Addr::new(a, b, c, d));
        let mut out: Vec<(u32, Address)> = vec![];
        let mut add = |t: u32, ip: IpAddr, port: u16, s: ServiceFlags| out.push((t, Address::new(&SocketAddr::new(ip, port), s)));
        match flavour {
            0 => {
                for (i, q) in self.peers.iter().enumerate() {
                    if i != p && r.chance(1, 2) {
                        add(now - 600, q.addr.ip(), q.addr.port(), q.services);
                    }
                }
            }
            1 | 9 => {
                // Addresses nobody lives at.
                for _ in 0..r.range(1, 12) {
                    let s = if r.chance(1, 2) { good } else { ServiceFlags::NETWORK };
                    add(now - r.range(300, 100_000) as u32, v4(r.range(50, 120) as u8, r.below(256) as u8, r.below(256) as u8, r.range(1, 254) as u8), 18444, s);
                }
            }
            2 => {
                // Many of one group.
                let g = 60 + r.below(2) as u8;
                for _ in 0..r.range(100, 600) {
                    add(now - 1000, v4(g, 7, r.below(256) as u8, r.range(1, 254) as u8), 18444, good);
                }
            }
            3 => {
                for (i, q) in self.peers.iter().enumerate() {
                    if i != p && r.chance(1, 3) {
                        add(now - 600, q.addr.ip(), 1000 + r.below(3) as u16, q.services);
                    }
                }
            }
            4 => {
                // Not of the public internet, or of other networks.
                for _ in 0..r.range(1, 12) {
                    let x = r.below(250) as u8 + 1;
                    let ip = match r.below(14) {
                        0 => v4(127, 0, 0, x),
                        1 => v4(10, x, 1, 1),
                        2 => v4(192, 168, x, 1),
                        3 => v4(172, 16 + x % 16, 1, 1),
                        4 => v4(169, 254, x, 1),
                        5 => v4(0, 0, 0, 0),
                        6 => v4(0, x, 1, 1),
                        7 => v4(255, 255, 255, 255),
                        8 => v4(192, 0, 2, x),
                        9 => v4(198, 51, 100, x),
                        10 => v4(203, 0, 113, x),
                        11 => IpAddr::V6(Ipv6Addr::new(0xfd87, 0xd87e, 0xeb43, x as u16, 1, 2, 3, 4)),
                        _ => IpAddr::V6(Ipv6Addr::new(0x2001, 0x4860, x as u16, 0, 0, 0, 0, 1)),
                    };
                    add(now - 1000, ip, 18444, good);
                }
            }
            5 => {
                let l = local_addr();
                add(now - 1000, l.ip(), l.port(), good);
                add(now - 1000, v4(70, r.below(256) as u8, 1, 1), 18444, good);
            }
            6 => {
                if r.chance(1, 3) {
                    return vec![];
                }
                for i in 0..1001u32 {
                    add(now - 1000, v4(130 + (i % 60) as u8, (i / 60) as u8, r.below(256) as u8, 1), 18444, good);
                }
            }
            7 => {
                // Odd times and services.
                for _ in 0..r.range(1, 12) {
                    let t = *r.pick(&[0, 1, now - 100_000_000, now - 1000, now + 3000, now + 8000, u32::MAX]);
                    let s = *r.pick(&[ServiceFlags::NONE, ServiceFlags::NETWORK | ServiceFlags::BLOOM, ServiceFlags::NETWORK | ServiceFlags::GETUTXO, ServiceFlags::COMPACT_FILTERS, good, ServiceFlags::from(u64::MAX)]);
                    add(t, v4(r.range(121, 126) as u8, r.below(256) as u8, r.below(256) as u8, 1), r.below(65536) as u16, s);
                }
            }
            _ => {
                for _ in 0..r.range(100, 1000) {
                    add(now - 1000, v4(r.range(50, 120) as u8, r.below(256) as u8, r.below(256) as u8, 1), 18444, good);
                }
            }
        }
        out
    }

    /// Continue the peculiar session of a remote.
    fn run_script(&mut self, id: u64) {
        let Some(c) = self.conns.get(&id) else { return };
        if c.state != CState::Up {
            return;
        }
        let Some((mut tokens, quirk)) = c.script else { return };
        let p = c.peer;
        let mut buf = Vec::new();
        while tokens & 15 != 0 {
            let t = tokens & 15;
            tokens >>= 4;
            if t == 8 || t == 9 {
                let d = if t == 8 { self.rng.range(1, 6000) } else { self.rng.range(11_000, 13_500) };
                let at = self.now + d;
                self.push(at, Ev::Script(id));
                break;
            }
            let m = match t {
                1 => {
                    self.conns.get_mut(&id).unwrap().sent_version = true;
                    self.version_msg(p, id)
                }
                2 => Arc::new(NetworkMessage::Verack),
                3 => Arc::new(NetworkMessage::WtxidRelay),
                4 => Arc::new(NetworkMessage::SendHeaders),
                5 => Arc::new(NetworkMessage::SendAddrV2),
                6 => Arc::new(NetworkMessage::Ping(self.rng.next())),
                7 => {
                    let loc = vec![self.u.get(0).hash];
                    Arc::new(NetworkMessage::GetHeaders(GetHeadersMessage::new(loc, BlockHash::all_zeros())))
                }
                15 => Arc::new(NetworkMessage::Version(self.odd_version(p, quirk))),
                t => {
                    let k = match t {
                        10 => 10,
                        11 => 11,
                        12 => 27,
                        13 => 13,
                        _ => *self.rng.pick(&[8, 15, 16, 20, 29]),
                    };
                    let c = self.rng.next() & 0xffff;
                    let b = self.odd_bytes(p, id, k, c);
                    buf.extend(b);
                    continue;
                }
            };
            self.say(|| format!("peer {} -> {}", p, brief(&m)));
            encode(&m, &mut buf);
        }
        if let Some(c) = self.conns.get_mut(&id) {
            c.script = Some((tokens, quirk));
        }
        self.peer_bytes(id, buf);
    }

    pub fn odd_version(&mut self, p: usize, quirk: u64) -> VersionMessage {
        let m = self.version_msg(p, 0);
        let NetworkMessage::Version(v) = &*m else { unreachable!() };
        let mut v = v.clone();
        match quirk {
            1 => v.version = 70011,
            2 => v.version = 209,
            3 => v.services = ServiceFlags::NONE,
            4 => v.timestamp = i64::MIN,
            5 => v.timestamp = i64::MAX,
            6 => v.start_height = -1,
            7 => v.start_height = i32::MAX,
            8 => v.start_height = 0,
            9 => v.receiver = Address::new(&SocketAddr::new(IpAddr::V4(Ipv4Addr::new(0, 0, 0, 0)), 0), ServiceFlags::NONE),
            10 => v.user_agent = "x".repeat(300),
            11 => v.version = u32::MAX,
            12 => v.version = 70012,
            13 => v.timestamp = 0,
            14 => v.nonce = 0,
            15 => v.start_height = i32::MIN,
            16 => v.receiver = Address::new(&self.peers[0].addr, ServiceFlags::NONE),
            _ => {}
        }
        v
    }

    /// Something a peer does not normally send (at this time).
    pub fn odd_bytes(&mut self, p: usize, _id: u64, kind: u64, c: u64) -> Vec<u8> {
        let mut r = Rng::stream(self.plan.seed, 31_000 + kind, c);
        let any = r.below(self.u.blocks.len() as u64) as usize;
        let chain = self.u.chain(self.peers[p].tip);
        let on = |r: &mut Rng| chain[r.below(chain.len() as u64) as usize];
        let rand_hash = BlockHash::hash(&c.to_le_bytes());
        let zero = BlockHash::all_zeros();
        let m = match kind {
            0 => {
                let m = self.version_msg(p, 0);
                (*m).clone()
            }
            1 => NetworkMessage::Version(self.odd_version(p, c)),
            2 => NetworkMessage::Verack,
            3 => NetworkMessage::WtxidRelay,
            4 => NetworkMessage::SendHeaders,
            5 => NetworkMessage::SendAddrV2,
            6 => NetworkMessage::Ping(r.next()),
            7 => NetworkMessage::Pong(r.next()),
            8 => {
                let loc = match c % 8 {
                    0 if c / 32 % 4 != 0 => {
                        // The blocks of another branch, then some of ours.
                        let h = r.below(chain.len() as u64) as usize;
                        let ours = (0..=h).rev().step_by(1 + r.below(3) as usize).take(r.range(1, 12) as usize).map(|h| self.u.get(chain[h]).hash);
                        let other = *r.pick(&[2, 9, 10, 11, 12, 20, 32, 60, 89]);
                        (0..other).map(|i: u64| BlockHash::hash(&(c + i).to_le_bytes())).chain(ours).collect()
                    }
                    0 => vec![],
                    1 => vec![rand_hash],
                    2 => vec![self.u.get(any).hash],
                    3 => {
                        let x = on(&mut r);
                        vec![rand_hash, self.u.get(any).hash, self.u.get(x).hash]
                    }
                    4 => (0..101 + r.below(1000)).map(|i| BlockHash::hash(&i.to_le_bytes())).collect(),
                    5 => vec![self.u.get(*chain.last().unwrap()).hash],
                    _ => {
                        let h = r.below(chain.len() as u64) as usize;
                        (0..=h).rev().take(r.range(1, 12) as usize).map(|h| self.u.get(chain[h]).hash).collect()
                    }
                };
                let stop = match c / 8 % 4 {
                    0 | 1 => zero,
                    2 => self.u.get(on(&mut r)).hash,
                    _ => *r.pick(&[rand_hash, self.u.get(any).hash]),
                };
                NetworkMessage::GetHeaders(GetHeadersMessage::new(loc, stop))
            }
            9 => NetworkMessage::GetBlocks(nakamoto_common::bitcoin::network::message_blockdata::GetBlocksMessage::new(vec![self.u.get(any).hash], zero)),
            10 => NetworkMessage::GetData(match c % 5 {
                0 => vec![],
                1 => vec![Inventory::Block(self.u.get(any).hash)],
                2 => vec![Inventory::Error, Inventory::WTx(Wtxid::hash(&c.to_le_bytes())), Inventory::Transaction(Txid::hash(&c.to_le_bytes()))],
                3 => vec![Inventory::Unknown { inv_type: 77, hash: [3; 32] }, Inventory::CompactBlock(rand_hash)],
                _ => self.txs.iter().take(3).map(|t| Inventory::Transaction(t.txid())).collect(),
            }),
            11 => NetworkMessage::Inv(match c % 5 {
                0 => vec![],
                1 => vec![Inventory::Block(rand_hash)],
                2 => vec![Inventory::Block(self.u.get(any).hash)],
                3 => vec![Inventory::Transaction(Txid::hash(&c.to_le_bytes())), Inventory::Error],
                _ => (0..20u32).map(|i| Inventory::Block(BlockHash::hash(&i.to_le_bytes()))).collect(),
            }),
            12 => NetworkMessage::Inv((0..50_001u32).map(|i| Inventory::Block(BlockHash::hash(&i.to_le_bytes()))).collect()),
            13 => {
                // A block of its own, which nobody else knows.
                let parent = chain[chain.len() - 1 - r.below(2.min(chain.len() as u64)) as usize];
                let time = self.new_time(parent);
                let id = self.u.mine(parent, time, Content::default(), &mut r);
                NetworkMessage::Headers(vec![self.u.get(id).header()])
            }
            14 => NetworkMessage::Headers(match c % 4 {
                0 => vec![],
                1 => {
                    let mut h = self.u.get(any).header();
                    h.prev_blockhash = rand_hash;
                    vec![h]
                }
                2 => {
                    // Known ones, in the wrong order.
                    let mut v: Vec<_> = chain.iter().rev().take(6).map(|i| self.u.get(*i).header()).collect();
                    r.shuffle(&mut v);
                    v
                }
                _ => chain.iter().rev().take(1).map(|i| self.u.get(*i).header()).collect(),
            }),
            15 => NetworkMessage::Block(self.u.get(any).block.clone()),
            16 => {
                let b = self.u.get(any);
                NetworkMessage::CFilter(CFilter { filter_type: 0, block_hash: b.hash, filter: b.filter.clone() })
            }
            17 => {
                let mut b = self.u.get(any).block.clone();
                match c % 3 {
                    0 => b.txdata.clear(),
                    1 => self.tamper(&mut b),
                    _ => b.header.prev_blockhash = rand_hash,
                }
                NetworkMessage::Block(b)
            }
            18 => NetworkMessage::Headers(vec![self.u.get(any).header(); 2001]),
            19 => NetworkMessage::CFHeaders(CFHeaders {
                filter_type: (c % 5 == 0) as u8,
                stop_hash: *r.pick(&[rand_hash, self.u.get(any).hash, self.u.get(self.peers[p].tip).hash]),
                previous_filter_header: self.u.get(any).filter_header,
                filter_hashes: vec![self.u.get(any).filter_hash; *r.pick(&[0, 1, 3, 2001])],
            }),
            20 => NetworkMessage::GetCFHeaders(GetCFHeaders {
                filter_type: (c % 7 == 0) as u8,
                start_height: match c % 5 {
                    0 => 0,
                    1 => 1,
                    2 => u32::MAX,
                    _ => r.below(chain.len() as u64 + 4) as u32,
                },
                stop_hash: match c / 5 % 4 {
                    0 => rand_hash,
                    1 => self.u.get(any).hash,
                    _ => self.u.get(on(&mut r)).hash,
                },
            }),
            21 => NetworkMessage::GetCFilters(GetCFilters { filter_type: 0, start_height: r.below(9) as u32, stop_hash: self.u.get(any).hash }),
            22 => NetworkMessage::GetCFCheckpt(nakamoto_common::bitcoin::network::message_filter::GetCFCheckpt { filter_type: 0, stop_hash: self.u.get(any).hash }),
            23 => NetworkMessage::CFCheckpt(nakamoto_common::bitcoin::network::message_filter::CFCheckpt { filter_type: 0, stop_hash: self.u.get(any).hash, filter_headers: vec![] }),
            24 => NetworkMessage::FeeFilter(*r.pick(&[0, -1, i64::MAX, i64::MIN])),
            25 => NetworkMessage::MemPool,
            26 => NetworkMessage::Unknown {
                command: nakamoto_common::bitcoin::network::message::CommandString::try_from_static("whatever").unwrap(),
                payload: vec![7; r.below(100) as usize],
            },
            27 => {
                let t = self.true_secs() as u32;
                let n = if c % 6 == 0 { 1001 } else { r.below(6) };
                let mut v = Vec::new();
                for i in 0..n {
                    let ip = match r.below(6) {
                        0 => Ipv4Addr::new(10, 1, 2, i as u8),
                        1 => Ipv4Addr::new(127, 0, 0, 1),
                        2 => Ipv4Addr::new(0, 1, 2, 3),
                        3 => Ipv4Addr::new(192, 168, 0, i as u8),
                        _ => Ipv4Addr::new(91, r.below(200) as u8, i as u8, 9),
                    };
                    let when = *r.pick(&[t, t - 100_000, 0, t + 100_000, u32::MAX]);
                    let s = *r.pick(&[ServiceFlags::NETWORK | ServiceFlags::COMPACT_FILTERS, ServiceFlags::NETWORK, ServiceFlags::NONE]);
                    v.push((when, Address::new(&SocketAddr::new(IpAddr::V4(ip), 18444), s)));
                }
                NetworkMessage::Addr(v)
            }
            28 => NetworkMessage::Addr(vec![]),
            29 => NetworkMessage::GetAddr,
            30 => NetworkMessage::NotFound(vec![Inventory::Block(self.u.get(any).hash), Inventory::Transaction(Txid::hash(&c.to_le_bytes()))]),
            31 => NetworkMessage::Tx(self.u.get(any).block.txdata[0].clone()),
            32 => NetworkMessage::SendCmpct(nakamoto_common::bitcoin::network::message_compact_blocks::SendCmpct { send_compact: c % 2 == 0, version: c }),
            33 => NetworkMessage::Alert(vec![1; 300]),
            34 => NetworkMessage::FilterClear,
            35 => {
                // An invalid header of its own.
                let parent = chain[chain.len() - 1];
                let time = self.new_time(parent);
                let id = self.bad_block(parent, time, c % 6, &mut r);
                NetworkMessage::Headers(vec![self.u.get(id).header()])
            }
            _ => {
                let mut b = Vec::new();
                encode(&NetworkMessage::Ping(5), &mut b);
                match kind {
                    40 => b = (0..24 + r.below(300)).map(|_| r.next() as u8).collect(),
                    41 => b[0] ^= 0x55,
                    42 => b[20] ^= 0x55, // checksum
                    43 => {
                        // A payload that is too short for its type, with a good checksum.
                        b.clear();
                        encode(&NetworkMessage::Alert(vec![]), &mut b);
                        b[4..16].copy_from_slice(b"ping\0\0\0\0\0\0\0\0");
                    }
                    44 => b[16..20].copy_from_slice(&0x7fff_ffffu32.to_le_bytes()),
                    _ => {
                        // Cut short: what follows is not understood.
                        let n = 1 + r.below(b.len() as u64 - 1) as usize;
                        b.truncate(n);
                    }
                }
                return b;
            }
        };
        self.say(|| format!("peer {} -> odd {} {}", p, kind, brief(&m)));
        let mut b = Vec::new();
        encode(&m, &mut b);
        b
    }

    /// An adversarial peer pushes data nobody asked for.
    fn unsolicited(&mut self, a: u64, b: u64, c: u64) {
        let evil: Vec<usize> = (0..self.peers.len()).filter(|i| self.peers[*i].evil).collect();
        if evil.is_empty() {
            return;
        }
        let p = evil[(b % evil.len() as u64) as usize];
        let Some(id) = self.peers[p].conn else { return };
        if !self.conns.get(&id).map_or(false, |c| c.state == CState::Up && c.got_verack) {
            return;
        }
        let chain = self.u.chain(self.best);
        let any = c as usize % self.u.blocks.len();
        let top = chain[chain.len() - 1 - (c as usize % chain.len().min(8))];
        let m = match a {
            0 => NetworkMessage::Block(self.u.get(top).block.clone()),
            1 => {
                let mut block = self.u.get(top).block.clone();
                self.tamper(&mut block);
                NetworkMessage::Block(block)
            }
            2 => NetworkMessage::Block(self.u.get(any).block.clone()),
            3 => {
                let b = self.u.get(top);
                NetworkMessage::CFilter(CFilter { filter_type: 0, block_hash: b.hash, filter: b.filter.clone() })
            }
            4 => {
                let b = self.u.get(any);
                NetworkMessage::CFilter(CFilter { filter_type: 0, block_hash: b.hash, filter: b.filter.clone() })
            }
            5 => {
                let (b, o) = (self.u.get(top), self.u.get(any));
                NetworkMessage::CFilter(CFilter { filter_type: 0, block_hash: b.hash, filter: o.filter.clone() })
            }
            6 => {
                let b = self.u.get(top);
                NetworkMessage::CFHeaders(CFHeaders {
                    filter_type: 0,
                    stop_hash: b.hash,
                    previous_filter_header: self.u.get(b.parent).filter_header,
                    filter_hashes: vec![b.filter_hash],
                })
            }
            _ => NetworkMessage::Tx(match self.txs.get(c as usize % self.txs.len().max(1)) {
                Some(t) => t.clone(),
                None => return,
            }),
        };
        self.fault("unsolicited");
        self.peer_reply(id, vec![Arc::new(m)]);
    }

    /// A block that breaks one consensus rule (or sits exactly on its edge, for the higher kinds).
    pub fn bad_block(&mut self, parent: Id, time: u32, kind: u64, r: &mut Rng) -> Id {
        let mtp = crate::refchain::median_time(&self.u, parent);
        let now = self.local_time().as_secs() as u32;
        let req = crate::refchain::required_bits(&self.u, parent, time);
        let t = BlockHeader::u256_from_compact_target(req);
        let (mut c, mut time) = (Content::default(), time);
        match kind % 16 {
            10.. => {
                let mut bits = crate::refchain::wrong_bits(&self.u, parent, time, kind);
                let o = r.below(6);
                for k in 0..6 {
                    if bits == req {
                        bits = crate::refchain::wrong_bits(&self.u, parent, time, o + k);
                    }
                }
                if 256 - BlockHeader::u256_from_compact_target(bits).bits() <= 13 {
                    c.bits = Some(bits);
                }
            }
            0 => c.bad_pow = true,
            1 => {
                // Easier than required.
                let e = t << 1;
                c.bits = Some(if req == 0x207fffff { 0x2100ffff } else { BlockHeader::compact_target_from_u256(&e) });
            }
            2 => c.bits = Some(BlockHeader::compact_target_from_u256(&(t >> 1))), // harder than required
            3 => time = mtp,
            4 => time = mtp.saturating_sub(1 + r.below(7200) as u32),
            5 => time = now + 7201 + r.below(100_000) as u32,
            6 => time = mtp + 1, // fine
            7 => time = now + 7200, // fine
            8 => {
                // Looks like a minimum-difficulty block.
                c.bits = Some(0x207fffff);
                let edge = self.u.get(parent).block.header.time + 1200 - r.below(2) as u32;
                if r.chance(2, 3) && edge > mtp && edge <= now {
                    time = edge;
                }
            }
            _ => {
                // Same target, written differently is impossible; a slightly different mantissa.
                c.bits = Some(req - 1);
            }
        }
        if kind % 16 == 6 || kind % 16 == 7 {
            c.bits = Some(crate::refchain::required_bits(&self.u, parent, time));
        }
        self.u.mine(parent, time, c, r)
    }

    fn grow(&mut self, a: u64, n: u64, c: u64) {
        let mut r = Rng::stream(self.plan.seed, 80_000, c);
        let len = self.u.blocks.len();
        let mut tip = match a % 5 {
            0 => self.best,
            1 => len - 1,
            2 => r.below(len as u64) as usize,
            _ => {
                let h = self.u.get(self.best).height;
                self.u.ancestor(self.best, h.saturating_sub(r.below(8))).unwrap()
            }
        };
        let mut bad = if a / 5 % 4 == 0 { Some((r.below(n), r.below(16))) } else { None };
        if let Some((k, kind)) = &mut bad {
            // The difficulty rules matter most where a period begins.
            if self.plan.cfg.interval > 0 && *kind > 7 && r.chance(1, 2) {
                let h = self.u.get(tip).height + 1;
                let first = (self.plan.cfg.interval - h % self.plan.cfg.interval) % self.plan.cfg.interval;
                *k = if first < n { first } else { *k };
            }
        }
        let style = r.below(7);
        for i in 0..n {
            let p = self.u.get(tip).block.header.time;
            let mtp = crate::refchain::median_time(&self.u, tip);
            let gap = match style {
                0 => r.range(300, 900),
                1 => r.range(1, 400),
                2 => r.range(600, 2500),
                3 => r.range(0, 1300),
                // Slow: minimum-difficulty blocks only, or mostly.
                4 => r.range(1201, 4000),
                // A falling, but never the minimum difficulty.
                5 => r.range(800, 1200),
                _ => *r.pick(&[1, 30, 300, 1199, 1200, 1201, 1202, 1500]),
            } as u32;
            let mut time = (p + gap).max(mtp + 1);
            if self.hardness(tip, time) > 9 {
                time = p + r.range(1500, 2600) as u32;
            } else if r.chance(1, 5) {
                time = mtp + 1 + r.below(60) as u32;
            } else if r.chance(1, 8) {
                // At the edge of the minimum-difficulty rule.
                time = (p + 1199 + r.below(3) as u32).max(mtp + 1);
            }
            let now = self.local_time().as_secs() as u32;
            if time > now {
                time = (mtp + 1).max(now.min(time));
            }
            if self.hardness(tip, time) > 13 {
                return;
            }
            tip = match bad {
                Some((k, kind)) if k == i => {
                    self.fault("invalid-header");
                    self.bad_block(tip, time, kind, &mut r)
                }
                _ => self.u.mine(tip, time, Content::default(), &mut r),
            };
        }
        if bad.is_none() && self.plan.cfg.ckpt == 0 {
            self.consider_best(tip);
        }
    }

    /// The user imports a batch of headers in some order.
    fn import_batch(&mut self, a: u64, n: u64, c: u64) {
        let mut r = Rng::stream(self.plan.seed, 90_000, c);
        let len = self.u.blocks.len();
        let mut ids: Vec<Id> = vec![];
        let recent = |r: &mut Rng| len - 1 - r.below((len as u64).min(40)) as usize;
        match a % 7 {
            0 => {
                for _ in 0..n {
                    ids.push(recent(&mut r));
                }
            }
            1 | 2 | 3 => {
                // The path to some block.
                let t = if a % 7 == 1 { len - 1 } else { recent(&mut r) };
                let chain = self.u.chain(t);
                let k = chain.len().saturating_sub(n as usize);
                ids = chain[k..].to_vec();
                if a % 7 == 3 {
                    ids.reverse();
                }
            }
            4 => {
                // Two branches interleaved.
                let (x, y) = (recent(&mut r), recent(&mut r));
                let (cx, cy) = (self.u.chain(x), self.u.chain(y));
                let (mut i, mut j) = (cx.len().saturating_sub(n as usize), cy.len().saturating_sub(n as usize));
                while i < cx.len() || j < cy.len() {
                    if j >= cy.len() || (i < cx.len() && r.chance(1, 2)) {
                        ids.push(cx[i]);
                        i += 1;
                    } else {
                        ids.push(cy[j]);
                        j += 1;
                    }
                }
            }
            5 => {
                // Everything recent, shuffled.
                ids = (len.saturating_sub(n as usize)..len).collect();
                r.shuffle(&mut ids);
            }
            _ => ids = (len.saturating_sub(n as usize)..len).collect(),
        }
        let headers: Vec<BlockHeader> = ids.iter().map(|i| self.u.get(*i).header()).collect();
        if headers.is_empty() {
            return;
        }
        let (s, rx) = chan::bounded(1);
        self.user(Command::ImportHeaders(headers.clone(), s), Note::Import { headers, rx });
    }

    /// A command of the simulated user.
    pub fn user(&mut self, c: Command, n: Note) {
        if self.handle.is_some() {
            self.command(c);
            self.notes.push(n);
        }
    }

    pub fn mine_with(&mut self, parent: Id, txs: Vec<Transaction>, c: u64) -> Id {
        // Only what is valid on that branch: inputs unspent there.
        let ok: Vec<Transaction> = txs
            .into_iter()
            .filter(|t| {
                let utxos = &self.u.get(parent).utxos;
                t.input.iter().all(|i| utxos.iter().any(|(o, _)| *o == i.previous_output))
            })
            .collect();
        let time = self.new_time(parent);
        let mut r = Rng::stream(self.plan.seed, 60_000 + self.u.blocks.len() as u64, c);
        let content = Content { include: ok, ..Content::default() };
        self.u.mine(parent, time, content, &mut r)
    }
}

/// What a peer sends that was not asked for witnesses.
pub fn strip(b: &mut Block) {
    for t in b.txdata.iter_mut() {
        for i in t.input.iter_mut() {
            i.witness = Witness::default();
        }
    }
}

pub fn mask_scripts(c: u64) -> Vec<Script> {
    (0..universe::SCRIPTS).filter(|i| c >> i & 1 == 1).map(universe::script).collect()
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn encode(m: &NetworkMessage, buf: &mut Vec<u8>) {
    let raw = RawNetworkMessage { magic: Network::Regtest.magic(), payload: m.clone() };
    raw.consensus_encode(buf).unwrap();
}

/// Frames of the byte stream, as the oracles see them.
pub fn decode_rx(buf: &mut Vec<u8>) -> Vec<Rx> {
    let mut out = Vec::new();
    let mut off = 0;
    while off < buf.len() {
        let b = &buf[off..];
        match deserialize_partial::<RawNetworkMessage>(b) {
            Ok((m, n)) => {
                off += n;
                out.push(if m.magic == Network::Regtest.magic() { Rx::Msg(Arc::new(m.payload)) } else { Rx::Magic });
            }
            Err(_) if b.len() < 24 => break,
            Err(_) => {
                let len = u32::from_le_bytes([b[16], b[17], b[18], b[19]]) as usize;
                if b.len() < 24 + len && 24 + len <= 5_000_000 {
                    break;
                }
                // The stream can't be followed from here on.
                out.push(Rx::Garbage);
                off = buf.len();
            }
        }
    }
    buf.drain(..off);
    out
}

pub fn decode_all(buf: &mut Vec<u8>) -> Vec<NetMsg> {
    let mut out = Vec::new();
    let mut off = 0;
    while off < buf.len() {
        match deserialize_partial::<RawNetworkMessage>(&buf[off..]) {
            Ok((m, n)) => {
                off += n;
                out.push(Arc::new(m.payload));
            }
            Err(_) => break,
        }
    }
    buf.drain(..off);
    out
}

pub fn brief(m: &NetworkMessage) -> String {
    match m {
        NetworkMessage::Headers(h) => format!("headers({}, last {})", h.len(), h.last().map(|h| short(&h.block_hash())).unwrap_or_default()),
        NetworkMessage::CFHeaders(h) => format!("cfheaders({}, stop {})", h.filter_hashes.len(), short(&h.stop_hash)),
        NetworkMessage::CFilter(h) => format!("cfilter({})", short(&h.block_hash)),
        NetworkMessage::Block(b) => format!("block({})", short(&b.block_hash())),
        NetworkMessage::GetHeaders(g) => {
            format!("getheaders(first {}, n {})", g.locator_hashes.first().map(short).unwrap_or_default(), g.locator_hashes.len())
        }
        NetworkMessage::GetCFHeaders(g) => format!("getcfheaders({}.. stop {})", g.start_height, short(&g.stop_hash)),
        NetworkMessage::GetCFilters(g) => format!("getcfilters({}.. stop {})", g.start_height, short(&g.stop_hash)),
        NetworkMessage::Inv(i) => format!("inv({:?})", i.iter().map(inv_short).collect::<Vec<_>>()),
        NetworkMessage::GetData(i) => format!("getdata({:?})", i.iter().map(inv_short).collect::<Vec<_>>()),
        NetworkMessage::NotFound(i) => format!("notfound({:?})", i.iter().map(inv_short).collect::<Vec<_>>()),
        NetworkMessage::Version(v) => format!("version({}, height {})", v.version, v.start_height),
        NetworkMessage::Ping(n) => format!("ping({})", n),
        NetworkMessage::Pong(n) => format!("pong({})", n),
        NetworkMessage::Tx(t) => format!("tx({})", t.txid()),
        m => m.cmd().to_string(),
    }
}

fn inv_short(i: &Inventory) -> String {
    match i {
        Inventory::Block(h) | Inventory::WitnessBlock(h) => format!("block {}", short(h)),
        Inventory::Transaction(h) | Inventory::WitnessTransaction(h) => format!("tx {}", &h.to_string()[..8]),
        o => format!("{:?}", o),
    }
}

pub fn short(h: &BlockHash) -> String {
    let s = h.to_string();
    s[s.len() - 8..].to_string()
}

#[allow(dead_code)]
fn unused(_: HashMap<u8, u8>) {
    let _ = serialize(&0u8);
}
