// A node of the real protocol state machine, driven by hand.
#![allow(dead_code, unused_imports)]
use std::borrow::Cow;
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::Arc;

use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin::blockdata::script::Builder;
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage as M, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_blockdata::{GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::network::message_filter::*;
use nakamoto_common::bitcoin::network::message_network::VersionMessage;
use nakamoto_common::bitcoin::util::bip158::{BlockFilter as Bip158, BlockFilterWriter};
use nakamoto_common::bitcoin::*;
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_common::block::filter::{BlockFilter, FilterHash, FilterHeader, Filters};
use nakamoto_common::block::store::Genesis as _;
use nakamoto_common::block::time::{AdjustedTime, LocalDuration, LocalTime, RefClock};
use nakamoto_common::block::tree::{BlockReader, BlockTree, ImportResult};
use nakamoto_common::block::Height;
use nakamoto_common::network::Network;
use nakamoto_common::p2p::peer::KnownAddress;
use nakamoto_net::{Disconnect, Io, Link, StateMachine as _};
use nakamoto_p2p::{Command, Config, DisconnectReason, Event, StateMachine};

pub fn coinbase(tag: u64, script: Script, value: u64) -> Transaction {
    Transaction {
        version: 1,
        lock_time: PackedLockTime(0),
        input: vec![TxIn {
            previous_output: OutPoint::null(),
            script_sig: Builder::new().push_int(tag as i64).into_script(),
            sequence: Sequence::MAX,
            witness: Witness::default(),
        }],
        output: vec![TxOut { value, script_pubkey: script }],
    }
}

/// Script number `n` (anyone can spend).
pub fn script(n: u64) -> Script {
    Builder::new().push_int(n as i64 + 1000).push_opcode(blockdata::opcodes::all::OP_DROP).push_opcode(blockdata::opcodes::OP_TRUE).into_script()
}

/// Mine a regtest block on top of `prev`.
pub fn mine(prev: &BlockHeader, time: u32, tag: u64, pay: Script, txs: Vec<Transaction>) -> Block {
    let mut txdata = vec![coinbase(tag, pay, 50)];
    txdata.extend(txs);
    let mut b = Block {
        header: BlockHeader {
            version: 1,
            prev_blockhash: prev.block_hash(),
            merkle_root: TxMerkleNode::all_zeros(),
            time,
            bits: 0x207fffff,
            nonce: 0,
        },
        txdata,
    };
    b.header.merkle_root = b.compute_merkle_root().unwrap();
    let target = b.header.target();
    while b.header.validate_pow(&target).is_err() {
        b.header.nonce += 1;
    }
    b
}

/// `n` blocks on top of `prev`, the i-th one tagged `tag + i`.
pub fn chain(prev: &BlockHeader, n: usize, tag: u64) -> Vec<Block> {
    let mut v: Vec<Block> = vec![];
    let mut p = *prev;
    for i in 0..n {
        let b = mine(&p, p.time + 600, tag + i as u64, script(tag + i as u64), vec![]);
        p = b.header;
        v.push(b);
    }
    v
}

pub fn headers(blocks: &[Block]) -> Vec<BlockHeader> {
    blocks.iter().map(|b| b.header).collect()
}

/// The basic filter of a block whose inputs spend the given scripts.
pub fn filter(b: &Block, spent: &HashMap<OutPoint, Script>) -> BlockFilter {
    let f = Bip158::new_script_filter(b, |o| spent.get(o).cloned().ok_or(nakamoto_common::bitcoin::util::bip158::Error::UtxoMissing(*o))).unwrap();
    BlockFilter::new(&f.content)
}

pub fn filter_hashes(blocks: &[Block], spent: &HashMap<OutPoint, Script>) -> Vec<FilterHash> {
    blocks.iter().map(|b| FilterHash::hash(&filter(b, spent).content)).collect()
}

pub fn genesis() -> BlockHeader {
    Network::Regtest.genesis()
}

pub type Tree = BlockCache<store::Memory<BlockHeader>>;
pub type FCache = FilterCache<store::Memory<StoredHeader>>;
pub type SM = StateMachine<Tree, FCache, HashMap<std::net::IpAddr, KnownAddress>, RefClock<AdjustedTime<SocketAddr>>>;

pub fn tree() -> Tree {
    BlockCache::from(store::Memory::new(nakamoto_common::nonempty::NonEmpty::new(genesis())), Network::Regtest.params(), &[]).unwrap()
}

pub struct Node {
    pub sm: SM,
    pub now: LocalTime,
    pub sent: Vec<(SocketAddr, M)>,
    pub events: Vec<Event>,
    pub dialed: Vec<SocketAddr>,
    pub closed: Vec<(SocketAddr, String)>,
    pub timers: Vec<LocalTime>,
    pub conns: std::collections::BTreeSet<SocketAddr>,
    /// Answer pings for the peers.
    pub pong: bool,
}

pub fn addr(i: u8) -> SocketAddr {
    SocketAddr::from(([44, i, 1, 7], 18444))
}

pub fn local() -> SocketAddr {
    SocketAddr::from(([33, 33, 33, 33], 18444))
}

pub const FULL: fn() -> ServiceFlags = || ServiceFlags::NETWORK | ServiceFlags::WITNESS | ServiceFlags::COMPACT_FILTERS;

impl Node {
    pub fn new(connect: Vec<SocketAddr>, tree: Tree) -> Node {
        Self::with(connect, tree, |_| {})
    }
    pub fn with(connect: Vec<SocketAddr>, tree: Tree, f: impl FnOnce(&mut Config)) -> Node {
        let now = LocalTime::from_secs(genesis().time as u64 + 10_000_000);
        Self::at(now, connect, tree, f)
    }
    pub fn at(now: LocalTime, connect: Vec<SocketAddr>, tree: Tree, f: impl FnOnce(&mut Config)) -> Node {
        let mut config = Config::from(Network::Regtest, connect);
        f(&mut config);
        let filters = FilterCache::load(store::Memory::new(nakamoto_common::nonempty::NonEmpty::new(StoredHeader::genesis(Network::Regtest)))).unwrap();
        let clock = RefClock::from(AdjustedTime::new(now));
        let sm = StateMachine::new(tree, filters, HashMap::new(), clock, fastrand::Rng::with_seed(1), config);
        let mut n = Node { sm, now, sent: vec![], events: vec![], dialed: vec![], closed: vec![], timers: vec![], conns: Default::default(), pong: true };
        n.sm.initialize(now);
        n.drain();
        n
    }
    pub fn drain(&mut self) {
        while let Some(io) = self.sm.next() {
            match io {
                Io::Write(a, m) => {
                    if self.conns.contains(&a) {
                        if let (M::Ping(x), true) = (&m.payload, self.pong) {
                            let payload = M::Pong(*x);
                            self.sm.message_received(&a, Cow::Owned(RawNetworkMessage { magic: m.magic, payload }));
                        }
                        self.sent.push((a, m.payload));
                    }
                }
                Io::Connect(a) => {
                    self.dialed.push(a);
                    self.sm.attempted(&a);
                }
                Io::Disconnect(a, r) => {
                    if self.conns.remove(&a) {
                        self.closed.push((a, r.to_string()));
                        self.sm.disconnected(&a, r.into());
                    }
                }
                Io::SetTimer(d) => self.timers.push(self.now + d),
                Io::Event(e) => self.events.push(e),
            }
        }
    }
    /// Move time, firing the timers on the way.
    pub fn advance(&mut self, secs: u64) {
        let end = self.now + LocalDuration::from_secs(secs);
        loop {
            self.timers.sort();
            match self.timers.first().copied() {
                Some(t) if t <= end => {
                    self.timers.remove(0);
                    if t > self.now {
                        self.now = t;
                    }
                    self.sm.tick(self.now);
                    self.sm.timer_expired();
                    self.drain();
                }
                _ => break,
            }
        }
        self.now = end;
        self.sm.tick(self.now);
        self.drain();
    }
    pub fn recv(&mut self, from: SocketAddr, m: M) {
        self.sm.tick(self.now);
        self.sm.message_received(&from, Cow::Owned(RawNetworkMessage { magic: Network::Regtest.magic(), payload: m }));
        self.drain();
    }
    pub fn version(&self, from: SocketAddr, services: ServiceFlags, height: u64, nonce: u64) -> M {
        M::Version(VersionMessage {
            version: 70016,
            services,
            timestamp: self.now.as_secs() as i64,
            receiver: Address::new(&local(), ServiceFlags::NONE),
            sender: Address::new(&from, services),
            nonce,
            user_agent: "/demo/".into(),
            start_height: height as i32,
            relay: true,
        })
    }
    pub fn connect(&mut self, a: SocketAddr, link: Link) {
        self.sm.tick(self.now);
        if link.is_outbound() && !self.dialed.contains(&a) {
            self.sm.command(Command::Connect(a));
            self.drain();
        }
        self.conns.insert(a);
        self.sm.connected(a, &local(), link);
        self.drain();
    }
    /// Connect and complete the handshake.
    pub fn peer(&mut self, a: SocketAddr, link: Link, services: ServiceFlags, height: u64) {
        self.connect(a, link);
        let v = self.version(a, services, height, 99 + a.port() as u64);
        self.recv(a, v);
        self.recv(a, M::Verack);
    }
    pub fn lose(&mut self, a: SocketAddr) {
        if self.conns.remove(&a) {
            self.sm.tick(self.now);
            self.sm.disconnected(&a, Disconnect::ConnectionError(Arc::new(std::io::Error::from(std::io::ErrorKind::ConnectionReset))));
            self.drain();
        }
    }
    pub fn command(&mut self, c: Command) {
        self.sm.tick(self.now);
        self.sm.command(c);
        self.drain();
    }
    pub fn tip(&mut self) -> (BlockHash, u64) {
        let (s, r) = crossbeam_channel::bounded(1);
        self.command(Command::GetTip(s));
        let (h, hd, _) = r.recv().unwrap();
        (hd.block_hash(), h)
    }
    pub fn take_sent(&mut self) -> Vec<(SocketAddr, M)> {
        std::mem::take(&mut self.sent)
    }
}

pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {}", what);
        std::process::exit(1);
    }
}

/// Answer the node's requests for filter headers, filters and blocks.
pub fn serve(n: &mut Node, p: std::net::SocketAddr, a: &[Block], spent: &HashMap<OutPoint, Script>) {
    serve_from(n, p, a, spent, 0)
}
/// Likewise, but without the filters below a height.
pub fn serve_from(n: &mut Node, p: std::net::SocketAddr, a: &[Block], spent: &HashMap<OutPoint, Script>, from: usize) {
    for _ in 0..60 {
        n.advance(5);
        for (_, m) in n.take_sent() {
            match m {
                M::GetCFHeaders(g) => {
                    let Some(stop) = a.iter().position(|b| b.block_hash() == g.stop_hash) else { continue };
                    let start = g.start_height as usize - 1;
                    let hs = filter_hashes(&a[start..=stop], spent);
                    let mut prev = genesis_filter_header();
                    for h in filter_hashes(&a[..start], spent) {
                        prev = h.filter_header(&prev);
                    }
                    n.recv(p, M::CFHeaders(CFHeaders { filter_type: 0, stop_hash: g.stop_hash, previous_filter_header: prev, filter_hashes: hs }));
                }
                M::GetCFilters(g) => {
                    let Some(stop) = a.iter().position(|b| b.block_hash() == g.stop_hash) else { continue };
                    for b in &a[(g.start_height as usize).max(from).max(1) - 1..=stop] {
                        let f = filter(b, spent);
                        n.recv(p, M::CFilter(CFilter { filter_type: 0, block_hash: b.block_hash(), filter: f.content.clone() }));
                    }
                }
                M::GetData(invs) => {
                    for i in invs {
                        if let Inventory::Block(h) = i {
                            if let Some(b) = a.iter().find(|b| b.block_hash() == h) {
                                n.recv(p, M::Block(b.clone()));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
}
fn genesis_filter_header() -> nakamoto_common::block::filter::FilterHeader {
    nakamoto_common::block::filter::FilterHeader::genesis(nakamoto_common::network::Network::Regtest)
}
