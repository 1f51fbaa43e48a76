//! A run is a pure function of its plan: configuration, list of timed operations and faults, seed for the
//! low-level choices. Plans are generated from a seed, minimised by dropping operations, and written to and
//! read from replay files.
use std::fmt::Write as _;

macro_rules! cfg_struct {
    ($($f:ident : $d:expr , $doc:expr ;)*) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct Cfg { $( #[doc = $doc] pub $f: u64, )* }
        impl Default for Cfg {
            fn default() -> Self { Cfg { $( $f: $d, )* } }
        }
        impl Cfg {
            pub const FIELDS: &'static [&'static str] = &[ $( stringify!($f), )* ];
            pub fn get(&self, name: &str) -> Option<u64> {
                match name { $( stringify!($f) => Some(self.$f), )* _ => None }
            }
            pub fn set(&mut self, name: &str, v: u64) -> bool {
                match name { $( stringify!($f) => { self.$f = v; true } )* _ => false }
            }
        }
    };
}

cfg_struct! {
    world: 0, "which simulated system (0 node, 1 consensus node, 2 reactor, ...)";
    npeers: 3, "number of stub peers";
    base_len: 0, "blocks of the shared base chain that exist at the start";
    known_len: 0, "headers the node already has at its first start";
    lat_min: 5, "minimum one-way latency, ms";
    lat_max: 50, "maximum one-way latency, ms";
    frag: 0, "fragment byte streams (1: random, 2: byte by byte)";
    batch: 0, "window (ms) of inputs handed to the node before its outputs are drained";
    mode: 0, "0: connect list, 1: address book, 2: connect list for half, rest inbound";
    max_out: 8, "outbound target";
    max_in: 16, "inbound limit";
    cache: 2097152, "filter cache bytes";
    nocf: 0, "bit mask of peers without compact filter service";
    limited: 0, "bit mask of peers without the network service";
    evil: 0, "bit mask of adversarial peers";
    lies: 0, "bit mask of the lies adversarial peers tell";
    verify: 0, "verify stored data at load";
    calm: 600000, "faults stop at this time, ms";
    end: 1200000, "end of the run, ms";
    slop: 0, "timers fire up to this late, ms";
    merge: 0, "timers are rounded up to whole seconds, as in the poll reactor";
    announce: 0, "0: inv, 1: headers when asked to, 2: mixed";
    skew: 0, "spread of the peers' clocks, s";
    chatty: 0, "peers send pings, getheaders, feefilter at random";
    interval: 0, "difficulty interval of the consensus world (0: regtest rules)";
    spacing: 600, "target spacing of the consensus world, s";
    mindiff: 0, "minimum-difficulty blocks allowed in the consensus world";
    ckpt: 0, "number of checkpoints in the consensus world";
    listen: 0, "inbound connections allowed";
    dropreq: 0, "requests ignored by peers before calm, per mille";
    dup: 0, "replies sent twice before calm, per mille";
    reset: 0, "connection resets per thousand messages before calm";
    norelay: 0, "bit mask of peers that don't want transactions";
    wtx: 0, "bit mask of peers that negotiate wtxid relay";
    split: 0, "cut the bytes handed to the node into pieces, by this seed (C13)";
    record: 0, "record the outputs of the node (1: digests, 2: texts)";
    unseeded: 0, "bit mask of peers missing from the address book at the first start";
    domains: 0, "1: only IPv4 is enabled";
    nodial: 0, "dials that fail right away before calm, per mille";
    users: 0, "threads of simulated users";
    wallet: 0, "addresses of the simulated wallet (0: there is none)";
    birth: 0, "birth height of the wallet";
    aux: 0, "world specific";
    aux2: 0, "world specific";
}

macro_rules! kinds {
    ($($k:ident),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub enum K { $($k,)* }
        impl K {
            pub const ALL: &'static [K] = &[ $(K::$k,)* ];
            pub fn name(self) -> &'static str { match self { $(K::$k => stringify!($k),)* } }
            pub fn parse(s: &str) -> Option<K> { match s { $(stringify!($k) => Some(K::$k),)* _ => None } }
        }
    };
}

kinds! {
    // chain
    Mine, Fork, Adopt, Retreat,
    // network faults
    Drop, Partition, Mute, PeerDown, PeerUp, Inbound, ClockJump, Slow,
    // process and disk faults
    Crash, PowerLoss, Restart, DiskErr, DiskFull, ShortWrite,
    // user
    Rescan, Watch, Submit, ReqBlock, ReqFilters, Import, Connect, Disconnect, ImportAddrs, GetPeers, Query, Confirm,
    // adversary
    Evil, Probe,
    // wallet
    WalletFault, WalletInput,
    // generic, for the other worlds
    X0, X1, X2, X3, X4, X5, X6, X7, X8, X9,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Op {
    pub at: u64,
    pub k: K,
    pub a: u64,
    pub b: u64,
    pub c: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Plan {
    pub seed: u64,
    pub cfg: Cfg,
    pub ops: Vec<Op>,
}

impl Plan {
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "seed {}", self.seed);
        let d = Cfg::default();
        for f in Cfg::FIELDS {
            let v = self.cfg.get(f).unwrap();
            if v != d.get(f).unwrap() {
                let _ = writeln!(s, "cfg {} {}", f, v);
            }
        }
        for o in &self.ops {
            let _ = writeln!(s, "op {} {} {} {} {}", o.at, o.k.name(), o.a, o.b, o.c);
        }
        s
    }

    pub fn parse(text: &str) -> Option<Plan> {
        let mut p = Plan { seed: 0, cfg: Cfg::default(), ops: vec![] };
        for l in text.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.as_slice() {
                ["seed", v] => p.seed = v.parse().ok()?,
                ["cfg", f, v] => {
                    if !p.cfg.set(f, v.parse().ok()?) {
                        return None;
                    }
                }
                ["op", at, k, a, b, c] => p.ops.push(Op {
                    at: at.parse().ok()?,
                    k: K::parse(k)?,
                    a: a.parse().ok()?,
                    b: b.parse().ok()?,
                    c: c.parse().ok()?,
                }),
                _ => {}
            }
        }
        Some(p)
    }
}
