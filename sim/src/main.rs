mod custom;
mod driver;
mod gen;
mod interpose;
mod kernel;
mod oracle;
mod oracles;
mod plan;
mod reactor;
mod refchain;
mod rng;
mod runner;
mod sock;
mod universe;
mod users;
mod wallet;
mod world;

use driver::{run_plan, Outcome};
use oracle::Oracle;
use plan::Plan;
use runner::{Check, Opts, Tier};

const REAL: &str = "nakamoto-client (Client, load, Service, Handle, peer cache), nakamoto-p2p state machine and all its managers, nakamoto-chain (BlockCache, FilterCache, file stores), nakamoto-common, wire decoder; files on a scratch directory";
const STUB: &str = "socket reactor (replaced by the simulated one), remote peers (stub full nodes), clock, timers, disk fault layer (libc calls interposed), DNS seeds";

macro_rules! exec {
    ($name:ident, $($o:expr),*) => {
        fn $name(p: &Plan, logging: bool) -> Outcome {
            fn mk(_p: &Plan) -> Vec<Box<dyn Oracle>> {
                vec![$(Box::new($o)),*]
            }
            run_plan(p, mk, logging)
        }
    };
}

use oracles::chain::{Replay, Selection, ValidChain, Work};
use oracles::live::{FilterProgress, Progress};
use oracles::relay::Relay;
use oracles::user::Answers;
use oracles::hostile::Contained;
use oracles::scan::{Authentic, Delivery, Rescans};
use oracles::session::{Pings, Served, Sessions};
use crate::oracles::behave::Behave;
use oracles::store::{Durable, Mirror};

exec!(c01, ValidChain::default());
exec!(c02, Selection::default(), Work::default());
exec!(c03, Replay::default());
exec!(c04, Durable::default(), Progress::default());
exec!(c09, Progress::with_report());
exec!(c06, Rescans::default());
exec!(c07, Authentic::default());
exec!(c19, Answers::default());
exec!(c20, oracles::coins::Coins::default());
exec!(c21, Rescans::default(), Delivery::default());
exec!(c10, Sessions::default());
exec!(c11, Behave::default());
exec!(c12, Pings::default());
exec!(c16, Served::default());
exec!(c08, Relay::default());
exec!(c15, oracles::clock::Adjusted::default());
exec!(c14, oracles::book::Book::default());
exec!(c17, oracles::links::Links::default());
exec!(c05, Mirror::default(), FilterProgress::default());

/// The same plan with the bytes handed over whole and in pieces: the node must do the same.
fn c13(p: &Plan, logging: bool) -> Outcome {
    fn mk(_p: &Plan) -> Vec<Box<dyn Oracle>> {
        vec![Box::new(Contained::default()), Box::new(Progress::default())]
    }
    let with = |split: u64, record: u64| {
        let mut q = p.clone();
        q.cfg.split = split;
        q.cfg.record = record;
        if split != 0 {
            // Nothing peculiar happens long after faults stop.
            q.cfg.end = q.cfg.end.min(q.cfg.calm + 300_000);
        }
        q
    };
    let mut a = run_plan(&with(0, 1), mk, logging);
    if a.violation.is_some() {
        return a;
    }
    let mut b = run_plan(&with(1, 1), mk, false);
    // The order of the outputs of one step is not compared.
    let sorted = |o: &mut Outcome| o.history.sort_by(|x, y| (x.0, x.1).cmp(&(y.0, y.1)));
    sorted(&mut a);
    sorted(&mut b);
    let diff = |x: &Outcome, y: &Outcome| {
        // Without the last batch, which the end of the run may have cut.
        let last = x.stats.steps.min(y.stats.steps).saturating_sub(60);
        let count = |o: &Outcome| o.history.iter().filter(|h| h.0 <= last).count();
        let n = count(x).max(count(y));
        (0..n).find(|i| x.history.get(*i).map(|h| (h.0, h.1)) != y.history.get(*i).map(|h| (h.0, h.1)))
    };
    a.stats.evaluations += a.history.len() as u64;
    *a.stats.probes.entry("split-compared").or_default() += 1;
    if b.violation.is_some() {
        a.violation = b.violation.map(|mut v| {
            v.class = format!("{} (split)", v.class);
            v
        });
    } else if diff(&a, &b).is_some() {
        let mut x = run_plan(&with(0, 2), mk, false);
        let mut y = run_plan(&with(1, 2), mk, logging);
        sorted(&mut x);
        sorted(&mut y);
        if let Some(i) = diff(&x, &y) {
            let show = |o: &Outcome| o.history.get(i).map_or("nothing".to_string(), |h| format!("{} in step {}", h.2, h.0));
            a.violation = Some(world::Violation {
                class: "depends on fragmentation".into(),
                detail: format!("output {}: bytes handed over whole: {}; in pieces: {}", i, show(&x), show(&y)),
                at: 0,
            });
            if logging {
                a.log.extend(["---- the same run, bytes in pieces ----".to_string()]);
                a.log.extend(y.log);
            }
        }
    }
    a.history.clear();
    a
}

pub const CHECKS: &[Check] = &[
    Check {
        id: "C01",
        gen: gen::chain_mix,
        exec: c01,
        quick: 4000,
        thorough: 60_000,
        rule: "seeded plan: block trees with rule-breaking and edge-case headers, delivered by user imports in arbitrary order/batching or by honest and adversarial peers under network faults and restarts; non-trivial: at least one invalid header was offered or a reorganisation happened",
        nontrivial: |s| s.faults.contains_key("invalid-header") || s.faults.contains_key("invalid-branch") || s.probes.contains_key("reorg"),
        real: REAL,
        stub: STUB,
    },
    Check {
        id: "C02",
        gen: gen::imports,
        exec: c02,
        quick: 1500,
        thorough: 60_000,
        rule: "seeded plan: block trees with forks, imported in arbitrary order, batching, duplication and interleaving, with restarts; non-trivial: the active tip moved to another branch",
        nontrivial: |s| s.probes.contains_key("tip-reorganised"),
        real: REAL,
        stub: STUB,
    },
    Check {
        id: "C03",
        gen: gen::chain_mix,
        exec: c03,
        quick: 5000,
        thorough: 60_000,
        rule: "as C01; non-trivial: at least one block was disconnected",
        nontrivial: |s| s.probes.contains_key("disconnect-event"),
        real: REAL,
        stub: STUB,
    },
    Check {
        id: "C04",
        gen: gen::crash_headers,
        exec: c04,
        quick: 2000,
        thorough: 60_000,
        rule: "seeded plan: blocks and reorganisations from honest peers; crashes at arbitrary points (inside the k-th disk operation, with a torn part of it done), power losses that drop unsynced writes, disk errors, full disk, short and interrupted writes, restarts; then two fault-free hours; non-trivial: the process crashed at least once and loaded headers again",
        nontrivial: |s| s.probes.contains_key("crashed"),
        real: REAL,
        stub: STUB,
    },
    Check {
        id: "C09",
        gen: gen::sync_live,
        exec: c09,
        quick: 3000,
        thorough: 60_000,
        rule: "seeded plan: honest, silent, lying and invalid-branch peers, drops, partitions, stalls, slow links, ignored and duplicated replies, clock jumps, crashes and restarts; then faults stop, the node must reach the honest best tip and follow new blocks; non-trivial: faults were injected and the final progress check ran",
        nontrivial: |s| !s.faults.is_empty() && s.probes.contains_key("progress-checked"),
        real: REAL,
        stub: STUB,
    },
    Check {
        id: "C05",
        gen: gen::crash_filters,
        exec: c05,
        quick: 4000,
        thorough: 60_000,
        rule: "seeded plan: as C04, with truthful compact-filter peers; non-trivial: filter headers were synchronised",
        nontrivial: |s| s.probes.contains_key("filter-headers-synced"),
        real: REAL,
        stub: STUB,
    },
    Check {
        id: "C06",
        gen: gen::scans,
        exec: c06,
        quick: 3000,
        thorough: 60_000,
        rule: "seeded plan: rescans with arbitrary ranges and watch lists, restarted at arbitrary times, small and large filter caches, under reorganisations, out-of-order, lost and duplicated filters and blocks, lying and silent peers; non-trivial: a filter matched",
        nontrivial: |s| s.probes.contains_key("filter-matched"),
        real: REAL,
        stub: STUB,
    },
    Check {
        id: "C07",
        gen: gen::scans,
        exec: c07,
        quick: 3000,
        thorough: 60_000,
        rule: "seeded plan: as C06, with peers that alter block contents, filters and filter types, serve blocks of other branches and push unsolicited data; non-trivial: a filter or block reached the user",
        nontrivial: |s| s.probes.contains_key("filter-received") || s.probes.contains_key("block-processed"),
        real: REAL,
        stub: STUB,
    },
    Check {
        id: "C08",
        gen: gen::txs,
        exec: c08,
        quick: 12000,
        thorough: 60_000,
        rule: "seeded plan: transactions (with and without witnesses and data outputs) submitted, resubmitted, asked for, confirmed, reverted by reorganisations and confirmed again, with relaying and non-relaying, wtxid and txid peers that come and go, ignore announcements, stall and lose connections, with an open-ended rescan running; non-trivial: a transaction was served to a peer or confirmed",
        nontrivial: |s| s.probes.contains_key("tx-served") || s.probes.contains_key("tx-confirmed"),
        real: REAL,
        stub: STUB,
    },
    Check {
        id: "C10",
        gen: gen::sessions,
        exec: c10,
        quick: 12000,
        thorough: 60_000,
        rule: "seeded plan: outbound and inbound peers with ordinary and peculiar handshakes (any order, repetition, omission and delay of version, verack, wtxidrelay and other messages, old versions, missing services, extreme field values, connections of the node to itself), under drops, partitions, stalls, fragmentation and coalescing, with user connects, disconnects and broadcasts; non-trivial: a session was negotiated and a peculiar one took place",
        nontrivial: |s| s.probes.contains_key("negotiated") && (s.faults.contains_key("odd-session") || s.faults.contains_key("odd-message")),
        real: REAL,
        stub: STUB,
    },
    Check {
        id: "C11",
        gen: gen::behave,
        exec: c11,
        quick: 10000,
        thorough: 60_000,
        rule: "seeded plan: honest and adversarial peers (invalid headers, forged filter headers, filters and blocks, undecodable bytes, oversized and out-of-place messages) while the chain grows and reorganises under network faults; non-trivial: a peer provably misbehaved or was reported, or the chain reorganised",
        nontrivial: |s| s.probes.contains_key("provable-misbehaviour") || s.probes.contains_key("culprit-reported") || s.probes.contains_key("reorg"),
        real: REAL,
        stub: STUB,
    },
    Check {
        id: "C12",
        gen: gen::pings,
        exec: c12,
        quick: 30000,
        thorough: 60_000,
        rule: "seeded plan: peers that answer pings in time, late, with wrong nonces, twice or not at all, while sending other traffic, and that ping the node at any time, under network faults, late and rounded timers and clock changes; non-trivial: a ping was answered in either direction",
        nontrivial: |s| s.probes.contains_key("pong-received") || s.probes.contains_key("pong-sent"),
        real: REAL,
        stub: STUB,
    },
    Check {
        id: "C13",
        gen: gen::hostile,
        exec: c13,
        quick: 2500,
        thorough: 60_000,
        rule: "seeded plan: hostile peers send mutated, extreme-valued, out-of-place, undecodable and lying messages at any protocol state, each run executed twice with the byte streams cut differently; non-trivial: a hostile message reached the node and the twin runs were compared to the end",
        nontrivial: |s| s.probes.contains_key("split-compared") && s.probes.contains_key("hostile-input"),
        real: REAL,
        stub: STUB,
    },
    Check {
        id: "C14",
        gen: gen::books,
        exec: c14,
        quick: 6000,
        thorough: 60_000,
        rule: "seeded plan: peers and the user offer good, unreachable, unroutable, foreign-network, odd, own and flooding addresses while peers come and go, misbehave, get banned and connect inbound, with restarts, crashes inside saving, power losses and disk errors; non-trivial: an offered address had to be kept or an address of the book was dialled",
        nontrivial: |s| s.probes.contains_key("address-offered") || s.probes.contains_key("book-dial"),
        real: REAL,
        stub: STUB,
    },
    Check {
        id: "C17",
        gen: gen::links,
        exec: c17,
        quick: 7000,
        thorough: 60_000,
        rule: "seeded plan: outages of single and all peers from seconds to hours, partitions, refused, lost and immediately failing dials, stalls, useless addresses, bans, user commands, clock jumps, restarts and crashes, with configured peers or with an address book; then calm; non-trivial: a configured peer was redialled or the outbound target was checked after faults",
        nontrivial: |s| s.probes.contains_key("redial") || s.probes.contains_key("outbound-target-checked"),
        real: REAL,
        stub: STUB,
    },
    Check {
        id: "C15",
        gen: gen::clocks,
        exec: c15,
        quick: 25000,
        thorough: 60_000,
        rule: "seeded plan: up to some 250 sessions with peers whose clocks are off by seconds to forever, reconnecting from the same and other addresses and ports, with local clock jumps and restarts; blocks at the very edge of the acceptable future tell the time the node goes by; non-trivial: the offset was adjusted or refused and probed",
        nontrivial: |s| (s.probes.contains_key("adjusted") || s.probes.contains_key("too-far")) && s.probes.contains_key("probe-rejected"),
        real: REAL,
        stub: STUB,
    },
    Check {
        id: "C16",
        gen: gen::serves,
        exec: c16,
        quick: 4000,
        thorough: 60_000,
        rule: "seeded plan: peers ask for headers and filter headers with known, stale, unknown, empty, oversized and contradictory locators, starts and stops, in any state of their session, while the chain grows and reorganises; non-trivial: headers or filter headers were served",
        nontrivial: |s| s.probes.contains_key("headers-served") || s.probes.contains_key("cfheaders-served"),
        real: REAL,
        stub: STUB,
    },
    Check {
        id: "C18",
        gen: sock::gen,
        exec: sock::run,
        quick: 40000,
        thorough: 500_000,
        rule: "seeded plan: a scripted service dials, writes, disconnects, sets timers and emits events while peers connect, send, stall, close, reset and reuse addresses, with partial reads and writes, full buffers, interrupted and failing system calls, spurious readiness, clock jumps and user threads acting inside any system call; non-trivial: bytes were delivered and a connection ended",
        nontrivial: |s| s.probes.contains_key("bytes-delivered") && s.probes.contains_key("disconnected"),
        real: "nakamoto-net-poll (Reactor, Socket, TimeoutManager, Waker), popol, socket2, std sockets",
        stub: "kernel (socket, poll and clock calls interposed), remote peers, user threads, service (scripted, checking)",
    },
    Check {
        id: "C19",
        gen: gen::users,
        exec: c19,
        quick: 15_000,
        thorough: 200_000,
        rule: "seeded plan: one to three user threads, scheduled against the node at every blocking point, make any calls with any arguments, subscribe, read, lag behind and unsubscribe while the chain grows and reorganises, peers come and go and the network fails, until the node is shut down at any time; non-trivial: a wait was satisfied or timed out, and events were read",
        nontrivial: |s| (s.probes.contains_key("wait-satisfied") || s.probes.contains_key("wait-timed-out")) && s.probes.contains_key("events-read"),
        real: "nakamoto-client (Client, Handle, publishers, Service), nakamoto-net event broadcasting, crossbeam channels, nakamoto-p2p state machine and all its managers, nakamoto-chain, user threads (real threads in lock-step)",
        stub: STUB,
    },
    Check {
        id: "C20",
        gen: gen::wallet,
        exec: c20,
        quick: 2000,
        thorough: 60_000,
        rule: "seeded plan: the wallet program with one to six addresses and any birth height runs over the node, in lock-step, while the chain grows and reorganises (with transactions which move from one branch to the other and coins spent within a block), peers lie and go, the network fails, the user resizes and switches tabs, the node and the wallet are killed and restarted, and the wallet's disk fails or the process dies in the middle of a write; non-trivial: the coins were compared with those of the active chain, with at least one block concerning the wallet",
        nontrivial: |s| s.probes.contains_key("wallet-checked-with-blocks"),
        real: "nakamoto-wallet (Wallet main loop, Db over SQLite, Ui drawing to a sink), nakamoto-client (Client, Handle, publishers, Service), nakamoto-p2p state machine and all its managers, nakamoto-chain, nakamoto-common",
        stub: "network, peers, clock, reactor (lock-step scheduler of wallet thread and node); the terminal is a sink and its input is generated; no hardware device; SQLite runs real code over files of a scratch directory with injected faults",
    },
    Check {
        id: "C21",
        gen: gen::scans,
        exec: c21,
        quick: 3000,
        thorough: 60_000,
        rule: "seeded plan: as C06, with requests for known, stale and unknown blocks, refusing and silent peers; non-trivial: the delivery check ran with requests made",
        nontrivial: |s| s.probes.contains_key("delivery-checked") && (s.probes.contains_key("block-requested") || s.probes.contains_key("rescan")),
        real: REAL,
        stub: STUB,
    },
];

fn main() {
    reactor::install_panic_hook();
    // Nb. Things made once per process must not depend on which run comes first.
    universe::init();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let usage = || -> ! {
        eprintln!("usage: nakasim check|search|determinism ID [--tier T] [--seed N] [--runs N] [--secs N] [--jobs N] | replay|exec ID FILE | list");
        std::process::exit(2);
    };
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    if cmd == "list" {
        for c in CHECKS {
            println!("{}", c.id);
        }
        return;
    }
    let Some(c) = args.get(1).and_then(|id| CHECKS.iter().find(|c| c.id == *id)) else { usage() };
    let env = |k: &str| std::env::var(k).ok();
    let mut o = Opts {
        tier: if env("VERIF_TIER").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        runs: None,
        secs: 0,
        jobs: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8),
    };
    let mut status = None;
    let mut i = 2;
    let mut file = None;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--tier" => o.tier = if v == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => o.seed = v.parse().unwrap_or_else(|_| usage()),
            "--runs" => o.runs = Some(v.parse().unwrap_or_else(|_| usage())),
            "--secs" => o.secs = v.parse().unwrap_or_else(|_| usage()),
            "--jobs" => o.jobs = v.parse().unwrap_or_else(|_| usage()),
            "--status" => status = Some(std::path::PathBuf::from(v)),
            f if !f.starts_with("--") => {
                file = Some(f.to_string());
                i += 1;
                continue;
            }
            _ => usage(),
        }
        i += 2;
    }
    if o.secs == 0 {
        o.secs = if o.tier == Tier::Quick { 240 } else { 3000 };
    }
    let code = match cmd {
        "check" => runner::supervised(c, &o),
        "search" => runner::search(c, &o, status),
        "determinism" => runner::determinism(c, &o),
        "replay" => runner::replay(c, &file.unwrap_or_else(|| usage())),
        "exec" => {
            let text = std::fs::read_to_string(file.unwrap_or_else(|| usage())).expect("plan file");
            let plan = Plan::parse(&text).expect("plan format");
            (c.exec)(&plan, false).violation.is_some() as i32
        }
        _ => usage(),
    };
    let _ = std::fs::remove_dir_all(driver::scratch_base());
    std::process::exit(code);
}
