//! Runs one plan: incarnations of the real client in a scratch directory, under the simulated reactor.
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};

use nakamoto_client::{Client, Config, LoadingHandler};
use nakamoto_client::{Domain, Limits};
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::network::Network;

use crate::interpose;
use crate::oracle::Oracle;
use crate::plan::Plan;
use crate::reactor::{guarded, Run, SimReactor, RUN};
use crate::rng::{mix, Rng};
use crate::world::{CallRec, StopWhy, Stats, Violation, World};

pub struct Outcome {
    pub violation: Option<Violation>,
    pub stats: Stats,
    pub log: Vec<String>,
    /// Outputs of the node, when recorded: step, digest, text.
    pub history: Vec<(u64, u64, String)>,
}

static COUNTER: AtomicU64 = AtomicU64::new(0);

pub fn scratch_base() -> PathBuf {
    let p = Path::new("/dev/shm");
    if std::fs::write(p.join(format!(".nakasim-probe-{}", std::process::id())), b"x").is_ok() {
        let _ = std::fs::remove_file(p.join(format!(".nakasim-probe-{}", std::process::id())));
        return p.join(format!("nakasim-{}", std::process::id()));
    }
    std::env::temp_dir().join(format!("nakasim-{}", std::process::id()))
}

pub fn client_config(w: &World, root: &Path) -> Config {
    let cfg = &w.plan.cfg;
    let connect = match cfg.mode {
        0 => w.peers.iter().map(|p| p.addr).collect(),
        2 => w.peers.iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|(_, p)| p.addr).collect(),
        _ => vec![],
    };
    Config {
        network: Network::Regtest,
        domains: if cfg.domains == 1 { vec![Domain::IPV4] } else { Domain::all() },
        connect,
        listen: vec![],
        root: root.to_path_buf(),
        verify: cfg.verify != 0,
        user_agent: "/sim/",
        hooks: Default::default(),
        services: ServiceFlags::NONE,
        limits: Limits {
            max_outbound_peers: cfg.max_out as usize,
            max_inbound_peers: cfg.max_in as usize,
            filter_cache_size: cfg.cache as usize,
        },
    }
}

/// Execute a plan in a thread of its own (fresh hash seeds), and return what happened.
pub fn run_plan(plan: &Plan, make: fn(&Plan) -> Vec<Box<dyn Oracle>>, logging: bool) -> Outcome {
    let plan = plan.clone();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            interpose::set_hash_seed(mix(plan.seed ^ 0x4a5b));
            run_here(&plan, make(&plan), logging)
        })
        .unwrap()
        .join()
        .expect("harness: simulation thread failed")
}

fn run_here(plan: &Plan, oracles: Vec<Box<dyn Oracle>>, logging: bool) -> Outcome {
    let n = COUNTER.fetch_add(1, Ordering::Relaxed);
    let root = scratch_base().join(format!("r{}", n));
    std::fs::create_dir_all(&root).expect("harness: scratch directory");
    let dir = root.join(".nakamoto").join("regtest");
    let mut world = World::new(plan, dir.to_string_lossy().into_owned());
    world.logging = logging;
    let run = Rc::new(RefCell::new(Run { world, oracles }));
    seed_files(&run.borrow().world, &dir);
    RUN.with(|r| *r.borrow_mut() = Some(run.clone()));

    loop {
        let inc = run.borrow().world.incarnation;
        fastrand::seed(mix(plan.seed ^ mix(inc + 1)));
        interpose::disk_start(&root.to_string_lossy());
        {
            let w = &mut run.borrow_mut().world;
            if let Some((k, b, _)) = w.armed_crash.take() {
                interpose::with_disk(|d| {
                    d.plan.insert(k, interpose::DiskFault::Crash(b as u32));
                });
            }
        }
        let client = Client::<SimReactor>::new().expect("harness: client");
        let handle = client.handle();
        run.borrow_mut().world.boot(handle);
        let config = client_config(&run.borrow().world, &root);
        let custom = plan.cfg.interval > 0 || plan.cfg.ckpt > 0;
        let loaded = guarded(|| {
            if custom {
                crate::custom::run_custom(client, &run, config, &dir)
            } else {
                let loading = run.borrow_mut().world.wallet.as_mut().and_then(|s| s.loading.take());
                match client.load(config, loading.map_or(LoadingHandler::Ignore, LoadingHandler::from)) {
                    Ok(runner) => {
                        {
                            let mut r = run.borrow_mut();
                            let r = &mut *r;
                            for o in r.oracles.iter_mut() {
                                o.on_boot(&mut r.world);
                            }
                        }
                        runner.run().map_err(|e| e.to_string())
                    }
                    Err(e) => Err(format!("load: {}", e)),
                }
            }
        });
        let dead = interpose::with_disk(|d| d.dead);
        interpose::disk_stop();
        let mut r = run.borrow_mut();
        let r = &mut *r;
        let fired: Vec<_> = interpose::with_disk(|d| std::mem::take(&mut d.fired));
        r.world.disk_faulted = false;
        for (_, f, file) in &fired {
            let name = match f {
                interpose::DiskFault::Crash(_) => "crash-in-write",
                interpose::DiskFault::Errno(_) => "disk-error",
                interpose::DiskFault::Short(_) => "short-write",
                interpose::DiskFault::Intr => "interrupted-write",
            };
            r.world.say(|| format!("disk fault {:?} on {}", f, file));
            r.world.fault(name);
            if matches!(f, interpose::DiskFault::Errno(_)) {
                r.world.disk_faulted = true;
            }
        }
        if dead {
            r.world.stop = StopWhy::Crashed;
        } else {
            match loaded {
                Ok(Ok(())) => {}
                Ok(Err(e)) => {
                    if e.starts_with("load: ") {
                        r.world.say(|| format!("load failed: {}", e));
                        for o in r.oracles.iter_mut() {
                            o.on_load_error(&mut r.world, &e);
                        }
                        if r.world.violation.borrow().is_none() && r.world.stop == StopWhy::Running {
                            // An injected disk error may legitimately fail a start: try again.
                            if fired.is_empty() {
                                r.world.violate("start failed", e);
                            } else {
                                r.world.stop = StopWhy::Restart;
                            }
                        }
                    } else {
                        r.world.violate("run failed", e);
                    }
                }
                Err(p) => r.world.violate("panic at start", p),
            }
        }
        if r.world.violation.borrow().is_some() || r.world.stop == StopWhy::Finished {
            break;
        }
        let crashed = r.world.stop == StopWhy::Crashed;
        r.world.say(|| format!("node down ({})", if crashed { "crash" } else { "restart" }));
        if crashed && r.world.power_loss {
            power_loss(&mut r.world, &dir);
        }
        r.world.last_power_loss = crashed && r.world.power_loss;
        r.world.last_stop_crashed = crashed;
        r.world.power_loss = false;
        r.world.end_wallet(crashed);
        for o in r.oracles.iter_mut() {
            o.on_down(&mut r.world, crashed);
        }
        r.world.shutdown_node();
        if r.world.incarnation > 60 {
            break;
        }
    }
    if plan.cfg.wallet > 0 {
        let mut r = run.borrow_mut();
        let r = &mut *r;
        if r.world.violation.borrow().is_none() {
            r.world.settle_wallet();
            for o in r.oracles.iter_mut() {
                o.on_end(&mut r.world);
            }
        }
        r.world.end_wallet(false);
    }
    let users = run.borrow_mut().world.users.take();
    if let Some(mut us) = users {
        // The node is gone; the user threads find out, and read the rest of their subscriptions.
        let mut r = run.borrow_mut();
        let r = &mut *r;
        for u in 0..us.len() {
            let call = crate::users::Call::ReadAll;
            us.call(u, r.world.calls.len(), call.clone().job());
            r.world.calls.push(CallRec { user: u, call, timeout: 0, start: None, sent: 0, executed: 0, end: None, after: true });
        }
        us.set_time(r.world.now, 0);
        let calls = &mut r.world.calls;
        us.wind_up(|ms, c, ret| {
            calls[c].after = true;
            match ret {
                None => calls[c].start = Some((ms, usize::MAX)),
                Some(r) => calls[c].end = Some((ms, r)),
            }
        });
        r.world.stats.trace = mix(r.world.stats.trace ^ us.switches());
        us.stop();
        if r.world.violation.borrow().is_none() {
            for o in r.oracles.iter_mut() {
                o.on_end(&mut r.world);
            }
        }
    }
    RUN.with(|r| *r.borrow_mut() = None);
    let _ = std::fs::remove_dir_all(&root);
    let run = Rc::try_unwrap(run).ok().expect("harness: run still shared").into_inner();
    let w = run.world;
    let v = w.violation.borrow().clone();
    Outcome { violation: v, stats: w.stats.clone(), history: w.history, log: w.log.into_inner() }
}

/// Lose a suffix of the unsynced mutations of each file, independently; tear the last one kept.
fn power_loss(w: &mut World, dir: &Path) {
    let files = interpose::with_disk(|d| std::mem::take(&mut d.files));
    let mut rng = Rng::stream(w.plan.seed, 0xd15c, w.incarnation);
    for (name, f) in files {
        let n = f.journal.len();
        if n == 0 {
            continue;
        }
        let keep = match rng.below(3) {
            0 => n,
            1 => n - rng.below(n.min(20) as u64 + 1) as usize,
            _ => rng.below(n as u64 + 1) as usize,
        };
        let mut c = f.content(keep);
        if let Some(interpose::Mutation::Replace { data, loose: true }) = keep.checked_sub(1).map(|k| &f.journal[k]) {
            // The file has its new name, but not all of its contents.
            if rng.chance(2, 3) {
                c.truncate(rng.below(data.len() as u64 + 1) as usize);
                w.fault("torn-write");
            }
        }
        if keep < n {
            w.fault("unsynced-writes-lost");
            if let interpose::Mutation::Write { off, data } = &f.journal[keep] {
                if rng.chance(1, 2) && data.len() > 1 {
                    let m = rng.below(data.len() as u64) as usize;
                    interpose::apply(&mut c, &interpose::Mutation::Write { off: *off, data: data[..m].to_vec() });
                    w.fault("torn-write");
                }
            }
        }
        let _ = std::fs::write(dir.join(&name), c);
    }
}

/// Files the node finds at its first start.
fn seed_files(w: &World, dir: &Path) {
    let cfg = &w.plan.cfg;
    if cfg.known_len == 0 && cfg.mode != 1 {
        return;
    }
    std::fs::create_dir_all(dir).unwrap();
    if cfg.known_len > 0 {
        use nakamoto_common::bitcoin::consensus::encode::serialize;
        let mut h = Vec::new();
        let mut f = Vec::new();
        let chain = w.u.chain(w.best);
        for id in chain.iter().skip(1).take(cfg.known_len as usize) {
            let b = w.u.get(*id);
            h.extend(serialize(&b.header()));
            f.extend(serialize(&b.filter_hash));
            f.extend(serialize(&b.filter_header));
        }
        std::fs::write(dir.join("headers.db"), h).unwrap();
        std::fs::write(dir.join("filters.db"), f).unwrap();
    }
    if cfg.mode == 1 {
        let items: Vec<String> = w
            .peers
            .iter()
            .enumerate()
            .filter(|(i, _)| cfg.unseeded >> i & 1 == 0)
            .map(|(_, p)| {
                format!(
                    "\"{}\":{{\"address\":\"{}\",\"services\":{},\"last_success\":null,\"last_attempt\":null,\"last_sampled\":null,\"last_active\":null,\"source\":\"dns\"}}",
                    p.addr.ip(),
                    p.addr,
                    p.services.to_u64()
                )
            })
            .collect();
        std::fs::write(dir.join("peers.json"), format!("{{{}}}\n", items.join(","))).unwrap();
    }
}
