//! Seeded search over many runs, minimisation, replay files and evidence.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write as _};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::driver::Outcome;
use crate::plan::{Cfg, Plan};
use crate::rng::mix;
use crate::world::{Stats, Violation};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Copy)]
pub struct Check {
    pub id: &'static str,
    pub gen: fn(u64, Tier) -> Plan,
    pub exec: fn(&Plan, bool) -> Outcome,
    pub quick: u64,
    pub thorough: u64,
    /// Why a run counts as non-trivial.
    pub rule: &'static str,
    pub nontrivial: fn(&Stats) -> bool,
    pub real: &'static str,
    pub stub: &'static str,
}

const HANG_SECS: u64 = 150;

/// Run a plan in a thread with a wall-clock limit; a run that does not end is a finding of its own.
fn run_limited(c: &Check, plan: &Plan, logging: bool, secs: u64) -> Outcome {
    let (tx, rx) = mpsc::channel();
    let exec = c.exec;
    let p = plan.clone();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let o = exec(&p, logging);
            let _ = tx.send(o);
        })
        .expect("harness: thread");
    match rx.recv_timeout(Duration::from_secs(secs)) {
        Ok(o) => o,
        Err(mpsc::RecvTimeoutError::Timeout) => Outcome {
            violation: Some(Violation {
                class: "hang".into(),
                detail: format!("a single input kept the system busy for more than {} s of real time", secs),
                at: 0,
            }),
            stats: Stats::default(),
            log: vec![],
            history: vec![],
        },
        Err(mpsc::RecvTimeoutError::Disconnected) => {
            eprintln!("harness error: a simulation thread failed (plan seed {})", plan.seed);
            std::process::exit(2);
        }
    }
}

fn plan_of(c: &Check, tier: Tier, seed: u64, i: u64) -> Plan {
    (c.gen)(mix(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ mix(i + 1) ^ crate::world::fnv(c.id.as_bytes())), tier)
}

#[derive(Default)]
struct Agg {
    runs: u64,
    steps: u64,
    sim_ms: u64,
    incarnations: u64,
    evaluations: u64,
    faults: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    inputs: BTreeMap<&'static str, u64>,
    traces: BTreeSet<u64>,
    nontrivial: BTreeSet<u64>,
    states: BTreeSet<u64>,
    doubled: u64,
    mismatched: u64,
    samples: Vec<String>,
    found: Option<(u64, Plan, Violation)>,
    known: BTreeMap<String, u64>,
}

struct Known {
    class: String,
    needle: String,
    text: String,
}

/// Findings recorded (not repaired) for a property: `known: property=<id> class=<class> match=<text> :: <what fails>`.
fn known_findings(id: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string("/verif/known-findings.txt") else { return vec![] };
    let mut v = vec![];
    for l in s.lines() {
        let Some(rest) = l.strip_prefix(&format!("known: property={} ", id)) else { continue };
        let (head, text) = rest.split_once(" :: ").unwrap_or((rest, ""));
        let (class, needle) = head.split_once(" match=").unwrap_or((head, ""));
        v.push(Known {
            class: class.trim().trim_start_matches("class=").trim_matches('"').to_string(),
            needle: needle.trim().trim_matches('"').to_string(),
            text: text.to_string(),
        });
    }
    v
}

fn is_known(known: &[Known], v: &Violation) -> Option<String> {
    known.iter().find(|k| k.class == v.class && v.detail.contains(&k.needle)).map(|k| k.text.clone())
}

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub runs: Option<u64>,
    pub secs: u64,
    pub jobs: usize,
}

/// The search itself; runs in a child process so that a death of the process is observed too.
pub fn search(c: &Check, o: &Opts, status: Option<PathBuf>) -> i32 {
    let t0 = Instant::now();
    let total = o.runs.unwrap_or(if o.tier == Tier::Quick { c.quick } else { c.thorough });
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let limit = Arc::new(AtomicU64::new(u64::MAX));
    let agg = Arc::new(Mutex::new(Agg::default()));
    let known = Arc::new(known_findings(c.id));
    let slots = Arc::new(Mutex::new(vec![u64::MAX; o.jobs]));
    let mut hs = vec![];
    for j in 0..o.jobs {
        let (next, stop, limit, agg, known, slots, status) =
            (next.clone(), stop.clone(), limit.clone(), agg.clone(), known.clone(), slots.clone(), status.clone());
        let c = *c;
        let (tier, seed, secs) = (o.tier, o.seed, o.secs);
        hs.push(std::thread::spawn(move || loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= total || i >= limit.load(Ordering::SeqCst) || stop.load(Ordering::SeqCst) {
                break;
            }
            if t0.elapsed().as_secs() > secs {
                break;
            }
            if let Some(s) = &status {
                let mut v = slots.lock().unwrap();
                v[j] = i;
                let line: String = v.iter().filter(|x| **x != u64::MAX).map(|x| format!("{} ", x)).collect();
                let _ = std::fs::write(s, line);
            }
            let plan = plan_of(&c, tier, seed, i);
            let out = run_limited(&c, &plan, false, HANG_SECS);
            let hang = out.violation.as_ref().map(|v| v.class == "hang").unwrap_or(false);
            let second = if i % 20 == 3 && !hang { Some(run_limited(&c, &plan, false, HANG_SECS)) } else { None };
            let mut a = agg.lock().unwrap();
            a.runs += 1;
            let st = &out.stats;
            a.steps += st.steps;
            a.sim_ms += st.sim_ms;
            a.incarnations += st.incarnations;
            a.evaluations += st.evaluations;
            for (k, n) in &st.faults {
                *a.faults.entry(k).or_default() += n;
            }
            for (k, n) in &st.probes {
                *a.probes.entry(k).or_default() += n;
            }
            for (k, n) in &st.inputs {
                *a.inputs.entry(k).or_default() += n;
            }
            a.traces.insert(st.trace);
            if (c.nontrivial)(st) {
                a.nontrivial.insert(st.trace);
            }
            if a.states.len() < 5_000_000 {
                a.states.extend(st.states.iter().copied());
            }
            if let Some(s) = second {
                a.doubled += 1;
                if s.stats.trace != st.trace || s.stats.steps != st.steps {
                    a.mismatched += 1;
                    eprintln!("warning: run {} (plan seed {}) did not repeat exactly", i, plan.seed);
                }
            }
            if a.samples.len() < 2 && (c.nontrivial)(st) {
                a.samples.push(plan.to_text());
            }
            if let Some(v) = out.violation {
                if let Some(t) = is_known(&known, &v) {
                    *a.known.entry(t).or_default() += 1;
                } else {
                    let better = a.found.as_ref().map(|f| i < f.0).unwrap_or(true);
                    if better {
                        a.found = Some((i, plan, v));
                    }
                    limit.fetch_min(i, Ordering::SeqCst);
                }
            }
        }));
    }
    for h in hs {
        h.join().expect("harness: worker");
    }
    let mut a = std::mem::take(&mut *agg.lock().unwrap());
    let mut violations = 0;
    let mut code = 0;
    for k in known.iter() {
        println!("KNOWN-FINDING: property={} {} ({} runs)", c.id, k.text, a.known.get(&k.text).copied().unwrap_or(0));
    }
    if let Some((i, plan, v)) = a.found.take() {
        violations = 1;
        code = 1;
        println!("violation in run {}: {}: {} (at {} ms of simulated time)", i, v.class, v.detail, v.at);
        let min = if v.class == "hang" { plan.clone() } else { minimise(c, &plan, &v) };
        report(c, &min, &v, &plan);
    }
    write_evidence(c, o, &a, t0.elapsed(), violations);
    println!(
        "{}: {} runs, {} steps, {:.1} h simulated, {} distinct interleavings, {} nontrivial, {} evaluations, {:.1} s; repeat check {}/{} ok",
        c.id,
        a.runs,
        a.steps,
        a.sim_ms as f64 / 3.6e6,
        a.traces.len(),
        a.nontrivial.len(),
        a.evaluations,
        t0.elapsed().as_secs_f64(),
        a.doubled - a.mismatched,
        a.doubled
    );
    if std::env::var("SIM_VERBOSE").is_ok() {
        println!("faults {:?}\nprobes {:?}\ninputs {:?}\nstates {}", a.faults, a.probes, a.inputs, a.states.len());
    }
    code
}

fn same(c: &Check, p: &Plan, v: &Violation) -> bool {
    let o = run_limited(c, p, false, 30);
    matches!(o.violation, Some(w) if w.class == v.class)
}

/// Shrink the plan while the same class of violation persists.
pub fn minimise(c: &Check, plan: &Plan, v: &Violation) -> Plan {
    let t0 = Instant::now();
    let budget = Duration::from_secs(60);
    let mut best = plan.clone();
    if !same(c, &best, v) {
        println!("note: the violation did not repeat in a second run of the same plan");
        return best;
    }
    // Drop operations, in chunks of falling size.
    let mut chunk = (best.ops.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < best.ops.len() && t0.elapsed() < budget {
            let mut p = best.clone();
            let j = (i + chunk).min(p.ops.len());
            p.ops.drain(i..j);
            if same(c, &p, v) {
                best = p;
                any = true;
            } else {
                i = j;
            }
        }
        if t0.elapsed() >= budget || (chunk == 1 && !any) {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
    // Simplify the configuration.
    let d = Cfg::default();
    for f in Cfg::FIELDS {
        if matches!(*f, "world" | "calm" | "end" | "npeers" | "mode") || t0.elapsed() >= budget {
            continue;
        }
        if best.cfg.get(f) != d.get(f) {
            let mut p = best.clone();
            p.cfg.set(f, d.get(f).unwrap());
            if same(c, &p, v) {
                best = p;
            }
        }
    }
    // Smaller arguments.
    for i in 0..best.ops.len() {
        for which in 0..3 {
            for cand in [0u64, 1, 2] {
                if t0.elapsed() >= budget {
                    return best;
                }
                let mut p = best.clone();
                let slot = match which {
                    0 => &mut p.ops[i].a,
                    1 => &mut p.ops[i].b,
                    _ => &mut p.ops[i].c,
                };
                if *slot <= cand {
                    break;
                }
                *slot = cand;
                if same(c, &p, v) {
                    best = p;
                    break;
                }
            }
        }
    }
    best
}

fn report(c: &Check, min: &Plan, v: &Violation, orig: &Plan) {
    let dir = Path::new("/verif/replays");
    let _ = std::fs::create_dir_all(dir);
    let out = if v.class == "hang" || v.class == "process died" {
        Outcome { violation: Some(v.clone()), stats: Stats::default(), log: vec![], history: vec![] }
    } else {
        run_limited(c, min, true, 60)
    };
    let (plan, out) = match out.violation {
        Some(_) => (min, out),
        None => (orig, Outcome { violation: Some(v.clone()), stats: Stats::default(), log: vec![], history: vec![] }),
    };
    let w = out.violation.clone().unwrap();
    let path = dir.join(format!("{}-{:016x}.txt", c.id, plan.seed ^ crate::world::fnv(w.class.as_bytes())));
    let mut s = String::new();
    let _ = writeln!(s, "# replay with: /verif/check.sh {} replay {}", c.id, path.display());
    let _ = writeln!(s, "property {}", c.id);
    let _ = writeln!(s, "class {}", w.class);
    let _ = writeln!(s, "# {}", w.detail.replace('\n', " "));
    s.push_str(&plan.to_text());
    let _ = writeln!(s, "# trace of the minimised run (last 400 lines of {})", out.log.len());
    let skip = out.log.len().saturating_sub(400);
    for l in out.log.iter().skip(skip) {
        let _ = writeln!(s, "# {}", l.replace('\n', " "));
    }
    let _ = std::fs::write(&path, s);
    println!("minimised to {} operations (from {}): {}: {}", plan.ops.len(), orig.ops.len(), w.class, w.detail);
    println!("VIOLATION property={} replay={}", c.id, path.display());
}

pub fn replay(c: &Check, path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let plan = Plan::parse(&text).expect("replay file format");
    let want = text.lines().find_map(|l| l.strip_prefix("class ")).unwrap_or("").to_string();
    let out = run_limited(c, &plan, true, HANG_SECS);
    for l in &out.log {
        println!("{}", l);
    }
    match out.violation {
        Some(v) => {
            println!("{}: {}", v.class, v.detail);
            if v.class == want {
                println!("reproduced");
            }
            println!("VIOLATION property={} replay={}", c.id, path);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Every sampled run twice, with different numbers of workers: the traces must agree.
pub fn determinism(c: &Check, o: &Opts) -> i32 {
    let n = o.runs.unwrap_or(200);
    let mut sets = vec![];
    for jobs in [1usize, o.jobs.max(2)] {
        let next = Arc::new(AtomicU64::new(0));
        let res = Arc::new(Mutex::new(BTreeMap::new()));
        let hs: Vec<_> = (0..jobs)
            .map(|_| {
                let (next, res, c) = (next.clone(), res.clone(), *c);
                let (tier, seed) = (o.tier, o.seed);
                std::thread::spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let out = run_limited(&c, &plan_of(&c, tier, seed, i), false, HANG_SECS);
                    res.lock().unwrap().insert(i, (out.stats.trace, out.stats.steps));
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        sets.push(res.lock().unwrap().clone());
    }
    let mut h = 0u64;
    for v in sets[0].values() {
        h = mix(h ^ v.0 ^ mix(v.1));
    }
    let bad = (0..n).filter(|i| sets[0][i] != sets[1][i]).collect::<Vec<_>>();
    println!("{} determinism: {} runs twice, {} differ {:?}, digest {:016x}", c.id, n, bad.len(), &bad[..bad.len().min(10)], h);
    (!bad.is_empty()) as i32
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jmap(m: &BTreeMap<&'static str, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, n)| format!("{}: {}", js(k), n)).collect();
    format!("{{{}}}", v.join(", "))
}

fn write_evidence(c: &Check, o: &Opts, a: &Agg, wall: Duration, violations: u64) {
    let dir = Path::new("/verif/evidence");
    let _ = std::fs::create_dir_all(dir);
    let w = wall.as_secs_f64().max(0.001);
    let samples: Vec<String> = a.samples.iter().map(|s| js(s)).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_per_hour\": {:.0},\n  \"simulated_hours\": {:.2},\n  \"scheduler_steps\": {},\n  \"oracle_evaluations\": {},\n  \"distinct_interleavings\": {},\n  \"interleaving_measure\": \"hash of the sequence of inputs handed to the system (kind, peer, bytes) and the events it emitted\",\n  \"distinct_states\": {},\n  \"process_incarnations\": {},\n  \"faults_injected\": {},\n  \"conditions_reached\": {},\n  \"determinism_double_runs\": {},\n  \"determinism_mismatches\": {},\n  \"components_real\": {},\n  \"components_stub\": {}\n }},\n \"assumptions\": [\"a clean batch is evidence over the sampled schedules and faults, not proof\", {}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(c.id),
        js(if o.tier == Tier::Quick { "quick" } else { "thorough" }),
        o.seed,
        a.runs,
        a.nontrivial.len(),
        js(c.rule),
        samples.join(", "),
        a.runs as f64 / w * 3600.0,
        a.sim_ms as f64 / 3.6e6,
        a.steps,
        a.evaluations,
        a.traces.len(),
        a.states.len(),
        a.incarnations,
        jmap(&a.faults),
        jmap(&a.probes),
        a.doubled,
        a.mismatched,
        js(c.real),
        js(c.stub),
        js(&format!("stubbed: {}", c.stub)),
        w,
        violations
    );
    let _ = std::fs::write(dir.join(format!("{}.json", c.id)), s);
}

/// Run the search in a child process. If the child dies (abort, stack overflow, out of memory), find the
/// run that killed it.
pub fn supervised(c: &Check, o: &Opts) -> i32 {
    let exe = std::env::current_exe().expect("harness: own path");
    let status = std::env::temp_dir().join(format!("nakasim-status-{}", std::process::id()));
    let child = |extra: &[String]| -> (Option<i32>, bool) {
        let mut ch = Command::new(&exe)
            .args(extra)
            .stdout(Stdio::piped())
            .spawn()
            .expect("harness: child process");
        let mut said = false;
        let rd = BufReader::new(ch.stdout.take().unwrap());
        for l in rd.lines() {
            let Ok(l) = l else { break };
            said |= l.starts_with("VIOLATION ");
            println!("{}", l);
        }
        let _ = std::io::stdout().flush();
        (ch.wait().ok().and_then(|s| s.code()), said)
    };
    let tier = if o.tier == Tier::Quick { "quick" } else { "thorough" }.to_string();
    let mut base = vec!["search".to_string(), c.id.to_string(), "--tier".into(), tier.clone(), "--seed".into(), o.seed.to_string()];
    base.extend(["--secs".into(), o.secs.to_string(), "--jobs".into(), o.jobs.to_string()]);
    if let Some(r) = o.runs {
        base.extend(["--runs".into(), r.to_string()]);
    }
    let mut args = base.clone();
    args.extend(["--status".into(), status.to_string_lossy().into_owned()]);
    let (code, said) = child(&args);
    let line = std::fs::read_to_string(&status).unwrap_or_default();
    let _ = std::fs::remove_file(&status);
    if let Ok(rd) = std::fs::read_dir("/dev/shm") {
        // Scratch directories of children that died.
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if let Some(pid) = n.strip_prefix("nakasim-") {
                if !Path::new(&format!("/proc/{}", pid)).exists() {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
    }
    match code {
        Some(0) => 0,
        Some(1) if said => 1,
        Some(2) => 2,
        other => {
            println!("the simulation process died ({:?}); looking for the run that killed it", other);
            for i in line.split_whitespace().filter_map(|x| x.parse::<u64>().ok()) {
                let plan = plan_of(c, o.tier, o.seed, i);
                let tmp = std::env::temp_dir().join(format!("nakasim-plan-{}", std::process::id()));
                let _ = std::fs::write(&tmp, plan.to_text());
                let st = Command::new(&exe)
                    .args(["exec", c.id, &tmp.to_string_lossy()])
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .status();
                let _ = std::fs::remove_file(&tmp);
                let code = st.ok().and_then(|s| s.code());
                if !matches!(code, Some(0) | Some(1) | Some(2)) {
                    let v = Violation { class: "process died".into(), detail: "the process running the node was killed (abort, stack overflow or memory)".into(), at: 0 };
                    println!("violation in run {}: {}", i, v.detail);
                    report(c, &plan, &v, &plan);
                    write_evidence(c, o, &Agg { runs: i + 1, ..Agg::default() }, Duration::from_secs(1), 1);
                    return 1;
                }
            }
            eprintln!("harness error: the search process died without a reproducible cause");
            2
        }
    }
}
