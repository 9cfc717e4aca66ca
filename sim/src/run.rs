//! Runs: seeds to worlds, worlds to outcomes, over worker processes; violations to replay files.
use crate::props::{self, Prop};
use crate::tape::{hash_bytes, mix, shrink, Tape};
use crate::world::*;
use serde_json::{json, Value as Js};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

#[derive(Clone, Default)]
pub struct Outcome {
    pub hash: u64,
    pub violation: Option<(String, String)>,
    pub vals: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    pub used: usize,
    pub trace: Vec<String>,
    pub faults: Vec<u64>,
    pub probes: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub checks: u64,
    pub calls: u64,
    pub now: u64,
    pub steps: u64,
}

// ------------------------------------------------------------------ default entropy and clock

static mut ENTROPY: u64 = 0;
fn quiet_entropy(buf: *mut u8, len: usize, dev: bool) -> i64 {
    if dev && buf.is_null() {
        return 0;
    }
    unsafe {
        for i in 0..len {
            ENTROPY = ENTROPY.wrapping_add(0x9E37_79B9_7F4A_7C15);
            *buf.add(i) = mix(ENTROPY) as u8;
        }
    }
    len as i64
}
/// Every run starts from a machine with an orderly, seeded entropy source and a virtual clock.
pub fn quiet_machine(seed: u64) {
    unsafe { ENTROPY = seed }
    seam::set_entropy(Some(quiet_entropy));
    seam::set_clock(Some((1_700_000_000, 123_456_000)));
    seam::scan_off();
    seam::mem_budget(i64::MAX);
}

/// One simulated run, in this process.
pub fn execute(p: &Prop, tape: Tape, idx: u64, thorough: bool, keep: bool) -> Outcome {
    let mut c = Ctx::new(tape, idx, thorough, keep);
    let s = c.draw(u64::MAX);
    quiet_machine(s);
    let before = seam::steps();
    let r = catch_unwind(AssertUnwindSafe(|| (p.scenario)(&mut c)));
    quiet_machine(0);
    let violation = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some((v.class, v.detail)),
        Err(_) => {
            // outside a judged call: the library gave something no run of the unchanged library gives
            let (l, m) = PANIC.with(|p| p.borrow().clone());
            Some((format!("unexpected result at {l}"), format!("after {}: {m} at {l}", c.last_call)))
        }
    };
    if let Some((cl, _)) = &violation {
        c.mark(hash_bytes(cl.as_bytes()));
    }
    c.mark(c.calls);
    c.mark(c.checks);
    let mut states: Vec<u64> = c.states.iter().copied().collect();
    states.sort();
    Outcome {
        hash: c.hash,
        violation,
        used: c.tape.used(),
        spans: std::mem::take(&mut c.tape.spans),
        vals: std::mem::take(&mut c.tape.vals),
        trace: std::mem::take(&mut c.trace),
        faults: c.faults.to_vec(),
        probes: c.probes.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        states,
        checks: c.checks,
        calls: c.calls,
        now: c.now,
        steps: seam::steps() - before,
    }
}

fn encode(o: &Outcome) -> Vec<u8> {
    let v = json!({
        "hash": o.hash, "violation": o.violation, "vals": o.vals, "spans": o.spans, "used": o.used, "trace": o.trace,
        "faults": o.faults, "probes": o.probes, "states": o.states, "checks": o.checks, "calls": o.calls, "now": o.now, "steps": o.steps,
    });
    serde_json::to_vec(&v).unwrap()
}
fn u64s(v: &Js) -> Vec<u64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default()
}
fn decode(b: &[u8]) -> Option<Outcome> {
    let v: Js = serde_json::from_slice(b).ok()?;
    Some(Outcome {
        hash: v["hash"].as_u64()?,
        violation: v["violation"].as_array().map(|a| (a[0].as_str().unwrap().to_string(), a[1].as_str().unwrap().to_string())),
        vals: u64s(&v["vals"]),
        spans: v["spans"].as_array()?.iter().map(|p| (p[0].as_u64().unwrap() as usize, p[1].as_u64().unwrap() as usize)).collect(),
        used: v["used"].as_u64()? as usize,
        trace: v["trace"].as_array()?.iter().map(|s| s.as_str().unwrap().to_string()).collect(),
        faults: u64s(&v["faults"]),
        probes: v["probes"].as_object()?.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap())).collect(),
        states: u64s(&v["states"]),
        checks: v["checks"].as_u64()?,
        calls: v["calls"].as_u64()?,
        now: v["now"].as_u64()?,
        steps: v["steps"].as_u64()?,
    })
}

pub enum Ended {
    Done(Box<Outcome>),
    /// the process ended: class, detail
    Died(String, String),
    /// the simulator failed
    Broken(String),
}
impl Ended {
    fn violation(&self) -> Option<(String, String)> {
        match self {
            Ended::Done(o) => o.violation.clone(),
            Ended::Died(c, d) => Some((c.clone(), d.clone())),
            Ended::Broken(_) => None,
        }
    }
}

fn death(status: i32, stuck: bool) -> Result<(String, String), String> {
    if stuck {
        return Ok(("no progress".into(), "the run made no progress and was stopped".into()));
    }
    if libc::WIFEXITED(status) {
        return match libc::WEXITSTATUS(status) {
            seam::EXIT_STEPS => Ok(("does not terminate".into(), format!("one call took more than {STEP_LIMIT} steps"))),
            seam::EXIT_DEADLOCK => Ok(("deadlock".into(), "every thread is blocked".into())),
            n => Err(format!("exit code {n}")),
        };
    }
    let sig = libc::WTERMSIG(status);
    if sig == libc::SIGKILL {
        return Err("killed".into());
    }
    Ok((format!("process killed by signal {sig}"), "the process running the library was killed (abort, stack overflow or memory error)".into()))
}

fn limits() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

/// Runs `f` in a fork of this process and gives back what it wrote.
/// On a thread of its own, whose thread-local state (hash table keys) owes nothing to earlier runs.
fn alone(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    struct Moved<T>(T);
    unsafe impl<T> Send for Moved<T> {}
    impl<F: FnOnce() -> Vec<u8>> Moved<F> {
        fn call(self) -> Vec<u8> {
            (self.0)()
        }
    }
    let m = Moved(f);
    std::thread::scope(|s| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || m.call()).unwrap().join()).unwrap_or_else(|_| unsafe { libc::abort() })
}
pub fn forked(f: impl FnOnce() -> Vec<u8>, wall: Duration) -> Result<Vec<u8>, (i32, bool)> {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            panic!("pipe");
        }
        let pid = libc::fork();
        if pid < 0 {
            panic!("fork");
        }
        if pid == 0 {
            libc::close(fds[0]);
            limits();
            let out = alone(f);
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let _ = w.write_all(&out);
            drop(w);
            seam::exit_now(0);
        }
        libc::close(fds[1]);
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        let mut out = vec![];
        let start = Instant::now();
        let mut stuck = false;
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let n = libc::poll(&mut p, 1, 1000);
            if n > 0 {
                match r.read(&mut buf) {
                    Ok(0) => break,
                    Ok(k) => out.extend_from_slice(&buf[..k]),
                    Err(_) => break,
                }
            } else if start.elapsed() > wall {
                stuck = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if !stuck && libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            Ok(out)
        } else {
            Err((st, stuck))
        }
    }
}

/// When confirming and minimising must be over, however slow the code under test has become.
static LIMIT: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

/// One run in a fresh process, after the runs of `prefix`.
pub fn isolated(p: &Prop, seed: u64, tape: Tape, idx: u64, thorough: bool, keep: bool, prefix: &[u64]) -> Ended {
    let r = forked(
        || {
            for i in prefix {
                execute(p, Tape::fresh(run_seed(p, seed, *i)), *i, thorough, false);
            }
            encode(&execute(p, tape, idx, thorough, keep))
        },
        Duration::from_secs(60 + prefix.len() as u64 / 10).min(LIMIT.get().map_or(Duration::MAX, |l| l.saturating_duration_since(Instant::now()).max(Duration::from_secs(3)))),
    );
    match r {
        Ok(b) => match decode(&b) {
            Some(o) => Ended::Done(Box::new(o)),
            None => Ended::Broken("unreadable outcome".into()),
        },
        Err((st, stuck)) => match death(st, stuck) {
            Ok((c, d)) => Ended::Died(c, d),
            Err(e) => Ended::Broken(e),
        },
    }
}

pub fn run_seed(p: &Prop, seed: u64, idx: u64) -> u64 {
    mix(mix(seed) ^ hash_bytes(p.id.as_bytes()) ^ mix(idx ^ 0x77))
}

// ------------------------------------------------------------------ workers

#[repr(C)]
struct Slot {
    idx: AtomicU64,
    beats: AtomicU64,
    stop: AtomicU64,
}

#[derive(Default)]
struct Stats {
    runs: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    states: HashSet<u64>,
    edges: HashSet<u32>,
    faults: Vec<u64>,
    faulty_runs: u64,
    probes: BTreeMap<String, u64>,
    checks: u64,
    calls: u64,
    now: u128,
    steps: u64,
    sample_hash: BTreeMap<u64, u64>,
}

/// states are counted up to this many per worker
const STATE_CAP: usize = 400_000;

fn worker(p: &Prop, seed: u64, w: u64, n: u64, runs: u64, thorough: bool, slot: &Slot, out: &str, deadline: Instant) -> i32 {
    let mut s = Stats { faults: vec![0; FAULTS.len()], ..Default::default() };
    let mut i = w;
    let mut bad: Option<Js> = None;
    while i < runs {
        slot.idx.store(i, Relaxed);
        slot.beats.fetch_add(1, Relaxed);
        if slot.stop.load(Relaxed) != 0 || Instant::now() > deadline {
            break;
        }
        let tape = Tape::fresh(run_seed(p, seed, i));
        let o = if p.fresh {
            match isolated(p, seed, tape, i, thorough, false, &[]) {
                Ended::Done(o) => *o,
                Ended::Died(c, d) => Outcome { violation: Some((c, d)), ..Default::default() },
                Ended::Broken(e) => {
                    eprintln!("run {i}: {e}");
                    return 3;
                }
            }
        } else {
            execute(p, tape, i, thorough, false)
        };
        s.runs += 1;
        s.checks += o.checks;
        s.calls += o.calls;
        s.now += o.now as u128;
        s.steps += o.steps;
        if o.checks > 0 && o.calls > 0 {
            s.nontrivial += 1;
            s.hashes.insert(o.hash);
        }
        for (k, v) in &o.probes {
            *s.probes.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in o.faults.iter().enumerate() {
            s.faults[k] += v;
        }
        if o.faults.iter().any(|v| *v > 0) {
            s.faulty_runs += 1;
        }
        if s.states.len() < STATE_CAP {
            s.states.extend(o.states.iter());
        }
        if s.runs <= 2 {
            s.sample_hash.insert(i, o.hash);
        }
        if let Some((cl, d)) = o.violation {
            bad = Some(json!({"idx": i, "class": cl, "detail": d, "vals": o.vals, "spans": o.spans}));
            break;
        }
        i += n;
    }
    let head = json!({
        "runs": s.runs, "nontrivial": s.nontrivial, "checks": s.checks, "calls": s.calls, "now": s.now.to_string(), "steps": s.steps,
        "probes": s.probes, "faults": s.faults, "faulty_runs": s.faulty_runs, "bad": bad,
        "hashes": s.hashes.iter().collect::<Vec<_>>(), "states": s.states.iter().collect::<Vec<_>>(),
        "samples": s.sample_hash.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
    });
    if std::fs::write(out, serde_json::to_vec(&head).unwrap()).is_err() {
        return 4;
    }
    0
}

fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
fn home() -> String {
    std::env::var("SIM_HOME").unwrap_or_else(|_| "/verif".into())
}

struct Found {
    idx: u64,
    class: String,
    detail: String,
    vals: Vec<u64>,
    spans: Vec<(usize, usize)>,
    worker: u64,
}

pub fn check(id: &str, thorough: bool, runs: Option<u64>) -> i32 {
    let p = match props::find(id) {
        Some(p) => p,
        None => {
            eprintln!("no property {id}");
            return 2;
        }
    };
    let seed = env_u64("VERIF_SEED", 1);
    let n = env_u64("SIM_WORKERS", 8);
    let runs = runs.unwrap_or(if thorough { p.thorough } else { p.quick });
    let cap = env_u64("SIM_WALL", if thorough { 780 } else { 90 });
    let start = Instant::now();
    let deadline = start + Duration::from_secs(cap);
    let dir = format!("{}/sim-{}-{}", std::env::temp_dir().display(), p.id, std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let slots: &[Slot] = unsafe {
        let m = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(m != libc::MAP_FAILED);
        std::slice::from_raw_parts(m as *const Slot, n as usize)
    };
    seam::edges_share();
    let mut pids = vec![];
    for w in 0..n {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            limits();
            let code = worker(p, seed, w, n, runs, thorough, &slots[w as usize], &format!("{dir}/w{w}"), deadline);
            seam::exit_now(code);
        }
        pids.push(pid);
    }
    // watch them
    let mut alive: Vec<bool> = vec![true; n as usize];
    let mut beat: Vec<(u64, Instant)> = vec![(0, Instant::now()); n as usize];
    let mut found: Vec<Found> = vec![];
    let mut errors: Vec<String> = vec![];
    while alive.iter().any(|a| *a) {
        std::thread::sleep(Duration::from_millis(20));
        for w in 0..n as usize {
            if !alive[w] {
                continue;
            }
            let mut st = 0;
            let r = unsafe { libc::waitpid(pids[w], &mut st, libc::WNOHANG) };
            let b = slots[w].beats.load(Relaxed);
            if b != beat[w].0 {
                beat[w] = (b, Instant::now());
            }
            let mut stuck = false;
            if r == 0 {
                if beat[w].1.elapsed() < Duration::from_secs(120) {
                    continue;
                }
                stuck = true;
                unsafe {
                    libc::kill(pids[w], libc::SIGKILL);
                    libc::waitpid(pids[w], &mut st, 0);
                }
            }
            alive[w] = false;
            let mut stop = false;
            if !stuck && libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
                // read below; only a violation ends the search early
                if let Ok(b) = std::fs::read(format!("{dir}/w{w}")) {
                    if let Ok(v) = serde_json::from_slice::<Js>(&b) {
                        if !v["bad"].is_null() {
                            let b = &v["bad"];
                            found.push(Found {
                                idx: b["idx"].as_u64().unwrap(),
                                class: b["class"].as_str().unwrap().into(),
                                detail: b["detail"].as_str().unwrap().into(),
                                vals: u64s(&b["vals"]),
                                spans: b["spans"].as_array().unwrap().iter().map(|p| (p[0].as_u64().unwrap() as usize, p[1].as_u64().unwrap() as usize)).collect(),
                                worker: w as u64,
                            });
                            stop = true;
                        }
                    }
                }
            } else {
                match death(st, stuck) {
                    Ok((class, detail)) => {
                        let idx = slots[w].idx.load(Relaxed);
                        found.push(Found { idx, class, detail, vals: vec![], spans: vec![], worker: w as u64 });
                        stop = true;
                    }
                    Err(e) => {
                        errors.push(format!("worker {w} in run {}: {e}", slots[w].idx.load(Relaxed)));
                        stop = true;
                    }
                }
            }
            if stop {
                slots.iter().for_each(|s| s.stop.store(1, Relaxed));
            }
        }
    }
    // gather
    let mut t = Stats { faults: vec![0; FAULTS.len()], ..Default::default() };
    for w in 0..n {
        if let Ok(b) = std::fs::read(format!("{dir}/w{w}")) {
            if let Ok(v) = serde_json::from_slice::<Js>(&b) {
                t.runs += v["runs"].as_u64().unwrap_or(0);
                t.nontrivial += v["nontrivial"].as_u64().unwrap_or(0);
                t.checks += v["checks"].as_u64().unwrap_or(0);
                t.calls += v["calls"].as_u64().unwrap_or(0);
                t.steps += v["steps"].as_u64().unwrap_or(0);
                t.faulty_runs += v["faulty_runs"].as_u64().unwrap_or(0);
                t.now += v["now"].as_str().and_then(|s| s.parse::<u128>().ok()).unwrap_or(0);
                t.hashes.extend(u64s(&v["hashes"]));
                t.states.extend(u64s(&v["states"]));
                for (i, x) in u64s(&v["faults"]).iter().enumerate() {
                    t.faults[i] += x;
                }
                for (k, x) in v["probes"].as_object().into_iter().flatten() {
                    *t.probes.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
                }
                for x in v["samples"].as_array().into_iter().flatten() {
                    t.sample_hash.insert(x[0].as_u64().unwrap(), x[1].as_u64().unwrap());
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    t.edges.extend(seam::edges_hit());
    let search = start.elapsed();

    // violations: confirm, classify, minimise, record
    let _ = LIMIT.set(Instant::now() + Duration::from_secs(if thorough { 90 } else { 240 }));
    let mut reported = 0;
    let known = Known::load(p.id);
    found.sort_by_key(|f| f.idx);
    let mut lines = vec![];
    for f in found.iter() {
        if reported > 0 {
            break;
        }
        match report(p, seed, thorough, n, f, &known) {
            Ok(Reported::New(path, class, detail)) => {
                reported += 1;
                lines.push(format!("VIOLATION property={} replay={path}", p.id));
                println!("  {class}: {detail}");
            }
            Ok(Reported::Known) => {}
            Err(e) => errors.push(e),
        }
    }
    // a few runs again in fresh processes: the same seed must give the same run, and they serve as samples
    let mut samples = vec![];
    let (mut again, mut equal) = (0, 0);
    if reported == 0 {
        for (i, h) in t.sample_hash.iter().take(4) {
            if let Ended::Done(o) = isolated(p, seed, Tape::fresh(run_seed(p, seed, *i)), *i, thorough, true, &[]) {
                again += 1;
                equal += u64::from(o.hash == *h);
                if samples.len() < 2 {
                    let mut tr: Vec<String> = o.trace.iter().take(40).map(|l| l.chars().take(200).collect()).collect();
                    if o.trace.len() > 40 {
                        tr.push(format!("... {} more events", o.trace.len() - 40));
                    }
                    samples.push(json!({"run": i, "seed": run_seed(p, seed, *i).to_string(), "draws": o.used, "events": tr}));
                }
            }
        }
    }
    let wall = start.elapsed().as_secs_f64();
    let faults: serde_json::Map<String, Js> =
        FAULTS.iter().zip(&t.faults).filter(|(_, n)| **n > 0).map(|(k, n)| (k.to_string(), json!(n))).collect();
    let evidence = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.hashes.len(),
            "rule": p.rule,
            "samples": samples,
            "planned_runs": runs,
            "seeds": format!("mix({seed}, {}, run index), indices 0..{}", p.id, runs),
            "runs_per_hour": (t.runs as f64 / search.as_secs_f64() * 3600.0) as u64,
            "library_calls": t.calls,
            "judgements": t.checks,
            "library_steps": t.steps,
            "simulated_seconds": (t.now / 1_000_000_000) as u64,
            "faults_injected": faults,
            "runs_with_faults": t.faulty_runs,
            "events_reached": t.probes,
            "distinct_states": t.states.len(),
            "distinct_states_measure": p.states,
            "library_edges_reached": t.edges.len(),
            "library_edges_total": seam::edges_total(),
            "rerun_in_fresh_process": {"runs": again, "identical": equal},
            "real_code": p.real,
            "stubs": p.stubs,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": reported,
    });
    let ev = format!("{}/evidence", home());
    let _ = std::fs::create_dir_all(&ev);
    std::fs::write(format!("{ev}/{}.json", p.id), serde_json::to_string_pretty(&evidence).unwrap() + "\n").expect("evidence");
    for k in &known.list {
        println!("KNOWN-FINDING: property={} {}", p.id, k.what);
    }
    println!(
        "{}: {} runs ({} distinct), {} calls, {} judgements, {} faults, {} s simulated, {:.1} s",
        p.id,
        t.runs,
        t.hashes.len(),
        t.calls,
        t.checks,
        t.faults.iter().sum::<u64>(),
        t.now / 1_000_000_000,
        wall
    );
    for l in &lines {
        println!("{l}");
    }
    if reported > 0 {
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("error: {e}");
        }
        return 2;
    }
    if t.runs == 0 {
        eprintln!("error: nothing was run");
        return 2;
    }
    0
}

// ------------------------------------------------------------------ known findings

struct Finding {
    class: String,
    detail: String,
    what: String,
}
struct Known {
    list: Vec<Finding>,
}
impl Known {
    /// Lines `finding: property=<id> class=<substring> detail=<substring> :: <what fails>`.
    fn load(id: &str) -> Self {
        let t = std::fs::read_to_string(format!("{}/known-findings.txt", home())).unwrap_or_default();
        let mut list = vec![];
        for l in t.lines() {
            if let Some(r) = l.strip_prefix(&format!("finding: property={id} class=")) {
                if let Some((key, what)) = r.split_once(" :: ") {
                    if let Some((c, d)) = key.split_once(" detail=") {
                        list.push(Finding { class: c.into(), detail: d.into(), what: what.into() });
                    }
                }
            }
        }
        Known { list }
    }
    fn has(&self, class: &str, detail: &str) -> bool {
        self.list.iter().any(|k| class.contains(&k.class) && detail.contains(&k.detail))
    }
}

enum Reported {
    New(String, String, String),
    Known,
}

fn late() -> bool {
    LIMIT.get().is_some_and(|l| Instant::now() > *l)
}

fn report(p: &Prop, seed: u64, thorough: bool, n: u64, f: &Found, known: &Known) -> Result<Reported, String> {
    let fresh = || Tape::fresh(run_seed(p, seed, f.idx));
    let mut prefix: Vec<u64> = vec![];
    let mut first = isolated(p, seed, fresh(), f.idx, thorough, false, &[]);
    if first.violation().is_none() {
        // it may need what the process did before
        let all: Vec<u64> = (0..).map(|k| f.worker + k * n).take_while(|i| *i < f.idx).collect();
        let mut k = 1;
        loop {
            let tail = all[all.len().saturating_sub(k)..].to_vec();
            first = isolated(p, seed, fresh(), f.idx, thorough, false, &tail);
            if first.violation().is_some() || k >= all.len() {
                prefix = tail;
                break;
            }
            if late() {
                // too slow to be done again: what the worker did is what reproduces it
                prefix = all.clone();
                first = Ended::Died(f.class.clone(), f.detail.clone());
                break;
            }
            k *= 4;
        }
        if first.violation().is_none() {
            return Err(format!("run {} reported '{}: {}' but does not reproduce it", f.idx, f.class, f.detail));
        }
        // drop what it does not need
        let mut i = 0;
        let until = Instant::now() + Duration::from_secs(30);
        while i < prefix.len() && Instant::now() < until && !late() {
            let mut t = prefix.clone();
            t.remove(i);
            if isolated(p, seed, fresh(), f.idx, thorough, false, &t).violation().is_some() {
                prefix = t;
            } else {
                i += 1;
            }
        }
    }
    let (class, detail) = first.violation().unwrap();
    if known.has(&class, &detail) {
        return Ok(Reported::Known);
    }
    // the tape of a run that killed its process is regrown by its seed
    let (vals, spans) = match &first {
        Ended::Done(o) => (o.vals.clone(), o.spans.clone()),
        _ if late() => (vec![], vec![]),
        _ => (grow(p, seed, f.idx, thorough), vec![]),
    };
    let budget = Duration::from_secs(env_u64("SIM_SHRINK", if thorough { 60 } else { 20 }));
    let until = (Instant::now() + budget).min(*LIMIT.get().unwrap_or(&(Instant::now() + budget)));
    let full = vals.len();
    let small = if vals.is_empty() {
        vals
    } else {
        shrink(
            vals,
            spans,
            |t| match isolated(p, seed, Tape::replay(t.to_vec()), f.idx, thorough, false, &prefix) {
                Ended::Done(o) if o.violation.as_ref().map(|v| v.0 == class).unwrap_or(false) => Some((o.used.min(t.len()), o.spans)),
                Ended::Died(c, _) if c == class => Some((t.len(), vec![])),
                _ => None,
            },
            || Instant::now() < until,
        )
    };
    let tape = if small.is_empty() && full == 0 { fresh() } else { Tape::replay(small.clone()) };
    let end = if late() { Ended::Died(class.clone(), detail.clone()) } else { isolated(p, seed, tape, f.idx, thorough, true, &prefix) };
    let (class, detail) = end.violation().unwrap_or((class, detail));
    let (hash, trace) = match &end {
        Ended::Done(o) => (o.hash, o.trace.clone()),
        _ => (0, vec!["the process died: no trace".to_string()]),
    };
    let dir = format!("{}/replays", home());
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = format!("{dir}/{}-{}-{}.json", p.id, seed, f.idx);
    let v = json!({
        "property": p.id, "verif_seed": seed, "thorough": thorough, "run": f.idx, "prefix": prefix,
        "class": class, "detail": detail, "hash": hash.to_string(), "draws_before_minimising": full, "tape": small, "fresh": full == 0, "trace": trace,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).map_err(|e| e.to_string())?;
    let shown: String = detail.chars().take(600).collect();
    Ok(Reported::New(path, class, shown))
}

/// The draws of a run which takes its process down, recovered through shared memory.
fn grow(p: &Prop, seed: u64, idx: u64, thorough: bool) -> Vec<u64> {
    const CAP: usize = 1 << 22;
    unsafe {
        let m = libc::mmap(std::ptr::null_mut(), CAP * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        if m == libc::MAP_FAILED {
            return vec![];
        }
        let mem = std::slice::from_raw_parts_mut(m as *mut u64, CAP);
        let mut t = Tape::fresh(run_seed(p, seed, idx));
        t.mirror = Some((m as *mut u64, CAP));
        let _ = isolated(p, seed, t, idx, thorough, false, &[]);
        let n = mem[0] as usize;
        let v = mem[1..1 + n].to_vec();
        libc::munmap(m, CAP * 8);
        v
    }
}

pub fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let v: Js = serde_json::from_str(&t).expect("replay file");
    let p = props::find(v["property"].as_str().unwrap()).expect("property");
    let seed = v["verif_seed"].as_u64().unwrap();
    let idx = v["run"].as_u64().unwrap();
    let thorough = v["thorough"].as_bool().unwrap_or(false);
    let tape = if v["fresh"].as_bool().unwrap_or(false) { Tape::fresh(run_seed(p, seed, idx)) } else { Tape::replay(u64s(&v["tape"])) };
    let end = isolated(p, seed, tape, idx, thorough, true, &u64s(&v["prefix"]));
    if let Ended::Done(o) = &end {
        for l in &o.trace {
            println!("{l}");
        }
    }
    match &end {
        Ended::Broken(e) => {
            eprintln!("error: {e}");
            return 2;
        }
        _ => {}
    }
    let hash = if let Ended::Done(o) = &end { o.hash } else { 0 };
    match end.violation() {
        Some((c, d)) => {
            let same = c == v["class"].as_str().unwrap_or("") && hash.to_string() == v["hash"].as_str().unwrap_or("");
            println!("{c}: {d}");
            println!("event hash {hash:016x}: {}", if same { "identical to the recorded run" } else { "differs from the recorded run" });
            println!("VIOLATION property={} replay={path}", p.id);
            1
        }
        None => {
            println!("{}: no violation", p.id);
            0
        }
    }
}

pub fn trace(id: &str, idx: u64) -> i32 {
    let p = props::find(id).expect("property");
    let seed = env_u64("VERIF_SEED", 1);
    match isolated(p, seed, Tape::fresh(run_seed(p, seed, idx)), idx, false, true, &[]) {
        Ended::Done(o) => {
            for l in &o.trace {
                println!("{}", l.chars().take(400).collect::<String>());
            }
            println!("hash {:016x} draws {} calls {} checks {} steps {} {:?}", o.hash, o.used, o.calls, o.checks, o.steps, o.violation);
            0
        }
        Ended::Died(c, d) => {
            println!("died: {c}: {d}");
            1
        }
        Ended::Broken(e) => {
            println!("broken: {e}");
            2
        }
    }
}
/// Event hashes of the first runs: two invocations must print the same.
pub fn hashes(id: &str, runs: u64) -> i32 {
    let p = props::find(id).expect("property");
    let seed = env_u64("VERIF_SEED", 1);
    for i in 0..runs {
        match isolated(p, seed, Tape::fresh(run_seed(p, seed, i)), i, false, false, &[]) {
            Ended::Done(o) => println!("{i} {:016x} {} {}", o.hash, o.used, o.violation.map(|v| v.0).unwrap_or_default()),
            Ended::Died(c, _) => println!("{i} died {c}"),
            Ended::Broken(e) => println!("{i} broken {e}"),
        }
    }
    0
}
