//! Supervisor, workers, minimisation, replay and evidence.
use crate::choice::{fnv, mix, Choices};
use crate::sched::{self, Ctl};
use crate::sys;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Violation { pub class: String, pub msg: String }
pub type Verdict = Result<(), Violation>;

pub struct Scenario {
    pub id: &'static str,
    pub run: fn() -> Verdict,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub warmup: u64,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub nontrivial: fn(&Ctl) -> bool,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub probes: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// called once per process before anything else (inside the scratch directory)
    pub setup: fn(),
}

static SWALLOW: AtomicBool = AtomicBool::new(false);
pub fn swallow() -> bool { SWALLOW.load(Ordering::Relaxed) }
static CUR_RUN: AtomicU64 = AtomicU64::new(u64::MAX);
static CPU_LIMIT: AtomicU64 = AtomicU64::new(20);

pub fn probe(name: &'static str) { let _g = sched::Guard::new(); *sched::ctl().fired.entry(name).or_insert(0) += 1; }

pub fn report_fatal(class: &str, msg: &str, c: &sched::Ctl) {
    let v = json!({"class": class, "msg": msg, "run": CUR_RUN.load(Ordering::SeqCst), "choices": c.ch.rec, "hash": c.hash, "log": c.log});
    sys::write_all(1, format!("F {}\n", v).as_bytes());
}

extern "C" {
    fn sigaction(sig: i32, act: *const SigAct, old: *mut SigAct) -> i32;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
}
#[repr(C)]
struct SigAct { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }
static LAST_SEEN: AtomicU64 = AtomicU64::new(u64::MAX - 1);
static TICKS: AtomicU64 = AtomicU64::new(0);
extern "C" fn on_tick(_s: i32) {
    let c = CUR_RUN.load(Ordering::SeqCst);
    if c == LAST_SEEN.load(Ordering::SeqCst) {
        let t = TICKS.fetch_add(1, Ordering::SeqCst) + 1;
        if t >= CPU_LIMIT.load(Ordering::SeqCst) && c != u64::MAX { sys::write_all(1, b"H\n"); sys::exit_now(43); }
    } else { LAST_SEEN.store(c, Ordering::SeqCst); TICKS.store(0, Ordering::SeqCst); }
}
fn start_watchdog(limit: u64) {
    CPU_LIMIT.store(limit, Ordering::SeqCst);
    unsafe {
        let a = SigAct { handler: on_tick as *const () as usize, mask: [0; 16], flags: 0x10000000, restorer: 0 };
        sigaction(27, &a, std::ptr::null_mut());
        let t = [1i64, 0, 1, 0];
        setitimer(2, &t, std::ptr::null_mut());
    }
}

/// The scratch directory of this process; the current directory while runs execute.
pub fn scratch_dir() -> String {
    // a forked cold run works where its parent would
    static DIR: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    DIR.get_or_init(|| format!("{}/p{}", std::env::var("SYNSIM_SCRATCH").unwrap_or_else(|_| "/tmp".into()), std::process::id())).clone()
}

fn enter_scratch(sc: &Scenario) {
    let d = scratch_dir();
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch");
    std::env::set_current_dir(&d).expect("chdir");
    (sc.setup)();
}
fn leave_scratch() {
    let d = scratch_dir();
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&d);
}

struct RunOut { verdict: Verdict, ctl: Box<Ctl> }
fn execute(sc: &Scenario, ch: Choices, idx: u64, log: bool) -> RunOut {
    CUR_RUN.store(idx, Ordering::SeqCst);
    let _ = std::env::set_current_dir(scratch_dir()); // wherever the last run was left
    sched::install(Ctl::new(ch, log));
    let v = (sc.run)();
    if let Err(v) = &v { let v = v.clone(); sched::note(|| format!("VIOLATION {}: {}", v.class, v.msg)); }
    let ctl = sched::uninstall().unwrap();
    CUR_RUN.store(u64::MAX, Ordering::SeqCst);
    RunOut { verdict: v, ctl }
}
fn run_seed(sc: &Scenario, seed: u64, run: u64) -> u64 { mix(mix(seed, fnv(sc.id.as_bytes())), run) }
const WARM: u64 = 1 << 40;
fn warm_up(sc: &Scenario) {
    for k in 0..sc.warmup { let _ = execute(sc, Choices::seeded(mix(0xC0FFEE, k)), WARM + k, false); }
}
fn cold_start(sc: &Scenario, limit: u64) {
    sched::install_panic_hook();
    SWALLOW.store(true, Ordering::SeqCst);
    start_watchdog(limit);
    enter_scratch(sc);
    crate::hot::arm();
}
fn process_start(sc: &Scenario, limit: u64) {
    cold_start(sc, limit);
    warm_up(sc);
}

// ---- cold runs: the first of their process, so that what is set up on first use is met
// by several clients at once. Each is forked from the worker before it is warmed up.
const COLD: u64 = 1 << 41;
extern "C" { fn fork() -> i32; fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32; }
fn cold_runs(sc: &Scenario, total: u64) -> u64 { if sc.warmup == 0 { 0 } else { (total / 30).min(if total > sc.quick_runs { 6_000 } else { 480 }) } }
/// One cold run in a forked process: Some(exit code) if the worker is to stop.
fn cold(sc: &Scenario, seed: u64, i: u64, known: &[(String, String)]) -> Option<i32> {
    let pid = unsafe { fork() };
    if pid < 0 { return None; }
    if pid == 0 {
        start_watchdog(20);
        let o = execute(sc, Choices::seeded(run_seed(sc, seed, i)), i, false);
        match &o.verdict {
            Err(v) if !known.iter().any(|k| k.0 == v.class) => {
                sys::write_all(1, format!("V {}\n", json!({"class": v.class, "msg": v.msg, "run": i, "choices": o.ctl.ch.rec})).as_bytes());
                sys::exit_now(41)
            }
            _ => {
                sys::write_all(1, format!("C {}\n", json!({"steps": o.ctl.steps, "switches": o.ctl.switches, "hash": o.ctl.hash, "run": i, "fired": o.ctl.fired})).as_bytes());
                sys::exit_now(0)
            }
        }
    }
    let mut st = 0;
    while unsafe { waitpid(pid, &mut st, 0) } < 0 {}
    match (st & 0x7f, st >> 8 & 0xff) {
        (0, 0) => None,
        (0, c) => Some(c),
        (s, _) => { sys::write_all(1, format!("F {}\n", json!({"class": format!("signal-{}", s), "msg": format!("the process was ended by signal {}", s), "run": i})).as_bytes()); Some(41) }
    }
}

fn known_classes(id: &str) -> Vec<(String, String)> {
    let p = std::env::var("SYNSIM_KNOWN").unwrap_or_default();
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let Ok(v) = serde_json::from_str::<Value>(&s) else { return vec![] };
    v["findings"].as_array().cloned().unwrap_or_default().iter()
        .filter(|f| f["property"] == id && f["status"] == "open")
        .map(|f| (f["match_class"].as_str().unwrap_or("").to_string(), f["what"].as_str().unwrap_or("").to_string())).collect()
}

// ---- worker -----------------------------------------------------------------------
fn worker(sc: &Scenario, a: &[String]) -> i32 {
    let seed: u64 = a[0].parse().unwrap();
    let start: u64 = a[1].parse().unwrap();
    let stride: u64 = a[2].parse().unwrap();
    let total: u64 = a[3].parse().unwrap();
    let status = &a[4];
    let deadline = Instant::now() + Duration::from_secs(a[5].parse().unwrap());
    let bound = format!("{}/failed", std::env::var("SYNSIM_SCRATCH").unwrap_or_default());
    sys::pin_cpu(start as usize % sys::cpus());
    let known = known_classes(sc.id);
    let f = std::fs::File::create(status).expect("status");
    use std::os::fd::AsRawFd;
    let sfd = f.as_raw_fd();
    let put = |r: u64| unsafe { sys::raw(18, sfd as i64, &r as *const u64 as i64, 8, 0, 0, 0) };
    cold_start(sc, 20);
    let mut i = start;
    while i < cold_runs(sc, total) {
        put(COLD + i);
        if let Some(c) = cold(sc, seed, COLD + i, &known) { leave_scratch(); return c; }
        i += stride;
    }
    put(WARM);
    warm_up(sc);
    let mut fired: BTreeMap<String, u64> = BTreeMap::new();
    let (mut steps, mut switches, mut orders, mut nontriv, mut runs, mut known_hits, mut switched, mut longest, mut slowest) = (0u64, 0u64, 0u64, 0u64, 0u64, BTreeMap::<String, u64>::new(), 0u64, 0u64, 0u64);
    let mut hashes: Vec<u64> = vec![];
    let mut samples: Vec<Value> = vec![];
    let mut i = start;
    let mut code = 0;
    while i < total {
        if runs % 64 == 0 && Instant::now() > deadline { break; }
        if runs % 16 == 0 && read_status(&bound) < i { break; } // an earlier run has already failed
        put(i);
        let t0 = sys::cpu_ms();
        let o = execute(sc, Choices::seeded(run_seed(sc, seed, i)), i, false);
        slowest = slowest.max(sys::cpu_ms() - t0);
        runs += 1;
        longest = longest.max(o.ctl.steps);
        steps += o.ctl.steps; switches += o.ctl.switches; orders += o.ctl.orders;
        if o.ctl.switches > 0 { switched += 1; }
        for (k, v) in &o.ctl.fired { *fired.entry(k.to_string()).or_insert(0) += v; }
        let nt = (sc.nontrivial)(&o.ctl);
        if nt { nontriv += 1; hashes.push(o.ctl.hash); }
        match &o.verdict {
            Ok(()) => {}
            Err(v) => {
                if let Some((c, _)) = known.iter().find(|(c, _)| *c == v.class) { *known_hits.entry(c.clone()).or_insert(0) += 1; }
                else {
                    let v = json!({"class": v.class, "msg": v.msg, "run": i, "choices": o.ctl.ch.rec});
                    sys::write_all(1, format!("V {}\n", v).as_bytes());
                    code = 41;
                    break;
                }
            }
        }
        if nt && samples.len() < 2 && start < 2 {
            let o2 = execute(sc, Choices::replay(o.ctl.ch.rec.clone()), i, true);
            let l = o2.ctl.log.unwrap_or_default();
            let n = l.len();
            let l: Vec<String> = l.into_iter().take(25).map(|s| s.chars().take(300).collect()).collect();
            samples.push(json!({"run": i, "seed": seed, "events": n, "choices": o.ctl.ch.rec.len(), "log_head": l}));
        }
        i += stride;
    }
    let hb: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    let _ = std::fs::write(format!("{}.h", status), hb);
    let s = json!({"runs": runs, "steps": steps, "switches": switches, "orders": orders, "nontrivial": nontriv, "fired": fired,
        "samples": samples, "known": known_hits, "switched": switched, "longest": longest, "slowest": slowest});
    sys::write_all(1, format!("S {}\n", s).as_bytes());
    leave_scratch();
    code
}

// ---- one: execute a replay specification, print the outcome --------------------------
/// spec: {"property","seed","history":[run,...],"run":n} or {"choices":[...]}
fn one(sc: &Scenario, path: &str, verbose: bool, limit: u64) -> i32 {
    let spec: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("spec")).expect("spec json");
    if spec["run"].as_u64().unwrap_or(0) >= COLD { cold_start(sc, limit) } else { process_start(sc, limit) }
    let seed = spec["seed"].as_u64().unwrap_or(1);
    for h in spec["history"].as_array().cloned().unwrap_or_default() {
        let r = h.as_u64().unwrap();
        let _ = execute(sc, Choices::seeded(run_seed(sc, seed, r)), r, false);
    }
    let run = spec["run"].as_u64().unwrap_or(0);
    let ch = match spec["choices"].as_array() {
        Some(c) => Choices::replay(c.iter().map(|x| x.as_u64().unwrap()).collect()),
        None => Choices::seeded(run_seed(sc, seed, run)),
    };
    let ch = match std::env::var("SYNSIM_STREAM") {
        Ok(p) => {
            use std::os::fd::IntoRawFd;
            crate::choice::STREAM.store(std::fs::File::create(p).expect("stream").into_raw_fd(), Ordering::SeqCst);
            Choices::seeded(run_seed(sc, seed, run))
        }
        Err(_) => ch,
    };
    let o = execute(sc, ch, run, true);
    let v = match &o.verdict {
        Ok(()) => json!({"class": Value::Null, "hash": o.ctl.hash}),
        Err(v) => json!({"class": v.class, "msg": v.msg, "hash": o.ctl.hash, "choices": o.ctl.ch.rec, "log": if verbose { json!(o.ctl.log) } else { Value::Null }}),
    };
    sys::write_all(1, format!("V {}\n", v).as_bytes());
    leave_scratch();
    0
}

#[derive(Clone, Debug)]
struct Found { class: String, msg: String, run: u64, choices: Option<Vec<u64>> }

struct Probe { class: Option<String>, msg: String, choices: Vec<u64>, log: Vec<String>, hash: u64 }
/// Run a spec in a fresh process.
fn try_spec(spec: &Value, verbose: bool, limit_s: u64) -> Probe {
    let scratch = std::env::var("SYNSIM_SCRATCH").unwrap();
    static N: AtomicU64 = AtomicU64::new(0);
    let f = format!("{}/spec{}.json", scratch, N.fetch_add(1, Ordering::SeqCst));
    std::fs::write(&f, spec.to_string()).unwrap();
    let mut ch = Command::new(std::env::current_exe().unwrap()).arg(if verbose { "one-verbose" } else { "one" }).arg(&f).arg(limit_s.to_string())
        .stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    let pid = ch.id();
    let mut out = String::new();
    let mut so = ch.stdout.take().unwrap();
    let done = std::sync::Arc::new(AtomicBool::new(false));
    let d2 = done.clone();
    let killer = std::thread::spawn(move || {
        let t = Instant::now();
        while !d2.load(Ordering::SeqCst) {
            if t.elapsed() > Duration::from_secs(limit_s * 3 + 20) { unsafe { sys::raw(62, pid as i64, 9, 0, 0, 0, 0); } break; }
            std::thread::sleep(Duration::from_millis(5));
        }
    });
    let _ = so.read_to_string(&mut out);
    let st = ch.wait().expect("wait");
    done.store(true, Ordering::SeqCst);
    let _ = killer.join();
    let _ = std::fs::remove_dir_all(format!("{}/p{}", scratch, pid));
    let _ = std::fs::remove_file(&f);
    for l in out.lines() {
        if l == "H" { return Probe { class: Some("hang".into()), msg: format!("no progress within {} s of processor time", limit_s), choices: vec![], log: vec![], hash: 0 }; }
        if let Some(j) = l.strip_prefix("V ").or(l.strip_prefix("F ")) {
            let v: Value = serde_json::from_str(j).unwrap();
            return Probe {
                class: v["class"].as_str().map(|s| s.to_string()), msg: v["msg"].as_str().unwrap_or("").into(),
                choices: v["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default(),
                log: v["log"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default(),
                hash: v["hash"].as_u64().unwrap_or(0),
            };
        }
    }
    use std::os::unix::process::ExitStatusExt;
    let class = match st.signal() { Some(9) => "stall".to_string(), Some(s) => format!("signal-{}", s), None => format!("exit-{}", st.code().unwrap_or(-1)) };
    Probe { class: Some(class.clone()), msg: format!("process ended by {}", class), choices: vec![], log: vec![], hash: 0 }
}

fn minimise(sc: &Scenario, seed: u64, found: &Found, budget: Duration) -> (Value, Vec<u64>) {
    let t0 = Instant::now();
    let slow = matches!(found.class.as_str(), "hang" | "stall" | "deadlock");
    let lim = if slow { 4 } else { 20 };
    let fails = |c: &[u64]| -> Option<Vec<u64>> {
        let p = try_spec(&json!({"property": sc.id, "seed": seed, "run": found.run, "choices": c}), false, lim);
        if p.class.as_deref() == Some(found.class.as_str()) { Some(if p.choices.is_empty() { c.to_vec() } else { p.choices }) } else { None }
    };
    let mut cur = match &found.choices { Some(c) => c.clone(), None => return (json!("not minimised: the process died before its choices could be read"), vec![]) };
    match fails(&cur) { Some(c) => { if c.len() <= cur.len() { cur = c } } None => return (json!("not reproducible from choices alone"), vec![]) }
    let orig = cur.len();
    let mut tried = 0u64;
    let key = |c: &Vec<u64>| (c.len(), c.iter().map(|x| *x as u128).sum::<u128>());
    // truncate, then delete blocks, then zero and shrink single values
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        let mut k = cur.len() / 2;
        while k > 0 && t0.elapsed() < budget {
            if cur.len() > k {
                let cand = cur[..cur.len() - k].to_vec(); tried += 1;
                if let Some(c) = fails(&cand) { let c = if key(&c) < key(&cur) { c } else { cand }; if key(&c) < key(&cur) { cur = c; progress = true; continue; } }
            }
            k /= 2;
        }
        let mut size = (cur.len() / 2).max(1).min(64);
        loop {
            let mut i = 0;
            while i < cur.len() && t0.elapsed() < budget {
                let e = (i + size).min(cur.len());
                let mut cand = cur.clone(); cand.drain(i..e); tried += 1;
                match fails(&cand) {
                    Some(c) => { let c = if key(&c) < key(&cur) { c } else { cand }; cur = c; progress = true; }
                    None => {
                        // zero the block
                        if cur[i..e].iter().any(|x| *x != 0) {
                            let mut z = cur.clone(); for x in &mut z[i..e] { *x = 0; } tried += 1;
                            if let Some(c) = fails(&z) { let c = if key(&c) < key(&cur) { c } else { z }; if key(&c) < key(&cur) { cur = c; progress = true; } }
                        }
                        i += size;
                    }
                }
            }
            if size == 1 { break; }
            size /= 2;
        }
        for i in 0..cur.len() {
            if t0.elapsed() >= budget { break; }
            if i >= cur.len() { break; }
            let v = cur[i];
            for nv in [v / 2, v.saturating_sub(1)] {
                if nv < v && i < cur.len() && cur[i] == v {
                    let mut z = cur.clone(); z[i] = nv; tried += 1;
                    if let Some(c) = fails(&z) { let c = if key(&c) < key(&cur) { c } else { z }; if key(&c) < key(&cur) { cur = c; progress = true; } break; }
                }
            }
        }
    }
    (json!({"choices_before": orig, "choices_after": cur.len(), "candidates_tried": tried, "wall_s": t0.elapsed().as_secs_f64()}), cur)
}

fn make_replay(sc: &Scenario, seed: u64, found: &Found, jobs: u64, tier: &str) -> (String, String) {
    let dir = std::env::var("SYNSIM_REPLAYS").unwrap_or_else(|_| "/verif/replays".into());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-seed{}-run{}.json", dir, sc.id, seed, found.run);
    let budget = Duration::from_secs(if tier == "quick" { 30 } else { 120 });
    let lim = if matches!(found.class.as_str(), "hang" | "stall" | "deadlock") { 6 } else { 20 };
    let mut spec = json!({"property": sc.id, "seed": seed, "run": found.run, "class": found.class, "message": found.msg});
    let (info, min) = minimise(sc, seed, found, budget);
    spec["minimisation"] = info;
    if !min.is_empty() || (found.choices.is_some() && spec["minimisation"].is_object()) {
        spec["choices"] = json!(min);
        let a = try_spec(&spec, true, lim);
        let b = try_spec(&spec, true, lim);
        spec["class"] = json!(a.class); if !a.msg.is_empty() { spec["message"] = json!(a.msg); }
        spec["events"] = json!(a.log); spec["event_hash"] = json!(a.hash);
        spec["replayed_identically"] = json!(a.hash == b.hash && a.class == b.class && a.log == b.log);
    } else {
        // by seed alone, then with the history of the worker that met it
        let p = try_spec(&spec, true, lim);
        let hit = |c: &Option<String>| c.is_some() && (c.as_deref() == Some(found.class.as_str()) || found.class.starts_with("signal") || found.class == "stall");
        if hit(&p.class) { spec["events"] = json!(p.log); spec["event_hash"] = json!(p.hash); spec["replayed_identically"] = json!(true); }
        else {
            let mut hist: Vec<u64> = (0..).map(|k| (found.run % jobs) + k * jobs).take_while(|r| *r < found.run && found.run < WARM).collect();
            let with = |h: &Vec<u64>| { let mut s = spec.clone(); s["history"] = json!(h); try_spec(&s, false, 60) };
            let full = with(&hist);
            if hit(&full.class) {
                let t0 = Instant::now();
                let mut size = (hist.len() / 2).max(1);
                while t0.elapsed() < budget {
                    let mut i = 0; let mut any = false;
                    while i < hist.len() && t0.elapsed() < budget {
                        let mut c = hist.clone(); c.drain(i..(i + size).min(c.len()));
                        if hit(&with(&c).class) { hist = c; any = true; } else { i += size; }
                    }
                    if size == 1 && !any { break; }
                    size = (size / 2).max(1);
                    if hist.is_empty() { break; }
                }
                spec["history"] = json!(hist);
                let a = try_spec(&spec, true, 60);
                spec["events"] = json!(a.log); spec["event_hash"] = json!(a.hash); spec["replayed_identically"] = json!(true);
                spec["note"] = json!("needs the listed earlier runs in the same process (state that outlives a session)");
            } else {
                spec["replayed_identically"] = json!(false);
                spec["note"] = json!("observed on the real code, but the code under test did not repeat it");
            }
        }
    }
    std::fs::write(&path, serde_json::to_string_pretty(&spec).unwrap()).expect("replay file");
    let m = format!("{}: {}", spec["class"].as_str().unwrap_or("?"), spec["message"].as_str().unwrap_or(""));
    (path, m)
}

pub struct Supervised { pub evidence: Value, pub violation: Option<String> }

fn check(sc: &Scenario) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let jobs = (sys::cpus() as u64).clamp(1, 16);
    let total = std::env::var("SYNSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { sc.quick_runs } else { sc.thorough_runs });
    let cap = if tier == "quick" { 240 } else { 1500 };
    let base = std::env::var("SYNSIM_TMP").unwrap_or_else(|_| "/tmp".into());
    let scratch = format!("{}/synsim-{}-{}", base, sc.id, std::process::id());
    std::fs::create_dir_all(&scratch).expect("scratch");
    std::env::set_var("SYNSIM_SCRATCH", &scratch);
    println!("{} tier={} seed={} runs={} workers={}", sc.id, tier, seed, total, jobs);
    let mut handles = vec![];
    for w in 0..jobs {
        let status = format!("{}/w{}", scratch, w);
        let mut c = Command::new(std::env::current_exe().unwrap()).arg("worker")
            .args([seed.to_string(), w.to_string(), jobs.to_string(), total.to_string(), status.clone(), cap.to_string()])
            .stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("worker");
        let base2 = scratch.clone();
        handles.push(std::thread::spawn(move || {
            let pid = c.id();
            let out = c.stdout.take().unwrap();
            let mut err = c.stderr.take().unwrap();
            let eh = std::thread::spawn(move || { let mut s = String::new(); let _ = err.read_to_string(&mut s); s });
            let done = std::sync::Arc::new(AtomicBool::new(false));
            let d2 = done.clone(); let st2 = status.clone();
            let wd = std::thread::spawn(move || {
                let mut last = u64::MAX; let mut since = Instant::now();
                while !d2.load(Ordering::SeqCst) {
                    let r = read_status(&st2);
                    if r != last { last = r; since = Instant::now(); }
                    if since.elapsed() > Duration::from_secs(120) { unsafe { sys::raw(62, pid as i64, 9, 0, 0, 0, 0); } break; }
                    std::thread::sleep(Duration::from_millis(20));
                }
            });
            let mut lines = vec![];
            for l in BufReader::new(out).lines() { if let Ok(l) = l { lines.push(l); } }
            {
                // tell the others: runs after the failed one need not be made
                static LOCK: std::sync::Mutex<()> = std::sync::Mutex::new(());
                let _l = LOCK.lock();
                let r = lines.iter().find_map(|l| l.strip_prefix("V ").or(l.strip_prefix("F ")).and_then(|j| serde_json::from_str::<Value>(j).ok()).and_then(|v| v["run"].as_u64()));
                let r = r.or(if lines.iter().any(|l| l.starts_with("S ")) { None } else { Some(read_status(&status)) });
                let p = format!("{}/failed", base2);
                if let Some(r) = r { if r < read_status(&p) { let t = format!("{}.new", p); let _ = std::fs::write(&t, r.to_le_bytes()); let _ = std::fs::rename(&t, &p); } }
            }
            let st = c.wait().expect("wait");
            done.store(true, Ordering::SeqCst);
            let _ = wd.join();
            let e = eh.join().unwrap_or_default();
            (lines, st, read_status(&status), e)
        }));
    }
    let mut found: Vec<Found> = vec![];
    let mut agg: BTreeMap<String, u64> = BTreeMap::new();
    let mut fired: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut err = None;
    for (w, h) in handles.into_iter().enumerate() {
        let (lines, st, cur, e) = h.join().unwrap();
        let mut got_stats = false;
        let mut explained = false;
        for l in &lines {
            if let Some(j) = l.strip_prefix("S ") {
                got_stats = true;
                let v: Value = serde_json::from_str(j).unwrap();
                for k in ["runs", "steps", "switches", "orders", "nontrivial", "switched"] { *agg.entry(k.into()).or_insert(0) += v[k].as_u64().unwrap_or(0); }
                let l = agg.entry("slowest".into()).or_insert(0); *l = (*l).max(v["slowest"].as_u64().unwrap_or(0));
                let l = agg.entry("longest".into()).or_insert(0); *l = (*l).max(v["longest"].as_u64().unwrap_or(0));
                for (k, n) in v["fired"].as_object().unwrap() { *fired.entry(k.clone()).or_insert(0) += n.as_u64().unwrap(); }
                for (k, n) in v["known"].as_object().unwrap() { *known.entry(k.clone()).or_insert(0) += n.as_u64().unwrap(); }
                samples.extend(v["samples"].as_array().unwrap().iter().cloned());
            } else if let Some(j) = l.strip_prefix("C ") {
                let v: Value = serde_json::from_str(j).unwrap();
                for k in ["steps", "switches"] { *agg.entry(k.into()).or_insert(0) += v[k].as_u64().unwrap_or(0); }
                *agg.entry("cold".into()).or_insert(0) += 1;
                for (k, n) in v["fired"].as_object().unwrap() { *fired.entry(k.clone()).or_insert(0) += n.as_u64().unwrap(); }
            } else if let Some(j) = l.strip_prefix("V ").or(l.strip_prefix("F ")) {
                explained = true;
                let v: Value = serde_json::from_str(j).unwrap();
                found.push(Found { class: v["class"].as_str().unwrap().into(), msg: v["msg"].as_str().unwrap_or("").into(), run: v["run"].as_u64().unwrap(),
                    choices: v["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()) });
            } else if l == "H" {
                explained = true;
                found.push(Found { class: "hang".into(), msg: "no progress within 20 s of processor time".into(), run: cur, choices: None });
            }
        }
        if !got_stats && !explained {
            use std::os::unix::process::ExitStatusExt;
            if let Some(s) = st.signal() {
                let class = if s == 9 { "stall".to_string() } else { format!("signal-{}", s) };
                found.push(Found { class: class.clone(), msg: format!("the process was ended by signal {} (crash, stack overflow or stall)", s), run: cur, choices: None });
            } else { err = Some(format!("worker {} ended with {:?}: {}", w, st.code(), e)); }
        }
    }
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    for w in 0..jobs {
        if let Ok(b) = std::fs::read(format!("{}/w{}.h", scratch, w)) { for c in b.chunks_exact(8) { distinct.insert(u64::from_le_bytes(c.try_into().unwrap())); } }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    found.sort_by_key(|f| (f.choices.is_none(), f.run));
    let nviol = found.len();
    // A kill for lack of progress counts only if it repeats.
    if let Some(f) = found.first().cloned() {
        let mut f = f;
        let mut real = true;
        if f.class == "stall" {
            let p = try_spec(&json!({"property": sc.id, "seed": seed, "run": f.run}), false, 30);
            real = p.class.is_some();
        }
        if f.choices.is_none() && real {
            // recover the choices of a run that killed its process
            let st = format!("{}/stream", scratch);
            let _ = std::fs::remove_file(&st);
            std::env::set_var("SYNSIM_STREAM", &st);
            let p = try_spec(&json!({"property": sc.id, "seed": seed, "run": f.run}), false, if f.class == "hang" { 8 } else { 20 });
            std::env::remove_var("SYNSIM_STREAM");
            if p.class.as_deref() == Some(f.class.as_str()) {
                if let Ok(b) = std::fs::read(&st) { f.choices = Some(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()); }
            }
        }
        if real {
            let (path, m) = make_replay(sc, seed, &f, jobs, tier);
            println!("{}", m);
            println!("VIOLATION property={} replay={}", sc.id, path);
            code = 1;
        } else { err = Some("a worker was stopped for lack of progress and the run did not repeat it".into()); }
    }
    for (c, what) in known_classes(sc.id) { if known.contains_key(&c) { println!("KNOWN-FINDING: property={} {}", sc.id, what); } }
    if let (Some(e), 0) = (&err, code) { eprintln!("harness error: {}", e); code = 2; }
    let runs = agg.get("runs").copied().unwrap_or(0);
    let mut zero: Vec<&str> = vec![];
    for p in sc.probes { if fired.get(*p).copied().unwrap_or(0) == 0 { zero.push(p); } }
    let (probes, faults): (BTreeMap<_, _>, BTreeMap<_, _>) = fired.into_iter().partition(|(k, _)| k.starts_with("probe:"));
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": sc.id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": nviol,
        "assumptions": sc.assumptions,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": distinct.len(),
            "rule": sc.rule,
            "samples": samples,
            "runs_per_hour": (runs as f64 / search_s.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (runs as f64 / search_s.max(0.001) * 3600.0) as u64,
            "simulated_time": "the code has no clock or timer; the logical clock counts preemption points (allocations, lock waits, I/O calls, callbacks)",
            "runs_that_were_the_first_of_their_process": agg.get("cold"),
            "instructions_watched_because_they_touch_process_wide_data": crate::hot::count(),
            "simulated_steps": agg.get("steps"),
            "simulated_steps_of_the_longest_run": agg.get("longest"),
            "processor_ms_of_the_slowest_run": agg.get("slowest"),
            "hash_keys_drawn": agg.get("orders"),
            "preemptive_switches": agg.get("switches"),
            "runs_with_a_preemptive_switch": agg.get("switched"),
            "nontrivial_runs": agg.get("nontrivial"),
            "distinct_measure": "64-bit hash of a run's whole event sequence: thread switches with step numbers, hash keys, faults with their places, panics",
            "faults_injected": faults,
            "probes_hit": probes,
            "probes_never_hit": zero,
            "components_real": sc.real,
            "components_stubbed": sc.stub,
        }
    });
    let edir = std::env::var("SYNSIM_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(format!("{}/{}.json", edir, sc.id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!("{}: {} runs, {} distinct non-trivial, {} switches, {:.1} s{}", sc.id, runs, distinct.len(), agg.get("switches").copied().unwrap_or(0), wall,
        if zero.is_empty() { String::new() } else { format!(", probes never hit: {:?}", zero) });
    let _ = std::fs::remove_dir_all(&scratch);
    code
}
fn read_status(p: &str) -> u64 { std::fs::read(p).ok().filter(|b| b.len() >= 8).map(|b| u64::from_le_bytes(b[..8].try_into().unwrap())).unwrap_or(WARM) }

fn replay(sc: &Scenario, path: &str) -> i32 {
    let scratch = format!("/tmp/synsim-replay-{}", std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    std::env::set_var("SYNSIM_SCRATCH", &scratch);
    let spec: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let p = try_spec(&spec, true, 20);
    let _ = std::fs::remove_dir_all(&scratch);
    for l in &p.log { println!("  {}", l); }
    match &p.class {
        None => { println!("not reproduced"); 0 }
        Some(c) => {
            println!("{}: {}", c, p.msg);
            let same = spec["event_hash"].as_u64() == Some(p.hash) && spec["class"].as_str() == Some(c);
            println!("{}", if same { "identical to the recorded execution" } else { "reproduced (event sequence differs from the recorded one)" });
            println!("VIOLATION property={} replay={}", sc.id, path);
            1
        }
    }
}

/// hashes SEED START COUNT: event hash of every run, for the determinism proof
fn hashes(sc: &Scenario, a: &[String]) -> i32 {
    let (seed, start, n): (u64, u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap(), a[2].parse().unwrap());
    let scratch = format!("/tmp/synsim-hash-{}", std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    std::env::set_var("SYNSIM_SCRATCH", &scratch);
    if start >= COLD {
        cold_start(sc, 60);
        for i in start..start + n { if cold(sc, seed, i, &[]).is_some() { return 1; } }
        leave_scratch();
        let _ = std::fs::remove_dir_all(&scratch);
        return 0;
    }
    process_start(sc, 60);
    let mut out = String::new();
    for i in start..start + n {
        let o = execute(sc, Choices::seeded(run_seed(sc, seed, i)), i, false);
        out += &format!("{} {:016x} {} {} {}\n", i, o.ctl.hash, o.ctl.steps, o.ctl.ch.rec.len(), o.verdict.is_ok());
    }
    sys::write_all(1, out.as_bytes());
    leave_scratch();
    let _ = std::fs::remove_dir_all(&scratch);
    0
}

pub fn main(sc: Scenario) {
    let a: Vec<String> = std::env::args().collect();
    if !matches!(a.get(1).map(|s| s.as_str()), Some("worker" | "one" | "one-verbose")) { crate::hot::find(); }
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(&sc, &a[2..]),
        Some("one") => one(&sc, &a[2], false, a[3].parse().unwrap()),
        Some("one-verbose") => one(&sc, &a[2], true, a[3].parse().unwrap()),
        Some("replay") => replay(&sc, &a[2]),
        Some("hashes") => hashes(&sc, &a[2..]),
        Some("check") | None => check(&sc),
        _ => { eprintln!("usage: check | replay FILE | hashes SEED START COUNT"); 2 }
    };
    std::process::exit(code);
}
