//! The simulated world: one global controller, simulated threads (real threads,
//! exactly one of which runs at any time), preemption points, entropy, futexes.
use crate::choice::{mix, splitmix, Choices};
use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TState { Runnable, Waiting(usize), Done }

pub struct Ctl {
    pub ch: Choices,
    pub state: Vec<TState>,
    pub cur: usize,
    pub preempt: u64,     // 0 = never; otherwise mean gap between preemption points
    pub gap: u64,         // points until the next preemption, 0 = none scheduled
    pub steps: u64,
    pub spins: u64,       // looks at shared data in a row
    pub budget: u64,
    pub hash: u64,
    pub switches: u64,    // preemptive switches inside an operation
    pub orders: u64,      // hash keys drawn
    pub log: Option<Vec<String>>,
    pub fired: BTreeMap<&'static str, u64>,
    pub panics: Vec<Option<String>>,
    pub task_base: u64,
    pub io: crate::os::Io,
    pub clock: u64,       // microseconds added to the simulated clocks
    pub pids: Vec<i32>,
    pub mangle: bool,     // after a wake, should waiters be chosen by the scheduler
}

struct Global(UnsafeCell<Option<Box<Ctl>>>);
unsafe impl Sync for Global {}
static G: Global = Global(UnsafeCell::new(None));
static TURN: AtomicU32 = AtomicU32::new(0); // 0 = driver, n = task n-1

thread_local! {
    static TASK: Cell<u32> = const { Cell::new(0) };
    static INSIM: Cell<u32> = const { Cell::new(0) };
}

/// The controller. Only whoever holds the turn may call this.
#[allow(static_mut_refs)]
pub fn ctl() -> &'static mut Ctl { unsafe { (*G.0.get()).as_mut().expect("no simulation").as_mut() } }
pub fn have_ctl() -> bool { unsafe { (*G.0.get()).is_some() } }
pub fn install(c: Ctl) { unsafe { *G.0.get() = Some(Box::new(c)); } }
pub fn uninstall() -> Option<Box<Ctl>> { unsafe { (*G.0.get()).take() } }

pub fn in_task() -> bool { TASK.with(|t| t.get()) != 0 }
pub fn task_id() -> usize { TASK.with(|t| t.get()) as usize }
pub fn active() -> bool { in_task() && INSIM.with(|i| i.get()) == 0 }

pub struct Guard;
impl Guard { pub fn new() -> Guard { INSIM.with(|i| i.set(i.get() + 1)); Guard } }
impl Drop for Guard { fn drop(&mut self) { INSIM.with(|i| i.set(i.get() - 1)); } }

impl Ctl {
    pub fn new(ch: Choices, log: bool) -> Ctl {
        Ctl { ch, state: vec![], cur: 0, preempt: 0, gap: 0, steps: 0, spins: 0, budget: 40_000_000, hash: 0x1234, switches: 0, orders: 0,
              log: if log { Some(vec![]) } else { None }, fired: BTreeMap::new(), panics: vec![], task_base: 0,
              io: crate::os::Io::default(), clock: 0, pids: vec![], mangle: false }
    }
    pub fn ev(&mut self, code: u64, a: u64, b: u64, text: impl FnOnce() -> String) {
        self.hash = mix(self.hash ^ code.wrapping_mul(0x9E37), a.wrapping_mul(31).wrapping_add(b));
        if let Some(l) = &mut self.log { if l.len() < 4000 { let t = text(); l.push(t); } }
    }
}

// ---- decisions -------------------------------------------------------------
pub fn choose(n: u64) -> u64 { let _g = Guard::new(); ctl().ch.choose(n) }
/// true with probability pct/100; false is the plain option.
pub fn chance(pct: u64) -> bool { choose(100) >= 100 - pct.min(100) && pct > 0 }
pub fn range(lo: u64, hi: u64) -> u64 { lo + choose(hi - lo + 1) }
pub fn pick<T: Clone>(xs: &[T]) -> T { xs[choose(xs.len() as u64) as usize].clone() }

/// Record something in the event log.
pub fn note(text: impl FnOnce() -> String) { let _g = Guard::new(); let c = ctl(); c.ev(1, 0, 0, text); }
/// Count an injected fault (and log it).
pub fn fault(kind: &'static str, detail: impl FnOnce() -> String) {
    let _g = Guard::new();
    let c = ctl();
    *c.fired.entry(kind).or_insert(0) += 1;
    let h = crate::choice::fnv(kind.as_bytes());
    let t = task_id();
    c.ev(2, h, t as u64, || format!("FAULT {} t{} {}", kind, t, detail()));
}
pub fn fired(kind: &str) -> u64 { let _g = Guard::new(); ctl().fired.get(kind).copied().unwrap_or(0) }

// ---- turn passing ------------------------------------------------------------
fn give(to: u32) {
    TURN.store(to, Ordering::SeqCst);
    unsafe { sys::raw(sys::SYS_FUTEX, TURN.as_ptr() as i64, 129, i32::MAX as i64, 0, 0, 0); }
}
fn await_turn(me: u32) {
    loop {
        let v = TURN.load(Ordering::SeqCst);
        if v == me { return; }
        unsafe { sys::raw(sys::SYS_FUTEX, TURN.as_ptr() as i64, 128, v as i64, 0, 0, 0); }
    }
}

fn next_gap(c: &mut Ctl) {
    if c.preempt == 0 { c.gap = 0; return; }
    c.gap = c.ch.choose(2 * c.preempt);
}

fn runnable_from(c: &Ctl, cur: usize) -> Vec<usize> {
    let n = c.state.len();
    let mut v = Vec::new();
    for k in 0..n { let i = (cur + k) % n; if c.state[i] == TState::Runnable { v.push(i); } }
    v
}

/// A preemption point of a simulated thread.
pub fn point(kind: u64) {
    if !active() { return; }
    let _g = Guard::new();
    let c = ctl();
    c.steps += 1;
    if c.steps > c.budget { fatal("no-progress", &format!("operation still running after {} simulated steps", c.budget)); }
    let me = c.cur;
    let mut away = false;
    // a thread that gives way, or looks at shared data over and over, waits for another one
    if kind >= 7 { c.spins += 1; away = kind == 8 || c.spins > 3000; } else { c.spins = 0; }
    if c.gap == 0 && !away { return; }
    if kind == 7 {
        // process-wide data of the code under test: worth a switch of its own
        *c.fired.entry("probe:process-wide-data-reached").or_insert(0) += 1;
        if !away && c.state.len() > 1 { away = c.ch.choose(4) == 3; }
    }
    if !away {
        c.gap -= 1;
        if c.gap > 0 { return; }
        next_gap(c);
    }
    let mut r = runnable_from(c, me);
    if away { r.retain(|x| *x != me); } else if r.len() < 2 { return; }
    if r.is_empty() { return; }
    let to = r[c.ch.choose(r.len() as u64) as usize];
    if to != me {
        c.spins = 0;
        c.switches += 1;
        let s = c.steps;
        c.ev(3, to as u64, s, || format!("switch t{} -> t{} at step {} ({})", me + 1, to + 1, s,
            match kind { 0 => "allocation", 1 => "write", 2 => "read", 3 => "open", 4 => "futex", 5 => "callback", 6 => "deallocation", 7 => "own static", 8 => "yield", _ => "call" }));
        c.cur = to;
        give(to as u32 + 1);
        await_turn(me as u32 + 1);
    }
}

/// Leave the processor because this thread cannot continue (waiting or finished).
fn leave(c: &mut Ctl, me: usize, waiting: bool) {
    let r = runnable_from(c, (me + 1) % c.state.len());
    if r.is_empty() {
        if c.state.iter().all(|s| *s == TState::Done) {
            give(0);
            return;
        }
        // everyone is waiting
        if waiting { return; }
        // a finished thread leaves only waiting threads behind: wake one so it can find out
        let w = c.state.iter().position(|s| matches!(s, TState::Waiting(_))).unwrap();
        c.state[w] = TState::Runnable;
        c.cur = w;
        give(w as u32 + 1);
        return;
    }
    let to = r[c.ch.choose(r.len() as u64) as usize];
    c.ev(4, to as u64, waiting as u64, || format!("t{} {}; t{} runs", me + 1, if waiting { "waits" } else { "finished" }, to + 1));
    c.cur = to;
    give(to as u32 + 1);
    if waiting { await_turn(me as u32 + 1); }
}

/// Report something the process cannot continue from.
pub fn fatal(class: &str, msg: &str) -> ! {
    let _g = Guard::new();
    let c = ctl();
    crate::driver::report_fatal(class, msg, c);
    sys::exit_now(42)
}

pub enum Outcome<T> { Done(T), Panicked(String) }
impl<T> Outcome<T> {
    pub fn ok(self) -> Result<T, String> { match self { Outcome::Done(t) => Ok(t), Outcome::Panicked(m) => Err(m) } }
}

struct Send_<T>(T);
unsafe impl<T> Send for Send_<T> {}
impl<T> Send_<T> { fn get(self) -> T { self.0 } }

/// Run tasks as simulated threads until all are finished.
pub fn par<'a, T>(tasks: Vec<Box<dyn FnOnce() -> T + 'a>>) -> Vec<Outcome<T>> {
    let n = tasks.len();
    {
        let c = ctl();
        c.state = vec![TState::Runnable; n];
        c.panics = (0..n).map(|_| None).collect();
        c.pids.clear();
    c.io.begin(n);
        next_gap(c);
    }
    let mut outs: Vec<Option<Outcome<T>>> = (0..n).map(|_| None).collect();
    std::thread::scope(|scope| {
        let mut hs = Vec::new();
        for (i, f) in tasks.into_iter().enumerate() {
            let f = Send_(f);
            let b = std::thread::Builder::new().stack_size(4 << 20);
            hs.push(b.spawn_scoped(scope, move || {
                let f = f.get();
                await_turn(i as u32 + 1);
                TASK.with(|t| t.set(i as u32 + 1));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                let g = Guard::new();
                TASK.with(|t| t.set(0));
                let c = ctl();
                let o = match r {
                    Ok(t) => Outcome::Done(t),
                    Err(p) => { std::mem::drop(p); Outcome::Panicked(c.panics[i].take().unwrap_or_else(|| "panic".into())) }
                };
                c.state[i] = TState::Done;
                drop(g);
                leave(c, i, false);
                Send_(o)
            }).expect("spawn"));
        }
        let first = { let c = ctl(); let f = c.ch.choose(n as u64) as usize; c.cur = f; f };
        give(first as u32 + 1);
        await_turn(0);
        for (i, h) in hs.into_iter().enumerate() { outs[i] = Some(h.join().expect("simulated thread").get()); }
    });
    crate::os::end_par();
    outs.into_iter().map(|o| o.unwrap()).collect()
}
pub fn solo<'a, T>(f: impl FnOnce() -> T + 'a) -> Outcome<T> { par(vec![Box::new(f) as Box<dyn FnOnce() -> T + 'a>]).pop().unwrap() }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _g = Guard::new();
        if in_task() {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "panic".to_string() };
            let t = task_id() - 1;
            let c = ctl();
            let loc = info.location().map(|l| format!("{}", l.file().rsplit('/').next().unwrap_or(""))).unwrap_or_default();
            let mm: String = m.chars().take(200).collect();
            c.ev(5, t as u64, 0, || format!("t{} panicked: {} ({})", t + 1, mm, loc));
            c.panics[t] = Some(m);
        } else {
            let m = format!("harness panic: {}\n", info);
            sys::write_all(2, m.as_bytes());
        }
    }));
}

// ---- allocator -----------------------------------------------------------------
pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { point(0); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l); point(6) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { point(0); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { point(0); System.realloc(p, l, n) }
}

// ---- entropy ---------------------------------------------------------------------
pub fn fill_entropy(buf: *mut u8, n: usize) {
    let mut s;
    if in_task() {
        let _g = Guard::new();
        let c = ctl();
        let v = c.ch.choose(1 << 20);
        c.orders += 1;
        let t = task_id();
        c.ev(6, v, t as u64, || format!("hash key {} for t{}", v, t));
        s = v.wrapping_mul(0xA24BAED4963EE407) ^ 0x5bd1e995;
    } else { s = 0x77; }
    for i in 0..n {
        let x = splitmix(&mut s);
        unsafe { *buf.add(i) = (x >> 13) as u8; }
    }
}

// ---- futex -------------------------------------------------------------------------
pub unsafe fn futex(a: i64, op: i64, val: i64, d: i64, e: i64, f: i64) -> i64 {
    let real = |op| sys::raw(sys::SYS_FUTEX, a, op, val, d, e, f);
    if !active() { return sys::ret(real(op)); }
    let cmd = op & 0x7f;
    match cmd {
        0 | 9 => { // WAIT, WAIT_BITSET
            let word = &*(a as *const AtomicU32);
            point(4);
            let _g = Guard::new();
            let c = ctl();
            if word.load(Ordering::SeqCst) != val as u32 { sys::set_errno(sys::EAGAIN); return -1; }
            let me = c.cur;
            *c.fired.entry("lock-wait").or_insert(0) += 1;
            c.state[me] = TState::Waiting(a as usize);
            leave(c, me, true);
            let c = ctl();
            if c.state[me] == TState::Runnable { return 0; }
            // nobody can wake us inside the simulation: maybe a thread outside it can
            let ts: [i64; 2] = [0, 300_000_000];
            for _ in 0..10 {
                let r = sys::raw(sys::SYS_FUTEX, a, 128, val, ts.as_ptr() as i64, 0, 0);
                if r == 0 || r == -(sys::EAGAIN as i64) { c.state[me] = TState::Runnable; return 0; }
                if d != 0 { c.state[me] = TState::Runnable; sys::set_errno(sys::ETIMEDOUT); return -1; }
            }
            fatal("deadlock", "every simulated thread waits for a lock nobody will release");
        }
        1 | 10 => { // WAKE
            {
                let _g = Guard::new();
                let c = ctl();
                let mut left = val;
                loop {
                    let w: Vec<usize> = (0..c.state.len()).filter(|i| c.state[*i] == TState::Waiting(a as usize)).collect();
                    if w.is_empty() || left <= 0 { break; }
                    let i = w[c.ch.choose(w.len() as u64) as usize];
                    c.state[i] = TState::Runnable;
                    left -= 1;
                }
            }
            let r = real(op);
            point(4);
            sys::ret(r)
        }
        _ => sys::ret(real(op)),
    }
}

// ---- per-run settings used by the scenarios -------------------------------------------
/// Choose how eagerly threads are preempted in this run.
pub fn swarm() {
    let k = [0u64, 0, 400, 60, 12, 3][choose(6) as usize];
    ctl().preempt = k;
}
/// Turn on faults of standard output (kinds and rates vary per run).
pub fn stdout_faults() {
    let k = choose(7) + 1;
    let c = ctl();
    c.io.rates.out_short = if k & 1 != 0 { 30 } else { 0 };
    c.io.rates.out_eintr = if k & 2 != 0 { 25 } else { 0 };
    c.io.rates.out_err = if k & 4 != 0 { 20 } else { 0 };
    c.io.faults_left = 2;
}
pub fn no_faults() { let c = ctl(); c.io.rates = Default::default(); c.io.faults_left = 0; c.io.only = 0; }

pub fn steps() -> u64 { let _g = Guard::new(); ctl().steps }
/// How much the running task has written to standard output so far.
pub fn out_len() -> usize { let _g = Guard::new(); let c = ctl(); c.io.out[c.cur].len() }
pub struct IoResult { pub out: Vec<Vec<u8>>, pub hard: Vec<u64>, pub soft: Vec<u64>, pub damaged: Vec<u64>, pub crashed: Vec<bool>, pub opened: Vec<Vec<String>> }
/// What the tasks of the last parallel section did to the outside world.
pub fn io_result() -> IoResult {
    let io = &ctl().io;
    IoResult { out: io.out.clone(), hard: io.hard.clone(), soft: io.soft.clone(), damaged: io.damaged.clone(), crashed: io.crashed.clone(), opened: io.opened.clone() }
}
/// An operation that has no excuse to fail.
pub fn expect<T>(what: &str, o: Outcome<T>) -> Result<T, crate::driver::Violation> {
    match o { Outcome::Done(t) => Ok(t), Outcome::Panicked(m) => Err(crate::driver::Violation { class: "panic".into(), msg: format!("{} panicked: {}", what, m.chars().take(300).collect::<String>()) }) }
}
