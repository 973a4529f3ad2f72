//! Switch points inside the code under test that no call marks: the instructions of the
//! crate's functions that touch its own process-wide data (writable statics, locked
//! instructions). Each gets a breakpoint; reaching it is a preemption point. Code without
//! such data has none and runs untouched.
use crate::sys;
use std::cell::Cell;
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};

const ENV: &str = "SYNSIM_SITES";
static mut SITES: Vec<(usize, u8)> = Vec::new();
thread_local! { static STEP: Cell<usize> = const { Cell::new(0) }; }
extern "C" {
    static __ehdr_start: u8;
    fn sigaction(sig: i32, new: *const Act, old: *mut Act) -> i32;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
}
#[repr(C)]
struct Act { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }

/// Find the instructions (in the process that starts the others).
pub fn find() {
    let s = look().unwrap_or_default();
    std::env::set_var(ENV, s.iter().map(|a| format!("{:x}", a)).collect::<Vec<_>>().join(","));
}
fn look() -> Option<Vec<usize>> {
    let exe = std::env::current_exe().ok()?;
    let out = Command::new("objdump").arg("-h").arg(&exe).stderr(Stdio::null()).output().ok()?;
    let mut data = vec![];
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() > 3 && (w[1] == ".data" || w[1] == ".bss") { let a = usize::from_str_radix(w[3], 16).ok()?; data.push((a, a + usize::from_str_radix(w[2], 16).ok()?)); }
    }
    let mut c = Command::new("objdump").args(["-d", "-w", "--no-show-raw-insn", "-j", ".text"]).arg(&exe).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let (mut ours, mut moved) = (false, None);
    let mut v = vec![];
    let mut r = BufReader::with_capacity(1 << 20, c.stdout.take()?);
    let mut l = vec![];
    loop {
        l.clear();
        if r.read_until(b'\n', &mut l).ok()? == 0 { break; }
        if l.ends_with(b">:\n") {
            let s = String::from_utf8_lossy(&l).into_owned();
            let (a, n) = s.split_once(" <")?;
            if n == "write>:\n" { moved = Some(usize::from_str_radix(a, 16).ok()?); }
            ours = n.contains("8syntaxis") && !n.contains("regex_automata") && !n.contains("5regex");
            continue;
        }
        if !ours { continue; }
        let s = String::from_utf8_lossy(&l);
        let Some((a, ins)) = s.split_once(':') else { continue };
        let Ok(a) = usize::from_str_radix(a.trim(), 16) else { continue };
        let ins = ins.trim();
        let to = s.rsplit_once("# ").and_then(|x| x.1.split_whitespace().next()).and_then(|x| usize::from_str_radix(x, 16).ok());
        let own = to.map_or(false, |t| data.iter().any(|d| d.0 <= t && t < d.1));
        if own || ins.starts_with("lock ") || (ins.starts_with("xchg") && ins.contains('(')) { v.push(a); }
    }
    let _ = c.wait();
    // the addresses are right if a function known by name is where it is said to be
    if moved? + base() != write as *const () as usize { return None; }
    Some(v)
}
fn base() -> usize { unsafe { &__ehdr_start as *const u8 as usize } }
pub fn count() -> usize { std::env::var(ENV).unwrap_or_default().split(',').filter(|s| !s.is_empty()).count() }

/// Put the breakpoints (in each process that executes runs).
#[allow(static_mut_refs)]
pub fn arm() {
    let v: Vec<usize> = std::env::var(ENV).unwrap_or_default().split(',').filter_map(|s| usize::from_str_radix(s, 16).ok()).map(|a| a + base()).collect();
    if v.is_empty() { return; }
    unsafe {
        if !SITES.is_empty() { return; }
        for a in &v { if sys::raw(10, (*a & !4095) as i64, 8192, 7, 0, 0, 0) != 0 { return; } } // mprotect
        let mut s: Vec<(usize, u8)> = v.iter().map(|a| (*a, *(*a as *const u8))).collect();
        s.sort();
        SITES = s;
        let a = Act { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        if sigaction(5, &a, std::ptr::null_mut()) != 0 { return; }
        for a in &v { std::ptr::write_volatile(*a as *mut u8, 0xCC); }
    }
}
/// Only one simulated thread runs at a time, so an instruction can be put back, stepped over
/// and covered again without another thread slipping through.
#[allow(static_mut_refs)]
unsafe extern "C" fn on_trap(_sig: i32, _info: *mut u8, uc: *mut u8) {
    let errno = sys::errno();
    let g = uc.add(40) as *mut i64; // general registers in the signal frame
    let (rip, flags) = (g.add(16), g.add(17));
    let at = STEP.with(|s| s.replace(0));
    if at != 0 {
        std::ptr::write_volatile(at as *mut u8, 0xCC);
        *flags &= !0x100;
    } else {
        let at = *rip as usize - 1;
        match SITES.binary_search_by_key(&at, |x| x.0) {
            Ok(k) => {
                crate::sched::point(7);
                std::ptr::write_volatile(at as *mut u8, SITES[k].1);
                STEP.with(|s| s.set(at));
                *rip = at as i64;
                *flags |= 0x100;
            }
            Err(_) => { sys::write_all(2, b"unexpected trap\n"); sys::exit_now(43); }
        }
    }
    sys::set_errno(errno);
}
