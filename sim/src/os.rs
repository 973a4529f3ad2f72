//! The fake operating system: libc entry points used by std and its dependents are
//! defined here, so simulated threads reach the kernel only through fault injection.
use crate::sched::{active, ctl, fault, in_task, point, task_id, Guard};
use crate::sys::{self, *};
use std::collections::BTreeMap;
use std::ffi::{c_char, c_void, CStr};

/// Fault rates in percent, per kind of call.
#[derive(Default, Clone, Debug)]
pub struct Rates {
    pub out_short: u64, pub out_eintr: u64, pub out_err: u64,        // stdout
    pub w_short: u64, pub w_eintr: u64, pub w_err: u64, pub w_nospc: u64, // file writes
    pub r_short: u64, pub r_eintr: u64, pub r_err: u64, pub r_eof: u64, pub r_flip: u64, // file reads
    pub open_err: u64,
    pub crash: u64,   // per file operation
}

#[derive(Default)]
pub struct Io {
    pub rates: Rates,
    pub files: BTreeMap<i32, String>,
    pub out: Vec<Vec<u8>>,     // bytes each task got through to stdout
    pub hard: Vec<u64>,        // hard faults (errors) injected per task
    pub soft: Vec<u64>,
    pub damaged: Vec<u64>,     // data-changing faults (early EOF, flips) per task
    pub crashed: Vec<bool>,
    pub opened: Vec<Vec<String>>, // paths each task opened successfully for writing
    pub faults_left: u64,      // cap on hard faults per run
    pub only: u64,             // tasks the faults are for (bit set), 0 = all
}
impl Io {
    pub fn begin(&mut self, n: usize) {
        self.out = vec![vec![]; n]; self.hard = vec![0; n]; self.soft = vec![0; n]; self.damaged = vec![0; n];
        self.crashed = vec![false; n]; self.opened = vec![vec![]; n];
    }
}
/// Leave stdout's own buffer clean after a parallel section.
pub fn end_par() {
    use std::io::Write;
    // the driver's writes to fd 1 are discarded while a simulation is installed
    let _ = std::io::stdout().flush();
    ctl().io.files.clear();
}

fn roll(pct: u64) -> bool {
    if pct == 0 { return false; }
    let c = ctl();
    c.ch.choose(100) >= 100 - pct.min(100)
}
fn rates(me: usize) -> Rates { let io = &ctl().io; if io.only != 0 && io.only >> me & 1 == 0 { Rates::default() } else { io.rates.clone() } }
fn hard_ok() -> bool { let c = ctl(); if c.io.faults_left == 0 { false } else { c.io.faults_left -= 1; true } }

unsafe fn do_write(fd: i32, buf: *const u8, n: usize) -> isize {
    if fd == 1 && !in_task() && crate::sched::have_ctl() && crate::driver::swallow() { return n as isize; }
    if fd == 2 && active() { return n as isize; }
    if !active() { return sys::ret(raw(SYS_WRITE, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize; }
    let tracked = ctl().io.files.contains_key(&fd);
    if fd != 1 && !tracked { return sys::ret(raw(SYS_WRITE, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize; }
    point(1);
    let _g = Guard::new();
    let me = task_id() - 1;
    let r = rates(me);
    if fd == 1 {
        if roll(r.out_eintr) { ctl().io.soft[me] += 1; fault("stdout-eintr", || String::new()); set_errno(EINTR); return -1; }
        if roll(r.out_err) && hard_ok() {
            ctl().io.hard[me] += 1;
            let e = [EPIPE, EIO, ENOSPC, EAGAIN][ctl().ch.choose(4) as usize];
            fault("stdout-error", || format!("errno {}", e)); set_errno(e); return -1;
        }
        let mut k = n;
        if n > 1 && roll(r.out_short) { ctl().io.soft[me] += 1; k = 1 + ctl().ch.choose(n as u64 - 1) as usize; fault("stdout-short-write", || format!("{} of {}", k, n)); }
        let b = std::slice::from_raw_parts(buf, k);
        ctl().io.out[me].extend_from_slice(b);
        return k as isize;
    }
    if ctl().io.crashed[me] { set_errno(EIO); return -1; }
    if roll(r.crash) && hard_ok() {
        // the machine stops inside this write: a prefix may have reached the disk
        ctl().io.crashed[me] = true; ctl().io.hard[me] += 1;
        let k = ctl().ch.choose(n as u64 + 1) as usize;
        if k > 0 { raw(SYS_WRITE, fd as i64, buf as i64, k as i64, 0, 0, 0); }
        fault("crash-in-write", || format!("{} of {} bytes persisted", k, n));
        set_errno(EIO); return -1;
    }
    if roll(r.w_eintr) { ctl().io.soft[me] += 1; fault("write-eintr", || String::new()); set_errno(EINTR); return -1; }
    if roll(r.w_err) && hard_ok() { ctl().io.hard[me] += 1; fault("write-eio", || String::new()); set_errno(EIO); return -1; }
    if roll(r.w_nospc) && hard_ok() {
        ctl().io.hard[me] += 1;
        let k = ctl().ch.choose(n as u64 + 1) as usize;
        fault("disk-full", || format!("room for {} of {} bytes", k, n));
        if k == 0 { set_errno(ENOSPC); return -1; }
        // the next write finds the disk full
        ctl().io.rates.w_nospc = 100; ctl().io.faults_left += 1;
        return sys::ret(raw(SYS_WRITE, fd as i64, buf as i64, k.min(n) as i64, 0, 0, 0)) as isize;
    }
    let mut k = n;
    if n > 1 && roll(r.w_short) { ctl().io.soft[me] += 1; k = 1 + ctl().ch.choose(n as u64 - 1) as usize; fault("short-write", || format!("{} of {}", k, n)); }
    sys::ret(raw(SYS_WRITE, fd as i64, buf as i64, k as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const c_void, n: usize) -> isize { do_write(fd, buf as *const u8, n) }

#[repr(C)]
pub struct IoVec { base: *const u8, len: usize }
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const IoVec, cnt: i32) -> isize {
    if active() {
        // a vectored write is allowed to write just part: do the first non-empty piece
        for i in 0..cnt as usize { let v = &*iov.add(i); if v.len > 0 { return do_write(fd, v.base, v.len); } }
        return 0;
    }
    if fd == 1 && !in_task() && crate::sched::have_ctl() && crate::driver::swallow() {
        let mut t = 0; for i in 0..cnt as usize { t += (*iov.add(i)).len; } return t as isize;
    }
    sys::ret(raw(SYS_WRITEV, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut c_void, n: usize) -> isize {
    if !active() || !ctl().io.files.contains_key(&fd) { return sys::ret(raw(SYS_READ, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize; }
    point(2);
    let _g = Guard::new();
    let me = task_id() - 1;
    let r = rates(me);
    if ctl().io.crashed[me] { set_errno(EIO); return -1; }
    if roll(r.r_eintr) { ctl().io.soft[me] += 1; fault("read-eintr", || String::new()); set_errno(EINTR); return -1; }
    if roll(r.r_err) && hard_ok() { ctl().io.hard[me] += 1; fault("read-eio", || String::new()); set_errno(EIO); return -1; }
    let mut k = n;
    if n > 1 && roll(r.r_short) { ctl().io.soft[me] += 1; k = 1 + ctl().ch.choose((n as u64 - 1).min(4096)) as usize; fault("short-read", || format!("at most {} of {}", k, n)); }
    let got = raw(SYS_READ, fd as i64, buf as i64, k as i64, 0, 0, 0);
    if got > 0 && roll(r.r_eof) && hard_ok() {
        let p = ctl().ch.choose(got as u64);
        ctl().io.damaged[me] += 1;
        fault("early-eof", || format!("after {} of {}", p, got));
        // the file really ends here: move to its end so later reads see it too
        raw(8, fd as i64, 0, 2, 0, 0, 0);
        return p as isize;
    }
    if got > 0 && roll(r.r_flip) && hard_ok() {
        let p = ctl().ch.choose(got as u64) as usize; let bit = ctl().ch.choose(8);
        *(buf as *mut u8).add(p) ^= 1 << bit;
        ctl().io.damaged[me] += 1;
        fault("flipped-byte", || format!("offset {} bit {}", p, bit));
    }
    sys::ret(got) as isize
}

/// The simulated machine has two processors and no quota: regex sizes its pools by that.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_pid: i32, n: usize, mask: *mut u8) -> i32 {
    std::ptr::write_bytes(mask, 0, n);
    if n > 0 { *mask = 0b11; }
    0
}

/// Simulated time: a microsecond per preemption point, the wall clock set anew (skewed, jumped)
/// whenever it is asked. Nothing in the code reads a clock; should that change, it is in the replay.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if !active() { return sys::ret(raw(228, id as i64, ts as i64, 0, 0, 0, 0)) as i32; }
    let _g = Guard::new();
    let c = ctl();
    let jump = if id == 0 { c.ch.choose(1 << 24) } else { c.ch.choose(1 << 10) };
    c.clock += 1 + jump % 1000;
    let us = 1_000_000_000_000 + c.steps + c.clock + if id == 0 { 600_000_000_000_000 + jump * 1_000_003 } else { 0 };
    *c.fired.entry("clock-read").or_insert(0) += 1;
    *ts = [(us / 1_000_000) as i64, (us % 1_000_000) as i64 * 1000];
    0
}
/// Every simulated thread believes it runs in a process of its own.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if !active() { return raw(39, 0, 0, 0, 0, 0, 0) as i32; }
    let _g = Guard::new();
    let c = ctl();
    let me = c.cur;
    if c.pids.len() <= me { c.pids.resize(me + 1, 0); }
    if c.pids[me] == 0 { c.pids[me] = 2 + c.ch.choose(30_000) as i32; }
    c.pids[me]
}

unsafe fn do_open(dirfd: i64, path: *const c_char, flags: i32, mode: u32) -> i32 {
    if CStr::from_ptr(path).to_bytes() == b"/proc/self/cgroup" { set_errno(2); return -1; }
    if !active() { return sys::ret(raw(SYS_OPENAT, dirfd, path as i64, flags as i64, mode as i64, 0, 0)) as i32; }
    point(3);
    let _g = Guard::new();
    let me = task_id() - 1;
    let p = CStr::from_ptr(path).to_string_lossy().into_owned();
    let wr = flags & 3 != 0;
    if ctl().io.crashed[me] { set_errno(EIO); return -1; }
    let r = rates(me);
    if roll(r.crash) && hard_ok() {
        ctl().io.crashed[me] = true; ctl().io.hard[me] += 1;
        fault("crash-in-open", || p.clone());
        set_errno(EIO); return -1;
    }
    if roll(r.open_err) && hard_ok() {
        ctl().io.hard[me] += 1;
        let e = [EACCES, EMFILE, EIO][ctl().ch.choose(3) as usize];
        fault("open-error", || format!("{} errno {}", p, e)); set_errno(e); return -1;
    }
    let fd = raw(SYS_OPENAT, dirfd, path as i64, flags as i64, mode as i64, 0, 0);
    if fd >= 0 {
        ctl().io.files.insert(fd as i32, p.clone());
        if wr { ctl().io.opened[me].push(p); }
    }
    sys::ret(fd) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: i32, mode: u32) -> i32 { do_open(-100, path, flags | 0o100000, mode) }
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: i32, mode: u32) -> i32 { do_open(-100, path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, path: *const c_char, flags: i32, mode: u32) -> i32 { do_open(d as i64, path, flags | 0o100000, mode) }
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if active() { let _g = Guard::new(); ctl().io.files.remove(&fd); }
    sys::ret(raw(SYS_CLOSE, fd as i64, 0, 0, 0, 0, 0)) as i32
}
/// Operations nothing in the code uses today; a change that does meets faults there too.
/// Err = it failed (errno set).
unsafe fn other_op(kind: &str, what: String) -> Result<(), ()> {
    point(3);
    let _g = Guard::new();
    let me = task_id() - 1;
    if ctl().io.crashed[me] { set_errno(EIO); return Err(()); }
    let r = rates(me);
    if roll(r.crash) && hard_ok() {
        ctl().io.crashed[me] = true; ctl().io.hard[me] += 1;
        fault("crash-in-file-operation", || format!("{} {}", kind, what));
        set_errno(EIO); return Err(());
    }
    if roll(r.open_err.max(r.w_err)) && hard_ok() {
        ctl().io.hard[me] += 1;
        let e = [EIO, EACCES, ENOSPC][ctl().ch.choose(3) as usize];
        fault("file-operation-error", || format!("{} {} errno {}", kind, what, e)); set_errno(e); return Err(());
    }
    Ok(())
}
unsafe fn text(p: *const c_char) -> String { CStr::from_ptr(p).to_string_lossy().into_owned() }
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> i32 {
    if active() {
        if other_op("rename", format!("{} {}", text(a), text(b))).is_err() { return -1; }
        let me = task_id() - 1;
        let _g = Guard::new();
        let t = text(b);
        ctl().io.opened[me].push(t);
    }
    sys::ret(raw(82, a as i64, b as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> i32 {
    if active() {
        if other_op("unlink", text(a)).is_err() { return -1; }
        let me = task_id() - 1;
        let _g = Guard::new();
        let t = text(a);
        ctl().io.opened[me].push(t);
    }
    sys::ret(raw(87, a as i64, 0, 0, 0, 0, 0)) as i32
}
unsafe fn fd_op(kind: &str, fd: i32) -> Result<(), ()> { if active() && ctl().io.files.contains_key(&fd) { let w = { let _g = Guard::new(); ctl().io.files[&fd].clone() }; other_op(kind, w) } else { Ok(()) } }
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 { if fd_op("fsync", fd).is_err() { return -1; } sys::ret(raw(74, fd as i64, 0, 0, 0, 0, 0)) as i32 }
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 { if fd_op("fdatasync", fd).is_err() { return -1; } sys::ret(raw(75, fd as i64, 0, 0, 0, 0, 0)) as i32 }
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 { if fd_op("ftruncate", fd).is_err() { return -1; } sys::ret(raw(77, fd as i64, n, 0, 0, 0, 0)) as i32 }
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, b: *const c_void, n: usize, at: i64) -> isize {
    if active() && ctl().io.files.contains_key(&fd) && raw(8, fd as i64, at, 0, 0, 0, 0) == at { return do_write(fd, b as *const u8, n); }
    sys::ret(raw(18, fd as i64, b as i64, n as i64, at, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, b: *mut c_void, n: usize, at: i64) -> isize {
    if active() && ctl().io.files.contains_key(&fd) && raw(8, fd as i64, at, 0, 0, 0, 0) == at { return read(fd, b, n); }
    sys::ret(raw(17, fd as i64, b as i64, n as i64, at, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const IoVec, cnt: i32) -> isize {
    if active() {
        for i in 0..cnt as usize { let v = &*iov.add(i); if v.len > 0 { return read(fd, v.base as *mut c_void, v.len); } }
        return 0;
    }
    sys::ret(raw(19, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 { if active() { point(8); 0 } else { sys::ret(raw(24, 0, 0, 0, 0, 0, 0)) as i32 } }
/// Sleeping takes simulated time only.
unsafe fn nap(ts: *const [i64; 2]) -> i32 { { let _g = Guard::new(); ctl().clock += ((*ts)[0] * 1_000_000 + (*ts)[1] / 1000) as u64; *ctl().fired.entry("sleep").or_insert(0) += 1; } point(8); 0 }
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const [i64; 2], rem: *mut [i64; 2]) -> i32 { if active() { nap(ts) } else { sys::ret(raw(35, ts as i64, rem as i64, 0, 0, 0, 0)) as i32 } }
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, ts: *const [i64; 2], rem: *mut [i64; 2]) -> i32 { if active() && flags == 0 { nap(ts) } else { -(raw(230, id as i64, flags as i64, ts as i64, rem as i64, 0, 0) as i32) } }
/// The current directory belongs to the whole process.
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> i32 { point(3); let r = sys::ret(raw(80, p as i64, 0, 0, 0, 0, 0)) as i32; point(3); r }
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, _flags: u32) -> isize {
    crate::sched::fill_entropy(buf as *mut u8, n); n as isize
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    match n {
        SYS_FUTEX => crate::sched::futex(a, b, c, d, e, f),
        SYS_GETRANDOM => { crate::sched::fill_entropy(a as *mut u8, b as usize); b }
        _ => sys::ret(raw(n, a, b, c, d, e, f)),
    }
}
