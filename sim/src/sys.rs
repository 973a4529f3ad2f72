//! Raw system calls (never intercepted).
use std::arch::asm;
extern "C" { fn __errno_location() -> *mut i32; }

pub const SYS_READ: i64 = 0;
pub const SYS_WRITE: i64 = 1;
pub const SYS_CLOSE: i64 = 3;
pub const SYS_WRITEV: i64 = 20;
pub const SYS_FSYNC: i64 = 74;
pub const SYS_OPENAT: i64 = 257;
pub const SYS_FUTEX: i64 = 202;
pub const SYS_GETRANDOM: i64 = 318;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EAGAIN: i32 = 11;
pub const ENOSPC: i32 = 28;
pub const EPIPE: i32 = 32;
pub const EACCES: i32 = 13;
pub const EMFILE: i32 = 24;
pub const ETIMEDOUT: i32 = 110;

/// Returns the kernel's raw result (negative errno on error).
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _);
    r
}
pub fn errno() -> i32 { unsafe { *__errno_location() } }
pub fn set_errno(e: i32) { unsafe { *__errno_location() = e } }
pub fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 { set_errno(-r as i32); -1 } else { r }
}
/// Unintercepted write of everything.
pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { raw(SYS_WRITE, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if r < 0 { if r == -(EINTR as i64) { continue; } return; }
        b = &b[r as usize..];
    }
}
pub fn exit_now(code: i32) -> ! {
    unsafe { raw(231, code as i64, 0, 0, 0, 0, 0); }
    loop {}
}
pub fn dup2(a: i32, b: i32) { unsafe { raw(33, a as i64, b as i64, 0, 0, 0, 0); } }
pub fn pin_cpu(cpu: usize) {
    let mut mask = [0u64; 16];
    mask[(cpu / 64) % 16] = 1 << (cpu % 64);
    unsafe { raw(203, 0, 128, mask.as_ptr() as i64, 0, 0, 0); }
}
/// Processors really available (the simulated count is fixed, see os.rs).
/// Processor time of this process in milliseconds.
pub fn cpu_ms() -> u64 {
    let mut t = [0i64; 2];
    unsafe { raw(228, 2, t.as_mut_ptr() as i64, 0, 0, 0, 0); }
    t[0] as u64 * 1000 + t[1] as u64 / 1_000_000
}
pub fn cpus() -> usize {
    let mut mask = [0u64; 16];
    let n = unsafe { raw(204, 0, 128, mask.as_mut_ptr() as i64, 0, 0, 0) };
    if n <= 0 { return 1; }
    (mask.iter().map(|m| m.count_ones() as usize).sum::<usize>()).max(1)
}
