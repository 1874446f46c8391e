//! Raw system calls (never routed through the interposed libc symbols).
use std::arch::asm;

#[inline]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    unsafe {
        asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
             out("rcx") _, out("r11") _, options(nostack));
    }
    r
}
#[inline]
pub unsafe fn raw3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    unsafe { raw6(n, a, b, c, 0, 0, 0) }
}
#[inline]
pub unsafe fn raw4(n: i64, a: i64, b: i64, c: i64, d: i64) -> i64 {
    unsafe { raw6(n, a, b, c, d, 0, 0) }
}
pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
/// Convert a raw result to the libc convention.
pub fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno((-r) as i32);
        -1
    }
    else {
        r
    }
}
pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe {
        raw6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, 0, 0, 0);
    }
}
pub fn futex_wake(addr: *const u32) {
    unsafe {
        raw6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0);
    }
}
pub fn real_now_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { raw3(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, ts.as_mut_ptr() as i64, 0) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw3(libc::SYS_exit_group, code as i64, 0, 0);
    }
    loop {}
}
/// Debug output straight to the real stderr.
pub fn eprint_raw(s: &str) {
    unsafe {
        raw3(libc::SYS_write, 2, s.as_ptr() as i64, s.len() as i64);
    }
}
