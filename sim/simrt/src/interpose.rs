//! Replacements for the C library functions through which the code under test meets the outside world.
//! Outside a run (or inside the simulator itself) each passes straight through.
use crate::{
    decide::{self, Fault},
    fs, rng, sched, sys,
};
use libc::*;
use std::ffi::{CStr, c_char, c_void};

pub static mut HASH_SEED: u64 = 0;
pub static mut CPUS: u32 = 4;

macro_rules! real {
    ($name:literal, $ty:ty) => {{
        static mut P: usize = 0;
        unsafe {
            if P == 0 {
                P = dlsym(RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            }
            std::mem::transmute::<usize, $ty>(P)
        }
    }};
}
fn p<'a>(path: *const c_char) -> &'a str {
    unsafe { CStr::from_ptr(path).to_str().unwrap_or("\u{fffd}") }
}
fn out<T: TryInto<i64>>(r: Result<T, i32>) -> i64 {
    match r {
        Ok(v) => v.try_into().unwrap_or(0),
        Err(e) => {
            sys::set_errno(e);
            -1
        }
    }
}
fn unit(r: Result<(), i32>) -> c_int {
    out(r.map(|_| 0i64)) as c_int
}

// ---- sancov ----
static mut NGUARD: u32 = 0;
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut q = start;
        while q < stop {
            NGUARD += 1;
            *q = NGUARD;
            q = q.add(1);
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    unsafe {
        let sh = crate::shm::SHM;
        let e = *g;
        if !sh.is_null() && (e as usize) < crate::shm::COV_CAP {
            (*sh).cov[e as usize] = 1;
        }
        sched::EDGE = e;
        sched::point();
    }
}
pub fn edges() -> usize {
    unsafe { NGUARD as usize + 1 }
}

// ---- randomness and time ----
fn random(buf: *mut u8, len: usize) {
    let (t, n) = sched::bump(decide::FAULT0 + 46);
    let mut r = rng::Rng::new(rng::mix(unsafe { HASH_SEED }, ((t as u64) << 32) + n));
    for i in 0..len {
        unsafe { *buf.add(i) = r.next() as u8 }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if sched::in_sim() {
        random(buf as *mut u8, len);
        return len as ssize_t;
    }
    unsafe { sys::ret(sys::raw3(SYS_getrandom, buf as i64, len as i64, flags as i64)) as ssize_t }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: size_t) -> c_int {
    unsafe { if getrandom(buf, len, 0) == len as isize { 0 } else { -1 } }
}
fn sim_clock(clk: i64) -> (i64, i64) {
    sched::point();
    let _g = sched::Rt::enter();
    sched::advance(100);
    let now = sched::now() as i64;
    let v = if clk == CLOCK_REALTIME as i64 || clk == CLOCK_REALTIME_COARSE as i64 {
        drop(_g);
        let f = decide::fault_val(Fault::ClockFwd, 30);
        if f != 0 {
            sched::jump(1_000_000_000i64 << (f / 2));
        }
        let b = decide::fault_val(Fault::ClockBack, 24);
        if b != 0 {
            sched::jump(-(1_000_000_000i64 << (b / 2)));
        }
        now + sched::s().real_off
    }
    else {
        now
    };
    (v.div_euclid(1_000_000_000), v.rem_euclid(1_000_000_000))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if sched::in_sim() {
        let (s, n) = sim_clock(clk as i64);
        unsafe {
            (*ts).tv_sec = s;
            (*ts).tv_nsec = n;
        }
        return 0;
    }
    unsafe { sys::ret(sys::raw3(SYS_clock_gettime, clk as i64, ts as i64, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, _tz: *mut c_void) -> c_int {
    let mut ts: timespec = unsafe { std::mem::zeroed() };
    unsafe {
        clock_gettime(CLOCK_REALTIME, &mut ts);
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let mut ts: timespec = unsafe { std::mem::zeroed() };
    unsafe {
        clock_gettime(CLOCK_REALTIME, &mut ts);
        if !t.is_null() {
            *t = ts.tv_sec
        }
    }
    ts.tv_sec
}
fn ns(ts: *const timespec) -> u64 {
    unsafe { ((*ts).tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if sched::in_sim() {
        sched::sleep_ns(ns(req));
        return 0;
    }
    unsafe { sys::ret(sys::raw3(SYS_nanosleep, req as i64, rem as i64, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if sched::in_sim() {
        let mut d = ns(req);
        if flags & TIMER_ABSTIME != 0 {
            if clk == CLOCK_REALTIME {
                d = (d as i64 - sched::s().real_off).max(0) as u64
            }
            sched::sleep_until(d)
        }
        else {
            sched::sleep_ns(d)
        }
        return 0;
    }
    let r = unsafe { sys::raw4(SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64) };
    (-r) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    if sched::in_sim() {
        sched::sleep_ns(us as u64 * 1000);
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sched::in_sim() {
        sched::yield_now();
        return 0;
    }
    unsafe { sys::ret(sys::raw3(SYS_sched_yield, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_getaffinity(pid: pid_t, size: size_t, set: *mut cpu_set_t) -> c_int {
    unsafe {
        if sched::in_sim() {
            std::ptr::write_bytes(set as *mut u8, 0, size);
            for i in 0..CPUS as usize {
                CPU_SET(i, &mut *set)
            }
            return 0;
        }
        let r = sys::raw3(SYS_sched_getaffinity, pid as i64, size as i64, set as i64);
        if r < 0 {
            return sys::ret(r) as c_int;
        }
        std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, size - r as usize);
        0
    }
}

// ---- futex ----
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if sched::in_sim() {
        match n {
            SYS_futex => {
                let op = b as i32 & !(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
                let realtime = b as i32 & FUTEX_CLOCK_REALTIME != 0;
                match op {
                    FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                        sched::point();
                        let dl = if d == 0 {
                            None
                        }
                        else {
                            let v = ns(d as *const timespec);
                            Some(if op == FUTEX_WAIT {
                                sched::now().saturating_add(v)
                            }
                            else if realtime {
                                (v as i64 - sched::s().real_off).max(0) as u64
                            }
                            else {
                                v
                            })
                        };
                        let bits = if op == FUTEX_WAIT_BITSET { f as u32 } else { !0 };
                        return match sched::futex_wait(a as usize, c as u32, dl, bits) {
                            sched::Woken::Ok => 0,
                            sched::Woken::Again => {
                                sys::set_errno(EAGAIN);
                                -1
                            }
                            sched::Woken::TimedOut => {
                                sys::set_errno(ETIMEDOUT);
                                -1
                            }
                            sched::Woken::Spurious => {
                                sys::set_errno(EINTR);
                                -1
                            }
                        };
                    }
                    FUTEX_WAKE | FUTEX_WAKE_BITSET => {
                        let bits = if op == FUTEX_WAKE_BITSET { f as u32 } else { !0 };
                        let n = sched::futex_wake(a as usize, c as u32, bits);
                        sched::point();
                        return n;
                    }
                    _ => crate::harness_error("futex operation not simulated"),
                }
            }
            SYS_getrandom => {
                random(a as *mut u8, b as usize);
                return b;
            }
            SYS_gettid => return 10_000 + sched::tid() as i64,
            SYS_copy_file_range => {
                sys::set_errno(ENOSYS);
                return -1;
            }
            SYS_sched_yield => {
                sched::yield_now();
                return 0;
            }
            _ => crate::harness_error(&format!("system call {n} not simulated")),
        }
    }
    unsafe { sys::ret(sys::raw6(n, a, b, c, d, e, f)) }
}

// ---- threads ----
const STACKS: usize = 0x5000_0000_0000;
static mut STACK_TOP: usize = STACKS;
static mut KEY: pthread_key_t = 0;
static mut KEY_ON: bool = false;
extern "C" fn key_dtor(v: *mut c_void) {
    unsafe {
        // Let every other destructor run first.
        if (v as usize) < 3 {
            pthread_setspecific(KEY, (v as usize + 1) as *const c_void);
            return;
        }
        sched::thread_end();
    }
}
pub fn start() {
    unsafe {
        if !KEY_ON {
            pthread_key_create(&raw mut KEY, Some(key_dtor));
            KEY_ON = true
        }
        // Resolve before the run: dlsym takes locks of its own.
        let _ = real_create();
        let _ = real_join();
    }
}
type Create = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
type Join = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;
fn real_create() -> Create {
    real!("pthread_create", Create)
}
fn real_join() -> Join {
    real!("pthread_join", Join)
}
extern "C" fn trampoline(a: *mut c_void) -> *mut c_void {
    let (start, arg) = sched::thread_begin(a as usize);
    unsafe {
        pthread_setspecific(KEY, 1 as *const c_void);
        let f: extern "C" fn(*mut c_void) -> *mut c_void = std::mem::transmute(start);
        f(arg as *mut c_void)
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, attr: *const pthread_attr_t, start: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    unsafe {
        if !sched::in_sim() {
            return real_create()(t, attr, start, arg);
        }
        sched::point();
        let i = sched::add_thread(start as usize, arg as usize);
        let r = {
            let _g = sched::Rt::enter();
            let mut size: size_t = 0;
            if !attr.is_null() {
                pthread_attr_getstacksize(attr, &mut size);
            }
            let size = size.max(2 << 20);
            let base = STACK_TOP;
            STACK_TOP += size + (64 << 10);
            let m = sys::raw6(SYS_mmap, (base + (64 << 10)) as i64, size as i64, (PROT_READ | PROT_WRITE) as i64, (MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE) as i64, -1, 0);
            if m < 0 {
                crate::harness_error("cannot map a thread stack")
            }
            let mut at: pthread_attr_t = std::mem::zeroed();
            pthread_attr_init(&mut at);
            pthread_attr_setstack(&mut at, m as *mut c_void, size);
            let r = real_create()(t, &at, trampoline, i as *mut c_void);
            pthread_attr_destroy(&mut at);
            sched::set_real(i, *t as u64);
            r
        };
        if r != 0 {
            crate::harness_error("pthread_create failed")
        }
        sched::point();
        0
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_join(t: pthread_t, ret: *mut *mut c_void) -> c_int {
    unsafe {
        if sched::in_sim() {
            sched::point();
            if let Some(i) = sched::by_real(t as u64) {
                sched::join(i);
            }
            let _g = sched::Rt::enter();
            return real_join()(t, ret);
        }
        real_join()(t, ret)
    }
}

// ---- files ----
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if sched::in_sim() {
        return out(fs::open(p(path), flags, mode).map(|v| v as i64)) as c_int;
    }
    unsafe { sys::ret(sys::raw4(SYS_openat, AT_FDCWD as i64, path as i64, flags as i64, mode as i64)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { open64(path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if sched::in_sim() {
        let q = { let _g = sched::Rt::enter(); fs::at_path(dir, p(path)) };
        return out(fs::open(&q, flags, mode).map(|v| v as i64)) as c_int;
    }
    unsafe { sys::ret(sys::raw4(SYS_openat, dir as i64, path as i64, flags as i64, mode as i64)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { openat64(dir, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if sched::in_sim() {
        if fd == 0 {
            sched::point();
            let f = fs::fs();
            let k = f.stdin.len().min(n);
            unsafe { std::ptr::copy_nonoverlapping(f.stdin.as_ptr(), buf as *mut u8, k) }
            let _g = sched::Rt::enter();
            f.stdin.drain(..k);
            return k as ssize_t;
        }
        return out(fs::read(fd, buf as *mut u8, n, None)) as ssize_t;
    }
    unsafe { sys::ret(sys::raw3(SYS_read, fd as i64, buf as i64, n as i64)) as ssize_t }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if sched::in_sim() {
        return out(fs::read(fd, buf as *mut u8, n, Some(off as u64))) as ssize_t;
    }
    unsafe { sys::ret(sys::raw4(SYS_pread64, fd as i64, buf as i64, n as i64, off)) as ssize_t }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if sched::in_sim() {
        for i in 0..n as usize {
            let v = unsafe { &*iov.add(i) };
            if v.iov_len > 0 {
                return unsafe { read(fd, v.iov_base, v.iov_len) };
            }
        }
        return 0;
    }
    unsafe { sys::ret(sys::raw3(SYS_readv, fd as i64, iov as i64, n as i64)) as ssize_t }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if sched::in_sim() {
        if fd == 1 || fd == 2 {
            return out(fs::stdout_write(fd, buf as *const u8, n)) as ssize_t;
        }
        return out(fs::write(fd, buf as *const u8, n, None)) as ssize_t;
    }
    unsafe { sys::ret(sys::raw3(SYS_write, fd as i64, buf as i64, n as i64)) as ssize_t }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if sched::in_sim() {
        return out(fs::write(fd, buf as *const u8, n, Some(off as u64))) as ssize_t;
    }
    unsafe { sys::ret(sys::raw4(SYS_pwrite64, fd as i64, buf as i64, n as i64, off)) as ssize_t }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if sched::in_sim() {
        for i in 0..n as usize {
            let v = unsafe { &*iov.add(i) };
            if v.iov_len > 0 {
                return unsafe { write(fd, v.iov_base, v.iov_len) };
            }
        }
        return 0;
    }
    unsafe { sys::ret(sys::raw3(SYS_writev, fd as i64, iov as i64, n as i64)) as ssize_t }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if sched::in_sim() && fs::is_fd(fd) {
        return unit(fs::close(fd));
    }
    unsafe { sys::ret(sys::raw3(SYS_close, fd as i64, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if sched::in_sim() {
        return out(fs::seek(fd, off, whence));
    }
    unsafe { sys::ret(sys::raw3(SYS_lseek, fd as i64, off, whence as i64)) }
}
fn fill_stat(m: &fs::Meta, b: *mut stat64) {
    unsafe {
        *b = std::mem::zeroed();
        (*b).st_ino = m.ino;
        (*b).st_dev = 1;
        (*b).st_mode = m.mode;
        (*b).st_size = m.size as i64;
        (*b).st_nlink = m.nlink as u64;
        (*b).st_blksize = 4096;
        (*b).st_mtime = (m.mtime / 1_000_000_000) as i64;
        (*b).st_mtime_nsec = (m.mtime % 1_000_000_000) as i64;
    }
}
fn stat_to(r: Result<fs::Meta, i32>, b: *mut stat64) -> c_int {
    match r {
        Ok(m) => {
            fill_stat(&m, b);
            0
        }
        Err(e) => unit(Err(e)),
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat64(path: *const c_char, b: *mut stat64) -> c_int {
    if sched::in_sim() {
        return stat_to(fs::stat_path(p(path), true), b);
    }
    unsafe { sys::ret(sys::raw4(SYS_newfstatat, AT_FDCWD as i64, path as i64, b as i64, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lstat64(path: *const c_char, b: *mut stat64) -> c_int {
    if sched::in_sim() {
        return stat_to(fs::stat_path(p(path), false), b);
    }
    unsafe { sys::ret(sys::raw4(SYS_newfstatat, AT_FDCWD as i64, path as i64, b as i64, AT_SYMLINK_NOFOLLOW as i64)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut stat64) -> c_int {
    if sched::in_sim() && fs::is_fd(fd) {
        return stat_to(fs::stat_fd(fd), b);
    }
    unsafe { sys::ret(sys::raw3(SYS_fstat, fd as i64, b as i64, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstatat64(dir: c_int, path: *const c_char, b: *mut stat64, flags: c_int) -> c_int {
    if sched::in_sim() {
        let q = { let _g = sched::Rt::enter(); fs::at_path(dir, p(path)) };
        return stat_to(fs::stat_path(&q, flags & AT_SYMLINK_NOFOLLOW == 0), b);
    }
    unsafe { sys::ret(sys::raw4(SYS_newfstatat, dir as i64, path as i64, b as i64, flags as i64)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, b: *mut statx) -> c_int {
    if sched::in_sim() {
        // std probes for the call with null pointers.
        if path.is_null() || b.is_null() {
            return unit(Err(EFAULT));
        }
        let s = p(path);
        let r = if s.is_empty() && flags & AT_EMPTY_PATH != 0 {
            fs::stat_fd(dir)
        }
        else {
            let q = { let _g = sched::Rt::enter(); fs::at_path(dir, s) };
            fs::stat_path(&q, flags & AT_SYMLINK_NOFOLLOW == 0)
        };
        return match r {
            Ok(m) => unsafe {
                *b = std::mem::zeroed();
                (*b).stx_mask = STATX_BASIC_STATS;
                (*b).stx_mode = m.mode as u16;
                (*b).stx_ino = m.ino;
                (*b).stx_size = m.size;
                (*b).stx_nlink = m.nlink;
                (*b).stx_blksize = 4096;
                (*b).stx_mtime.tv_sec = (m.mtime / 1_000_000_000) as i64;
                (*b).stx_mtime.tv_nsec = (m.mtime % 1_000_000_000) as u32;
                0
            },
            Err(e) => unit(Err(e)),
        };
    }
    unsafe { sys::ret(sys::raw6(SYS_statx, dir as i64, path as i64, flags as i64, mask as i64, b as i64, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if sched::in_sim() {
        return unit(fs::mkdir(p(path), mode));
    }
    unsafe { sys::ret(sys::raw3(SYS_mkdir, path as i64, mode as i64, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if sched::in_sim() {
        return unit(fs::unlink(p(path), true));
    }
    unsafe { sys::ret(sys::raw3(SYS_rmdir, path as i64, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if sched::in_sim() {
        return unit(fs::unlink(p(path), false));
    }
    unsafe { sys::ret(sys::raw3(SYS_unlink, path as i64, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    if sched::in_sim() {
        let q = { let _g = sched::Rt::enter(); fs::at_path(dir, p(path)) };
        return unit(fs::unlink(&q, flags & AT_REMOVEDIR != 0));
    }
    unsafe { sys::ret(sys::raw3(SYS_unlinkat, dir as i64, path as i64, flags as i64)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if sched::in_sim() {
        return unit(fs::rename(p(a), p(b)));
    }
    unsafe { sys::ret(sys::raw3(SYS_rename, a as i64, b as i64, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if sched::in_sim() {
        return unit(fs::hardlink(p(a), p(b)));
    }
    unsafe { sys::ret(sys::raw3(SYS_link, a as i64, b as i64, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn linkat(ad: c_int, a: *const c_char, bd: c_int, b: *const c_char, flags: c_int) -> c_int {
    if sched::in_sim() {
        return unit(fs::hardlink(p(a), p(b)));
    }
    unsafe { sys::ret(sys::raw6(SYS_linkat, ad as i64, a as i64, bd as i64, b as i64, flags as i64, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if sched::in_sim() {
        return unit(fs::symlink(p(a), p(b)));
    }
    unsafe { sys::ret(sys::raw3(SYS_symlink, a as i64, b as i64, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if sched::in_sim() {
        return match fs::readlink(p(path)) {
            Ok(v) => {
                let k = v.len().min(n);
                unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), buf as *mut u8, k) }
                k as ssize_t
            }
            Err(e) => unit(Err(e)) as ssize_t,
        };
    }
    unsafe { sys::ret(sys::raw3(SYS_readlink, path as i64, buf as i64, n as i64)) as ssize_t }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn realpath(path: *const c_char, buf: *mut c_char) -> *mut c_char {
    if sched::in_sim() {
        return match fs::realpath(p(path)) {
            Ok(v) => unsafe {
                // The caller frees this with free().
                let q = if buf.is_null() { malloc(v.len() + 1) as *mut c_char } else { buf };
                std::ptr::copy_nonoverlapping(v.as_ptr(), q as *mut u8, v.len());
                *q.add(v.len()) = 0;
                q
            },
            Err(e) => {
                unit(Err(e));
                std::ptr::null_mut()
            }
        };
    }
    let f = real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char);
    unsafe { f(path, buf) }
}
fn is_sim_dir(d: *mut DIR) -> bool {
    (d as usize) < 1 << 20
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut DIR {
    if sched::in_sim() {
        return match fs::opendir(p(path)) {
            Ok(d) => d as *mut DIR,
            Err(e) => {
                unit(Err(e));
                std::ptr::null_mut()
            }
        };
    }
    let f = real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut DIR);
    unsafe { f(path) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut DIR {
    if sched::in_sim() {
        return match fs::fdopendir(fd) {
            Ok(d) => d as *mut DIR,
            Err(e) => {
                unit(Err(e));
                std::ptr::null_mut()
            }
        };
    }
    let f = real!("fdopendir", unsafe extern "C" fn(c_int) -> *mut DIR);
    unsafe { f(fd) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    if sched::in_sim() && is_sim_dir(d) {
        return match fs::readdir(d as usize) {
            Ok(e) => e,
            Err(e) => {
                unit(Err(e));
                std::ptr::null_mut()
            }
        };
    }
    let f = real!("readdir64", unsafe extern "C" fn(*mut DIR) -> *mut dirent64);
    unsafe { f(d) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    if is_sim_dir(d) {
        fs::closedir(d as usize);
        return 0;
    }
    let f = real!("closedir", unsafe extern "C" fn(*mut DIR) -> c_int);
    unsafe { f(d) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int {
    if is_sim_dir(d) {
        return fs::dirfd(d as usize);
    }
    let f = real!("dirfd", unsafe extern "C" fn(*mut DIR) -> c_int);
    unsafe { f(d) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if sched::in_sim() {
        return unit(fs::truncate_fd(fd, len as u64));
    }
    unsafe { sys::ret(sys::raw3(SYS_ftruncate, fd as i64, len, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if sched::in_sim() {
        return unit(fs::sync_fd(fd));
    }
    unsafe { sys::ret(sys::raw3(SYS_fsync, fd as i64, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if sched::in_sim() {
        return unit(fs::sync_fd(fd));
    }
    unsafe { sys::ret(sys::raw3(SYS_fdatasync, fd as i64, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    if sched::in_sim() {
        return unit(fs::chmod(p(path), mode));
    }
    unsafe { sys::ret(sys::raw3(SYS_chmod, path as i64, mode as i64, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if sched::in_sim() {
        return 0;
    }
    unsafe { sys::ret(sys::raw3(SYS_fchmod, fd as i64, mode as i64, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if sched::in_sim() {
        return unit(fs::access(p(path)));
    }
    unsafe { sys::ret(sys::raw3(SYS_access, path as i64, mode as i64, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn faccessat(dir: c_int, path: *const c_char, mode: c_int, _f: c_int) -> c_int {
    if sched::in_sim() {
        return unit(fs::access(p(path)));
    }
    unsafe { sys::ret(sys::raw4(SYS_faccessat, dir as i64, path as i64, mode as i64, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn copy_file_range(_a: c_int, _b: *mut off64_t, _c: c_int, _d: *mut off64_t, _n: size_t, _f: c_uint) -> ssize_t {
    sys::set_errno(ENOSYS);
    -1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendfile64(_a: c_int, _b: c_int, _c: *mut off64_t, _n: size_t) -> ssize_t {
    sys::set_errno(EINVAL);
    -1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if sched::in_sim() {
        sys::set_errno(ENOTTY);
        return 0;
    }
    let mut t = [0u8; 128];
    unsafe { (sys::raw3(SYS_ioctl, fd as i64, TCGETS as i64, t.as_mut_ptr() as i64) == 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if sched::in_sim() {
        let c = &fs::fs().cwd;
        if c.len() + 1 > n {
            sys::set_errno(ERANGE);
            return std::ptr::null_mut();
        }
        unsafe {
            std::ptr::copy_nonoverlapping(c.as_ptr(), buf as *mut u8, c.len());
            *buf.add(c.len()) = 0;
        }
        return buf;
    }
    let r = unsafe { sys::raw3(SYS_getcwd, buf as i64, n as i64, 0) };
    if r < 0 {
        sys::ret(r);
        return std::ptr::null_mut();
    }
    buf
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_getattr_np(t: pthread_t, attr: *mut pthread_attr_t) -> c_int {
    let f = real!("pthread_getattr_np", unsafe extern "C" fn(pthread_t, *mut pthread_attr_t) -> c_int);
    unsafe {
        let _g = sched::Rt::enter();
        let r = f(t, attr);
        if r == 0 && sched::tid() > 0 {
            // The gap below a simulated thread's stack is its guard.
            pthread_attr_setguardsize(attr, 4096);
        }
        r
    }
}

unsafe fn fcntl_(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if sched::in_sim() && fs::is_fd(fd) {
        let r = fs::flags(fd).and_then(|flags| match cmd {
            F_GETFD => Ok(FD_CLOEXEC),
            F_GETFL => Ok(flags),
            F_DUPFD | F_DUPFD_CLOEXEC => fs::dup(fd),
            F_SETFD | F_SETFL => Ok(0),
            _ => Err(EINVAL),
        });
        return out(r.map(|n| n as i64)) as c_int;
    }
    unsafe { sys::ret(sys::raw3(SYS_fcntl, fd as i64, cmd as i64, arg as i64)) as c_int }
}
// Variadic in C; the third argument is passed the same way.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    unsafe { fcntl_(fd, cmd, arg) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    unsafe { fcntl_(fd, cmd, arg) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if sched::in_sim() && fs::is_fd(fd) {
        return out(fs::dup(fd).map(|n| n as i64)) as c_int;
    }
    unsafe { sys::ret(sys::raw3(SYS_dup, fd as i64, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if sched::in_sim() && fs::is_fd(fd) {
        if op & LOCK_UN != 0 {
            return unit(fs::unlock(fd));
        }
        loop {
            match fs::try_lock(fd, op & LOCK_EX != 0) {
                Ok(true) => return 0,
                Ok(false) if op & LOCK_NB != 0 => return unit(Err(EWOULDBLOCK)),
                Ok(false) => sched::sleep_ns(1_000_000),
                Err(e) => return unit(Err(e)),
            }
        }
    }
    unsafe { sys::ret(sys::raw3(SYS_flock, fd as i64, op as i64, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, off: off64_t, len: off64_t, advice: c_int) -> c_int {
    if sched::in_sim() && fs::is_fd(fd) {
        return 0;
    }
    unsafe { -sys::raw6(SYS_fadvise64, fd as i64, off, len, advice as i64, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn futimens(fd: c_int, ts: *const timespec) -> c_int {
    unsafe { utimensat(fd, c"".as_ptr(), ts, 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn utimensat(dir: c_int, path: *const c_char, ts: *const timespec, flags: c_int) -> c_int {
    if sched::in_sim() {
        let t = unsafe { if ts.is_null() || (*ts.add(1)).tv_nsec == UTIME_NOW { None } else { Some(*ts.add(1)) } };
        if t.is_some_and(|t| t.tv_nsec == UTIME_OMIT) {
            return 0;
        }
        let s = p(path);
        let q = if s.is_empty() { String::new() } else { let _g = sched::Rt::enter(); fs::at_path(dir, s) };
        return unit(fs::set_mtime(dir, &q, flags & AT_SYMLINK_NOFOLLOW == 0, t.map(|t| t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64)));
    }
    unsafe {
        let empty = path.is_null() || *path == 0;
        sys::ret(sys::raw6(SYS_utimensat, dir as i64, if empty { 0 } else { path as i64 }, ts as i64, flags as i64, 0, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn renameat(ad: c_int, a: *const c_char, bd: c_int, b: *const c_char) -> c_int {
    if sched::in_sim() {
        let (x, y) = { let _g = sched::Rt::enter(); (fs::at_path(ad, p(a)), fs::at_path(bd, p(b))) };
        return unit(fs::rename(&x, &y));
    }
    unsafe { sys::ret(sys::raw6(SYS_renameat, ad as i64, a as i64, bd as i64, b as i64, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdirat(dir: c_int, path: *const c_char, mode: mode_t) -> c_int {
    if sched::in_sim() {
        let q = { let _g = sched::Rt::enter(); fs::at_path(dir, p(path)) };
        return unit(fs::mkdir(&q, mode));
    }
    unsafe { sys::ret(sys::raw3(SYS_mkdirat, dir as i64, path as i64, mode as i64)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn chdir(path: *const c_char) -> c_int {
    if sched::in_sim() {
        return unit(fs::chdir(p(path)));
    }
    unsafe { sys::ret(sys::raw3(SYS_chdir, path as i64, 0, 0)) as c_int }
}
