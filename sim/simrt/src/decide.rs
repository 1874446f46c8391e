//! Every choice of a run: scheduling, faults, stream fragmentation.
//!
//! A decision is keyed by (class, thread, how-manieth of that class in that thread); 0 is always the benign default
//! (no preemption, no fault, next thread in round-robin order). A searching run draws values from the run's generator and
//! records those that are not 0; a replaying run looks them up, so a recorded list reproduces the run, and dropping
//! entries of the list yields simpler runs.
use crate::{rng::Rng, sched, shm};

pub const PREEMPT: u8 = 0;
pub const PICK: u8 = 1;
pub const WAKE: u8 = 2;
pub const FAULT0: u8 = 8;

macro_rules! faults {
    ($($name:ident = $n:expr, $s:expr;)*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u8)]
        pub enum Fault { $($name = $n),* }
        pub const FAULTS: &[(u8, &str)] = &[$(($n, $s)),*];
        impl Fault { pub fn name(self) -> &'static str { match self { $(Fault::$name => $s),* } } }
    };
}
faults! {
    Stall = 0, "stall";
    SpuriousWake = 1, "spurious_wake";
    ClockFwd = 2, "clock_jump_forward";
    ClockBack = 3, "clock_jump_back";
    OpenErr = 4, "fs_open_error";
    OpenEintr = 5, "fs_open_eintr";
    ReadErr = 6, "fs_read_eio";
    ReadEintr = 7, "fs_read_eintr";
    ReadShort = 8, "fs_short_read";
    WriteErr = 9, "fs_write_eio";
    WriteEintr = 10, "fs_write_eintr";
    WriteShort = 11, "fs_short_write";
    NoSpace = 12, "fs_disk_full";
    StatErr = 13, "fs_stat_error";
    DirErr = 14, "fs_readdir_error";
    MkdirErr = 15, "fs_mkdir_error";
    SyncErr = 16, "fs_fsync_eio";
    IoDelay = 17, "fs_slow_io";
    Crash = 18, "crash";
    TornWrite = 19, "crash_torn_write";
    StreamPending = 20, "stream_pending";
    StreamShort = 21, "stream_short_read";
    StreamErr = 22, "stream_error";
    StreamEof = 23, "stream_eof_early";
    StreamWriteShort = 24, "stream_short_write";
    StreamWriteErr = 25, "stream_write_error";
    TermErr = 26, "terminal_error";
    StdoutErr = 27, "stdout_error";
    EventDup = 28, "watch_event_duplicated";
    EventErr = 29, "watch_event_error";
    EventDelay = 30, "watch_event_delayed";
    TaskPending = 31, "task_pending";
    TaskCancel = 32, "task_cancelled";
    PanicInject = 33, "callback_panic";
    ChunkSplit = 34, "chunk_split";
    Choice = 35, "choice";
    AcquireErr = 36, "fs_other_error";
    WorkerKill = 37, "thread_killed";
    TermKey = 38, "terminal_odd_event";
    LateWake = 39, "late_wakeup";
    StderrErr = 40, "stderr_error";
}
pub const NCLASS: usize = FAULT0 as usize + 48;

pub static mut RATES: [u32; 48] = [0; 48];
pub static mut REPLAY: bool = false;
static mut RNG: Option<Rng> = None;
static mut PLAY: (*const (u64, u32), usize) = (std::ptr::null(), 0);

pub fn key(class: u8, tid: usize, n: u64) -> u64 {
    ((class as u64) << 56) | ((tid as u64 & 0xff) << 48) | (n & 0xffff_ffff_ffff)
}
pub fn unkey(k: u64) -> (u8, usize, u64) {
    ((k >> 56) as u8, ((k >> 48) & 0xff) as usize, k & 0xffff_ffff_ffff)
}
pub fn class_name(c: u8) -> &'static str {
    match c {
        PREEMPT => "preempt",
        PICK => "pick-next",
        WAKE => "wake-order",
        _ => FAULTS.iter().find(|f| f.0 + FAULT0 == c).map(|f| f.1).unwrap_or("?"),
    }
}
/// Set up for one run. `play` must be sorted by key and outlive the run.
pub fn start(seed: u64, play: Option<&[(u64, u32)]>) {
    unsafe {
        RNG = Some(Rng::new(seed));
        REPLAY = play.is_some();
        if let Some(p) = play {
            PLAY = (p.as_ptr(), p.len());
        }
    }
}
#[allow(static_mut_refs)]
pub fn rng() -> &'static mut Rng {
    unsafe { RNG.as_mut().unwrap() }
}
fn play() -> &'static [(u64, u32)] {
    unsafe { std::slice::from_raw_parts(PLAY.0, PLAY.1) }
}
pub fn lookup(k: u64) -> u32 {
    let p = play();
    match p.binary_search_by_key(&k, |d| d.0) {
        Ok(i) => p[i].1,
        Err(_) => 0,
    }
}
/// First recorded decision of `class`/`tid` at a count greater than `after`.
pub fn next_after(class: u8, tid: usize, after: u64) -> Option<u64> {
    let p = play();
    let k = key(class, tid, after);
    let i = p.partition_point(|d| d.0 <= k);
    let (c, t, n) = unkey(p.get(i)?.0);
    (c == class && t == tid).then_some(n)
}
pub fn record(k: u64, v: u32) {
    if v == 0 {
        return;
    }
    let s = shm::get();
    let n = s.ndec as usize;
    if n >= shm::MAX_DEC {
        s.dec_overflow = 1;
        return;
    }
    s.dec[n] = (k, v);
    s.ndec = n as u32 + 1;
}
fn decide(class: u8, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
    let _g = sched::Rt::enter();
    let (tid, n) = sched::bump(class);
    let k = key(class, tid, n);
    unsafe {
        if REPLAY {
            let v = lookup(k);
            // A replaying run records what it used, so that it can be compared with the original.
            record(k, v);
            v
        }
        else {
            let v = f(rng());
            record(k, v);
            v
        }
    }
}
/// A non-default choice out of 1..=n with the configured probability (per mille) of this fault kind, else 0.
pub fn fault_val(kind: Fault, n: u32) -> u32 {
    if !sched::in_sim() || n == 0 {
        return 0;
    }
    let rate = unsafe { RATES[kind as usize] } as u64;
    if rate == 0 {
        return 0;
    }
    let v = decide(FAULT0 + kind as u8, |r| if r.chance(rate) { 1 + r.below(n as u64) as u32 } else { 0 });
    if v != 0 {
        shm::get().faults[kind as usize] += 1;
    }
    v.min(n)
}
pub fn fault(kind: Fault) -> bool {
    fault_val(kind, 1) != 0
}
/// Uniform choice in 0..n (0 is the default).
pub fn choose(n: u32) -> u32 {
    if n <= 1 || !sched::in_sim() {
        return 0;
    }
    decide(FAULT0 + Fault::Choice as u8, |r| r.below(n as u64) as u32).min(n - 1)
}
/// Undo the count of a fault that turned out not to change anything.
pub fn rate(kind: Fault) -> u32 {
    unsafe { RATES[kind as usize] }
}
pub fn set_rate(kind: Fault, r: u32) {
    unsafe { RATES[kind as usize] = r }
}
/// Stop injecting faults (the liveness phase of a run). Preemption goes on.
pub fn faults_off() {
    unsafe {
        for f in FAULTS {
            if f.0 != Fault::Choice as u8 {
                RATES[f.0 as usize] = 0
            }
        }
    }
}
pub fn sched_decide(class: u8, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
    decide(class, f)
}
/// `choose` for the simulator's own code.
pub fn choose_in_rt(n: u32) -> u32 {
    if n <= 1 || sched::tid() < 0 {
        return 0;
    }
    decide(FAULT0 + Fault::Choice as u8, |r| r.below(n as u64) as u32).min(n - 1)
}
