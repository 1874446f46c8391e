//! The scheduler: real threads, exactly one of which holds the token at any time.
use crate::{
    decide::{self, Fault},
    rng, shm, sys,
};
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 64;
const CHUNK: u64 = 20_000;
/// Simulated nanoseconds per basic block.
const NS_PER_STEP: u64 = 4;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Unused,
    Runnable,
    Futex,
    Join,
    Sleep,
    Wait,
    Finished,
    Dead,
}
pub struct Th {
    word: AtomicU32,
    pub st: St,
    /// Basic blocks executed at the end of the current slice.
    mark: u64,
    slice: u64,
    deadline: u64,
    addr: usize,
    bits: u32,
    timed_out: bool,
    pub crash_wake: bool,
    prio: u64,
    join: usize,
    real: u64,
    arrival: u64,
    ctr: [u64; decide::NCLASS],
    start: usize,
    arg: usize,
}
const TH0: Th = Th {
    word: AtomicU32::new(0),
    st: St::Unused,
    mark: 0,
    slice: 0,
    deadline: u64::MAX,
    addr: 0,
    bits: 0,
    timed_out: false,
    crash_wake: false,
    prio: 0,
    join: 0,
    real: 0,
    arrival: 0,
    ctr: [0; decide::NCLASS],
    start: 0,
    arg: 0,
};
pub struct S {
    pub th: [Th; MAXT],
    pub n: usize,
    pub now: u64,
    pub real_off: i64,
    /// Clock jumps: event number, wall clock before and after.
    pub jumps: [(u64, i64, i64); 16],
    pub njumps: usize,
    pub steps: u64,
    cap: u64,
    mode: u8,
    mean: u64,
    changes: [u64; 16],
    nch: usize,
    low: u64,
    arrival: u64,
    run_since: u64,
    ev: u64,
    quiet: bool,
    /// Steps after which the run ends without a verdict (0: never).
    pub give_up: u64,
    pub crash_to: i32,
}
pub static mut S: S = S { th: [TH0; MAXT], n: 0, now: 0, real_off: 0, jumps: [(0, 0, 0); 16], njumps: 0, steps: 0, cap: 0, mode: 0, mean: 0, changes: [u64::MAX; 16], nch: 0, low: 0, arrival: 0, run_since: 0, ev: 0, quiet: false, give_up: 0, crash_to: -1 };

#[thread_local]
static mut TID: i32 = -1;
#[thread_local]
static mut IN_RT: u32 = 0;
#[thread_local]
static mut COUNT: u64 = 0;
#[thread_local]
pub static mut EDGE: u32 = 0;

#[allow(static_mut_refs)]
pub fn s() -> &'static mut S {
    unsafe { &mut S }
}
pub struct Rt;
impl Rt {
    #[inline]
    pub fn enter() -> Rt {
        unsafe { IN_RT += 1 }
        Rt
    }
}
impl Drop for Rt {
    #[inline]
    fn drop(&mut self) {
        unsafe { IN_RT -= 1 }
    }
}
#[inline]
pub fn tid() -> i32 {
    unsafe { TID }
}
/// Called from simulated code (not from the simulator itself)?
#[inline]
pub fn in_sim() -> bool {
    unsafe { TID >= 0 && IN_RT == 0 }
}
#[inline]
pub fn in_rt() -> bool {
    unsafe { IN_RT != 0 }
}
#[inline]
pub fn point() {
    unsafe {
        if IN_RT == 0 {
            COUNT = COUNT.wrapping_sub(1);
            if COUNT == 0 {
                slow()
            }
        }
    }
}
/// Next count of a decision class in the current thread.
pub fn bump(class: u8) -> (usize, u64) {
    unsafe {
        let t = TID.max(0) as usize;
        let c = &mut s().th[t].ctr[class as usize];
        let n = *c;
        *c += 1;
        (t, n)
    }
}
pub struct Cfg {
    pub mode: u8,
    pub mean: u64,
    pub depth: u64,
    pub len: u64,
    pub cap: u64,
}
/// Called in the thread that becomes thread 0 of the run.
pub fn enter_main(c: &Cfg, seed: u64) {
    let g = Rt::enter();
    let s = s();
    s.mode = c.mode;
    s.mean = c.mean.max(1);
    s.cap = c.cap;
    s.now = 1_000_000_000_000;
    s.real_off = 1_700_000_000_000_000_000 + (rng::mix(seed, 77) % 1_000_000_000_000) as i64;
    s.low = 1 << 40;
    if c.mode == 2 && unsafe { !decide::REPLAY } {
        s.nch = (c.depth as usize).min(16);
        for i in 0..s.nch {
            s.changes[i] = 1 + decide::rng().below(c.len.max(1));
        }
        s.changes[..s.nch].sort();
    }
    s.n = 1;
    s.th[0].st = St::Runnable;
    s.th[0].prio = new_prio();
    unsafe {
        TID = 0;
        COUNT = 0;
    }
    rearm();
    drop(g);
}
fn new_prio() -> u64 {
    if unsafe { decide::REPLAY } { 1 << 50 } else { (1 << 41) + decide::rng().below(1 << 40) }
}
fn me() -> &'static mut Th {
    &mut s().th[unsafe { TID } as usize]
}
/// Steps of the current thread so far.
fn local() -> u64 {
    me().mark - unsafe { COUNT }
}
/// Account the steps of the current thread up to now.
fn account() {
    let s = s();
    let l = local();
    let t = me();
    let d = l - t.slice;
    t.slice = l;
    s.steps += d;
    s.now += d * NS_PER_STEP;
}
/// Choose the next step count at which the current thread enters `slow`.
fn rearm() {
    let s = s();
    let t = me();
    let l = t.slice;
    let mut gap = CHUNK.min((s.cap + 1).saturating_sub(s.steps).max(1));
    unsafe {
        if decide::REPLAY {
            if let Some(n) = decide::next_after(decide::PREEMPT, TID as usize, l) {
                gap = gap.min(n - l)
            }
            if let Some(n) = decide::next_after(STALL, TID as usize, l) {
                gap = gap.min(n - l)
            }
        }
        else if s.quiet {
        }
        else if s.mode == 1 {
            gap = gap.min(decide::rng().gap(s.mean))
        }
        else if s.mode == 2 {
            if let Some(c) = s.changes[..s.nch].iter().find(|c| **c > s.steps) {
                gap = gap.min(c - s.steps)
            }
        }
        t.mark = l + gap;
        COUNT = gap;
    }
}
const STALL: u8 = decide::FAULT0 + Fault::Stall as u8;
fn runnable(i: usize) -> bool {
    s().th[i].st == St::Runnable
}
fn wake_timers() {
    let s = s();
    for t in s.th[..s.n].iter_mut() {
        if t.deadline <= s.now && matches!(t.st, St::Futex | St::Sleep | St::Wait) {
            t.deadline = u64::MAX;
            t.timed_out = true;
            t.st = St::Runnable;
        }
    }
}
fn slow() {
    unsafe {
        if TID < 0 {
            return;
        }
        let _g = Rt::enter();
        // COUNT is 0 here: local() == mark.
        account();
        let s = s();
        if s.give_up != 0 && s.steps > s.give_up {
            crate::log_line("gave up");
            crate::probe("no verdict: the reference takes too long");
            crate::report(shm::ST_OK, "", "")
        }
        if s.steps > s.cap {
            drop_dead("livelock", &format!("no end after {} basic blocks", s.steps));
        }
        if s.n > 1 {
            // All running threads stall until the earliest timer fires.
            let d = s.th[..s.n].iter().map(|t| t.deadline).min().unwrap();
            if d != u64::MAX && d > s.now {
                let k = decide::key(STALL, TID as usize, me().slice);
                let v = if decide::REPLAY { decide::lookup(k) } else { (decide::rate(Fault::Stall) > 0 && decide::rng().chance(decide::rate(Fault::Stall) as u64)) as u32 };
                decide::record(k, v);
                if v != 0 {
                    s.now = d;
                    shm::get().faults[Fault::Stall as usize] += 1;
                }
            }
            wake_timers();
            let cur = TID as usize;
            let target = if decide::REPLAY {
                let v = decide::lookup(decide::key(decide::PREEMPT, cur, me().slice)) as usize;
                if v > 0 && v <= s.n && runnable(v - 1) { v - 1 } else { cur }
            }
            else {
                choose_preempt(cur)
            };
            if target != cur {
                decide::record(decide::key(decide::PREEMPT, cur, me().slice), target as u32 + 1);
                shm::get().preempts += 1;
                go(target, true);
            }
        }
        rearm();
    }
}
fn others(cur: usize, out: &mut [usize; MAXT]) -> usize {
    let s = s();
    let mut n = 0;
    for d in 1..s.n {
        let i = (cur + d) % s.n;
        if runnable(i) {
            out[n] = i;
            n += 1
        }
    }
    n
}
fn choose_preempt(cur: usize) -> usize {
    let s = s();
    let mut o = [0; MAXT];
    let n = others(cur, &mut o);
    if n == 0 {
        return cur;
    }
    let hog = s.steps - s.run_since > 2_000_000;
    if s.quiet && !hog {
        return cur;
    }
    match s.mode {
        1 => {
            if s.mean >= CHUNK && !hog && !decide::rng().chance(300) {
                return cur;
            }
            o[decide::rng().usize(n)]
        }
        2 => {
            let hit = s.changes[..s.nch].contains(&s.steps);
            if hit || hog {
                s.low -= 1;
                s.th[cur].prio = s.low;
            }
            let best = o[..n].iter().copied().max_by_key(|i| s.th[*i].prio).unwrap();
            if s.th[best].prio > s.th[cur].prio { best } else { cur }
        }
        _ => {
            if hog { o[0] } else { cur }
        }
    }
}
/// Hand the token to `next`; if `wait`, return once this thread gets it back.
fn go(next: usize, wait: bool) {
    let s = s();
    let cur = unsafe { TID } as usize;
    if next == cur {
        return;
    }
    let sh = shm::get();
    sh.switches += 1;
    sh.il_hash = rng::mix(sh.il_hash, ((cur as u64) << 48) ^ ((next as u64) << 40) ^ unsafe { EDGE } as u64);
    s.run_since = s.steps;
    // A switch costs a little simulated time.
    s.now += 200;
    let t = &s.th[next];
    t.word.store(1, Ordering::Release);
    sys::futex_wake(t.word.as_ptr());
    if wait {
        await_token(cur)
    }
}
fn await_token(cur: usize) {
    let t = &s().th[cur];
    while t.word.swap(0, Ordering::Acquire) == 0 {
        sys::futex_wait(t.word.as_ptr(), 0)
    }
}
/// The current thread cannot go on: pick who runs. Its state has been set already (it may be chosen again if a timer fires).
fn pick_next() -> usize {
    let s = s();
    wake_timers();
    let cur = unsafe { TID } as usize;
    loop {
        let mut o = [0; MAXT];
        let mut n = others(cur, &mut o);
        if runnable(cur) {
            o[n] = cur;
            n += 1
        }
        if n == 0 {
            let d = s.th[..s.n].iter().map(|t| t.deadline).min().unwrap();
            if d == u64::MAX {
                let mut m = String::new();
                for (i, t) in s.th[..s.n].iter().enumerate() {
                    m.push_str(&format!("thread {i}: {:?}{}; ", t.st, if t.st == St::Join { format!(" thread {}", t.join) } else { String::new() }));
                }
                drop_dead("deadlock", &m);
            }
            s.now = s.now.max(d);
            wake_timers();
            continue;
        }
        if n == 1 {
            return o[0];
        }
        let best = match s.mode {
            2 => o[..n].iter().copied().max_by_key(|i| s.th[*i].prio).unwrap(),
            _ => o[0],
        };
        let v = decide::sched_decide(decide::PICK, |r| {
            let t = if s.mode == 1 && !s.quiet { o[r.usize(n)] } else { best };
            if t == o[0] { 0 } else { t as u32 + 1 }
        });
        if v > 0 && (v as usize) <= s.n && runnable(v as usize - 1) {
            return v as usize - 1;
        }
        return o[0];
    }
}
/// Give up the token until this thread is runnable again and chosen.
fn block(st: St) {
    account();
    me().st = st;
    let n = pick_next();
    go(n, true);
    rearm();
}
pub fn now() -> u64 {
    if unsafe { TID } >= 0 {
        account_now()
    }
    s().now
}
fn account_now() {
    account();
}
pub fn advance(ns: u64) {
    s().now += ns
}
/// Wall-clock time of the simulation, in nanoseconds since the epoch.
pub fn wall() -> u64 {
    let _g = Rt::enter();
    (now() as i64 + s().real_off) as u64
}
/// The wall clock jumps by `by`.
pub fn jump(by: i64) {
    let s = s();
    if s.njumps < s.jumps.len() {
        let before = s.now as i64 + s.real_off;
        s.real_off += by;
        s.jumps[s.njumps] = (s.ev, before, before + by);
        s.njumps += 1
    }
}
/// The lowest and the highest value of the wall clock between two moments, given as event number and clock.
pub fn wall_range(from: (u64, u64), to: (u64, u64)) -> (u64, u64) {
    let s = s();
    let jumps = s.jumps[..s.njumps].iter().filter(|j| from.0 <= j.0 && j.0 <= to.0).flat_map(|j| [j.1 as u64, j.2 as u64]);
    jumps.chain([from.1, to.1]).fold((u64::MAX, 0), |(lo, hi), t| (lo.min(t), hi.max(t)))
}
/// Sequence number of an event: strictly increasing over the whole run.
#[inline(never)]
pub fn seq() -> u64 {
    let s = s();
    s.ev += 1;
    s.ev
}
pub fn sleep_until(deadline: u64) {
    let _g = Rt::enter();
    account();
    me().deadline = deadline;
    me().timed_out = false;
    block(St::Sleep);
}
pub fn sleep_ns(ns: u64) {
    let d = now().saturating_add(ns);
    sleep_until(d)
}
pub fn yield_now() {
    let _g = Rt::enter();
    account();
    // Runnable, but others first.
    if s().mode == 2 {
        s().low -= 1;
        me().prio = s().low;
    }
    let n = pick_next();
    go(n, true);
    rearm();
}
pub enum Woken {
    Ok,
    Again,
    TimedOut,
    Spurious,
}
pub fn futex_wait(addr: usize, val: u32, deadline: Option<u64>, bits: u32) -> Woken {
    if decide::fault(Fault::SpuriousWake) {
        yield_now();
        return Woken::Spurious;
    }
    let _g = Rt::enter();
    account();
    if unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) } != val {
        return Woken::Again;
    }
    let s = s();
    let d = deadline.unwrap_or(u64::MAX);
    if d <= s.now {
        return Woken::TimedOut;
    }
    s.arrival += 1;
    let t = me();
    t.arrival = s.arrival;
    t.addr = addr;
    t.bits = bits;
    t.deadline = d;
    t.timed_out = false;
    block(St::Futex);
    if me().timed_out { Woken::TimedOut } else { Woken::Ok }
}
pub fn futex_wake(addr: usize, n: u32, bits: u32) -> i64 {
    let _g = Rt::enter();
    account();
    wake_timers();
    let mut woken = 0;
    while (woken as u32) < n {
        let mut o = [0; MAXT];
        let mut k = 0;
        let s = s();
        for i in 0..s.n {
            let t = &s.th[i];
            if t.st == St::Futex && t.addr == addr && t.bits & bits != 0 {
                o[k] = i;
                k += 1
            }
        }
        if k == 0 {
            break;
        }
        o[..k].sort_by_key(|i| s.th[*i].arrival);
        let v = if k > 1 && n < 1000 { decide::sched_decide(decide::WAKE, |r| if s.mode == 1 { r.below(k as u64) as u32 } else { 0 }) as usize } else { 0 };
        let i = o[v.min(k - 1)];
        s.th[i].st = St::Runnable;
        s.th[i].deadline = u64::MAX;
        woken += 1;
    }
    if woken > 0 {
        kick();
    }
    woken
}
/// Something became runnable: under priorities it may have to run at once.
fn kick() {
    if s().mode == 2 && !unsafe { decide::REPLAY } {
        account();
        let t = me();
        t.mark = t.slice + 1;
        unsafe { COUNT = 1 }
    }
}
/// Block until `wake_wait(addr)` (used by the simulator's own primitives: executors, simulated devices).
pub fn wait_on(addr: usize, deadline: Option<u64>) -> bool {
    let _g = Rt::enter();
    account();
    let t = me();
    t.addr = addr;
    t.deadline = deadline.unwrap_or(u64::MAX);
    t.timed_out = false;
    block(St::Wait);
    !me().timed_out
}
pub fn wake_wait(addr: usize) {
    let _g = Rt::enter();
    account();
    wake_timers();
    let s = s();
    let mut any = false;
    for i in 0..s.n {
        if s.th[i].st == St::Wait && s.th[i].addr == addr {
            s.th[i].st = St::Runnable;
            s.th[i].deadline = u64::MAX;
            any = true
        }
    }
    if any {
        kick()
    }
}
/// Register a new thread; returns its number.
pub fn add_thread(start: usize, arg: usize) -> usize {
    let _g = Rt::enter();
    let s = s();
    let i = s.n;
    if i >= MAXT {
        crate::harness_error("too many simulated threads");
    }
    s.n += 1;
    let t = &mut s.th[i];
    t.st = St::Runnable;
    t.prio = new_prio();
    t.start = start;
    t.arg = arg;
    kick();
    i
}
pub fn set_real(i: usize, h: u64) {
    s().th[i].real = h
}
pub fn by_real(h: u64) -> Option<usize> {
    let s = s();
    (0..s.n).rev().find(|i| s.th[*i].real == h && s.th[*i].st != St::Unused)
}
/// First code of a simulated thread.
pub fn thread_begin(i: usize) -> (usize, usize) {
    unsafe {
        IN_RT += 1;
        TID = i as i32;
        await_token(i);
        COUNT = 0;
        let t = me();
        t.mark = 0;
        t.slice = 0;
        rearm();
        IN_RT -= 1;
        (t.start, t.arg)
    }
}
/// Last code of a simulated thread.
pub fn thread_end() {
    unsafe {
        if TID < 0 {
            return;
        }
        IN_RT += 1;
        account();
        let s = s();
        let cur = TID as usize;
        s.th[cur].st = St::Finished;
        for i in 0..s.n {
            if s.th[i].st == St::Join && s.th[i].join == cur {
                s.th[i].st = St::Runnable
            }
        }
        let n = pick_next();
        go(n, false);
        TID = -1;
    }
}
pub fn join(i: usize) {
    let _g = Rt::enter();
    account();
    if matches!(s().th[i].st, St::Finished) {
        return;
    }
    me().join = i;
    block(St::Join);
}
pub fn finished(i: usize) -> bool {
    matches!(s().th[i].st, St::Finished | St::Dead)
}
pub fn thread_count() -> usize {
    s().n
}
/// No more preemptions (used by final checks of a scenario).
pub fn quiet(on: bool) {
    s().quiet = on
}
/// Runs `f` without preemptions. The run ends without a verdict if `f` takes more than `limit` steps or kills the process
/// (used for the reference: what the code under test cannot do at all is not the question).
pub fn tolerant<T>(limit: u64, f: impl FnOnce() -> T) -> T {
    let s = s();
    let old = (s.quiet, s.give_up, shm::get().tolerant);
    {
        let _g = Rt::enter();
        account();
        s.quiet = true;
        s.give_up = s.steps + limit;
        shm::get().tolerant = 1;
        rearm();
    }
    let r = f();
    let _g = Rt::enter();
    account();
    (s.quiet, s.give_up, shm::get().tolerant) = old;
    rearm();
    r
}
/// Kill every other thread (a process crash seen from thread `keep`, which goes on with a "restarted" process).
/// If the current thread is not `keep` this never returns.
pub fn crash(keep: usize) {
    unsafe {
        IN_RT += 1;
        account();
        let s = s();
        for i in 0..s.n {
            if i != keep && !matches!(s.th[i].st, St::Finished) {
                s.th[i].st = St::Dead;
                s.th[i].deadline = u64::MAX;
            }
        }
        s.th[keep].st = St::Runnable;
        s.th[keep].deadline = u64::MAX;
        s.th[keep].crash_wake = true;
        if TID as usize != keep {
            go(keep, true);
            crate::harness_error("a dead thread was scheduled");
        }
        IN_RT -= 1;
    }
}
pub fn take_crash() -> bool {
    std::mem::take(&mut me().crash_wake)
}
pub fn drop_dead(class: &str, detail: &str) -> ! {
    crate::report(shm::ST_VIOLATION, class, detail)
}
pub fn finish_stats() {
    let s = s();
    let sh = shm::get();
    if unsafe { TID } >= 0 && s.n > 0 {
        account()
    }
    sh.steps = s.steps;
    sh.sim_ns = s.now.saturating_sub(1_000_000_000_000);
    sh.threads = s.n as u32;
    sh.events = s.ev;
}
