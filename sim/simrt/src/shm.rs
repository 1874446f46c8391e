//! Memory shared between a worker and the child process that executes one run.
use crate::sys;

pub const MAX_DEC: usize = 1 << 18;
pub const LOG_CAP: usize = 1 << 18;
pub const COV_CAP: usize = 1 << 20;
pub const MAX_PROBE: usize = 128;
pub const MAX_FAULT: usize = 64;

pub const ST_RUNNING: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_HARNESS: u32 = 3;

#[repr(C)]
pub struct Shm {
    pub status: u32,
    /// A crash now is no finding (see sched::tolerant).
    pub tolerant: u32,
    pub class_len: u32,
    pub class: [u8; 256],
    pub detail_len: u32,
    pub detail: [u8; 8192],
    pub log_hash: u64,
    pub il_hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub sim_ns: u64,
    pub threads: u32,
    pub events: u64,
    pub faults: [u32; MAX_FAULT],
    pub probes: [u32; MAX_PROBE],
    pub ndec: u32,
    pub dec_overflow: u32,
    pub dec: [(u64, u32); MAX_DEC],
    pub log_len: u32,
    pub log: [u8; LOG_CAP],
    pub cov: [u8; COV_CAP],
    pub state_n: u32,
    pub state: [u64; 4096],
}
pub static mut SHM: *mut Shm = std::ptr::null_mut();

pub fn map() {
    unsafe {
        let p = sys::raw6(libc::SYS_mmap, 0, std::mem::size_of::<Shm>() as i64, (libc::PROT_READ | libc::PROT_WRITE) as i64, (libc::MAP_SHARED | libc::MAP_ANONYMOUS) as i64, -1, 0);
        if p < 0 {
            sys::eprint_raw("simrt: cannot map shared memory\n");
            sys::exit_now(99)
        }
        SHM = p as *mut Shm;
    }
}
pub fn get() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
/// Reset what one run writes (the coverage map is cleared too: it is merged by the worker after each run).
pub fn reset(ncov: usize) {
    let s = get();
    s.status = ST_RUNNING;
    s.tolerant = 0;
    s.class_len = 0;
    s.detail_len = 0;
    s.log_hash = 0xcbf29ce484222325;
    s.il_hash = 0;
    s.steps = 0;
    s.switches = 0;
    s.preempts = 0;
    s.sim_ns = 0;
    s.threads = 0;
    s.events = 0;
    s.faults = [0; MAX_FAULT];
    s.probes = [0; MAX_PROBE];
    s.ndec = 0;
    s.dec_overflow = 0;
    s.log_len = 0;
    s.state_n = 0;
    s.cov[..ncov.min(COV_CAP)].fill(0);
}
