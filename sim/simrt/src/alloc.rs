//! Global allocator of the simulator binary.
//!
//! Outside a run it is the system allocator. Inside a run (in the forked child) it is a deterministic bump allocator:
//! addresses depend only on the allocation history, every allocation and release is a scheduling point, freed memory is
//! filled with 0xDD and never reused, and freed blocks of at least 64 KiB become inaccessible (a late access is SIGSEGV).
use crate::{sched, sys};
use std::alloc::{GlobalAlloc, Layout, System};

pub const BASE: usize = 0x6000_0000_0000;
pub const SIZE: usize = 24 << 30;
const BIG: usize = 64 * 1024;

/// What follows a live block, and a freed one
const ZONE: u8 = 0xA7;
const FREED: u8 = 0xDE;

pub struct SimAlloc;

#[derive(Default, Clone, Copy, Debug)]
pub struct AllocStats {
    pub bump: usize,
    pub live_blocks: i64,
    pub live_bytes: i64,
    /// Live blocks of at least 64 KiB.
    pub big_blocks: i64,
    pub big_bytes: i64,
    pub allocs: u64,
    pub double_free: u64,
}
const RT_BASE: usize = 0x7000_0000_0000;
const RT_SIZE: usize = 4 << 30;
static mut RT_BUMP: usize = 0;
static mut ON: bool = false;
static mut ST: AllocStats = AllocStats { bump: 0, live_blocks: 0, live_bytes: 0, big_blocks: 0, big_bytes: 0, allocs: 0, double_free: 0 };

/// Switch the simulated heap on (in the forked child, before the run).
pub fn start() {
    unsafe {
        let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE;
        let p = sys::raw6(libc::SYS_mmap, BASE as i64, SIZE as i64, (libc::PROT_READ | libc::PROT_WRITE) as i64, flags as i64, -1, 0);
        if p != BASE as i64 {
            sys::eprint_raw("simrt: cannot reserve the simulated heap\n");
            sys::exit_now(99);
        }
        let p = sys::raw6(libc::SYS_mmap, RT_BASE as i64, RT_SIZE as i64, (libc::PROT_READ | libc::PROT_WRITE) as i64, flags as i64, -1, 0);
        if p != RT_BASE as i64 {
            sys::eprint_raw("simrt: cannot reserve the runtime heap\n");
            sys::exit_now(99);
        }
        ON = true;
    }
}
pub fn stats() -> AllocStats {
    unsafe { ST }
}
#[inline]
fn ours(p: *mut u8) -> bool {
    (BASE..BASE + SIZE).contains(&(p as usize))
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            if !ON {
                return System.alloc(l);
            }
            if sched::in_rt() || sched::tid() < 0 {
                // The simulator's own memory: a separate region, so that it does not move the heap of the code under test.
                let start = (RT_BASE + RT_BUMP + l.align().max(16) - 1) & !(l.align().max(16) - 1);
                RT_BUMP = start + l.size() - RT_BASE;
                if RT_BUMP > RT_SIZE {
                    sys::eprint_raw("simrt: runtime heap exhausted\n");
                    sys::exit_now(98);
                }
                return start as *mut u8;
            }
            sched::point();
            let big = l.size() >= BIG;
            // A redzone of 16 bytes between small blocks; big blocks own whole pages.
            let align = if big { l.align().max(4096) } else { l.align().max(16) };
            let start = (BASE + ST.bump + align - 1) & !(align - 1);
            let end = start + l.size() + 16;
            let end = if big { (end + 4095) & !4095 } else { end };
            if end > BASE + SIZE {
                sys::eprint_raw("simrt: simulated heap exhausted\n");
                sys::exit_now(98);
            }
            ST.bump = end - BASE;
            ST.live_blocks += 1;
            ST.live_bytes += l.size() as i64;
            ST.allocs += 1;
            if big {
                ST.big_blocks += 1;
                ST.big_bytes += l.size() as i64
            }
            std::ptr::write_bytes((start + l.size()) as *mut u8, ZONE, 16);
            start as *mut u8
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            if !ours(p) {
                if (RT_BASE..RT_BASE + RT_SIZE).contains(&(p as usize)) {
                    return;
                }
                if !ON {
                    System.dealloc(p, l);
                }
                // A block of the parent's heap released inside a run is simply dropped with the process.
                return;
            }
            sched::point();
            let zone = std::slice::from_raw_parts(p.add(l.size()), 16);
            if zone != [ZONE; 16] {
                let (class, d) = if zone == [FREED; 16] { ("double free", format!("a block of {} bytes is freed twice", l.size())) } else { ("heap overflow", format!("the bytes after a block of {} bytes were overwritten, or it is freed with another size than it has", l.size())) };
                crate::violation(class, &d)
            }
            ST.live_blocks -= 1;
            ST.live_bytes -= l.size() as i64;
            if l.size() >= BIG {
                ST.big_blocks -= 1;
                ST.big_bytes -= l.size() as i64;
                let len = (l.size() + 16 + 4095) & !4095;
                // mprotect alone would keep the pages: give them back first.
                sys::raw3(libc::SYS_madvise, p as i64, len as i64, libc::MADV_DONTNEED as i64);
                sys::raw3(libc::SYS_mprotect, p as i64, len as i64, libc::PROT_NONE as i64);
            }
            else {
                std::ptr::write_bytes(p, 0xDD, l.size());
                std::ptr::write_bytes(p.add(l.size()), FREED, 16);
            }
        }
    }
}
