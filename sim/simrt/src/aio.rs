//! Simulated asynchronous I/O and a small executor.
use crate::{Fault, choose, fault, fault_val, sched};
use std::{
    future::Future,
    pin::{Pin, pin},
    sync::Arc,
    task::{Context, Poll, Wake, Waker},
};

struct Flag {
    on: std::sync::atomic::AtomicBool,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.on.store(true, std::sync::atomic::Ordering::SeqCst);
        sched::wake_wait(Arc::as_ptr(self) as usize)
    }
}
/// Why a future did not finish.
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Stop {
    /// Dropped at a suspension point by the `task_cancelled` fault.
    Cancelled,
}
/// Drive a future to completion in the current simulated thread. A future that is never woken is a deadlock.
pub fn block_on<T>(f: impl Future<Output = T>) -> T {
    let mut f = pin!(f);
    let flag = Arc::new(Flag { on: Default::default() });
    let w: Waker = flag.clone().into();
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        wait(&flag)
    }
}
/// As `block_on`, but the future may be dropped at any suspension point.
pub fn block_on_cancel<T>(f: impl Future<Output = T>) -> Result<T, Stop> {
    let mut f = pin!(f);
    let flag = Arc::new(Flag { on: Default::default() });
    let w: Waker = flag.clone().into();
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Ok(v);
        }
        if fault(Fault::TaskCancel) {
            return Err(Stop::Cancelled);
        }
        wait(&flag)
    }
}
fn wait(flag: &Arc<Flag>) {
    while !flag.on.swap(false, std::sync::atomic::Ordering::SeqCst) {
        sched::wait_on(Arc::as_ptr(flag) as usize, None);
    }
}
/// Return Pending once with the given fault kind's probability, waking immediately or later from a timer thread.
pub struct MaybePending(pub Fault, bool);
pub fn maybe_pending(kind: Fault) -> MaybePending {
    MaybePending(kind, false)
}
impl Future for MaybePending {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if !self.1 && fault(self.0) {
            self.1 = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(())
    }
}
/// What one poll of a simulated stream does.
pub enum Act {
    Pending,
    Err(std::io::ErrorKind),
    Eof,
    Take(usize),
}
/// Decide the next action of a reader with `avail` bytes left and room for `room`.
pub fn read_act(avail: usize, room: usize, pended: &mut bool) -> Act {
    if !*pended && fault(Fault::StreamPending) {
        *pended = true;
        return Act::Pending;
    }
    *pended = false;
    let e = fault_val(Fault::StreamErr, 3);
    if e != 0 {
        return Act::Err([std::io::ErrorKind::ConnectionReset, std::io::ErrorKind::Other, std::io::ErrorKind::Interrupted][e as usize - 1]);
    }
    if fault(Fault::StreamEof) {
        return Act::Eof;
    }
    let n = avail.min(room);
    if n > 1 {
        let v = fault_val(Fault::StreamShort, (n - 1) as u32);
        if v != 0 {
            return Act::Take(if choose(2) == 0 { v as usize } else { 1 });
        }
    }
    Act::Take(n)
}
