//! T02: tests with a time limit, as `#[oak_test]` makes them.
use serde::{Deserialize, Serialize};
use simrt::{Fault, Rng, Scenario, Value, check, ev, json};
use std::{
    sync::Mutex,
    time::{Duration, Instant},
};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Body {
    /// Milliseconds of work, in so many parts
    ms: u64,
    parts: u64,
    /// 0 ends, 1 panics, 2 never ends, 3 returns early, 4 panics with something that is no text, 5 ends while a thread of its own works on
    end: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    threads: Vec<Vec<Body>>,
}
fn make(r: &mut Rng, thorough: bool) -> Value {
    let threads = (0..r.range(1, 4))
        .map(|_| {
            (0..r.range(1, if thorough { 6 } else { 4 }))
                .map(|_| Body { ms: *r.pick(&[0, 0, 0, 1, 999, 1_001, 4_000, 9_000, 9_900, 10_000, 10_100, 11_000, 20_000, 3_600_000]), parts: r.range(1, 4), end: *r.pick(&[0, 0, 0, 0, 1, 1, 2, 3, 4, 5]) })
                .collect()
        })
        .collect();
    json!({"cfg": simrt::make_cfg(r, true, &[(Fault::SpuriousWake, 600), (Fault::ClockFwd, 200), (Fault::ClockBack, 200)]), "w": Case { threads }})
}
const N: usize = 4;
/// The next body of each test function and how far it got: 0 not begun, 1 begun, 2 at its end
static NEXT: Mutex<[Option<(Body, &'static Mutex<u8>)>; N]> = Mutex::new([const { None }; N]);
fn work(i: usize) -> Option<()> {
    let (b, at) = NEXT.lock().unwrap()[i].take().unwrap_or_else(|| simrt::violation("body runs twice", "the body of a test ran once more"));
    *at.lock().unwrap() = 1;
    for _ in 0..b.parts {
        std::thread::sleep(Duration::from_nanos(b.ms * 1_000_000 / b.parts))
    }
    while b.end == 2 {
        std::thread::sleep(Duration::from_secs(7))
    }
    if b.end == 5 {
        simrt::spawn(|| std::thread::sleep(Duration::from_secs(60)));
    }
    *at.lock().unwrap() = 2;
    match b.end {
        1 => panic!("injected: the test fails"),
        4 => std::panic::panic_any(7u32),
        3 => None,
        _ => Some(()),
    }
}
#[allow(unused_must_use)]
mod tests {
    use super::work;
    use oak_macros::oak_test;
    use plain::test;
    #[oak_test]
    pub fn t0() {
        work(0);
    }
    #[oak_test]
    pub fn t1() {
        if work(1).is_none() {
            return;
        }
        let v: Vec<u8> = Vec::new();
        assert!(v.is_empty());
    }
    /// With an attribute and a value of its own
    #[allow(dead_code)]
    #[oak_test]
    pub(crate) fn t2() {
        match work(2) {
            Some(()) => (),
            None => return,
        }
    }
    #[oak_test]
    pub fn t3() {
        let name = String::from("t3");
        let end = move || work(if name == "t3" { 3 } else { 0 });
        end();
    }
}
const TESTS: [fn(); N] = [tests::t0, tests::t1, tests::t2, tests::t3];
fn worker(t: usize, bodies: Vec<Body>) {
    for b in bodies {
        let at: &'static Mutex<u8> = Box::leak(Box::default());
        NEXT.lock().unwrap()[t] = Some((b.clone(), at));
        let from = Instant::now();
        let got = std::panic::catch_unwind(TESTS[t]).map_err(|p| p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default());
        let took = from.elapsed().as_millis() as u64;
        let at = *at.lock().unwrap();
        let fails = matches!(b.end, 1 | 4);
        ev!("test {t}: {} after {took} ms, body at {at}", if got.is_ok() { "passes" } else { "fails" });
        // A few milliseconds of work besides the sleeping decide nothing.
        let never = b.end == 2;
        check!(at > 0, "body not run", "{b:?}: {got:?}");
        check!(took <= 10_050, "no verdict in time", "{b:?}: the verdict came after {took} ms");
        if !never && b.ms < 9_950 {
            check!(at == 2, "too early", "{b:?}: the verdict {got:?} came after {took} ms, before the body ended");
            check!(got.is_ok() != fails, "wrong verdict", "{b:?}: {got:?} after {took} ms");
            check!(took <= b.ms + 50, "no verdict in time", "{b:?}: the verdict came after {took} ms");
            if let Err(p) = got {
                check!(!p.contains("timed out"), "wrong verdict", "{b:?} is said to take too long after {took} ms");
            }
        }
        else if never || b.ms > 10_050 {
            check!(got.is_err(), "wrong verdict", "{b:?} passes after {took} ms");
            check!(took >= 10_000, "too early", "{b:?}: {got:?} after {took} ms");
            simrt::probe("timed:too slow");
        }
    }
}
fn run(w: &Value) {
    let c: Case = serde_json::from_value(w.clone()).unwrap_or_else(|e| simrt::harness_error(&e.to_string()));
    let ws: Vec<_> = c.threads.into_iter().take(N).enumerate().map(|(t, b)| simrt::spawn(move || worker(t, b))).collect();
    for w in ws {
        simrt::join(w);
    }
}
pub static TIMED: Scenario = Scenario { name: "timed-tests", about: "Threads run tests with a time limit that end, fail, or take too long", make, run };
