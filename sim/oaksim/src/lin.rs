//! Linearizability checker (Wing & Gong with memoisation) over short histories.
use std::{collections::HashSet, hash::Hash};

#[derive(Clone, Debug)]
pub struct Op<I, O> {
    pub tid: usize,
    pub inv: u64,
    pub ret: u64,
    pub i: I,
    pub o: O,
}
/// `step` returns the state after the operation if the observed output is allowed there.
pub fn check<S: Clone + Hash + Eq, I, O>(init: S, h: &[Op<I, O>], step: impl Fn(&S, &Op<I, O>) -> Option<S>) -> bool {
    assert!(h.len() <= 64);
    let all = if h.len() == 64 { !0u64 } else { (1u64 << h.len()) - 1 };
    let mut seen: HashSet<(u64, S)> = HashSet::new();
    let mut stack = vec![(0u64, init)];
    while let Some((done, s)) = stack.pop() {
        if done == all {
            return true;
        }
        if !seen.insert((done, s.clone())) {
            continue;
        }
        // An operation may come next if no other pending one returned before it was invoked.
        let min_ret = h.iter().enumerate().filter(|(k, _)| done >> k & 1 == 0).map(|(_, o)| o.ret).min().unwrap();
        for (k, o) in h.iter().enumerate() {
            if done >> k & 1 == 0 && o.inv < min_ret {
                if let Some(n) = step(&s, o) {
                    stack.push((done | 1 << k, n))
                }
            }
        }
    }
    false
}
