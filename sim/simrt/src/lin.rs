//! Wing & Gong style linearizability search for short histories over a small sequential model.
use std::collections::BTreeSet;

pub struct LOp<O> {
    pub inv: u64,
    /// u64::MAX: never returned (may or may not have taken effect)
    pub ret: u64,
    pub op: O,
    /// index of an operation that must take effect before this one
    pub dep: Option<usize>,
}

/// `step(state, op)` returns the next state if the op's recorded result is allowed in `state`.
/// Returns None when the search budget ran out (history not decided).
pub fn linearizable<S: Clone + Ord, O>(init: S, ops: &[LOp<O>], step: &dyn Fn(&S, &O) -> Option<S>) -> Option<bool> {
    assert!(ops.len() <= 64);
    let all: u64 = if ops.len() == 64 { u64::MAX } else { (1u64 << ops.len()) - 1 };
    let must: u64 = ops.iter().enumerate().filter(|(_, o)| o.ret != u64::MAX).fold(0, |m, (i, _)| m | 1 << i);
    let mut seen: BTreeSet<(u64, S)> = BTreeSet::new();
    let mut stack: Vec<(u64, S)> = vec![(0, init)];
    let mut budget = 200_000usize;
    while let Some((done, st)) = stack.pop() {
        if done & must == must {
            return Some(true);
        }
        budget -= 1;
        if budget == 0 {
            return None;
        }
        let mut min_ret = u64::MAX;
        for (i, o) in ops.iter().enumerate() {
            if done & (1 << i) == 0 {
                min_ret = min_ret.min(o.ret);
            }
        }
        for (i, o) in ops.iter().enumerate().rev() {
            if done & (1 << i) != 0 || o.inv > min_ret || o.dep.is_some_and(|d| done & (1 << d) == 0) {
                continue;
            }
            if let Some(n) = step(&st, &o.op) {
                let k = ((done | 1 << i) & all, n);
                if seen.insert(k.clone()) {
                    stack.push(k);
                }
            }
        }
    }
    Some(false)
}
