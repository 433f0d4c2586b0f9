//! Linearizability of a gradient cell: add a unique contribution, clear, read.
//! State: None (absent) or the set of contributions since the last clear.
use std::collections::HashSet;
#[derive(Clone, Debug)]
pub enum Kind {
    Add(u64),
    Clear,
    /// what was read: absent or a set of contributions
    Read(Option<u64>),
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub kind: Kind,
    pub start: u64,
    pub end: u64,
    pub thread: usize,
}
/// Is there an order of the events, consistent with real time, that explains every read
/// (and the final state, if given)?
pub fn linearizable(ev: &[Ev], init: Option<u64>) -> bool {
    assert!(ev.len() <= 64);
    let mut seen: HashSet<(u64, Option<u64>)> = HashSet::new();
    let mut stack = vec![(0u64, init)];
    let all = if ev.len() == 64 { u64::MAX } else { (1u64 << ev.len()) - 1 };
    while let Some((done, st)) = stack.pop() {
        if done == all {
            return true;
        }
        if !seen.insert((done, st)) {
            continue;
        }
        // an event may come next if no other pending event ended before it started
        let first_end = (0..ev.len()).filter(|i| done >> i & 1 == 0).map(|i| ev[i].end).min().unwrap();
        for (i, e) in ev.iter().enumerate() {
            if done >> i & 1 == 1 || e.start > first_end {
                continue;
            }
            let next = match e.kind {
                Kind::Add(b) => Some(st.unwrap_or(0) | b),
                Kind::Clear => None,
                Kind::Read(v) if v == st => st,
                Kind::Read(_) => continue,
            };
            stack.push((done | 1 << i, next));
        }
    }
    false
}
/// Self-test: the checker accepts and rejects known histories.
pub fn self_test() {
    let e = |kind, start, end| Ev { kind, start, end, thread: 0 };
    use Kind::*;
    // lost update
    assert!(!linearizable(&[e(Add(1), 0, 5), e(Add(2), 1, 6), e(Read(Some(1)), 7, 8)], None));
    assert!(linearizable(&[e(Add(1), 0, 5), e(Add(2), 1, 6), e(Read(Some(3)), 7, 8)], None));
    // concurrent read may see any prefix
    assert!(linearizable(&[e(Add(1), 0, 5), e(Read(None), 1, 6)], None));
    assert!(linearizable(&[e(Add(1), 0, 5), e(Read(Some(1)), 1, 6)], None));
    // a clear that comes strictly later removes it
    assert!(!linearizable(&[e(Add(1), 0, 1), e(Clear, 2, 3), e(Read(Some(1)), 4, 5)], None));
    // stale read after a finished clear and add
    assert!(!linearizable(&[e(Add(1), 0, 1), e(Clear, 2, 3), e(Add(2), 4, 5), e(Read(Some(3)), 6, 7)], None));
    assert!(linearizable(&[e(Add(1), 0, 9), e(Clear, 2, 3), e(Add(2), 4, 5), e(Read(Some(3)), 10, 11)], None));
    // two reads in opposite orders
    assert!(!linearizable(
        &[e(Add(1), 0, 20), e(Add(2), 0, 20), e(Read(Some(1)), 1, 2), e(Read(Some(2)), 3, 4)],
        None
    ));
}
