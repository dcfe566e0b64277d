//! Linearizability of the registration operations and deliveries of one source.
use std::collections::HashSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    /// add with this key: accepted, or refused because it was registered.
    AddOk(u64),
    AddDup,
    ModOk(u64),
    ModMissing,
    DelOk,
    DelMissing,
    /// An event with this key.
    Deliver(u64),
    /// A wait that had room for everything and saw no event of this source (never blocked).
    Silent,
    /// Repeated waits that saw everything there was and then nothing more: nothing is due.
    Quiet,
}
#[derive(Clone, Copy, Debug)]
pub struct Rec {
    pub op: Op,
    pub start: u64,
    pub end: u64,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum St {
    None,
    Reg(u64, bool),
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Rules {
    pub oneshot: bool,
    /// The source is ready all the time (or never).
    pub ready: bool,
    /// Event ports: adding and modifying are the same, deleting what is not there is fine.
    pub loose: bool,
}
fn step(op: Op, s: St, r: Rules) -> Option<St> {
    match (op, s) {
        (Op::AddOk(k), St::Reg(..)) | (Op::ModOk(k), St::None) if r.loose => Some(St::Reg(k, true)),
        (Op::DelOk, St::None) if r.loose => Some(s),
        (Op::AddOk(k), St::None) => Some(St::Reg(k, true)),
        (Op::AddDup, St::Reg(..)) => Some(s),
        (Op::ModOk(k), St::Reg(..)) => Some(St::Reg(k, true)),
        (Op::ModMissing, St::None) => Some(s),
        (Op::DelOk, St::Reg(..)) => Some(St::None),
        (Op::DelMissing, St::None) => Some(s),
        (Op::Deliver(k), St::Reg(c, armed)) if c == k && r.ready && (armed || !r.oneshot) => Some(St::Reg(k, false)),
        (Op::Quiet, St::None) => Some(s),
        (Op::Quiet, St::Reg(_, armed)) if !r.ready || (r.oneshot && !armed) => Some(s),
        (Op::Silent, _) => Some(s),
        _ => None,
    }
}
pub enum Verdict {
    Ok(u64),
    No(String),
    GaveUp,
}
/// Is there one order of all operations, consistent with real time, that the rules allow?
pub fn check(threads: &[Vec<Rec>], r: Rules, budget: usize) -> Verdict {
    let n = threads.len();
    let mut seen: HashSet<(Vec<u16>, St)> = HashSet::new();
    let mut stack = vec![(vec![0u16; n], St::None)];
    let mut best: (usize, Vec<u16>, St) = (0, vec![0; n], St::None);
    let total: usize = threads.iter().map(|t| t.len()).sum();
    while let Some((ix, st)) = stack.pop() {
        let done: usize = ix.iter().map(|x| *x as usize).sum();
        if done == total {
            return Verdict::Ok(seen.len() as u64);
        }
        if done >= best.0 {
            best = (done, ix.clone(), st);
        }
        if seen.len() > budget {
            return Verdict::GaveUp;
        }
        // Only operations that started before every pending one ended can be next.
        let horizon = (0..n).filter_map(|t| threads[t].get(ix[t] as usize)).map(|o| o.end).min().unwrap();
        for t in 0..n {
            if let Some(o) = threads[t].get(ix[t] as usize) {
                if o.start <= horizon {
                    if let Some(s2) = step(o.op, st, r) {
                        let mut i2 = ix.clone();
                        i2[t] += 1;
                        if seen.insert((i2.clone(), s2)) {
                            stack.push((i2, s2));
                        }
                    }
                }
            }
        }
    }
    let next: Vec<String> = (0..n).filter_map(|t| threads[t].get(best.1[t] as usize).map(|o| format!("thread {t}: {:?} [{}, {}]", o.op, o.start, o.end))).collect();
    let mut before: Vec<(u64, String)> = vec![];
    for t in 0..n {
        for o in threads[t][..best.1[t] as usize].iter().rev().take(3) {
            before.push((o.start, format!("thread {t}: {:?} [{}, {}]", o.op, o.start, o.end)));
        }
    }
    before.sort();
    Verdict::No(format!("after {} operations in state {:?} none of these can follow: {}. Before: {}", best.0, best.2, next.join(", "), before.into_iter().map(|x| x.1).collect::<Vec<_>>().join("; ")))
}
