//! C11: subscribers of a MutableVec.
use futures_signals::signal_vec::{MutableSignalVec, MutableVec};
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::{apply, Task};
use harness::mvec::*;
use harness::vecsrc::{big_contents, large, El};
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use futures_signals::signal_vec::{SignalVecExt, VecDiff};
use std::task::Poll;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// operations within one lock
    Ops(Vec<MvOp>),
    Subscribe(bool, bool),
    /// a subscriber polls until it is pending
    Run(u8),
    Once(u8),
    Spurious(u8),
    Unsubscribe(u8),
    CloneHandle,
    DropHandle,
    /// this many more subscribers, handles
    Crowd(u16, u32),
    /// only this many of the subscribers and one of the handles stay
    Leave(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cloned: bool,
    init: Vec<u8>,
    steps: Vec<Step>,
}

fn case() -> impl Strategy<Value = Case> {
    sized(false)
}

/// A few steps on large contents.
fn case_large() -> impl Strategy<Value = Case> {
    sized(true)
}

fn sized(big: bool) -> impl Strategy<Value = Case> {
    let step = prop_oneof![
        12 => prop_oneof![3 => proptest::collection::vec(mvop(), 1), 1 => proptest::collection::vec(mvop(), 0..5)].prop_map(Step::Ops),
        3 => (any::<bool>(), any::<bool>()).prop_map(|(c, r)| Step::Subscribe(c, r)),
        6 => any::<u8>().prop_map(Step::Run),
        3 => any::<u8>().prop_map(Step::Once),
        1 => any::<u8>().prop_map(Step::Spurious),
        1 => any::<u8>().prop_map(Step::Unsubscribe),
        1 => Just(Step::CloneHandle),
        1 => Just(Step::DropHandle),
    ];
    (
        any::<bool>(),
        if big { large(usize::MAX).boxed() } else { big_contents().boxed() },
        if big { proptest::collection::vec(step, 3..12).boxed() } else { harness::gen::script(step, 30, 120).boxed() },
    )
        .prop_map(|(cloned, init, steps)| Case { cloned, init, steps })
}

/// Hundreds of subscribers and of handles.
fn case_crowd() -> impl Strategy<Value = Case> {
    let many = || prop_oneof![Just(255u16), Just(256), Just(257), 2u16..600];
    let step = prop_oneof![
        2 => (many(), prop_oneof![4 => many().prop_map(u32::from), 1 => 65_530u32..65_540]).prop_map(|(s, h)| Step::Crowd(s, h)),
        1 => (0u16..20).prop_map(Step::Leave),
        6 => proptest::collection::vec(mvop(), 0..4).prop_map(Step::Ops),
        2 => any::<u8>().prop_map(Step::Run),
        1 => any::<u8>().prop_map(Step::Unsubscribe),
        1 => Just(Step::DropHandle),
    ];
    (any::<bool>(), proptest::collection::vec(0u8..4, 0..4), proptest::collection::vec(step, 3..15))
        .prop_map(|(cloned, init, steps)| Case { cloned, init, steps })
}

struct Sub<T> {
    sig: MutableSignalVec<T>,
    task: Task,
    v: Vec<T>,
    /// contents which are still to be passed through, without repetitions
    due: std::collections::VecDeque<Vec<T>>,
    diffs: usize,
    pending: bool,
    ended: bool,
    /// an operation that sends something happened since it subscribed
    touched: bool,
    /// contents when subscribed
    first: Vec<T>,
}

impl<T: Elem> Sub<T> {
    fn new(m: &MutableVec<T>, cloned: bool, reuse: bool, now: &[T]) -> Self {
        let mut s = Sub {
            sig: T::subscribe(m, cloned),
            task: Task::new(reuse),
            v: vec![],
            due: Default::default(),
            diffs: 0,
            pending: false,
            ended: false,
            touched: false,
            first: now.to_vec(),
        };
        if !now.is_empty() {
            s.due.push_back(now.to_vec());
        }
        s
    }
    fn poll(&mut self) -> Outcome {
        if self.ended {
            return Ok(());
        }
        let was = self.due.len();
        let woken = self.task.woken();
        match self.task.poll(|cx| self.sig.poll_vec_change_unpin(cx)) {
            Poll::Ready(Some(d)) => {
                ensure!(!self.pending || woken, "a diff came without a wakeup");
                ensure!(self.touched || !self.first.is_empty(), "got {d:?} although it was empty and nothing was changed");
                if self.diffs == 0 && !self.first.is_empty() {
                    match &d {
                        VecDiff::Replace { values } if *values == self.first => {}
                        d => return Err(format!("the first diff is {d:?} instead of the contents {:?}", self.first)),
                    }
                }
                apply(&mut self.v, d)?;
                self.diffs += 1;
                self.pending = false;
                while self.due.front().map_or(false, |s| *s == self.v) {
                    self.due.pop_front();
                }
            }
            Poll::Ready(None) => {
                ensure!(was == 0, "ended with undelivered changes");
                self.ended = true;
            }
            Poll::Pending => {
                ensure!(was == 0, "pending although changes were not delivered");
                self.pending = true;
            }
        }
        Ok(())
    }
}

fn run<T: Elem>(case: &Case, obs: &mut Obs) -> Outcome {
    let mut next = 0;
    let mut v: Vec<T> = vec![];
    for k in &case.init {
        next += 1;
        v.push(T::make(*k, next));
    }
    let mut handles = vec![MutableVec::new_with_values(v.clone())];
    let mut subs: Vec<Sub<T>> = vec![];
    let (mut changes, mut late) = (0, false);
    for step in &case.steps {
        if handles.is_empty() {
            break;
        }
        let n = subs.len();
        match step {
            Step::Ops(ops) => {
                let h = handles[next as usize % handles.len()].clone();
                let mut l = h.lock_mut();
                for op in ops {
                    let woken: Vec<bool> = subs.iter().map(|s| s.task.woken()).collect();
                    let changed = perform(op, &mut v, &mut l, &mut next)?;
                    ensure_eq!(&l[..], &v[..], "contents after {op:?}");
                    changes += changed as u32;
                    for (s, woken) in subs.iter_mut().zip(woken) {
                        if changed {
                            s.touched = true;
                            // replacing nothing by nothing may send nothing
                            if s.due.back().unwrap_or(&s.v) != &v {
                                ensure!(!s.pending || s.task.woken(), "a subscriber is not woken by {op:?}");
                                s.due.push_back(v.clone());
                            }
                        } else {
                            ensure!(s.task.woken() == woken, "a subscriber is woken by {op:?}, which changes nothing");
                        }
                    }
                }
            }
            Step::Crowd(s, h) => {
                if n < 900 {
                    for i in 0..*s {
                        subs.push(Sub::new(&handles[0], i % 2 == 0, i % 3 == 0, &v));
                    }
                    // all but the first few are polled, so that they have to be woken
                    for s in subs.iter_mut().skip(n + 2) {
                        while s.task.ready() && !s.ended {
                            s.poll()?;
                        }
                        ensure!(!s.ended, "ended although there are handles");
                    }
                    late |= changes > 0;
                }
                if handles.len() < 140_000 {
                    let first = handles[0].clone();
                    handles.extend((0..*h).map(|_| first.clone()));
                }
                obs.label_if(subs.len() > 256, "hundreds of subscribers");
            }
            Step::Leave(keep) => {
                handles.truncate(1);
                subs.truncate(*keep as usize);
            }
            Step::Subscribe(c, r) => {
                let h = &handles[n % handles.len()];
                subs.push(Sub::new(h, *c, *r, &v));
                late |= changes > 0;
            }
            Step::Run(i) if n > 0 => {
                let s = &mut subs[*i as usize % n];
                while s.task.ready() && !s.ended {
                    s.poll()?;
                }
                ensure_eq!(s.v, v, "contents of a subscriber which caught up");
                ensure!(!s.ended, "ended although there are handles");
            }
            Step::Once(i) if n > 0 => {
                let s = &mut subs[*i as usize % n];
                if s.task.ready() {
                    s.poll()?;
                }
                ensure!(!s.ended, "ended although there are handles");
            }
            Step::Spurious(i) if n > 0 => {
                let s = &mut subs[*i as usize % n];
                s.poll()?;
                ensure!(!s.ended, "ended although there are handles");
            }
            Step::Unsubscribe(i) if n > 0 => {
                subs.remove(*i as usize % n);
            }
            Step::CloneHandle => {
                let h = handles[0].clone();
                handles.push(h);
            }
            Step::DropHandle => {
                // one handle is left until the end
                if handles.len() > 1 {
                    handles.swap_remove(next as usize % handles.len());
                }
            }
            _ => {}
        }
    }
    obs.nontrivial_if(changes > 0 && !subs.is_empty());
    obs.label_if(subs.len() > 1, "several subscribers");
    obs.label_if(late, "subscribed after changes");
    obs.label_if(case.cloned, "Clone elements");
    for (i, s) in subs.iter_mut().enumerate() {
        if i % 2 == 0 {
            while s.task.ready() && !s.ended {
                s.poll()?;
            }
            ensure!(!s.ended, "ended although there are handles");
        }
    }
    handles.clear();
    for s in &mut subs {
        ensure!(s.task.ready(), "not woken by the drop of the last handle");
        while s.task.ready() && !s.ended {
            s.poll()?;
        }
        ensure!(s.ended, "not ended although all handles are gone");
        ensure_eq!(s.v, v, "final contents of a subscriber");
    }
    Ok(())
}

/// Elements without a size: only the length can be seen.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Unit;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum ZstOp {
    Push(bool),
    Pop,
    Insert(u16),
    Set(u16),
    Remove(u16),
    Move(u16, u16),
    Swap(u16, u16),
    Truncate(u16),
    Replace(u8),
    Extend(u8),
    Retain(u8),
    Drain(u16, u16),
    Reverse,
    Clear,
    Subscribe(bool),
    Run(u16),
}

fn zst_op() -> impl Strategy<Value = ZstOp> {
    let i = any::<u16>;
    prop_oneof![
        3 => any::<bool>().prop_map(ZstOp::Push),
        2 => Just(ZstOp::Pop),
        2 => i().prop_map(ZstOp::Insert),
        1 => i().prop_map(ZstOp::Set),
        2 => i().prop_map(ZstOp::Remove),
        1 => (i(), i()).prop_map(|(a, b)| ZstOp::Move(a, b)),
        1 => (i(), i()).prop_map(|(a, b)| ZstOp::Swap(a, b)),
        1 => i().prop_map(ZstOp::Truncate),
        1 => (0u8..6).prop_map(ZstOp::Replace),
        1 => (0u8..6).prop_map(ZstOp::Extend),
        1 => i().prop_map(|x| ZstOp::Retain(x as u8)),
        1 => (i(), i()).prop_map(|(a, b)| ZstOp::Drain(a, b)),
        1 => Just(ZstOp::Reverse),
        1 => Just(ZstOp::Clear),
        3 => any::<bool>().prop_map(ZstOp::Subscribe),
        4 => i().prop_map(ZstOp::Run),
    ]
}

fn zero_sized(ops: &[ZstOp], obs: &mut Obs) -> Outcome {
    let m = MutableVec::new_with_values(vec![Unit; ops.len() % 3]);
    let mut n = ops.len() % 3;
    let mut subs: Vec<(MutableSignalVec<Unit>, Task, Vec<Unit>, bool)> = vec![];
    let at = |i: u16, n: usize| i as usize * n / 65536;
    let mut changes = 0;
    for op in ops {
        let old = n;
        {
            let mut l = m.lock_mut();
            match *op {
                ZstOp::Push(c) => {
                    if c {
                        l.push_cloned(Unit)
                    } else {
                        l.push(Unit)
                    }
                    n += 1;
                }
                ZstOp::Pop => {
                    ensure!(l.pop().is_some() == (n > 0), "pop");
                    n = n.saturating_sub(1);
                }
                ZstOp::Insert(i) => {
                    l.insert_cloned(at(i, n + 1), Unit);
                    n += 1;
                }
                ZstOp::Set(i) if n > 0 => l.set(at(i, n), Unit),
                ZstOp::Remove(i) if n > 0 => {
                    l.remove(at(i, n));
                    n -= 1;
                }
                ZstOp::Move(a, b) if n > 0 => l.move_from_to(at(a, n), at(b, n)),
                ZstOp::Swap(a, b) if n > 0 => l.swap(at(a, n), at(b, n)),
                ZstOp::Truncate(i) => {
                    let to = at(i, n + 3);
                    l.truncate(to);
                    n = n.min(to);
                }
                ZstOp::Replace(k) => {
                    l.replace_cloned(vec![Unit; k as usize]);
                    n = k as usize;
                }
                ZstOp::Extend(k) => {
                    l.extend(std::iter::repeat(Unit).take(k as usize));
                    n += k as usize;
                }
                ZstOp::Retain(mask) => {
                    let (mut i, mut kept) = (0, 0);
                    l.retain(|_| {
                        let keep = mask >> (i % 8) & 1 == 1;
                        i += 1;
                        kept += keep as usize;
                        keep
                    });
                    ensure_eq!(i, n, "calls of retain's closure");
                    n = kept;
                }
                ZstOp::Drain(a, b) => {
                    let (a, b) = (at(a, n + 1), at(b, n + 1));
                    let (a, b) = (a.min(b), a.max(b));
                    ensure_eq!(l.drain(a..b).count(), b - a, "drained");
                    n -= b - a;
                }
                ZstOp::Reverse => l.reverse(),
                ZstOp::Clear => {
                    l.clear();
                    n = 0;
                }
                _ => {}
            }
            ensure_eq!(l.len(), n, "length after {:?}", op);
        }
        for (_, task, _, pending) in &subs {
            ensure!(old == n || !*pending || task.woken(), "a subscriber is not woken by {op:?}");
        }
        changes += (old != n) as u32;
        match *op {
            ZstOp::Subscribe(c) => {
                let s = if c { m.signal_vec_cloned() } else { m.signal_vec() };
                subs.push((s, Task::new(c), vec![], false));
            }
            ZstOp::Run(i) if !subs.is_empty() => {
                let i = at(i, subs.len());
                let (s, task, v, pending) = &mut subs[i];
                while task.ready() {
                    match task.poll(|cx| s.poll_vec_change_unpin(cx)) {
                        Poll::Ready(Some(d)) => {
                            *pending = false;
                            apply(v, d)?
                        }
                        Poll::Ready(None) => return Err("ended although there is a handle".into()),
                        Poll::Pending => *pending = true,
                    }
                }
                ensure_eq!(v.len(), n, "length of a subscriber which caught up");
            }
            _ => {}
        }
    }
    obs.nontrivial_if(changes > 1 && !subs.is_empty());
    drop(m);
    for (s, task, v, _) in &mut subs {
        loop {
            ensure!(task.ready(), "not ended although all handles are gone");
            match task.poll(|cx| s.poll_vec_change_unpin(cx)) {
                Poll::Ready(Some(d)) => apply(v, d)?,
                Poll::Ready(None) => break,
                Poll::Pending => {}
            }
        }
        ensure_eq!(v.len(), n, "final length of a subscriber");
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C11",
        "histories of MutableVec operations (several per lock) through several handles, with subscribers which come and go at any time and poll at any time; non-trivial: at least one effective change and a subscriber",
    );
    let any = |c: &Case, obs: &mut Obs| if c.cloned { run::<Cl>(c, obs) } else { run::<El>(c, obs) };
    r.family("subscribers", 1_200_000, 12_000_000, case, any);
    r.family("large", 400, 8_000, case_large, any);
    r.family("crowd", 2_000, 20_000, case_crowd, any);
    r.family("zero-sized", 40_000, 400_000, || harness::gen::script(zst_op(), 25, 100), |ops: &Vec<ZstOp>, obs: &mut Obs| zero_sized(ops, obs));
    r.finish()
}
