//! C02: the signals of a Mutable.
use futures_signals::signal::{Mutable, ReadOnlyMutable};
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::Task;
use harness::vecsrc::{idx, pick, BoxSig};
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::rc::Rc;
use std::task::Poll;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
struct V {
    k: u8,
    id: u32,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Kind {
    Copy,
    Cloned,
    Ref,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Clone(u16),
    DropWriter(u16),
    ReadOnly(u16),
    DropRo(u16),
    Subscribe(u16, bool, Kind, bool),
    DropSignal(u16),
    Set(u16, u8),
    Replace(u16, u8),
    ReplaceWith(u16, u8),
    SetIf(u16, u8, bool),
    SetNeq(u16, bool),
    LockMut(u16, bool),
    /// swap with a second Mutable
    Swap(u16, bool),
    SwapSelf(u16, u16),
    /// many handles at once, or many signals
    CloneMany(u32),
    /// drops all but a few of the handles
    DropMany(u8),
    SubscribeMany(u16, Kind, bool),
    DropSignals(u16),
    /// poll one signal even if nothing woke it
    Poll(u16),
    /// poll one signal if it was woken
    Once(u16),
    /// poll all signals until nothing is woken
    Run,
}

fn op() -> impl Strategy<Value = Op> {
    let k = || 0u8..3;
    let kind = || prop_oneof![Just(Kind::Copy), Just(Kind::Cloned), Just(Kind::Ref)];
    prop_oneof![
        3 => idx().prop_map(Op::Clone),
        1 => idx().prop_map(Op::DropWriter),
        1 => idx().prop_map(Op::ReadOnly),
        1 => idx().prop_map(Op::DropRo),
        4 => (idx(), any::<bool>(), kind(), any::<bool>()).prop_map(|(i, b, k, r)| Op::Subscribe(i, b, k, r)),
        2 => idx().prop_map(Op::DropSignal),
        2 => (idx(), k()).prop_map(|(i, k)| Op::Set(i, k)),
        1 => (idx(), k()).prop_map(|(i, k)| Op::Replace(i, k)),
        1 => (idx(), k()).prop_map(|(i, k)| Op::ReplaceWith(i, k)),
        2 => (idx(), k(), any::<bool>()).prop_map(|(i, k, b)| Op::SetIf(i, k, b)),
        2 => (idx(), any::<bool>()).prop_map(|(i, b)| Op::SetNeq(i, b)),
        2 => (idx(), any::<bool>()).prop_map(|(i, b)| Op::LockMut(i, b)),
        1 => (idx(), any::<bool>()).prop_map(|(i, b)| Op::Swap(i, b)),
        1 => (idx(), idx()).prop_map(|(i, j)| Op::SwapSelf(i, j)),
        4 => idx().prop_map(Op::Poll),
        3 => idx().prop_map(Op::Once),
        3 => Just(Op::Run),
    ]
}

/// As usual, but with hundreds of signals and up to thousands of handles.
fn crowd() -> impl Strategy<Value = Vec<Op>> {
    let kind = || prop_oneof![Just(Kind::Copy), Just(Kind::Cloned), Just(Kind::Ref)];
    let many = || prop_oneof![Just(255u32), Just(256), Just(257), 2u32..700, 1000u32..1100];
    let op = prop_oneof![
        2 => prop_oneof![4 => many(), 1 => 65_530u32..65_540].prop_map(Op::CloneMany),
        2 => (0u8..4).prop_map(Op::DropMany),
        3 => (many(), kind(), any::<bool>()).prop_map(|(n, k, r)| Op::SubscribeMany(n as u16, k, r)),
        1 => (0u16..20).prop_map(Op::DropSignals),
        12 => op(),
    ];
    proptest::collection::vec(op, 3..25)
}

/// What a signal may do next.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Dirt {
    Clean,
    Dirty,
    /// written, but nothing says whether it has to be notified (swap with itself)
    Either,
}

struct Sub {
    sig: BoxSig<V>,
    task: Task,
    dirt: Dirt,
    parked: bool,
    must_wake: bool,
    ended: bool,
    calls: Option<Rc<Cell<u64>>>,
    yields: u64,
}

struct World {
    value: V,
    writers: Vec<Mutable<V>>,
    ros: Vec<ReadOnlyMutable<V>>,
    subs: Vec<Sub>,
    next: u32,
}

impl World {
    fn v(&mut self, k: u8) -> V {
        self.next += 1;
        V { k, id: self.next }
    }
    fn written(&mut self, d: Dirt) {
        for s in &mut self.subs {
            if d == Dirt::Dirty {
                s.dirt = d;
                s.must_wake |= s.parked;
            } else if s.dirt == Dirt::Clean {
                s.dirt = d;
            }
        }
    }
    fn dropped(&mut self) {
        if self.writers.is_empty() {
            for s in &mut self.subs {
                s.must_wake |= s.parked;
            }
        }
    }
    fn wakes(&self) -> Outcome {
        for (i, s) in self.subs.iter().enumerate() {
            if !s.ended && s.must_wake {
                ensure!(s.task.woken(), "signal {i} was not woken by a change");
            }
        }
        Ok(())
    }
    fn poll(&mut self, i: usize) -> Outcome {
        let gone = self.writers.is_empty();
        let s = &mut self.subs[i];
        if s.ended {
            return Ok(());
        }
        let r = s.task.poll(|cx| s.sig.as_mut().poll_change(cx));
        s.must_wake = false;
        s.parked = false;
        let dirt = std::mem::replace(&mut s.dirt, Dirt::Clean);
        match r {
            Poll::Ready(Some(v)) => {
                s.yields += 1;
                ensure!(dirt != Dirt::Clean, "signal {i} yielded {v:?} although nothing was written");
                ensure_eq!(v, self.value, "value of signal {}", i);
            }
            Poll::Ready(None) => {
                ensure!(dirt != Dirt::Dirty, "signal {i} ended without its final value");
                ensure!(gone, "signal {i} ended although a writer is left");
                s.ended = true;
            }
            Poll::Pending => {
                ensure!(dirt != Dirt::Dirty, "signal {i} is pending although the value was written");
                ensure!(!gone, "signal {i} is pending although no writer is left");
                s.parked = true;
            }
        }
        if let Some(c) = &s.calls {
            ensure_eq!(c.get(), s.yields, "calls of the signal_ref closure");
        }
        Ok(())
    }
}

fn subscribe(kind: Kind, calls: &Option<Rc<Cell<u64>>>, m: &ReadOnlyMutable<V>) -> BoxSig<V> {
    match kind {
        Kind::Copy => Box::pin(m.signal()),
        Kind::Cloned => Box::pin(m.signal_cloned()),
        Kind::Ref => {
            let c = calls.clone().unwrap();
            Box::pin(m.signal_ref(move |v| {
                c.set(c.get() + 1);
                *v
            }))
        }
    }
}

fn run(ops: &[Op], obs: &mut Obs) -> Outcome {
    let first = V { k: 0, id: 0 };
    let mut w = World { value: first, writers: vec![Mutable::new(first)], ros: vec![], subs: vec![], next: 0 };
    let other = Mutable::new(V { k: 7, id: 1_000_000 });
    let (mut writes, mut polls) = (0, 0);
    for op in ops {
        let n = w.writers.len();
        let at = |i: &u16| (n > 0).then(|| pick(*i, n));
        match op {
            Op::Clone(i) => {
                if let Some(i) = at(i) {
                    let m = w.writers[i].clone();
                    w.writers.push(m);
                }
            }
            Op::DropWriter(i) => {
                if let Some(i) = at(i) {
                    w.writers.remove(i);
                    obs.label_if(w.writers.is_empty() && w.subs.iter().any(|s| s.dirt == Dirt::Dirty), "last writer dropped with unseen value");
                    w.dropped();
                }
            }
            Op::ReadOnly(i) => {
                if let Some(i) = at(i) {
                    w.ros.push(w.writers[i].read_only());
                }
            }
            Op::DropRo(i) => {
                if !w.ros.is_empty() {
                    let i = pick(*i, w.ros.len());
                    w.ros.remove(i);
                }
            }
            Op::Subscribe(i, via_ro, kind, reuse) => {
                let calls = matches!(kind, Kind::Ref).then(Rc::default);
                let sig = if *via_ro && !w.ros.is_empty() {
                    obs.label_if(n == 0, "subscribed after the last writer was gone");
                    subscribe(*kind, &calls, &w.ros[pick(*i, w.ros.len())])
                } else if let Some(i) = at(i) {
                    subscribe(*kind, &calls, &w.writers[i])
                } else {
                    continue;
                };
                w.subs.push(Sub {
                    sig,
                    task: Task::new(*reuse),
                    dirt: Dirt::Dirty,
                    parked: false,
                    must_wake: false,
                    ended: false,
                    calls,
                    yields: 0,
                });
            }
            Op::CloneMany(n) => {
                if let (Some(m), true) = (w.writers.first().cloned(), w.writers.len() < 140_000) {
                    w.writers.extend((0..*n).map(|_| m.clone()));
                    obs.label("many handles");
                }
            }
            Op::DropMany(keep) => {
                w.writers.truncate(*keep as usize);
                w.dropped();
            }
            Op::SubscribeMany(count, kind, reuse) => {
                if n > 0 && w.subs.len() < 1500 {
                    for _ in 0..*count {
                        let calls = matches!(kind, Kind::Ref).then(Rc::default);
                        let sig = subscribe(*kind, &calls, &w.writers[n - 1]);
                        w.subs.push(Sub { sig, task: Task::new(*reuse), dirt: Dirt::Dirty, parked: false, must_wake: false, ended: false, calls, yields: 0 });
                    }
                    obs.label_if(w.subs.len() > 256, "hundreds of signals");
                }
            }
            Op::DropSignals(keep) => {
                w.subs.truncate(*keep as usize);
            }
            Op::DropSignal(i) => {
                if !w.subs.is_empty() {
                    let i = pick(*i, w.subs.len());
                    w.subs.remove(i);
                    obs.label("signal dropped");
                }
            }
            Op::Set(i, k) | Op::Replace(i, k) | Op::ReplaceWith(i, k) => {
                if let Some(i) = at(i) {
                    let x = w.v(*k);
                    match op {
                        Op::Set(..) => w.writers[i].set(x),
                        Op::Replace(..) => {
                            w.writers[i].replace(x);
                        }
                        _ => {
                            w.writers[i].replace_with(|_| x);
                        }
                    }
                    w.value = x;
                    w.written(Dirt::Dirty);
                    writes += 1;
                }
            }
            Op::SetIf(i, k, b) => {
                if let Some(i) = at(i) {
                    let x = w.v(*k);
                    w.writers[i].set_if(x, |_, _| *b);
                    if *b {
                        w.value = x;
                        w.written(Dirt::Dirty);
                        writes += 1;
                    } else {
                        obs.label("rejected conditional write");
                    }
                }
            }
            Op::SetNeq(i, equal) => {
                if let Some(i) = at(i) {
                    let x = if *equal { w.value } else { w.v(1) };
                    w.writers[i].set_neq(x);
                    if !*equal {
                        w.value = x;
                        w.written(Dirt::Dirty);
                        writes += 1;
                    }
                }
            }
            Op::LockMut(i, mutate) => {
                if let Some(i) = at(i) {
                    let x = w.v(2);
                    {
                        let mut lock = w.writers[i].lock_mut();
                        ensure_eq!(*lock, w.value, "value of the lock");
                        if *mutate {
                            *lock = x;
                        }
                    }
                    if *mutate {
                        w.value = x;
                        w.written(Dirt::Dirty);
                        writes += 1;
                    } else {
                        obs.label("guard without write");
                    }
                }
            }
            Op::Swap(i, dir) => {
                if let Some(i) = at(i) {
                    let x = other.get();
                    if *dir {
                        w.writers[i].swap(&other);
                    } else {
                        other.swap(&w.writers[i]);
                    }
                    w.value = x;
                    w.written(Dirt::Dirty);
                    writes += 1;
                }
            }
            Op::SwapSelf(i, j) => {
                if let (Some(i), Some(j)) = (at(i), at(j)) {
                    w.writers[i].swap(&w.writers[j]);
                    w.written(Dirt::Either);
                }
            }
            Op::Poll(i) => {
                if !w.subs.is_empty() {
                    let i = pick(*i, w.subs.len());
                    w.poll(i)?;
                    polls += 1;
                }
            }
            Op::Once(i) => {
                if !w.subs.is_empty() {
                    let i = pick(*i, w.subs.len());
                    if w.subs[i].task.ready() {
                        w.poll(i)?;
                        polls += 1;
                    }
                }
            }
            Op::Run => {
                for i in 0..w.subs.len() {
                    while !w.subs[i].ended && w.subs[i].task.ready() {
                        w.poll(i)?;
                        polls += 1;
                    }
                }
            }
        }
        w.wakes()?;
    }
    obs.nontrivial_if(writes > 0 && polls > 1);
    obs.label_if(w.subs.len() > 2, "three or more signals");
    // everything is delivered, then everything ends
    for round in 0..2 {
        for i in 0..w.subs.len() {
            while !w.subs[i].ended && w.subs[i].task.ready() {
                w.poll(i)?;
            }
        }
        if round == 0 {
            w.writers.clear();
            w.dropped();
            w.wakes()?;
        }
    }
    for (i, s) in w.subs.iter().enumerate() {
        ensure!(s.ended, "signal {i} never ended");
    }
    // a signal taken from a read-only view after the end still has the final value
    if let Some(ro) = w.ros.first() {
        let mut s: BoxSig<V> = Box::pin(ro.signal());
        let mut t = Task::new(false);
        ensure_eq!(t.poll(|cx| s.as_mut().poll_change(cx)), Poll::Ready(Some(w.value)), "first value after the end");
        ensure_eq!(t.poll(|cx| s.as_mut().poll_change(cx)), Poll::Ready(None), "end of a signal made after the end");
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C02",
        "histories of writes, clones, drops, subscriptions and polls of any number of signals over one Mutable; non-trivial: a write and at least two polls",
    );
    r.family(
        "signals",
        2_000_000,
        20_000_000,
        || harness::gen::script(op(), 25, 120),
        |ops: &Vec<Op>, obs: &mut Obs| run(ops, obs),
    );
    r.family("crowd", 4_000, 40_000, crowd, |ops: &Vec<Op>, obs: &mut Obs| run(ops, obs));
    r.finish()
}
