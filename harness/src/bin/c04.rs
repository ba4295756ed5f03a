//! C04: the signals of a Broadcaster.
use futures_signals::signal::{Broadcaster, Mutable, SignalExt};
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::Task;
use harness::sources::Src;
use harness::vecsrc::{idx, pick, BoxSig};
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::task::Poll;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Input {
    Lossless,
    Lossy,
    Mutable,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Kind {
    Copy,
    Cloned,
    Ref,
    /// a child of a Broadcaster of a child
    Nested,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Push,
    /// The input wakes its poller while it is being polled.
    Yield,
    End,
    Child(Kind, bool),
    CloneBroadcaster,
    DropBroadcaster,
    DropChild(u16),
    Poll(u16),
    Once(u16),
    Run,
    /// Run the children in the opposite order.
    RunBack,
}

fn op() -> impl Strategy<Value = Op> {
    let kind = || prop_oneof![2 => Just(Kind::Copy), 2 => Just(Kind::Cloned), 2 => Just(Kind::Ref), 1 => Just(Kind::Nested)];
    prop_oneof![
        18 => Just(Op::Push),
        6 => Just(Op::Yield),
        1 => Just(Op::End),
        10 => (kind(), any::<bool>()).prop_map(|(k, r)| Op::Child(k, r)),
        2 => Just(Op::CloneBroadcaster),
        2 => Just(Op::DropBroadcaster),
        4 => idx().prop_map(Op::DropChild),
        10 => idx().prop_map(Op::Poll),
        8 => idx().prop_map(Op::Once),
        6 => Just(Op::Run),
        3 => Just(Op::RunBack),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    input: Input,
    ops: Vec<Op>,
}

fn case() -> impl Strategy<Value = Case> {
    (
        prop_oneof![3 => Just(Input::Lossless), 1 => Just(Input::Lossy), 1 => Just(Input::Mutable)],
        harness::gen::script(op(), 25, 120),
    )
        .prop_map(|(input, ops)| Case { input, ops })
}

struct Child {
    sig: BoxSig<u64>,
    task: Task,
    last: Option<u64>,
    ended: bool,
    parked: bool,
    kind: Kind,
    calls: Option<Rc<Cell<u64>>>,
    yields: u64,
}

struct World {
    src: Src<u64>,
    cell: Option<Mutable<u64>>,
    is_mutable: bool,
    /// latest value given to the input
    latest: u64,
    ended: bool,
    /// latest value that came out of the input
    out: Rc<RefCell<(Option<u64>, bool)>>,
    children: Vec<Child>,
}

impl World {
    fn poll(&mut self, i: usize) -> Outcome {
        let c = &mut self.children[i];
        if c.ended {
            return Ok(());
        }
        let r = c.task.poll(|cx| c.sig.as_mut().poll_change(cx));
        c.parked = r.is_pending();
        let (out, _) = *self.out.borrow();
        match r {
            Poll::Ready(Some(v)) => {
                c.yields += 1;
                ensure!(c.last.map_or(true, |l| v > l), "child {i} yielded {v} after {:?}", c.last);
                ensure_eq!(Some(v), out, "child {} yielded a value which isn't the input's most recent one", i);
                c.last = Some(v);
            }
            Poll::Ready(None) => {
                ensure!(self.ended, "child {i} ended before the input");
                ensure_eq!(c.last, Some(self.latest), "last value of child {} at its end", i);
                c.ended = true;
            }
            Poll::Pending => {
                ensure!(c.last.is_some(), "child {i} has no value on its first poll");
                ensure_eq!(c.last, out, "child {} is pending with an old value", i);
                if !self.is_mutable && !c.task.woken() && c.kind != Kind::Nested {
                    // nothing will wake it, so the input must really be pending
                    ensure!(self.src.drained(), "child {i} is pending, not woken, and the input isn't pending");
                }
            }
        }
        if let Some(calls) = &c.calls {
            ensure_eq!(calls.get(), c.yields, "calls of the signal_ref closure");
        }
        Ok(())
    }
    fn run(&mut self, back: bool) -> Outcome {
        let n = self.children.len();
        let mut again = true;
        while again {
            again = false;
            for j in 0..n {
                let i = if back { n - 1 - j } else { j };
                while !self.children[i].ended && self.children[i].task.ready() {
                    self.poll(i)?;
                    again = true;
                }
            }
        }
        for (i, c) in self.children.iter().enumerate() {
            ensure_eq!(c.last, Some(self.latest), "settled value of child {}", i);
            ensure_eq!(c.ended, self.ended, "end of child {} once settled", i);
        }
        Ok(())
    }
    /// The input has changed: every child which is pending was woken.
    fn changed(&self) -> Outcome {
        for (i, c) in self.children.iter().enumerate() {
            if c.parked && !c.ended {
                ensure!(c.task.woken(), "child {i} was not woken by a change of the input");
            }
        }
        Ok(())
    }
}

fn run(case: &Case, obs: &mut Obs) -> Outcome {
    let src = if case.input == Input::Lossy { Src::lossy() } else { Src::new() };
    src.push(0);
    let cell = (case.input == Input::Mutable).then(|| Mutable::new(0u64));
    let out = Rc::new(RefCell::new((None, false)));
    let o = out.clone();
    let input: BoxSig<u64> = match &cell {
        Some(m) => Box::pin(m.signal()),
        None => Box::pin(src.signal()),
    };
    let b = Broadcaster::new(input.inspect(move |v| o.borrow_mut().0 = Some(*v)));
    let mut bs = vec![b];
    let is_mutable = cell.is_some();
    let mut w = World { src, cell, is_mutable, latest: 0, ended: false, out, children: vec![] };
    let (mut pushes, mut created) = (0, 0);
    for op in &case.ops {
        let n = w.children.len();
        let at = |i: &u16| (n > 0).then(|| pick(*i, n));
        match op {
            Op::Push if !w.ended => {
                w.latest += 1;
                pushes += 1;
                match &w.cell {
                    Some(m) => m.set(w.latest),
                    None => w.src.push(w.latest),
                }
                w.changed()?;
            }
            Op::Yield if !w.ended && w.cell.is_none() && w.src.get(|s| s.yielded) > 0 => {
                obs.label("input wakes itself");
                w.src.self_wake();
                w.changed()?;
            }
            Op::End if !w.ended => {
                w.ended = true;
                if w.cell.take().is_none() {
                    w.src.end();
                }
                w.changed()?;
            }
            Op::Push | Op::Yield | Op::End => {}
            Op::Child(kind, reuse) => {
                if let Some(b) = bs.last() {
                    let calls = matches!(kind, Kind::Ref).then(Rc::<Cell<u64>>::default);
                    let c2 = calls.clone();
                    let sig: BoxSig<u64> = match kind {
                        Kind::Copy => Box::pin(b.signal()),
                        Kind::Cloned => Box::pin(b.signal_cloned()),
                        Kind::Ref => Box::pin(b.signal_ref(move |v| {
                            let c = c2.as_ref().unwrap();
                            c.set(c.get() + 1);
                            *v
                        })),
                        Kind::Nested => Box::pin(b.signal().broadcast().signal()),
                    };
                    obs.label_if(w.ended, "child made after the end");
                    obs.label_if(*kind == Kind::Nested, "nested Broadcaster");
                    created += 1;
                    w.children.push(Child {
                        sig,
                        task: Task::new(*reuse),
                        last: None,
                        ended: false,
                        parked: false,
                        kind: *kind,
                        calls,
                        yields: 0,
                    });
                }
            }
            Op::CloneBroadcaster => {
                if let Some(b) = bs.first() {
                    bs.push(b.clone());
                }
            }
            Op::DropBroadcaster => {
                bs.pop();
                obs.label_if(bs.is_empty() && n > 0, "all Broadcasters dropped, children left");
            }
            Op::DropChild(i) => {
                if let Some(i) = at(i) {
                    w.children.remove(i);
                    obs.label("child dropped");
                }
            }
            Op::Poll(i) => {
                if let Some(i) = at(i) {
                    w.poll(i)?;
                }
            }
            Op::Once(i) => {
                if let Some(i) = at(i) {
                    if w.children[i].task.ready() {
                        w.poll(i)?;
                    }
                }
            }
            Op::Run => w.run(false)?,
            Op::RunBack => w.run(true)?,
        }
        w.src.check("the input")?;
    }
    obs.nontrivial_if(pushes > 0 && created > 1);
    w.run(false)?;
    if !w.ended {
        w.ended = true;
        if w.cell.take().is_none() {
            w.src.end();
        }
        w.changed()?;
        w.run(true)?;
    }
    w.src.check("the input")?;
    drop(bs);
    w.children.clear();
    if !is_mutable && w.src.get(|s| s.polls) > 0 {
        ensure!(w.src.get(|s| s.dropped), "the input is kept after everything was dropped");
    }
    Ok(())
}

/// So many changes that counters of 16 bits wrap around.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    changes: u32,
    /// how many changes each of the children misses at a time
    lags: Vec<u32>,
}

fn many() -> impl Strategy<Value = Many> {
    let lag = || prop_oneof![2 => 1u32..300, 1 => Just(256u32), 1 => Just(65536u32), 1 => 65530u32..65540];
    (65_400u32..66_200, proptest::collection::vec(lag(), 1..4)).prop_map(|(changes, lags)| Many { changes, lags })
}

fn run_many(case: &Many, obs: &mut Obs) -> Outcome {
    obs.nontrivial();
    let m = Mutable::new(0u32);
    let b = Broadcaster::new(m.signal());
    let mut children: Vec<_> = case.lags.iter().map(|lag| (b.signal(), Task::new(true), *lag)).collect();
    for i in 0..=case.changes {
        if i > 0 {
            m.set(i);
        }
        let mut new = b.signal();
        let mut t = Task::new(true);
        ensure_eq!(t.poll(|cx| new.poll_change_unpin(cx)), Poll::Ready(Some(i)), "first poll of a child made after {} changes", i);
        for (c, task, lag) in &mut children {
            if i % *lag == 0 {
                ensure!(task.ready(), "a child was not woken by the changes before {i}");
                ensure_eq!(task.poll(|cx| c.poll_change_unpin(cx)), Poll::Ready(Some(i)), "a child which missed {} changes", lag);
                ensure_eq!(task.poll(|cx| c.poll_change_unpin(cx)), Poll::Pending, "the same child again");
            }
        }
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C04",
        "scripted or Mutable inputs (also waking themselves) with histories of creating, polling and dropping children; non-trivial: a change and at least two children",
    );
    r.family("broadcaster", 3_000_000, 12_000_000, case, |c: &Case, obs: &mut Obs| run(c, obs));
    r.family("many changes", 12, 100, many, |c: &Many, obs: &mut Obs| run_many(c, obs));
    r.finish()
}
