//! C22: cancelable_future.
use discard::{Discard, DiscardOnDrop};
use futures_signals::{cancelable_future, CancelableFutureHandle};
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::{FutSink, Task};
use harness::sched::{schedule, Quiet, Sched, Schedule};
use harness::sources::{Gate, GateFuture};
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

type Handle = DiscardOnDrop<CancelableFutureHandle>;
type Slot = Rc<RefCell<Option<Handle>>>;

const DONE: u32 = 1;
const CANCELLED: u32 = 2;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum During {
    Nothing,
    /// the future discards its own handle
    Cancel,
    /// the future wakes itself
    Wake,
    /// wakes itself, then discards its own handle
    WakeCancel,
    /// another task opens the gate during the poll
    Open,
}

/// The inner future: a gate which does something during each of its polls.
struct Inner {
    gate: GateFuture<u32>,
    opener: Gate<u32>,
    script: std::vec::IntoIter<During>,
    slot: Slot,
    state: Rc<Cell<Watch>>,
    /// whether the action comes before the gate is polled
    before: bool,
}

#[derive(Clone, Copy, Default)]
struct Watch {
    polls: u64,
    done: bool,
    dropped: u32,
    polled_after_done: bool,
}

impl Inner {
    fn act(&mut self, cx: &mut Context) {
        let a = self.script.next().unwrap_or(During::Nothing);
        if matches!(a, During::Wake | During::WakeCancel) {
            cx.waker().wake_by_ref();
        }
        if matches!(a, During::Cancel | During::WakeCancel) {
            let h = self.slot.borrow_mut().take();
            drop(h);
        }
        if a == During::Open {
            self.opener.open(DONE);
        }
    }
}

impl Future for Inner {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<u32> {
        let mut w = self.state.get();
        w.polls += 1;
        w.polled_after_done |= w.done;
        self.state.set(w);
        if self.before {
            self.act(cx);
        }
        let r = Pin::new(&mut self.gate).poll(cx);
        if !self.before {
            self.act(cx);
        }
        if r.is_ready() {
            let mut w = self.state.get();
            w.done = true;
            self.state.set(w);
        }
        r
    }
}

impl Drop for Inner {
    fn drop(&mut self) {
        let mut w = self.state.get();
        w.dropped += 1;
        self.state.set(w);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Run,
    Once,
    Spurious,
    Open,
    /// drops the handle
    Cancel,
    /// takes the handle out of its guard and discards it
    Discard,
    /// takes the handle out of its guard and drops it, which doesn't cancel
    Leak,
    /// moves the future (it is not yet polled)
    DropFuture,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    reuse: bool,
    before: bool,
    during: Vec<During>,
    steps: Vec<Step>,
}

fn during() -> impl Strategy<Value = During> {
    prop_oneof![
        6 => Just(During::Nothing),
        1 => Just(During::Cancel),
        2 => Just(During::Wake),
        1 => Just(During::WakeCancel),
        1 => Just(During::Open),
    ]
}

fn case() -> impl Strategy<Value = Case> {
    let step = prop_oneof![
        6 => Just(Step::Run),
        4 => Just(Step::Once),
        4 => Just(Step::Spurious),
        3 => Just(Step::Open),
        3 => Just(Step::Cancel),
        2 => Just(Step::Discard),
        1 => Just(Step::Leak),
        1 => Just(Step::DropFuture),
    ];
    (any::<bool>(), any::<bool>(), proptest::collection::vec(during(), 0..6), proptest::collection::vec(step, 0..10))
        .prop_map(|(reuse, before, during, steps)| Case { reuse, before, during, steps })
}

fn run(case: &Case, obs: &mut Obs) -> Outcome {
    let gate = Gate::new();
    let slot: Slot = Rc::default();
    let watch: Rc<Cell<Watch>> = Rc::default();
    let calls = Rc::new(Cell::new(0u32));
    let inner = Inner {
        gate: gate.future(),
        opener: gate.clone(),
        script: case.during.clone().into_iter(),
        slot: slot.clone(),
        state: watch.clone(),
        before: case.before,
    };
    let c2 = calls.clone();
    let (handle, fut) = cancelable_future(inner, move || {
        c2.set(c2.get() + 1);
        CANCELLED
    });
    *slot.borrow_mut() = Some(handle);
    let mut fut = Some(Box::pin(fut));
    let mut sink: FutSink<u32> = FutSink::new(case.reuse);
    let mut leaked = false;
    let mut cancelled_outside = false;
    let mut polled_pending = false;
    // one poll with everything that must hold after it
    macro_rules! poll {
        () => {{
            if let (Some(f), None) = (fut.as_mut(), sink.out) {
                let cancelled_before = slot.borrow().is_none() && !leaked;
                let polls = watch.get().polls;
                sink.poll(f);
                let w = watch.get();
                let cancelled = slot.borrow().is_none() && !leaked;
                ensure!(!w.polled_after_done, "the inner future was polled after it completed");
                if cancelled_before {
                    ensure_eq!(sink.out, Some(CANCELLED), "output of the poll after the cancellation");
                    ensure_eq!(w.polls, polls, "polls of the inner future after the cancellation was due");
                } else {
                    ensure_eq!(w.polls, polls + 1, "polls of the inner future");
                    if w.done {
                        ensure_eq!(sink.out, Some(DONE), "output when the inner future completed");
                    } else if !cancelled {
                        ensure_eq!(sink.out, None, "output while the inner future is pending");
                    } else if sink.out.is_none() {
                        ensure!(sink.task.ready(), "cancelled during the poll, but not woken");
                        obs.label("cancelled during the poll");
                    } else {
                        ensure_eq!(sink.out, Some(CANCELLED), "output when cancelled during the poll");
                    }
                }
                if sink.out == Some(CANCELLED) {
                    ensure!(w.dropped == 1, "the inner future is kept after the cancellation");
                }
                ensure_eq!(calls.get(), u32::from(sink.out == Some(CANCELLED)), "calls of the callback");
                polled_pending = sink.out.is_none();
            }
        }};
    }
    for s in &case.steps {
        match s {
            Step::Run => {
                while fut.is_some() && sink.out.is_none() && sink.task.ready() {
                    poll!();
                }
            }
            Step::Once if !sink.task.ready() => {}
            Step::Once | Step::Spurious => poll!(),
            Step::Open => gate.open(DONE),
            Step::Cancel | Step::Discard => {
                let h = slot.borrow_mut().take();
                if let Some(h) = h {
                    cancelled_outside = true;
                    match s {
                        Step::Cancel => drop(h),
                        _ => DiscardOnDrop::leak(h).discard(),
                    }
                    if fut.is_some() && polled_pending {
                        obs.label("cancelled between polls");
                        ensure!(sink.task.woken(), "not woken by the cancellation");
                    }
                }
                ensure!(calls.get() <= 1, "callback called {} times", calls.get());
            }
            Step::Leak => {
                let h = slot.borrow_mut().take();
                if let Some(h) = h {
                    leaked = true;
                    drop(DiscardOnDrop::leak(h));
                }
            }
            Step::DropFuture => {
                let before = calls.get();
                fut = None;
                ensure_eq!(calls.get(), before, "calls of the callback after the future was dropped");
                ensure!(watch.get().dropped == 1, "the inner future was dropped {} times", watch.get().dropped);
            }
        }
    }
    while fut.is_some() && sink.out.is_none() && sink.task.ready() {
        poll!();
    }
    let cancelled = slot.borrow().is_none() && !leaked;
    if fut.is_some() {
        let done = gate.get(|g| g.done);
        ensure_eq!(sink.out.is_some(), cancelled || done, "completion once settled");
    }
    obs.nontrivial_if(cancelled);
    obs.label_if(cancelled_outside, "cancelled from outside");
    obs.label_if(sink.out == Some(DONE), "completed");
    fut = None;
    drop(fut);
    ensure_eq!(watch.get().dropped, 1, "drops of the inner future");
    let before = calls.get();
    drop(slot.borrow_mut().take());
    ensure_eq!(calls.get(), before, "calls of the callback after the future was dropped");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Threads {
    reuse: bool,
    before: bool,
    during: Vec<During>,
    /// whether another thread opens the gate
    opens: bool,
    /// how many extra polls are done unconditionally
    extra: u8,
    discard: bool,
    schedule: Schedule,
}

fn threads() -> impl Strategy<Value = Threads> {
    (any::<bool>(), any::<bool>(), proptest::collection::vec(during(), 0..3), proptest::bool::weighted(0.4), 0u8..3, any::<bool>(), schedule(8))
        .prop_map(|(reuse, before, during, opens, extra, discard, schedule)| Threads { reuse, before, during, opens, extra, discard, schedule })
}

fn concurrent(case: &Threads, obs: &mut Obs) -> Outcome {
    let gate = Gate::new();
    let slot: Slot = Rc::default();
    let watch: Rc<Cell<Watch>> = Rc::default();
    let calls = Rc::new(Cell::new(0u32));
    let inner = Inner {
        gate: gate.future(),
        opener: gate.clone(),
        script: case.during.clone().into_iter(),
        slot: slot.clone(),
        state: watch.clone(),
        before: case.before,
    };
    let c2 = calls.clone();
    let (handle, fut) = cancelable_future(inner, move || {
        c2.set(c2.get() + 1);
        CANCELLED
    });
    *slot.borrow_mut() = Some(handle);
    let out: Rc<Cell<Option<u32>>> = Rc::default();
    let mut s = Sched::new(&case.schedule);
    {
        let (out, extra, reuse) = (out.clone(), case.extra, case.reuse);
        s.spawn("the poller", move || {
            let mut fut = Box::pin(fut);
            let mut task = Task::new(reuse);
            let mut extra = extra;
            loop {
                if let Poll::Ready(x) = task.poll(|cx| fut.as_mut().poll(cx)) {
                    out.set(Some(x));
                    return Ok(());
                }
                if extra > 0 {
                    extra -= 1;
                } else {
                    task.wait();
                }
            }
        });
    }
    {
        let (slot, discard) = (slot.clone(), case.discard);
        s.spawn("the canceller", move || {
            let h = slot.borrow_mut().take();
            match h {
                Some(h) if discard => DiscardOnDrop::leak(h).discard(),
                h => drop(h),
            }
            Ok(())
        });
    }
    if case.opens {
        let gate = gate.clone();
        s.spawn("the opener", move || {
            harness::sched::point();
            gate.open(DONE);
            Ok(())
        });
    }
    let quiet = s.run()?;
    obs.nontrivial_if(s.switches > 2);
    obs.label_if(out.get() == Some(DONE), "completed");
    let w = watch.get();
    ensure!(quiet == Quiet::Done, "cancelled, but the poller was not woken");
    ensure!(!w.polled_after_done, "the inner future was polled after it completed");
    ensure_eq!(w.dropped, 1, "drops of the inner future");
    ensure_eq!(out.get(), Some(if w.done { DONE } else { CANCELLED }), "output");
    ensure_eq!(calls.get(), u32::from(!w.done), "calls of the callback");
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C22",
        "scripts: inner futures which complete, wake themselves or discard their own handle during their polls, and any order of polls, cancellation, leaking the handle and dropping the future; threads: a poller, a canceller and an opener under a generated schedule which can preempt at every lock and atomic operation and, in two fifths of the cases, at every basic block of the library. Non-trivial: the future was cancelled (scripts), more than two context switches (threads)",
    );
    r.family("scripts", 4_000_000, 12_000_000, case, run);
    r.family("threads", 4_000_000, 15_000_000, threads, concurrent);
    r.finish()
}
