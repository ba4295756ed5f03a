//! C03: signal::channel.
use futures_signals::signal::{channel, Receiver, Sender, Signal};
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::Task;
use harness::vecsrc::{idx, pick};
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::pin::Pin;
use std::task::Poll;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Send(u16),
    Clone(u16),
    CloneMany(u32),
    /// drops all but a few of the senders
    DropMany(u8),
    Drop(u16),
    Close(u16),
    Poll,
    Once,
    Run,
    DropReceiver,
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        16 => idx().prop_map(Op::Send),
        8 => idx().prop_map(Op::Clone),
        6 => idx().prop_map(Op::Drop),
        2 => idx().prop_map(Op::Close),
        8 => Just(Op::Poll),
        6 => Just(Op::Once),
        4 => Just(Op::Run),
        1 => Just(Op::DropReceiver),
    ]
}

/// With up to thousands of senders.
fn op_crowd() -> impl Strategy<Value = Op> {
    prop_oneof![
        2 => prop_oneof![Just(255u32), Just(256), Just(257), 2u32..700, 65_530u32..65_540].prop_map(Op::CloneMany),
        2 => (0u8..4).prop_map(Op::DropMany),
        12 => op(),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    reuse: bool,
    ops: Vec<Op>,
}

struct World {
    senders: Vec<Sender<u64>>,
    receiver: Option<Pin<Box<Receiver<u64>>>>,
    task: Task,
    slot: Option<u64>,
    open: bool,
    must_wake: bool,
    parked: bool,
    ended: bool,
}

impl World {
    fn poll(&mut self) -> Outcome {
        let Some(r) = self.receiver.as_mut() else { return Ok(()) };
        if self.ended {
            return Ok(());
        }
        let got = self.task.poll(|cx| r.as_mut().poll_change(cx));
        self.must_wake = false;
        self.parked = got.is_pending();
        let want = match self.slot.take() {
            Some(x) => Poll::Ready(Some(x)),
            None if self.open => Poll::Pending,
            None => Poll::Ready(None),
        };
        ensure_eq!(got, want, "poll of the receiver");
        self.ended = got == Poll::Ready(None);
        Ok(())
    }
    fn run(&mut self) -> Outcome {
        while self.receiver.is_some() && !self.ended && self.task.ready() {
            self.poll()?;
        }
        Ok(())
    }
    fn event(&mut self) {
        self.must_wake |= self.parked;
    }
}

fn run(case: &Case, obs: &mut Obs) -> Outcome {
    let (s, r) = channel(0u64);
    let mut w = World {
        senders: vec![s],
        receiver: Some(Box::pin(r)),
        task: Task::new(case.reuse),
        slot: Some(0),
        open: true,
        must_wake: false,
        parked: false,
        ended: false,
    };
    let mut next = 0;
    let (mut sends, mut closed) = (0, false);
    for op in &case.ops {
        let n = w.senders.len();
        let at = |i: &u16| (n > 0).then(|| pick(*i, n));
        match op {
            Op::Send(i) => {
                if let Some(i) = at(i) {
                    next += 1;
                    let got = w.senders[i].send(next);
                    let want = if w.open && w.receiver.is_some() { Ok(()) } else { Err(next) };
                    ensure_eq!(got, want, "result of send");
                    if got.is_ok() {
                        sends += 1;
                        w.slot = Some(next);
                        w.event();
                    }
                    obs.label_if(closed, "send after close");
                }
            }
            Op::Clone(i) => {
                if let Some(i) = at(i) {
                    obs.label_if(closed, "clone after close");
                    let s = w.senders[i].clone();
                    w.senders.push(s);
                }
            }
            Op::CloneMany(count) => {
                if n > 0 && n < 140_000 {
                    for _ in 0..*count {
                        let s = w.senders[0].clone();
                        w.senders.push(s);
                    }
                    obs.label("many senders");
                }
            }
            Op::DropMany(keep) => {
                w.senders.truncate(*keep as usize);
                if w.senders.is_empty() && w.open {
                    w.open = false;
                    w.event();
                }
            }
            Op::Drop(i) => {
                if let Some(i) = at(i) {
                    w.senders.remove(i);
                    if w.senders.is_empty() && w.open {
                        w.open = false;
                        w.event();
                    }
                }
            }
            Op::Close(i) => {
                if let Some(i) = at(i) {
                    w.senders[i].close();
                    closed = true;
                    obs.label_if(n > 1, "close with several senders");
                    if w.open {
                        w.open = false;
                        w.event();
                    }
                }
            }
            Op::Poll => w.poll()?,
            Op::Once => {
                if w.task.ready() {
                    w.poll()?
                }
            }
            Op::Run => w.run()?,
            Op::DropReceiver => {
                w.receiver = None;
                obs.label("receiver dropped");
            }
        }
        if w.must_wake && w.receiver.is_some() {
            ensure!(w.task.woken(), "the receiver was not woken");
        }
    }
    obs.nontrivial_if(sends > 0 && w.task.polls > 1);
    w.run()?;
    w.senders.clear();
    w.open = false;
    w.run()?;
    ensure!(w.ended || w.receiver.is_none(), "the receiver never ended");
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C03",
        "histories of send, clone, close and drop over any number of senders with receiver polls; non-trivial: a successful send and at least two polls",
    );
    r.family(
        "channel",
        5_000_000,
        30_000_000,
        || {
            (any::<bool>(), harness::gen::script(op(), 20, 100))
                .prop_map(|(reuse, ops)| Case { reuse, ops })
        },
        |c: &Case, obs: &mut Obs| run(c, obs),
    );
    r.family(
        "crowd",
        2_000,
        40_000,
        || (any::<bool>(), proptest::collection::vec(op_crowd(), 3..30)).prop_map(|(reuse, ops)| Case { reuse, ops }),
        |c: &Case, obs: &mut Obs| run(c, obs),
    );
    r.finish()
}
