//! C09: for_each, to_stream, to_future, wait_for.
use futures_core::Stream;
use futures_signals::signal::{Signal, SignalExt};
use futures_signals::signal_map::{MapDiff, SignalMap, SignalMapExt};
use futures_signals::signal_vec::{SignalVec, SignalVecExt, VecDiff};
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::{FutSink, Task};
use harness::mapsrc::*;
use harness::sigsrc::*;
use harness::sources::{Gate, GateFuture};
use harness::vecsrc::*;
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

struct LoggedVec(BoxVec<El>, Log<VecDiff<El>>);

impl SignalVec for LoggedVec {
    type Item = El;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<El>>> {
        let r = self.0.as_mut().poll_vec_change(cx);
        if let Poll::Ready(Some(d)) = &r {
            self.1.borrow_mut().push(d.clone());
        }
        r
    }
}

struct LoggedMap(BoxMap<u16, El>, Log<MapDiff<u16, El>>);

impl SignalMap for LoggedMap {
    type Key = u16;
    type Value = El;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<u16, El>>> {
        let r = self.0.as_mut().poll_map_change(cx);
        if let Poll::Ready(Some(d)) = &r {
            self.1.borrow_mut().push(d.clone());
        }
        r
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step<O> {
    Op(O),
    Yield,
    End,
    /// completes the newest future of for_each
    Open,
    Run,
    Once,
    Spurious,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case<I, O> {
    kind: Kind,
    reuse: bool,
    init: I,
    steps: Vec<Step<O>>,
    settle: bool,
    /// which futures are ready at once
    ready: u32,
    param: u8,
}

fn case<I: Clone + Debug, O: Clone + Debug + Serialize + 'static>(
    init: impl Strategy<Value = I>,
    op: impl Strategy<Value = O> + 'static,
) -> impl Strategy<Value = Case<I, O>> {
    let op = op.boxed();
    let step = prop_oneof![
        10 => op.prop_map(Step::Op),
        1 => Just(Step::Yield),
        1 => proptest::bool::weighted(0.3).prop_map(|b| if b { Step::End } else { Step::Run }),
        6 => Just(Step::Open),
        6 => Just(Step::Run),
        4 => Just(Step::Once),
        2 => Just(Step::Spurious),
    ];
    (
        kind(),
        any::<bool>(),
        init,
        harness::gen::script(step, 25, 80),
        any::<bool>(),
        prop_oneof![2 => Just(0u32), 1 => any::<u32>().prop_map(|x| x & x >> 7), 1 => any::<u32>(), 1 => Just(u32::MAX)],
        0u8..4,
    )
        .prop_map(|(kind, reuse, init, steps, settle, ready, param)| Case { kind, reuse, init, steps, settle, ready, param })
}

/// An input of any of the three kinds, with a log of what was consumed from it.
trait Input {
    type Op;
    type Item: Clone + PartialEq + Debug + 'static;
    fn op(&mut self, op: &Self::Op) -> bool;
    fn self_wake(&mut self);
    fn end(&mut self);
    fn ended(&self) -> bool;
    fn consumed(&self) -> Vec<Self::Item>;
    /// Everything which has to be consumed was consumed.
    fn complete(&self, consumed: &[Self::Item]) -> Outcome;
    fn check(&self) -> Outcome;
}

struct SigInput {
    src: SigSource<V>,
    n: u32,
}

impl Input for SigInput {
    type Op = u8;
    type Item = (u8, u32);
    fn op(&mut self, k: &u8) -> bool {
        self.n += 1;
        self.src.push(V { k: *k, id: self.n })
    }
    fn self_wake(&mut self) {
        self.src.self_wake()
    }
    fn end(&mut self) {
        self.src.end()
    }
    fn ended(&self) -> bool {
        self.src.ended
    }
    fn consumed(&self) -> Vec<(u8, u32)> {
        self.src.log.borrow().iter().map(|v| v.raw()).collect()
    }
    fn complete(&self, consumed: &[(u8, u32)]) -> Outcome {
        ensure_eq!(consumed.last(), Some(&self.src.latest().raw()), "latest value");
        if self.src.kind == Kind::Lossless {
            ensure_eq!(consumed.len(), self.src.pushed.len(), "number of values");
        }
        Ok(())
    }
    fn check(&self) -> Outcome {
        self.src.check("the input")
    }
}

struct VecInput {
    src: VecSource,
    log: Log<VecDiff<El>>,
}

impl Input for VecInput {
    type Op = VOp;
    type Item = VecDiff<El>;
    fn op(&mut self, op: &VOp) -> bool {
        self.src.op(op)
    }
    fn self_wake(&mut self) {
        self.src.self_wake()
    }
    fn end(&mut self) {
        self.src.end()
    }
    fn ended(&self) -> bool {
        self.src.ended
    }
    fn consumed(&self) -> Vec<VecDiff<El>> {
        self.log.borrow().clone()
    }
    fn complete(&self, consumed: &[VecDiff<El>]) -> Outcome {
        let mut v = vec![];
        for d in consumed {
            harness::exec::apply(&mut v, d.clone())?;
        }
        ensure_eq!(v, self.src.model.v, "replayed contents");
        Ok(())
    }
    fn check(&self) -> Outcome {
        self.src.check("the input")
    }
}

struct MapInput {
    src: MapSource,
    log: Log<MapDiff<u16, El>>,
}

impl Input for MapInput {
    type Op = MOp;
    type Item = MapDiff<u16, El>;
    fn op(&mut self, op: &MOp) -> bool {
        self.src.op(op).is_some()
    }
    fn self_wake(&mut self) {
        self.src.self_wake()
    }
    fn end(&mut self) {
        self.src.end()
    }
    fn ended(&self) -> bool {
        self.src.ended
    }
    fn consumed(&self) -> Vec<MapDiff<u16, El>> {
        self.log.borrow().clone()
    }
    fn complete(&self, consumed: &[MapDiff<u16, El>]) -> Outcome {
        let mut m = std::collections::BTreeMap::new();
        for d in consumed {
            harness::exec::apply_map(&mut m, d.clone())?;
        }
        ensure_eq!(m, self.src.model.m, "replayed contents");
        Ok(())
    }
    fn check(&self) -> Outcome {
        self.src.check("the input")
    }
}

type Calls<T> = Rc<RefCell<Vec<(T, Gate<()>, bool)>>>;
type BoxFut<T> = Pin<Box<dyn Future<Output = T>>>;
type BoxStream<T> = Pin<Box<dyn Stream<Item = T>>>;

/// The callback of for_each.
fn call<T>(calls: &Calls<T>, ready: u32, item: T) -> GateFuture<()> {
    let mut calls = calls.borrow_mut();
    let now = ready >> (calls.len() % 32) & 1 == 1;
    let g = Gate::new();
    if now {
        g.open(());
    }
    let f = g.future();
    calls.push((item, g, now));
    f
}

fn for_each<N: Input, I>(
    case: &Case<I, N::Op>,
    obs: &mut Obs,
    mut input: N,
    calls: Calls<N::Item>,
    mut out: BoxFut<()>,
) -> Outcome {
    let mut sink = FutSink::new(case.reuse);
    let mut changes = 0;
    let mut opened = false;
    let poll = |sink: &mut FutSink<()>, out: &mut BoxFut<()>, input: &N| -> Outcome {
        sink.poll(out);
        let calls = calls.borrow();
        let got: Vec<N::Item> = calls.iter().map(|c| c.0.clone()).collect();
        ensure_eq!(got, input.consumed(), "callback calls, expected the consumed items");
        for (i, (_, g, _)) in calls.iter().enumerate() {
            ensure!(g.get(|s| s.polled_after_done) == 0, "a future was polled after it completed");
            ensure!(i + 1 == calls.len() || g.get(|s| s.done), "the callback was called before the previous future completed");
        }
        input.check()
    };
    let settled = |sink: &FutSink<()>, input: &N| -> Outcome {
        let calls = calls.borrow();
        let idle = calls.last().map_or(true, |c| c.2);
        if idle {
            let got: Vec<N::Item> = calls.iter().map(|c| c.0.clone()).collect();
            input.complete(&got)?;
        }
        ensure_eq!(sink.out.is_some(), input.ended() && idle, "completion once settled");
        if let Some((_, g, open)) = calls.last() {
            ensure_eq!(g.get(|s| s.done), *open, "completion of the latest future");
        }
        Ok(())
    };
    macro_rules! run {
        () => {{
            while sink.out.is_none() && sink.task.ready() {
                poll(&mut sink, &mut out, &input)?;
            }
            settled(&sink, &input)?;
        }};
    }
    let open = || {
        if let Some(c) = calls.borrow_mut().last_mut() {
            c.2 = true;
            c.1.open(());
        }
    };
    for step in &case.steps {
        match step {
            Step::Op(o) => changes += input.op(o) as u32,
            Step::Yield => input.self_wake(),
            Step::End => input.end(),
            Step::Open => {
                opened = true;
                open()
            }
            Step::Run => run!(),
            Step::Once if !sink.task.ready() => {}
            Step::Once | Step::Spurious => poll(&mut sink, &mut out, &input)?,
        }
    }
    if case.settle {
        run!();
    }
    if case.param & 1 == 0 {
        input.end();
    }
    let mut rounds = 0;
    loop {
        run!();
        if sink.out.is_some() || calls.borrow().last().map_or(true, |c| c.2) {
            break;
        }
        open();
        rounds += 1;
        ensure!(rounds < 200_000, "it never settles");
    }
    input.end();
    run!();
    ensure!(sink.out.is_some(), "not completed although the input ended");
    obs.nontrivial_if(changes > 0 && (opened || case.ready != 0));
    Ok(())
}

fn to_stream<N: Input, I>(case: &Case<I, N::Op>, obs: &mut Obs, mut input: N, mut out: BoxStream<N::Item>) -> Outcome {
    let mut task = Task::new(case.reuse);
    let mut got: Vec<N::Item> = vec![];
    let mut ended = false;
    let mut changes = 0;
    macro_rules! poll {
        () => {{
            if !ended {
                match task.poll(|cx| out.as_mut().poll_next(cx)) {
                    Poll::Ready(Some(x)) => got.push(x),
                    Poll::Ready(None) => ended = true,
                    Poll::Pending => {}
                }
                ensure_eq!(got, input.consumed(), "items, expected the consumed ones");
                input.check()?;
            }
        }};
    }
    macro_rules! run {
        () => {{
            while !ended && task.ready() {
                poll!();
            }
            input.complete(&got)?;
            ensure_eq!(ended, input.ended(), "end once settled");
        }};
    }
    for step in &case.steps {
        match step {
            Step::Op(o) => changes += input.op(o) as u32,
            Step::Yield => input.self_wake(),
            Step::End => input.end(),
            Step::Run => run!(),
            Step::Once if task.ready() => poll!(),
            Step::Spurious => poll!(),
            _ => {}
        }
    }
    obs.nontrivial_if(changes > 0);
    if case.settle {
        run!();
    }
    input.end();
    run!();
    Ok(())
}

/// to_future and wait_for.
fn result(case: &Case<u8, u8>, obs: &mut Obs, wait: bool) -> Outcome {
    let (src, sig) = SigSource::new(case.kind, V { k: case.init, id: 0 });
    let mut input = SigInput { src, n: 0 };
    let mut out: BoxFut<Option<V>> = if wait {
        Box::pin(sig.wait_for(V { k: case.param, id: 1_000_000 }))
    } else {
        let f = sig.to_future();
        Box::pin(async move { Some(f.await) })
    };
    let mut sink = FutSink::new(case.reuse);
    let poll = |sink: &mut FutSink<Option<V>>, out: &mut BoxFut<Option<V>>, input: &SigInput| -> Outcome {
        if sink.out.is_some() {
            return Ok(());
        }
        sink.poll(out);
        let log = input.consumed();
        let found = log.iter().position(|v| wait && v.0 == case.param);
        match &sink.out {
            None => ensure!(found.is_none(), "not completed although a value matched"),
            Some(r) => {
                let r = r.map(|v| v.raw());
                match found {
                    Some(i) => {
                        ensure_eq!(r, Some(log[i]), "result, expected the first match");
                        ensure!(i + 1 == log.len(), "values were consumed after the match");
                    }
                    None => {
                        ensure!(input.ended(), "completed although the input has not ended");
                        ensure_eq!(r, if wait { None } else { Some(input.src.latest().raw()) }, "result");
                    }
                }
            }
        }
        input.check()
    };
    let settled = |sink: &FutSink<Option<V>>, input: &SigInput| -> Outcome {
        if sink.out.is_none() {
            ensure!(!input.ended(), "not completed although the input ended");
            input.complete(&input.consumed())?;
        }
        Ok(())
    };
    macro_rules! run {
        () => {{
            while sink.out.is_none() && sink.task.ready() {
                poll(&mut sink, &mut out, &input)?;
            }
            settled(&sink, &input)?;
        }};
    }
    let mut changes = 0;
    for step in &case.steps {
        match step {
            Step::Op(o) => changes += (input.op(o) && sink.out.is_none()) as u32,
            Step::Yield => input.self_wake(),
            Step::End => input.end(),
            Step::Run => run!(),
            Step::Once if sink.task.ready() => poll(&mut sink, &mut out, &input)?,
            Step::Spurious => poll(&mut sink, &mut out, &input)?,
            _ => {}
        }
    }
    obs.nontrivial_if(changes > 0);
    obs.label_if(sink.out.is_some(), "completed before the end of the case");
    if case.settle {
        run!();
    }
    input.end();
    run!();
    obs.label_if(matches!(sink.out, Some(None)), "ended without a match");
    Ok(())
}

type SigCase = Case<u8, u8>;
type VecCase = Case<Vec<u8>, VOp>;
type MapCase = Case<Vec<(u16, u8)>, MOp>;

fn sig_case() -> impl Strategy<Value = SigCase> {
    case(0u8..4, 0u8..4)
}

fn vec_case() -> impl Strategy<Value = VecCase> {
    case(contents(), vop())
}

fn map_case() -> impl Strategy<Value = MapCase> {
    case(entries(), mop())
}

struct RawSig(BoxSig<V>);

impl Signal for RawSig {
    type Item = (u8, u32);
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<(u8, u32)>> {
        self.0.as_mut().poll_change(cx).map(|o| o.map(|v| v.raw()))
    }
}

fn sig_input(c: &SigCase) -> (SigInput, RawSig) {
    let (src, sig) = SigSource::new(c.kind, V { k: c.init, id: 0 });
    (SigInput { src, n: 0 }, RawSig(sig))
}

fn vec_input(c: &VecCase) -> (VecInput, LoggedVec) {
    let (src, sig) = VecSource::new(c.kind == Kind::Mutable, &c.init);
    let log = Log::default();
    (VecInput { src, log: Rc::clone(&log) }, LoggedVec(sig, log))
}

fn map_input(c: &MapCase) -> (MapInput, LoggedMap) {
    let (src, sig) = MapSource::new(c.kind == Kind::Mutable, &c.init);
    let log = Log::default();
    (MapInput { src, log: Rc::clone(&log) }, LoggedMap(sig, log))
}

fn main() {
    let mut r = Runner::new(
        "C09",
        "histories of the input and of the completion of the callback's futures (some ready at once), with ends in any order, self-waking inputs, runs, single and spurious polls; non-trivial: at least one change of the input (for_each: and one completed future)",
    );
    r.family("Signal::for_each", 500_000, 8_000_000, sig_case, |c: &SigCase, obs: &mut Obs| {
        let (input, sig) = sig_input(c);
        let calls = Calls::default();
        let (c2, ready) = (Rc::clone(&calls), c.ready);
        for_each(c, obs, input, calls, Box::pin(sig.for_each(move |v| call(&c2, ready, v))))
    });
    r.family("SignalVec::for_each", 400_000, 6_000_000, vec_case, |c: &VecCase, obs: &mut Obs| {
        let (input, sig) = vec_input(c);
        let calls = Calls::default();
        let (c2, ready) = (Rc::clone(&calls), c.ready);
        for_each(c, obs, input, calls, Box::pin(sig.for_each(move |v| call(&c2, ready, v))))
    });
    r.family("SignalMap::for_each", 400_000, 6_000_000, map_case, |c: &MapCase, obs: &mut Obs| {
        let (input, sig) = map_input(c);
        let calls = Calls::default();
        let (c2, ready) = (Rc::clone(&calls), c.ready);
        for_each(c, obs, input, calls, Box::pin(sig.for_each(move |v| call(&c2, ready, v))))
    });
    r.family("Signal::to_stream", 300_000, 4_000_000, sig_case, |c: &SigCase, obs: &mut Obs| {
        let (input, sig) = sig_input(c);
        to_stream(c, obs, input, Box::pin(sig.to_stream()))
    });
    r.family("SignalVec::to_stream", 300_000, 4_000_000, vec_case, |c: &VecCase, obs: &mut Obs| {
        let (input, sig) = vec_input(c);
        to_stream(c, obs, input, Box::pin(sig.to_stream()))
    });
    r.family("to_future", 300_000, 5_000_000, sig_case, |c: &SigCase, obs: &mut Obs| result(c, obs, false));
    r.family("wait_for", 400_000, 6_000_000, sig_case, |c: &SigCase, obs: &mut Obs| result(c, obs, true));
    r.finish()
}
