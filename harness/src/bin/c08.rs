//! C08: map_future, throttle, from_future, from_stream, sample_stream_cloned.
use futures_core::Stream;
use futures_signals::signal::{from_future, from_stream, SignalExt};
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::{SigSink, Task};
use harness::sigsrc::*;
use harness::sources::{Gate, ScriptStream, Src};
use harness::vecsrc::BoxSig;
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Push(u8),
    Yield,
    End,
    /// completes a future, counted from the newest
    Open(u8),
    Run,
    Once,
    Spurious,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    reuse: bool,
    first: u8,
    steps: Vec<Step>,
    settle: bool,
    /// which futures are ready at once
    ready: u32,
    /// the source is ended before the futures complete
    end_first: bool,
}

fn case() -> impl Strategy<Value = Case> {
    let step = prop_oneof![
        10 => (0u8..4).prop_map(Step::Push),
        1 => Just(Step::Yield),
        1 => proptest::bool::weighted(0.3).prop_map(|b| if b { Step::End } else { Step::Run }),
        8 => prop_oneof![5 => Just(0u8), 1 => 0u8..4].prop_map(Step::Open),
        6 => Just(Step::Run),
        4 => Just(Step::Once),
        2 => Just(Step::Spurious),
    ];
    (
        kind(),
        any::<bool>(),
        0u8..4,
        harness::gen::script(step, 25, 100),
        any::<bool>(),
        prop_oneof![2 => Just(0u32), 1 => any::<u32>().prop_map(|x| x & x >> 7), 1 => any::<u32>()],
        any::<bool>(),
    )
        .prop_map(|(kind, reuse, first, steps, settle, ready, end_first)| Case { kind, reuse, first, steps, settle, ready, end_first })
}

type Gates<T> = Rc<RefCell<Vec<(Option<V>, Gate<T>, bool)>>>;

/// The closure which makes a future; `value` is its result.
fn make<T: 'static>(gates: &Gates<T>, ready: u32, item: Option<V>, value: impl Fn(usize) -> T) -> harness::sources::GateFuture<T> {
    let mut gates = gates.borrow_mut();
    let n = gates.len();
    let g = Gate::new();
    let now = ready >> (n % 32) & 1 == 1;
    if now {
        g.open(value(n));
    }
    let f = g.future();
    gates.push((item, g, now));
    f
}

/// A future which notices when it's polled although a later input was already consumed.
struct Watched<V, F> {
    future: F,
    number: usize,
    consumed: Rc<RefCell<Vec<V>>>,
    late: Rc<Cell<bool>>,
}

impl<V, F: Future + Unpin> Future for Watched<V, F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<F::Output> {
        if self.consumed.borrow().len() > self.number + 1 {
            self.late.set(true);
        }
        Pin::new(&mut self.future).poll(cx)
    }
}

impl<V, F> Unpin for Watched<V, F> {}

fn map_future(case: &Case, obs: &mut Obs) -> Outcome {
    let (mut src, sig) = SigSource::new(case.kind, V { k: case.first, id: 0 });
    let gates: Gates<usize> = Rc::default();
    let (g2, ready) = (gates.clone(), case.ready);
    let late: Rc<Cell<bool>> = Rc::default();
    let (late2, consumed) = (late.clone(), src.log.clone());
    let mut out: BoxSig<Option<usize>> = Box::pin(sig.map_future(move |v: V| {
        let number = g2.borrow().len();
        Watched { future: make(&g2, ready, Some(v), |n| n), number, consumed: consumed.clone(), late: late2.clone() }
    }));
    let mut sink = SigSink::new(case.reuse);
    let mut delivered: Vec<usize> = vec![];
    let mut superseded = false;
    let mut poll = |src: &SigSource<V>, sink: &mut SigSink<Option<usize>>| -> Outcome {
        let n = sink.items.len();
        let first = sink.task.polls == 0;
        sink.poll(&mut out)?;
        let gates = gates.borrow();
        let calls: Vec<(u8, u32)> = gates.iter().map(|g| g.0.unwrap().raw()).collect();
        let consumed: Vec<(u8, u32)> = src.log.borrow().iter().map(|v| v.raw()).collect();
        ensure_eq!(calls, consumed, "closure calls");
        ensure!(!late.get(), "a future was polled although a later value was already consumed");
        ensure!(!first || sink.items.len() > n, "no value on the first poll");
        match sink.items.get(n) {
            Some(None) => ensure!(n == 0, "None after the first value"),
            Some(Some(i)) => {
                ensure_eq!(*i, gates.len() - 1, "result, expected the one of the latest value");
                ensure!(!delivered.contains(i), "a result was yielded twice");
                delivered.push(*i);
            }
            None => {}
        }
        for (i, (_, g, _)) in gates.iter().enumerate() {
            ensure!(g.get(|s| s.polled_after_done) == 0, "a future was polled after it completed");
            ensure!(i + 1 == gates.len() || g.get(|s| s.dropped), "a superseded future is kept");
            superseded |= i + 1 < gates.len() && !g.get(|s| s.done);
        }
        src.check("the input")
    };
    let settled = |src: &SigSource<V>, sink: &SigSink<Option<usize>>| -> Outcome {
        ensure_eq!(src.last_consumed().map(|v| v.raw()), Some(src.latest().raw()), "last consumed value");
        let gates = gates.borrow();
        let (_, g, open) = gates.last().unwrap();
        if *open {
            ensure_eq!(sink.last(), Some(&Some(gates.len() - 1)), "settled value");
        }
        ensure_eq!(g.get(|s| s.done), *open, "completion of the latest future");
        ensure_eq!(sink.ended, src.ended && *open, "end once settled");
        Ok(())
    };
    let mut pushes = 0;
    macro_rules! run {
        () => {{
            while !sink.ended && sink.task.ready() {
                poll(&src, &mut sink)?;
            }
            settled(&src, &sink)?;
        }};
    }
    let open = |back: u8| {
        let mut gates = gates.borrow_mut();
        let n = gates.len();
        if let Some((_, g, o)) = n.checked_sub(1 + back as usize).map(|i| &mut gates[i]) {
            *o = true;
            let g = g.clone();
            let i = n - 1 - back as usize;
            g.open(i);
        }
    };
    let mut opened = false;
    for step in &case.steps {
        match step {
            Step::Push(k) => pushes += src.push(V { k: *k, id: pushes + 1 }) as u32,
            Step::Yield => src.self_wake(),
            Step::End => src.end(),
            Step::Open(b) => {
                opened = true;
                open(*b)
            }
            Step::Run => run!(),
            Step::Once if !sink.task.ready() => {}
            Step::Once | Step::Spurious => poll(&src, &mut sink)?,
        }
    }
    if case.settle {
        run!();
    }
    if case.end_first {
        src.end();
        run!();
        open(0);
    } else {
        open(0);
        run!();
        src.end();
    }
    run!();
    open(0);
    run!();
    ensure!(sink.ended, "not ended although the input ended and the future completed");
    obs.nontrivial_if(pushes > 0 && (opened || case.ready != 0));
    obs.label_if(superseded, "superseded future");
    obs.label_if(case.end_first, "input ended first");
    Ok(())
}

fn throttle(case: &Case, obs: &mut Obs) -> Outcome {
    let (mut src, sig) = SigSource::new(case.kind, V { k: case.first, id: 0 });
    let gates: Gates<()> = Rc::default();
    let (g2, ready) = (gates.clone(), case.ready);
    let mut out: BoxSig<V> = Box::pin(sig.throttle(move || make(&g2, ready, None, |_| ())));
    let mut sink = SigSink::new(case.reuse);
    let mut held = false;
    let mut poll = |src: &SigSource<V>, sink: &mut SigSink<V>| -> Outcome {
        let n = sink.items.len();
        let first = sink.task.polls == 0;
        sink.poll(&mut out)?;
        let gates = gates.borrow();
        ensure!(!first || sink.items.len() > n, "no value on the first poll");
        ensure_eq!(gates.len(), sink.items.len(), "calls of the closure, expected one per output");
        if let Some(v) = sink.items.get(n) {
            ensure_eq!(v.raw(), src.last_consumed().unwrap().raw(), "output, expected the last consumed value");
        }
        for (i, (_, g, _)) in gates.iter().enumerate() {
            ensure!(g.get(|s| s.polled_after_done) == 0, "a future was polled after it completed");
            ensure!(i + 1 == gates.len() || g.get(|s| s.done), "a value was yielded before the future of the previous one completed");
        }
        src.check("the input")
    };
    let mut settled = |src: &SigSource<V>, sink: &SigSink<V>| -> Outcome {
        let gates = gates.borrow();
        let (_, g, open) = gates.last().unwrap();
        if *open {
            ensure_eq!(g.get(|s| s.done), true, "completion of the future");
            ensure_eq!(sink.last().map(|v| v.raw()), Some(src.latest().raw()), "settled value");
            ensure_eq!(sink.ended, src.ended, "end once settled");
        } else {
            ensure!(!sink.ended || src.ended && sink.last().unwrap().raw() == src.latest().raw(), "ended too early");
            held |= sink.last().unwrap().raw() != src.latest().raw();
        }
        Ok(())
    };
    macro_rules! run {
        () => {{
            while !sink.ended && sink.task.ready() {
                poll(&src, &mut sink)?;
            }
            settled(&src, &sink)?;
        }};
    }
    let open = |back: u8| {
        let mut gates = gates.borrow_mut();
        let n = gates.len();
        if let Some((_, g, o)) = n.checked_sub(1 + back as usize).map(|i| &mut gates[i]) {
            *o = true;
            g.open(());
        }
    };
    let mut pushes = 0;
    let mut opened = false;
    for step in &case.steps {
        match step {
            Step::Push(k) => pushes += src.push(V { k: *k, id: pushes + 1 }) as u32,
            Step::Yield => src.self_wake(),
            Step::End => src.end(),
            Step::Open(b) => {
                opened = true;
                open(*b)
            }
            Step::Run => run!(),
            Step::Once if !sink.task.ready() => {}
            Step::Once | Step::Spurious => poll(&src, &mut sink)?,
        }
    }
    if case.settle {
        run!();
    }
    if case.end_first {
        src.end();
    }
    let mut rounds = 0;
    loop {
        run!();
        let n = gates.borrow().len();
        if sink.ended || gates.borrow()[n - 1].2 {
            break;
        }
        open(0);
        rounds += 1;
        ensure!(rounds < 200_000, "it never settles");
    }
    src.end();
    run!();
    ensure!(sink.ended, "not ended with its input");
    obs.nontrivial_if(pushes > 0 && (opened || case.ready != 0));
    obs.label_if(held, "held back a value");
    obs.label_if(case.end_first, "input ended first");
    Ok(())
}

fn of_future(case: &Case, obs: &mut Obs) -> Outcome {
    let g: Gate<u8> = Gate::new();
    let mut open = case.ready & 1 == 1;
    if open {
        g.open(case.first);
    }
    let mut out: BoxSig<Option<u8>> = Box::pin(from_future(g.future()));
    let mut sink = SigSink::new(case.reuse);
    let mut settles = 0;
    let mut late = false;
    for step in case.steps.iter().chain([&Step::Run, &Step::Open(0), &Step::Run]) {
        let polls = sink.task.polls;
        match step {
            Step::Open(_) if !open => {
                late = sink.task.polls > 0;
                open = true;
                g.open(case.first);
            }
            Step::Run => {
                sink.run(&mut out)?;
                settles += 1;
                let want = if !open {
                    vec![None]
                } else if sink.items.len() == 1 {
                    vec![Some(case.first)]
                } else {
                    vec![None, Some(case.first)]
                };
                ensure_eq!(sink.items, want, "values once settled");
                ensure_eq!(sink.ended, open, "end once settled");
            }
            Step::Once if sink.task.ready() => {
                sink.poll(&mut out)?;
            }
            Step::Spurious => {
                sink.poll(&mut out)?;
            }
            _ => {}
        }
        ensure!(polls > 0 || sink.task.polls == 0 || !sink.items.is_empty(), "no value on the first poll");
        ensure!(g.get(|s| s.polled_after_done) == 0, "the future was polled after it completed");
        ensure!(!sink.ended || sink.items.last() == Some(&Some(case.first)), "ended without the result");
    }
    obs.nontrivial_if(late && settles > 1);
    Ok(())
}

fn of_stream(case: &Case, obs: &mut Obs) -> Outcome {
    let src: Src<u32> = Src::new();
    let mut pushed = vec![];
    if case.ready & 1 == 1 {
        src.push(0);
        pushed.push(0);
    }
    let mut ended = false;
    let mut out: BoxSig<Option<u32>> = Box::pin(from_stream(ScriptStream(src.signal())));
    let mut sink = SigSink::new(case.reuse);
    macro_rules! poll {
        () => {{
            let n = sink.items.len();
            let first = sink.task.polls == 0;
            let before = src.get(|s| s.yielded);
            sink.poll(&mut out)?;
            let seen = src.get(|s| s.yielded) as usize;
            ensure!(!first || sink.items.len() > n, "no value on the first poll");
            match sink.items.get(n) {
                Some(None) => ensure!(first && seen == 0, "None although an item was consumed, or after the first value"),
                Some(Some(x)) => {
                    ensure_eq!(Some(x), seen.checked_sub(1).map(|i| &pushed[i]), "value, expected the last consumed item");
                    ensure!(before < seen as u64, "an item was repeated");
                }
                None => ensure!(before == seen as u64, "an item was consumed without a value"),
            }
            src.check("the stream")?;
        }};
    }
    macro_rules! run {
        () => {{
            while !sink.ended && sink.task.ready() {
                poll!();
            }
            ensure_eq!(sink.last(), Some(&pushed.last().copied()), "settled value");
            ensure_eq!(sink.ended, ended, "end once settled");
        }};
    }
    for step in &case.steps {
        match step {
            Step::Push(_) if !ended => {
                let x = pushed.len() as u32;
                pushed.push(x);
                src.push(x);
            }
            Step::Yield if !ended => src.self_wake(),
            Step::End if !ended => {
                ended = true;
                src.end();
            }
            Step::Run => run!(),
            Step::Once if sink.task.ready() => poll!(),
            Step::Spurious => poll!(),
            _ => {}
        }
    }
    obs.nontrivial_if(pushed.len() > 1);
    if case.settle {
        run!();
    }
    if !ended {
        ended = true;
        src.end();
    }
    run!();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum SampleStep {
    Push,
    Yield,
    End,
    Item,
    ItemYield,
    ItemEnd,
    Run,
    Once,
    Spurious,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SampleCase {
    kind: Kind,
    reuse: bool,
    steps: Vec<SampleStep>,
    settle: bool,
}

fn sample_case() -> impl Strategy<Value = SampleCase> {
    let step = prop_oneof![
        8 => Just(SampleStep::Push),
        1 => proptest::bool::weighted(0.4).prop_map(|b| if b { SampleStep::Yield } else { SampleStep::Run }),
        1 => proptest::bool::weighted(0.4).prop_map(|b| if b { SampleStep::End } else { SampleStep::Run }),
        8 => Just(SampleStep::Item),
        1 => Just(SampleStep::ItemYield),
        1 => proptest::bool::weighted(0.2).prop_map(|b| if b { SampleStep::ItemEnd } else { SampleStep::Run }),
        4 => Just(SampleStep::Run),
        4 => Just(SampleStep::Once),
        2 => Just(SampleStep::Spurious),
    ];
    (
        kind(),
        any::<bool>(),
        harness::gen::script(step, 25, 100),
        any::<bool>(),
    )
        .prop_map(|(kind, reuse, steps, settle)| SampleCase { kind, reuse, steps, settle })
}

fn sample(case: &SampleCase, obs: &mut Obs) -> Outcome {
    let (mut src, sig) = SigSource::new(case.kind, 0u32);
    let stream: Src<u32> = Src::new();
    let mut out: Pin<Box<dyn Stream<Item = (u32, u32)>>> = Box::pin(sig.sample_stream_cloned(ScriptStream(stream.signal())));
    let mut task = Task::new(case.reuse);
    let (mut pushed, mut got, mut ended, mut stream_ended) = (0u32, 0u32, false, false);
    let mut changed = 0;
    macro_rules! poll {
        () => {{
            if !ended {
                match task.poll(|cx| out.as_mut().poll_next(cx)) {
                    Poll::Ready(Some((a, b))) => {
                        ensure_eq!(b, got, "item of the stream");
                        got += 1;
                        ensure_eq!(Some(a), src.last_consumed(), "value, expected the last consumed one");
                        if !src.yields {
                            ensure_eq!(a, *src.latest(), "value, expected the latest one");
                        }
                    }
                    Poll::Ready(None) => ended = true,
                    Poll::Pending => {}
                }
                src.check("the signal")?;
                stream.check("the stream")?;
            }
        }};
    }
    macro_rules! run {
        () => {{
            while !ended && task.ready() {
                poll!();
            }
            ensure_eq!(got, pushed, "number of items once settled");
            ensure_eq!(ended, stream_ended, "end once settled");
        }};
    }
    for step in &case.steps {
        match step {
            SampleStep::Push => {
                changed += 1;
                src.push(changed);
            }
            SampleStep::Yield => src.self_wake(),
            SampleStep::End => src.end(),
            SampleStep::Item if !stream_ended => {
                stream.push(pushed);
                pushed += 1;
            }
            SampleStep::ItemYield if !stream_ended => stream.self_wake(),
            SampleStep::ItemEnd if !stream_ended => {
                stream_ended = true;
                stream.end();
            }
            SampleStep::Run => run!(),
            SampleStep::Once if task.ready() => poll!(),
            SampleStep::Spurious => poll!(),
            _ => {}
        }
    }
    obs.nontrivial_if(pushed > 0 && changed > 0);
    obs.label_if(src.ended, "signal ended before the stream");
    if case.settle {
        run!();
    }
    if !stream_ended {
        stream_ended = true;
        stream.end();
    }
    run!();
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C08",
        "histories of the input, of the completion of the futures or of the items of the stream, with ends in any order, futures which are ready at once, self-waking inputs, runs, single and spurious polls; non-trivial: at least one change of the input and one completed future (or item of the stream)",
    );
    r.family("map_future", 800_000, 12_000_000, case, map_future);
    r.family("throttle", 800_000, 12_000_000, case, throttle);
    r.family("from_future", 200_000, 3_000_000, case, of_future);
    r.family("from_stream", 400_000, 6_000_000, case, of_stream);
    r.family("sample_stream_cloned", 400_000, 6_000_000, sample_case, sample);
    r.finish()
}
