//! C07: flatten, switch and switch_signal_vec.
use futures_signals::signal::SignalExt;
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::{SigSink, VecSink};
use harness::sigsrc::*;
use harness::vecsrc::*;
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// a new inner of a kind with a first value, which ends at once or not
    Outer(Kind, Vec<u8>, bool),
    /// a change of an inner signal, counted from the newest
    Inner(u8, VOp),
    InnerYield(u8),
    InnerEnd(u8),
    OuterYield,
    OuterEnd,
    Run,
    Once,
    Spurious,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    outer: Kind,
    reuse: bool,
    first: (Kind, Vec<u8>, bool),
    steps: Vec<Step>,
    settle: bool,
}

fn inner() -> impl Strategy<Value = (Kind, Vec<u8>, bool)> {
    (kind(), prop_oneof![40 => proptest::collection::vec(key(), 0..5), 1 => proptest::collection::vec(key(), 5..70)], proptest::bool::weighted(0.15))
}

fn back() -> impl Strategy<Value = u8> {
    prop_oneof![6 => Just(0u8), 2 => Just(1u8), 1 => 0u8..4]
}

fn case() -> impl Strategy<Value = Case> {
    let step = prop_oneof![
        8 => inner().prop_map(|(k, v, e)| Step::Outer(k, v, e)),
        20 => (back(), vop()).prop_map(|(i, o)| Step::Inner(i, o)),
        2 => back().prop_map(Step::InnerYield),
        3 => back().prop_map(Step::InnerEnd),
        2 => Just(Step::OuterYield),
        1 => Just(Step::OuterEnd),
        10 => Just(Step::Run),
        5 => Just(Step::Once),
        3 => Just(Step::Spurious),
    ];
    (
        kind(),
        any::<bool>(),
        inner(),
        harness::gen::script(step, 25, 100),
        any::<bool>(),
    )
        .prop_map(|(outer, reuse, first, steps, settle)| Case { outer, reuse, first, steps, settle })
}

#[derive(Clone, Copy, PartialEq)]
enum How {
    Flatten,
    Switch,
}

type Item = (usize, u32);

fn signals(case: &Case, obs: &mut Obs, how: How) -> Outcome {
    // inner signals by index; the signal side waits until the outer value is consumed
    let inners: Rc<RefCell<Vec<SigSource<Item>>>> = Rc::default();
    let waiting: Rc<RefCell<Vec<Option<BoxSig<Item>>>>> = Rc::default();
    let mut next = 0u32;
    let mut make = |kind: Kind, ends: bool, next: &mut u32| {
        *next += 1;
        let i = inners.borrow().len();
        let (mut a, b) = SigSource::new(kind, (i, *next));
        if ends {
            a.end();
        }
        inners.borrow_mut().push(a);
        waiting.borrow_mut().push(Some(b));
        i
    };
    let (mut outer, osig) = SigSource::new(case.outer, make(case.first.0, case.first.2, &mut next));
    let calls = Rc::new(Cell::new(0));
    let (w2, c2) = (waiting.clone(), calls.clone());
    let get = move |i: usize| {
        c2.set(c2.get() + 1);
        w2.borrow_mut()[i].take().expect("an outer value was consumed twice")
    };
    let mut out: BoxSig<Item> = match how {
        How::Flatten => Box::pin(osig.map(get).flatten()),
        How::Switch => Box::pin(osig.switch(get)),
    };
    let mut sink = SigSink::new(case.reuse);
    let check = |outer: &SigSource<usize>, sink: &SigSink<Item>, items: usize| -> Outcome {
        let inners = inners.borrow();
        let current = outer.last_consumed();
        if let (Some(item), true) = (sink.last(), sink.items.len() > items) {
            ensure_eq!(Some(item.0), current, "the inner signal of an output");
            ensure_eq!(Some(*item), inners[item.0].last_consumed(), "output, expected the inner's latest consumed value");
        }
        ensure_eq!(calls.get(), outer.consumed(), "calls of the closure");
        outer.check("the outer signal")?;
        for (i, s) in inners.iter().enumerate() {
            s.check("an inner signal")?;
            if Some(i) != current && s.consumed() > 0 && s.kind != Kind::Mutable {
                ensure!(s.src.get(|s| s.dropped), "the replaced inner signal {i} is kept");
            }
        }
        Ok(())
    };
    let settled = |outer: &SigSource<usize>, sink: &SigSink<Item>| -> Outcome {
        let inners = inners.borrow();
        let cur = &inners[*outer.latest()];
        ensure_eq!(sink.last(), Some(cur.latest()), "settled value");
        ensure_eq!(sink.ended, outer.ended && cur.ended, "end once settled");
        Ok(())
    };
    let (mut switched, mut changed) = (0, 0);
    macro_rules! poll {
        () => {{
            let n = sink.items.len();
            let first = sink.task.polls == 0;
            let ready = sink.poll(&mut out)?;
            ensure!(!first || ready, "no value on the first poll");
            check(&outer, &sink, n)?;
        }};
    }
    macro_rules! run {
        () => {{
            while !sink.ended && sink.task.ready() {
                poll!();
            }
            settled(&outer, &sink)?;
        }};
    }
    for step in &case.steps {
        let n = inners.borrow().len();
        let at = |b: u8| n.saturating_sub(1 + b as usize);
        match step {
            Step::Outer(k, _, ends) => {
                if !outer.ended {
                    let i = make(*k, *ends, &mut next);
                    outer.push(i);
                    switched += 1;
                }
            }
            Step::Inner(b, _) => {
                next += 1;
                changed += inners.borrow_mut()[at(*b)].push((at(*b), next)) as u32;
            }
            Step::InnerYield(b) => inners.borrow_mut()[at(*b)].self_wake(),
            Step::InnerEnd(b) => inners.borrow_mut()[at(*b)].end(),
            Step::OuterYield => outer.self_wake(),
            Step::OuterEnd => outer.end(),
            Step::Run => run!(),
            Step::Once if !sink.task.ready() => {}
            Step::Once | Step::Spurious => poll!(),
        }
    }
    obs.nontrivial_if(switched > 0 && changed > 0);
    obs.label_if(outer.ended, "outer ended before the inner");
    if case.settle {
        run!();
    }
    outer.end();
    inners.borrow_mut()[*outer.latest()].end();
    run!();
    Ok(())
}

fn vectors(case: &Case, obs: &mut Obs) -> Outcome {
    let inners: Rc<RefCell<Vec<VecSource>>> = Rc::default();
    let waiting: Rc<RefCell<Vec<Option<BoxVec<El>>>>> = Rc::default();
    let make = |(kind, init, ends): (Kind, &Vec<u8>, bool)| {
        let i = inners.borrow().len();
        let (mut a, b) = VecSource::new(kind == Kind::Mutable, init);
        if ends {
            a.end();
        }
        inners.borrow_mut().push(a);
        waiting.borrow_mut().push(Some(b));
        i
    };
    let (mut outer, osig) = SigSource::new(case.outer, make((case.first.0, &case.first.1, case.first.2)));
    let calls: Log<usize> = Log::default();
    let (w2, c2) = (waiting.clone(), calls.clone());
    let mut out: BoxVec<(usize, El)> = Box::pin(osig.switch_signal_vec(move |i: usize| {
        c2.borrow_mut().push(i);
        let s = w2.borrow_mut()[i].take().expect("an outer value was used twice");
        futures_signals::signal_vec::SignalVecExt::map(s, move |e| (i, e))
    }));
    let mut sink = VecSink::new(case.reuse);
    let check = |outer: &SigSource<usize>| -> Outcome {
        outer.check("the outer signal")?;
        let calls = calls.borrow();
        let consumed = outer.log.borrow();
        ensure!(calls.windows(2).all(|w| w[0] < w[1]) && calls.iter().all(|c| consumed.contains(c)), "closure calls {calls:?} for the outer values {consumed:?}");
        ensure_eq!(calls.last(), consumed.last(), "last call of the closure");
        for (i, s) in inners.borrow().iter().enumerate() {
            s.check("an inner vector")?;
            if let (Feed::Scripted(s), true) = (&s.feed, consumed.last() != Some(&i)) {
                if s.get(|s| s.polls) > 0 {
                    ensure!(s.get(|s| s.dropped), "the replaced inner vector {i} is kept");
                }
            }
        }
        Ok(())
    };
    let settled = |outer: &SigSource<usize>, sink: &VecSink<(usize, El)>| -> Outcome {
        let inners = inners.borrow();
        let i = *outer.latest();
        let want: Vec<(usize, El)> = inners[i].model.v.iter().map(|e| (i, *e)).collect();
        ensure_eq!(sink.v, want, "settled contents");
        ensure_eq!(sink.ended, outer.ended && inners[i].ended, "end once settled");
        Ok(())
    };
    let (mut switched, mut changed) = (0, 0);
    macro_rules! run {
        () => {{
            while !sink.ended && sink.task.ready() {
                sink.poll(&mut out)?;
                check(&outer)?;
            }
            settled(&outer, &sink)?;
        }};
    }
    for step in &case.steps {
        let n = inners.borrow().len();
        let at = |b: u8| n.saturating_sub(1 + b as usize);
        match step {
            Step::Outer(k, init, ends) => {
                if !outer.ended {
                    obs.label_if(*ends, "inner which ends at once");
                    let i = make((*k, init, *ends));
                    outer.push(i);
                    switched += 1;
                }
            }
            Step::Inner(b, op) => {
                changed += inners.borrow_mut()[at(*b)].op(op) as u32;
            }
            Step::InnerYield(b) => inners.borrow_mut()[at(*b)].self_wake(),
            Step::InnerEnd(b) => inners.borrow_mut()[at(*b)].end(),
            Step::OuterYield => outer.self_wake(),
            Step::OuterEnd => outer.end(),
            Step::Run => run!(),
            Step::Once if !sink.task.ready() => {}
            Step::Once | Step::Spurious => {
                sink.poll(&mut out)?;
                check(&outer)?;
            }
        }
    }
    obs.nontrivial_if(switched > 0 && changed > 0);
    obs.label_if(outer.ended, "outer ended before the inner");
    if case.settle {
        run!();
    }
    outer.end();
    inners.borrow_mut()[*outer.latest()].end();
    run!();
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C07",
        "histories of an outer signal and of the inner signals or vectors it switches between, with ends in any order, self-waking inputs, runs, single and spurious polls; non-trivial: at least one switch and one change of an inner",
    );
    r.family("flatten", 400_000, 6_000_000, case, |c: &Case, obs: &mut Obs| signals(c, obs, How::Flatten));
    r.family("switch", 400_000, 6_000_000, case, |c: &Case, obs: &mut Obs| signals(c, obs, How::Switch));
    r.family("switch_signal_vec", 600_000, 9_000_000, case, vectors);
    r.finish()
}
