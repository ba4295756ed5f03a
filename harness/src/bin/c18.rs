//! C18: delay_remove keeps elements exactly until their future completes.
use futures_signals::signal_vec::SignalVecExt;
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::VecSink;
use harness::sources::Gate;
use harness::vecsrc::*;
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Op(VOp),
    /// Completes the removal future of any element (removed or not).
    Open(u16),
    /// Completes the removal future of a removed element.
    OpenDead(u16),
    End,
    Yield,
    Run,
    Once,
    Spurious,
}

fn step() -> impl Strategy<Value = Step> {
    prop_oneof![
        12 => vop().prop_map(Step::Op),
        1 => idx().prop_map(Step::Open),
        5 => idx().prop_map(Step::OpenDead),
        1 => proptest::bool::weighted(0.3).prop_map(|b| if b { Step::End } else { Step::Run }),
        1 => Just(Step::Yield),
        6 => Just(Step::Run),
        2 => Just(Step::Once),
        1 => Just(Step::Spurious),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    reuse: bool,
    real: bool,
    /// Keys whose removal future is complete from the start.
    instant: u8,
    init: Vec<u8>,
    steps: Vec<Step>,
    settle: bool,
}

fn case() -> impl Strategy<Value = Case> {
    sized(contents().boxed(), harness::gen::script(step(), 30, 120).boxed())
}

/// A few steps on large contents.
fn case_large() -> impl Strategy<Value = Case> {
    sized(large(5_000).boxed(), proptest::collection::vec(step(), 2..16).boxed())
}

fn sized(init: BoxedStrategy<Vec<u8>>, steps: BoxedStrategy<Vec<Step>>) -> impl Strategy<Value = Case> {
    (
        any::<bool>(),
        proptest::bool::weighted(0.25),
        prop_oneof![2 => Just(0u8), 1 => proptest::bits::u8::masked(0x3f)],
        init,
        steps,
        any::<bool>(),
    )
        .prop_map(|(reuse, real, instant, init, steps, settle)| Case { reuse, real, instant, init, steps, settle })
}

#[derive(Default)]
struct Elem {
    gate: Gate<()>,
    open: bool,
    /// Was the element in the input when the diffs were last looked at, or inserted since?
    calls: u32,
}

fn run(case: &Case, obs: &mut Obs) -> Outcome {
    let reg: Rc<RefCell<HashMap<u32, Elem>>> = Rc::default();
    let instant = case.instant;
    let new = move |e: &El| {
        let mut x = Elem::default();
        if instant >> e.k & 1 == 1 {
            x.gate.open(());
            x.open = true;
        }
        x
    };
    let (mut src, sig) = VecSource::new(case.real, &case.init);
    let r2 = reg.clone();
    let mut out: BoxVec<El> = Box::pin(sig.delay_remove(move |e: &El| {
        let mut reg = r2.borrow_mut();
        let x = reg.entry(e.id).or_insert_with(|| new(e));
        x.calls += 1;
        x.gate.future()
    }));
    let mut sink = VecSink::new(case.reuse);
    // elements removed from the input other than by an update
    let dead: RefCell<Vec<El>> = RefCell::default();
    let register = |src: &VecSource| {
        for e in &src.model.v {
            reg.borrow_mut().entry(e.id).or_insert_with(|| new(e));
        }
    };
    register(&src);
    let delayed = || -> BTreeSet<El> { dead.borrow().iter().filter(|e| !reg.borrow()[&e.id].open).copied().collect() };
    let settled = |src: &VecSource, sink: &VecSink<El>| -> Outcome {
        let delayed = delayed();
        let live: std::collections::HashSet<El> = src.model.v.iter().copied().collect();
        let still: Vec<El> = sink.v.iter().copied().filter(|e| live.contains(e)).collect();
        ensure_eq!(still, src.model.v, "live elements");
        let rest: Vec<El> = sink.v.iter().copied().filter(|e| !live.contains(e)).collect();
        ensure_eq!(rest.len(), delayed.len(), "number of delayed elements in {:?} (expected {delayed:?})", sink.v);
        ensure_eq!(rest.into_iter().collect::<BTreeSet<_>>(), delayed, "delayed elements");
        ensure_eq!(sink.ended, src.ended && delayed.is_empty(), "termination");
        for e in &src.model.v {
            let r = reg.borrow();
            ensure!(r[&e.id].gate.get(|g| g.polls) == 0, "the removal future of the live element {e:?} was polled");
        }
        for (id, x) in reg.borrow().iter() {
            ensure!(x.calls <= 1, "the closure was called {} times for element {id}", x.calls);
            ensure!(x.gate.get(|g| g.polled_after_done) == 0, "a removal future was polled after it completed");
        }
        Ok(())
    };
    let mut delays = 0;
    for step in &case.steps {
        match step {
            Step::Op(op) => {
                let before = src.model.v.clone();
                if src.op(op) {
                    register(&src);
                    if !matches!(op, VOp::Update(..)) {
                        let after: std::collections::HashSet<El> = src.model.v.iter().copied().collect();
                        for e in before {
                            if !after.contains(&e) {
                                delays += 1;
                                dead.borrow_mut().push(e);
                            }
                        }
                    }
                }
            }
            Step::Open(i) => {
                let mut ids: Vec<u32> = reg.borrow().keys().copied().collect();
                ids.sort();
                if !ids.is_empty() {
                    let mut r = reg.borrow_mut();
                    let e = r.get_mut(&ids[pick(*i, ids.len())]).unwrap();
                    e.open = true;
                    e.gate.open(());
                }
            }
            Step::OpenDead(i) => {
                let d: Vec<El> = delayed().into_iter().collect();
                if !d.is_empty() {
                    let mut r = reg.borrow_mut();
                    let e = r.get_mut(&d[pick(*i, d.len())].id).unwrap();
                    e.open = true;
                    e.gate.open(());
                }
            }
            Step::End => src.end(),
            Step::Yield => src.self_wake(),
            Step::Run => {
                sink.run(&mut out)?;
                settled(&src, &sink)?;
            }
            Step::Once if !sink.task.ready() => {}
            Step::Once | Step::Spurious => {
                sink.poll(&mut out)?;
            }
        }
        ensure!(!sink.ended || (src.ended && delayed().is_empty()), "ended too early");
    }
    obs.nontrivial_if(delays > 0);
    obs.label_if(!delayed().is_empty(), "delayed elements when the input ends");
    obs.label_if(case.instant != 0, "instant futures");
    if case.settle {
        sink.run(&mut out)?;
        settled(&src, &sink)?;
    }
    src.end();
    sink.run(&mut out)?;
    settled(&src, &sink)?;
    let rest = delayed();
    let every = 2 + rest.len() as u32 / 20;
    for e in rest {
        let mut r = reg.borrow_mut();
        let x = r.get_mut(&e.id).unwrap();
        x.open = true;
        x.gate.open(());
        drop(r);
        if e.id % every == 0 {
            sink.run(&mut out)?;
            settled(&src, &sink)?;
        }
    }
    sink.run(&mut out)?;
    settled(&src, &sink)?;
    src.check("the input")
}

fn main() {
    let mut r = Runner::new(
        "C18",
        "interleaved legal diff histories and completions of removal futures (some complete from the start), runs, single and spurious polls; non-trivial: at least one element removed, cleared or replaced",
    );
    r.family("delay_remove", 1_000_000, 15_000_000, case, run);
    r.family("delay_remove large", 300, 6_000, case_large, run);
    r.finish()
}
