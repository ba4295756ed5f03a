//! C14: chain and flatten concatenate their inputs at all times.
use futures_signals::signal_vec::SignalVecExt;
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::VecSink;
use harness::vecsrc::*;
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

// ---------------------------------------------------------------- chain

#[derive(Clone, Debug, Serialize, Deserialize)]
enum CStep {
    Op(bool, VOp),
    Yield(bool),
    End(bool),
    Run,
    Once,
    Spurious,
}

fn cstep() -> impl Strategy<Value = CStep> {
    prop_oneof![
        12 => (any::<bool>(), vop()).prop_map(|(s, o)| CStep::Op(s, o)),
        1 => any::<bool>().prop_map(CStep::Yield),
        1 => any::<bool>().prop_map(CStep::End),
        5 => Just(CStep::Run),
        2 => Just(CStep::Once),
        1 => Just(CStep::Spurious),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CCase {
    reuse: bool,
    real: (bool, bool),
    init: (Vec<u8>, Vec<u8>),
    steps: Vec<CStep>,
    settle: bool,
}

fn ccase() -> impl Strategy<Value = CCase> {
    (
        any::<bool>(),
        (proptest::bool::weighted(0.25), proptest::bool::weighted(0.25)),
        (contents(), contents()),
        harness::gen::script(cstep(), 30, 120),
        any::<bool>(),
    )
        .prop_map(|(reuse, real, init, steps, settle)| CCase { reuse, real, init, steps, settle })
}

fn run_chain(case: &CCase, obs: &mut Obs) -> Outcome {
    let (mut l, ls) = VecSource::new(case.real.0, &case.init.0);
    let (mut r, rs) = VecSource::new(case.real.1, &case.init.1);
    let mut out: BoxVec<El> = Box::pin(ls.chain(rs));
    let mut sink = VecSink::new(case.reuse);
    let want = |l: &VecSource, r: &VecSource| -> Vec<El> { l.model.v.iter().chain(r.model.v.iter()).copied().collect() };
    let mut ops = (0, 0);
    for step in &case.steps {
        match step {
            CStep::Op(left, op) => {
                if *left {
                    ops.0 += l.op(op) as u32;
                } else {
                    ops.1 += r.op(op) as u32;
                }
            }
            CStep::Yield(left) => {
                if *left {
                    l.self_wake()
                } else {
                    r.self_wake()
                }
            }
            CStep::End(left) => {
                if *left {
                    l.end()
                } else {
                    r.end()
                }
            }
            CStep::Run => {
                sink.run(&mut out)?;
                ensure_eq!(sink.v, want(&l, &r), "chained contents");
                ensure_eq!(sink.ended, l.ended && r.ended, "termination");
            }
            CStep::Once if !sink.task.ready() => {}
            CStep::Once | CStep::Spurious => {
                sink.poll(&mut out)?;
            }
        }
        ensure!(!sink.ended || (l.ended && r.ended), "ended before its inputs");
    }
    obs.nontrivial_if(ops.0 > 0 && ops.1 > 0);
    obs.label_if(l.ended && !r.ended, "left ended first");
    obs.label_if(!l.ended && r.ended, "right ended first");
    if case.settle {
        sink.run(&mut out)?;
        ensure_eq!(sink.v, want(&l, &r), "chained contents");
        ensure_eq!(sink.ended, l.ended && r.ended, "termination");
    }
    l.end();
    r.end();
    sink.run(&mut out)?;
    ensure_eq!(sink.v, want(&l, &r), "final chained contents");
    ensure!(sink.ended, "did not end with its inputs");
    l.check("the left input")?;
    r.check("the right input")
}

// ---------------------------------------------------------------- flatten

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FStep {
    Outer(VOp),
    Inner(u16, VOp),
    InnerYield(u16),
    InnerEnd(u16),
    OuterYield,
    OuterEnd,
    Run,
    Once,
    Spurious,
}

fn fstep() -> impl Strategy<Value = FStep> {
    prop_oneof![
        8 => vop().prop_map(FStep::Outer),
        10 => (idx(), vop()).prop_map(|(i, o)| FStep::Inner(i, o)),
        1 => idx().prop_map(FStep::InnerYield),
        2 => idx().prop_map(FStep::InnerEnd),
        1 => Just(FStep::OuterYield),
        1 => proptest::bool::weighted(0.3).prop_map(|b| if b { FStep::OuterEnd } else { FStep::Run }),
        6 => Just(FStep::Run),
        2 => Just(FStep::Once),
        1 => Just(FStep::Spurious),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    reuse: bool,
    real: bool,
    real_inner: bool,
    init: Vec<u8>,
    /// Initial contents of a new inner vector, by the key of its outer element.
    inner: Vec<Vec<u8>>,
    steps: Vec<FStep>,
    settle: bool,
}

fn small() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![40 => proptest::collection::vec(key(), 0..4), 1 => proptest::collection::vec(key(), 4..40)]
}

fn fcase() -> impl Strategy<Value = FCase> {
    (
        any::<bool>(),
        proptest::bool::weighted(0.25),
        proptest::bool::weighted(0.25),
        small(),
        proptest::collection::vec(small(), 6),
        harness::gen::script(fstep(), 30, 120),
        any::<bool>(),
    )
        .prop_map(|(reuse, real, real_inner, init, inner, steps, settle)| FCase { reuse, real, real_inner, init, inner, steps, settle })
}

/// A few steps on large contents.
fn ccase_large() -> impl Strategy<Value = CCase> {
    let side = || prop_oneof![3 => large(usize::MAX), 1 => contents()];
    (any::<bool>(), (proptest::bool::weighted(0.25), proptest::bool::weighted(0.25)), (side(), side()), proptest::collection::vec(cstep(), 2..16), any::<bool>())
        .prop_map(|(reuse, real, init, steps, settle)| CCase { reuse, real, init, steps, settle })
}

/// Many inner vectors, or large ones.
fn fcase_large() -> impl Strategy<Value = FCase> {
    let sizes = prop_oneof![
        (large(5_000), proptest::collection::vec(proptest::collection::vec(key(), 0..3), 6)),
        (proptest::collection::vec(key(), 1..4), proptest::collection::vec(large(20_000), 6)),
        (proptest::collection::vec(key(), 1..3), proptest::collection::vec(large(usize::MAX), 6)),
    ];
    (any::<bool>(), proptest::bool::weighted(0.25), proptest::bool::weighted(0.25), sizes, proptest::collection::vec(fstep(), 2..16), any::<bool>())
        .prop_map(|(reuse, real, real_inner, (init, inner), steps, settle)| FCase { reuse, real, real_inner, init, inner, steps, settle })
}

type Reg = Rc<RefCell<HashMap<u32, (VecSource, Option<BoxVec<El>>)>>>;

fn register(reg: &Reg, case: &FCase, outer: &VecSource) {
    let mut reg = reg.borrow_mut();
    for e in &outer.model.v {
        reg.entry(e.id).or_insert_with(|| {
            let (s, v) = VecSource::new(case.real_inner, &case.inner[e.k as usize]);
            (s, Some(v))
        });
    }
}

fn run_flatten(case: &FCase, obs: &mut Obs) -> Outcome {
    let reg: Reg = Rc::default();
    let (mut outer, os) = VecSource::new(case.real, &case.init);
    register(&reg, case, &outer);
    let r2 = reg.clone();
    let inners = case.inner.clone();
    let real_inner = case.real_inner;
    let mut out: BoxVec<El> = Box::pin(
        os.map(move |e: El| {
            let mut reg = r2.borrow_mut();
            // an element which was replaced again before it was ever looked at
            let slot = reg.entry(e.id).or_insert_with(|| {
                let (s, v) = VecSource::new(real_inner, &inners[e.k as usize]);
                (s, Some(v))
            });
            slot.1.take().expect("the inner vector is used once")
        })
        .flatten(),
    );
    let mut sink = VecSink::new(case.reuse);
    let want = |outer: &VecSource| -> Vec<(u32, El)> {
        let reg = reg.borrow();
        outer.model.v.iter().flat_map(|e| reg[&e.id].0.model.v.iter().map(|x| (e.id, *x)).collect::<Vec<_>>()).collect()
    };
    // values of different inners may have equal ids: compare the elements only
    let want = |outer: &VecSource| -> Vec<El> { want(outer).into_iter().map(|x| x.1).collect() };
    let all_ended = |outer: &VecSource| outer.ended && outer.model.v.iter().all(|e| reg.borrow()[&e.id].0.ended);
    let target = |outer: &VecSource, i: u16| {
        if outer.model.v.is_empty() {
            None
        } else {
            Some(outer.model.v[pick(i, outer.model.v.len())].id)
        }
    };
    let (mut o_ops, mut i_ops) = (0, 0);
    for step in &case.steps {
        match step {
            FStep::Outer(op) => {
                if outer.op(op) {
                    o_ops += 1;
                    register(&reg, case, &outer);
                    match op {
                        VOp::Remove(_) | VOp::Pop => obs.label("outer removal"),
                        VOp::Move(..) => obs.label("outer move"),
                        VOp::Update(..) => obs.label("outer update"),
                        _ => {}
                    }
                }
            }
            FStep::Inner(i, op) => {
                if let Some(id) = target(&outer, *i) {
                    i_ops += reg.borrow_mut().get_mut(&id).unwrap().0.op(op) as u32;
                }
            }
            FStep::InnerYield(i) => {
                if let Some(id) = target(&outer, *i) {
                    reg.borrow_mut().get_mut(&id).unwrap().0.self_wake();
                }
            }
            FStep::InnerEnd(i) => {
                if let Some(id) = target(&outer, *i) {
                    reg.borrow_mut().get_mut(&id).unwrap().0.end();
                }
            }
            FStep::OuterYield => outer.self_wake(),
            FStep::OuterEnd => outer.end(),
            FStep::Run => {
                sink.run(&mut out)?;
                ensure_eq!(sink.v, want(&outer), "flattened contents");
                ensure_eq!(sink.ended, all_ended(&outer), "termination");
            }
            FStep::Once if !sink.task.ready() => {}
            FStep::Once | FStep::Spurious => {
                sink.poll(&mut out)?;
            }
        }
        ensure!(!sink.ended || all_ended(&outer), "ended before its inputs");
    }
    obs.nontrivial_if(o_ops > 0 && i_ops > 0);
    if case.settle {
        sink.run(&mut out)?;
        ensure_eq!(sink.v, want(&outer), "flattened contents");
        ensure_eq!(sink.ended, all_ended(&outer), "termination");
    }
    outer.end();
    for e in &outer.model.v {
        reg.borrow_mut().get_mut(&e.id).unwrap().0.end();
    }
    sink.run(&mut out)?;
    ensure_eq!(sink.v, want(&outer), "final flattened contents");
    ensure!(sink.ended, "did not end with its inputs");
    outer.check("the outer vector")?;
    for s in reg.borrow().values() {
        s.0.check("an inner vector")?;
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C14",
        "interleaved legal diff histories of both inputs / of the outer and all inner vectors, ends in any order, runs, single and spurious polls; non-trivial: at least one change of both inputs / of the outer and of an inner vector",
    );
    r.family("chain", 800_000, 12_000_000, ccase, run_chain);
    r.family("chain large", 1_000, 20_000, ccase_large, run_chain);
    r.family("flatten", 800_000, 12_000_000, fcase, run_flatten);
    r.family("flatten large", 500, 10_000, fcase_large, run_flatten);
    r.finish()
}
