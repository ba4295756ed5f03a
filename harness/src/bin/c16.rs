//! C16: scalar and bridge views of a SignalVec equal the function of its contents.
use futures_signals::signal::SignalExt;
use futures_signals::signal_vec::{self, SignalVecExt, VecDiff};
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::VecSink;
use harness::sources::{ScriptStream, Src};
use harness::vecsrc::*;
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum BStep {
    Item(Vec<u8>),
    Yield,
    Run,
    Once,
    Spurious,
}

fn bstep() -> impl Strategy<Value = BStep> {
    prop_oneof![
        6 => contents().prop_map(BStep::Item),
        1 => Just(BStep::Yield),
        3 => Just(BStep::Run),
        1 => Just(BStep::Once),
        1 => Just(BStep::Spurious),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BCase {
    reuse: bool,
    lossy: bool,
    init: Vec<u8>,
    steps: Vec<BStep>,
    settle: bool,
}

fn bcase() -> impl Strategy<Value = BCase> {
    (any::<bool>(), any::<bool>(), contents(), harness::gen::script(bstep(), 20, 60), any::<bool>())
        .prop_map(|(reuse, lossy, init, steps, settle)| BCase { reuse, lossy, init, steps, settle })
}

/// Common driver of the sources of vectors: `want` computes the contents from the items so far.
fn bridge(
    case: &BCase,
    obs: &mut Obs,
    initial: bool,
    build: impl FnOnce(&Src<Vec<u8>>) -> BoxVec<u8>,
    want: impl Fn(&[Vec<u8>]) -> Vec<u8>,
) -> Outcome {
    let src = if case.lossy && initial { Src::lossy() } else { Src::new() };
    let mut items: Vec<Vec<u8>> = vec![];
    if initial {
        src.push(case.init.clone());
        items.push(case.init.clone());
    }
    let mut out = build(&src);
    let mut sink = VecSink::new(case.reuse);
    for step in &case.steps {
        match step {
            BStep::Item(v) => {
                obs.nontrivial();
                items.push(v.clone());
                src.push(v.clone());
            }
            BStep::Yield => src.self_wake(),
            BStep::Run => {
                sink.run(&mut out)?;
                ensure_eq!(sink.v, want(&items), "contents");
            }
            BStep::Once if !sink.task.ready() => {}
            BStep::Once | BStep::Spurious => {
                sink.poll(&mut out)?;
            }
        }
        ensure!(!sink.ended, "ended before its input");
    }
    if case.settle {
        sink.run(&mut out)?;
        ensure!(!sink.ended, "ended before its input");
        ensure_eq!(sink.v, want(&items), "contents");
    }
    src.end();
    sink.run(&mut out)?;
    ensure!(sink.ended, "did not end with its input");
    ensure_eq!(sink.v, want(&items), "final contents");
    src.check("the input")
}

fn main() {
    let mut r = Runner::new(
        "C16",
        "legal diff histories (scripted or from a MutableVec) and scripted signals/streams; non-trivial: at least one change after the initial contents",
    );
    for large in [false, true] {
        let suffix = if large { " large" } else { "" };
        let cases = move || if large { vcase_large().boxed() } else { vcase().boxed() };
    r.family(&format!("len{suffix}"), if large { 600 } else { 200_000 * 2 }, if large { 12_000 } else { 3_000_000 }, cases, |case: &VCase, obs: &mut Obs| {
        note(case, obs);
        drive_scalar(case, |s| Box::pin(s.len()), |v| v.len())
    });
    r.family(&format!("is_empty{suffix}"), if large { 600 } else { 300_000 * 2 }, if large { 12_000 } else { 5_000_000 }, cases, |case: &VCase, obs: &mut Obs| {
        note(case, obs);
        drive_scalar(case, |s| Box::pin(s.is_empty()), |v| v.is_empty())
    });
    r.family(&format!("sum{suffix}"), if large { 600 } else { 200_000 * 2 }, if large { 12_000 } else { 3_000_000 }, cases, |case: &VCase, obs: &mut Obs| {
        note(case, obs);
        drive_scalar(case, |s| Box::pin(s.map(|e| e.id as i64 * 7 - e.k as i64).sum()), |v| {
            v.iter().map(|e| e.id as i64 * 7 - e.k as i64).sum::<i64>()
        })
    });
    r.family(&format!("to_signal_cloned{suffix}"), if large { 600 } else { 150_000 * 2 }, if large { 12_000 } else { 2_000_000 }, cases, |case: &VCase, obs: &mut Obs| {
        note(case, obs);
        drive_scalar(case, |s| Box::pin(s.to_signal_cloned()), |v| v.to_vec())
    });
    r.family(&format!("to_signal_map{suffix}"), if large { 600 } else { 150_000 * 2 }, if large { 12_000 } else { 2_000_000 }, cases, |case: &VCase, obs: &mut Obs| {
        note(case, obs);
        let calls = Rc::new(Cell::new(0));
        let c = calls.clone();
        let f = |v: &[El]| (v.first().copied(), v.last().copied(), v.iter().map(|e| e.k as u32).sum::<u32>(), v.len());
        drive_scalar(
            case,
            move |s| {
                Box::pin(s.to_signal_map(move |v| {
                    c.set(c.get() + 1);
                    f(v)
                }))
            },
            f,
        )
    });
    }
    r.family("to_signal_vec", 150_000 * 2, 2_000_000, bcase, |case: &BCase, obs: &mut Obs| {
        bridge(case, obs, true, |s| Box::pin(s.signal().to_signal_vec()), |items| items.last().unwrap().clone())
    });
    r.family("from_stream", 150_000 * 2, 2_000_000, bcase, |case: &BCase, obs: &mut Obs| {
        bridge(
            case,
            obs,
            false,
            |s| {
                let s = ScriptStream(s.signal());
                Box::pin(signal_vec::from_stream(futures_util::StreamExt::map(s, |v: Vec<u8>| v.first().copied().unwrap_or(99))))
            },
            |items| items.iter().map(|v| v.first().copied().unwrap_or(99)).collect(),
        )
    });
    r.family("always", 20_000, 200_000, || (contents(), any::<bool>()), |(v, reuse): &(Vec<u8>, bool), obs: &mut Obs| {
        obs.nontrivial_if(!v.is_empty());
        let mut out: BoxVec<u8> = Box::pin(signal_vec::always(v.clone()));
        let mut sink = VecSink::new(*reuse);
        sink.run(&mut out)?;
        ensure!(sink.ended, "always did not end");
        ensure_eq!(sink.v, *v, "contents of always");
        let _ = VecDiff::<u8>::Pop {};
        Ok(())
    });
    r.finish()
}
