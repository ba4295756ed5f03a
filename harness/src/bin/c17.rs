//! C17: map_signal and filter_signal_cloned track the per-element signals.
use futures_signals::signal::{Mutable, Signal};
use futures_signals::signal_vec::SignalVecExt;
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::VecSink;
use harness::sources::Src;
use harness::vecsrc::*;
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Debug;
use std::pin::Pin;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Op(VOp),
    Elem(u16, u8),
    ElemYield(u16),
    ElemEnd(u16),
    End,
    Yield,
    Run,
    Once,
    Spurious,
}

fn step() -> impl Strategy<Value = Step> {
    prop_oneof![
        10 => vop().prop_map(Step::Op),
        10 => (idx(), key()).prop_map(|(i, k)| Step::Elem(i, k)),
        1 => idx().prop_map(Step::ElemYield),
        2 => idx().prop_map(Step::ElemEnd),
        1 => proptest::bool::weighted(0.3).prop_map(|b| if b { Step::End } else { Step::Run }),
        1 => Just(Step::Yield),
        6 => Just(Step::Run),
        2 => Just(Step::Once),
        1 => Just(Step::Spurious),
    ]
}

/// What the per-element signals are.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    Lossless,
    Lossy,
    Mutable,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    reuse: bool,
    real: bool,
    kind: Kind,
    init: Vec<u8>,
    steps: Vec<Step>,
    settle: bool,
}

fn case() -> impl Strategy<Value = Case> {
    sized(contents().boxed(), harness::gen::script(step(), 30, 120).boxed())
}

/// A few steps on large contents.
fn case_large() -> impl Strategy<Value = Case> {
    sized(large(5_000).boxed(), proptest::collection::vec(step(), 2..16).boxed())
}

fn sized(init: BoxedStrategy<Vec<u8>>, steps: BoxedStrategy<Vec<Step>>) -> impl Strategy<Value = Case> {
    (
        any::<bool>(),
        proptest::bool::weighted(0.25),
        prop_oneof![Just(Kind::Lossless), Just(Kind::Lossy), Just(Kind::Mutable)],
        init,
        steps,
        any::<bool>(),
    )
        .prop_map(|(reuse, real, kind, init, steps, settle)| Case { reuse, real, kind, init, steps, settle })
}

/// The signal of one element.
struct Elem {
    src: Option<Src<u8>>,
    cell: Option<Mutable<u8>>,
    latest: u8,
    ended: bool,
    started: bool,
}

impl Elem {
    fn new(kind: Kind, k: u8) -> Self {
        let mut e = Elem { src: None, cell: None, latest: k, ended: false, started: false };
        match kind {
            Kind::Mutable => e.cell = Some(Mutable::new(k)),
            _ => {
                let s = if kind == Kind::Lossy { Src::lossy() } else { Src::new() };
                s.push(k);
                e.src = Some(s);
            }
        }
        e
    }
    fn set(&mut self, k: u8) {
        if self.ended {
            return;
        }
        self.latest = k;
        match (&self.src, &self.cell) {
            (Some(s), _) => s.push(k),
            (_, Some(m)) => m.set(k),
            _ => {}
        }
    }
    fn end(&mut self) {
        if self.ended {
            return;
        }
        self.ended = true;
        match &self.src {
            Some(s) => s.end(),
            None if self.started => self.cell = None,
            None => {}
        }
    }
    fn signal(&mut self) -> Pin<Box<dyn Signal<Item = u8>>> {
        self.started = true;
        match (&self.src, &self.cell) {
            (Some(s), _) => Box::pin(s.signal()),
            (_, Some(m)) => {
                let s = m.signal();
                if self.ended {
                    self.cell = None;
                }
                Box::pin(s)
            }
            _ => unreachable!(),
        }
    }
}

type Reg = Rc<RefCell<HashMap<u32, Elem>>>;

fn run<T: Debug + PartialEq>(
    case: &Case,
    obs: &mut Obs,
    build: impl FnOnce(BoxVec<El>, Rc<dyn Fn(El) -> Pin<Box<dyn Signal<Item = u8>>>>) -> BoxVec<T>,
    want: impl Fn(&[(El, u8)]) -> Vec<T>,
) -> Outcome {
    let reg: Reg = Rc::default();
    let calls = Rc::new(RefCell::new(0u64));
    let kind = case.kind;
    let (mut src, sig) = VecSource::new(case.real, &case.init);
    let (r2, c2) = (reg.clone(), calls.clone());
    let mut out = build(
        sig,
        Rc::new(move |e: El| {
            *c2.borrow_mut() += 1;
            r2.borrow_mut().entry(e.id).or_insert_with(|| Elem::new(kind, e.k)).signal()
        }),
    );
    let mut sink = VecSink::new(case.reuse);
    let register = |src: &VecSource| {
        for e in &src.model.v {
            reg.borrow_mut().entry(e.id).or_insert_with(|| Elem::new(kind, e.k));
        }
    };
    register(&src);
    let pairs = |src: &VecSource| -> Vec<(El, u8)> { src.model.v.iter().map(|e| (*e, reg.borrow()[&e.id].latest)).collect() };
    let all_ended = |src: &VecSource| src.ended && src.model.v.iter().all(|e| reg.borrow()[&e.id].ended);
    let settled = |src: &VecSource, sink: &VecSink<T>| -> Outcome {
        ensure_eq!(sink.v, want(&pairs(src)), "contents");
        ensure_eq!(*calls.borrow(), src.values, "closure calls");
        ensure_eq!(sink.ended, all_ended(src), "termination");
        let ids: std::collections::HashSet<u32> = src.model.v.iter().map(|x| x.id).collect();
        for (id, e) in reg.borrow().iter() {
            let present = ids.contains(id);
            if let (Some(s), true) = (&e.src, e.started) {
                s.check("an element's signal")?;
                // released, so it can't be polled any more
                ensure!(present || s.get(|s| s.dropped), "the signal of a removed element is kept");
            }
        }
        Ok(())
    };
    let target = |src: &VecSource, i: u16| {
        if src.model.v.is_empty() {
            None
        } else {
            Some(src.model.v[pick(i, src.model.v.len())].id)
        }
    };
    let (mut ops, mut elems) = (0, 0);
    for step in &case.steps {
        match step {
            Step::Op(op) => {
                ops += src.op(op) as u32;
                register(&src);
            }
            Step::Elem(i, k) => {
                if let Some(id) = target(&src, *i) {
                    elems += 1;
                    reg.borrow_mut().get_mut(&id).unwrap().set(*k);
                }
            }
            Step::ElemYield(i) => {
                if let Some(id) = target(&src, *i) {
                    let r = reg.borrow();
                    if let (Some(s), true, false) = (&r[&id].src, r[&id].started, r[&id].ended) {
                        // only once the first value was consumed
                        if s.get(|s| s.yielded) > 0 {
                            s.self_wake();
                        }
                    }
                }
            }
            Step::ElemEnd(i) => {
                if let Some(id) = target(&src, *i) {
                    reg.borrow_mut().get_mut(&id).unwrap().end();
                }
            }
            Step::End => src.end(),
            Step::Yield => src.self_wake(),
            Step::Run => {
                sink.run(&mut out)?;
                settled(&src, &sink)?;
            }
            Step::Once if !sink.task.ready() => {}
            Step::Once | Step::Spurious => {
                sink.poll(&mut out)?;
            }
        }
        ensure!(!sink.ended || all_ended(&src), "ended before its inputs");
    }
    obs.nontrivial_if(ops > 0 && elems > 0);
    obs.label_if(src.ended, "vector ended before its elements");
    obs.label_if(case.kind == Kind::Mutable, "elements: Mutable");
    if case.settle {
        sink.run(&mut out)?;
        settled(&src, &sink)?;
    }
    src.end();
    for e in &src.model.v {
        reg.borrow_mut().get_mut(&e.id).unwrap().end();
    }
    sink.run(&mut out)?;
    settled(&src, &sink)?;
    src.check("the vector")
}

fn main() {
    let mut r = Runner::new(
        "C17",
        "interleaved legal diff histories and per-element signal changes (scripted or Mutable), ends in any order, runs, single and spurious polls; non-trivial: at least one vector operation and one element change",
    );
    for large in [false, true] {
        let suffix = if large { " large" } else { "" };
        let cases = move || if large { case_large().boxed() } else { case().boxed() };
    r.family(&format!("map_signal{suffix}"), if large { 300 } else { 500_000 }, if large { 6_000 } else { 8_000_000 }, cases, |c: &Case, obs: &mut Obs| {
        run(
            c,
            obs,
            |v, f| {
                Box::pin(v.map_signal(move |e| {
                    let s = f(e);
                    futures_signals::signal::SignalExt::map(s, move |k| (e, k))
                }))
            },
            |p| p.to_vec(),
        )
    });
    r.family(&format!("filter_signal_cloned{suffix}"), if large { 300 } else { 800_000 }, if large { 6_000 } else { 12_000_000 }, cases, |c: &Case, obs: &mut Obs| {
        run(
            c,
            obs,
            |v, f| Box::pin(v.filter_signal_cloned(move |e| futures_signals::signal::SignalExt::map(f(*e), |k| k % 2 == 0))),
            |p| p.iter().filter(|x| x.1 % 2 == 0).map(|x| x.0).collect(),
        )
    });
    }
    r.finish()
}
