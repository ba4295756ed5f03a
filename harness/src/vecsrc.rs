//! Legal VecDiff histories: scripted, or made by a real MutableVec.
use crate::driver::Outcome;
use crate::exec::VecSink;
use crate::sources::{Script, Src};
use futures_signals::signal_vec::{MutableVec, SignalVec, VecDiff};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::pin::Pin;
use std::task::{Context, Poll};

/// An element: a small key (so that there are duplicates) and a unique id.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct El {
    pub k: u8,
    pub id: u32,
}

impl Debug for El {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}#{}", self.k, self.id)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum VOp {
    Push(u8),
    Insert(u16, u8),
    Update(u16, u8),
    Remove(u16),
    Move(u16, u16),
    Pop,
    Clear,
    Replace(Vec<u8>),
}

/// Maps a raw number to an index below `n`, favouring both ends.
pub fn pick(raw: u16, n: usize) -> usize {
    match raw & 7 {
        _ if n <= 1 => 0,
        1 => n - 1,
        2 => n - 2,
        0 => 0,
        _ => (raw >> 3) as usize * (1 + n / 8192) % n,
    }
}

pub fn key() -> impl Strategy<Value = u8> {
    0u8..6
}

pub fn idx() -> impl Strategy<Value = u16> {
    any::<u16>()
}

pub fn vop() -> impl Strategy<Value = VOp> {
    prop_oneof![
        4 => key().prop_map(VOp::Push),
        5 => (idx(), key()).prop_map(|(i, k)| VOp::Insert(i, k)),
        4 => (idx(), key()).prop_map(|(i, k)| VOp::Update(i, k)),
        4 => idx().prop_map(VOp::Remove),
        4 => (idx(), idx()).prop_map(|(i, j)| VOp::Move(i, j)),
        2 => Just(VOp::Pop),
        1 => Just(VOp::Clear),
        2 => contents().prop_map(VOp::Replace),
    ]
}

/// Initial contents: mostly small, sometimes large.
pub fn contents() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![
        30 => proptest::collection::vec(key(), 0..3),
        60 => proptest::collection::vec(key(), 0..9),
        10 => proptest::collection::vec(key(), 9..40),
        1 => proptest::collection::vec(key(), 40..140),
    ]
}

pub fn big_contents() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![
        8 => contents(),
        1 => proptest::collection::vec(key(), 40..300),
    ]
}

/// Thousands of elements.
pub fn large(max: usize) -> impl Strategy<Value = Vec<u8>> {
    (prop_oneof![4 => 257usize..700, 3 => 4000usize..9000, 1 => 65_530usize..66_500], any::<u8>())
        .prop_map(move |(n, p)| (0..n.min(max)).map(|i| ((i * (p as usize | 1)) >> (p & 3)) as u8 % 6).collect())
}

/// Keeps the contents which a diff history describes.
#[derive(Default, Clone)]
pub struct VecModel {
    pub v: Vec<El>,
    next: u32,
}

impl VecModel {
    pub fn el(&mut self, k: u8) -> El {
        self.next += 1;
        El { k, id: self.next }
    }

    /// Interprets an operation against the contents; None if it is impossible now.
    pub fn diff(&mut self, op: &VOp) -> Option<VecDiff<El>> {
        let n = self.v.len();
        let d = match op {
            VOp::Push(k) => VecDiff::Push { value: self.el(*k) },
            VOp::Insert(i, k) => VecDiff::InsertAt { index: pick(*i, n + 1), value: self.el(*k) },
            VOp::Update(i, k) if n > 0 => VecDiff::UpdateAt { index: pick(*i, n), value: self.el(*k) },
            VOp::Remove(i) if n > 0 => VecDiff::RemoveAt { index: pick(*i, n) },
            VOp::Move(i, j) if n > 0 => VecDiff::Move { old_index: pick(*i, n), new_index: pick(*j, n) },
            VOp::Pop if n > 0 => VecDiff::Pop {},
            VOp::Clear => VecDiff::Clear {},
            VOp::Replace(ks) => VecDiff::Replace { values: ks.iter().map(|k| self.el(*k)).collect() },
            _ => return None,
        };
        crate::exec::apply(&mut self.v, d.clone()).expect("model diff is legal");
        Some(d)
    }
}

/// The polled side of a scripted SignalVec.
pub struct VecScript<T>(pub Script<VecDiff<T>>);

impl<T> SignalVec for VecScript<T> {
    type Item = T;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<T>>> {
        self.0.poll_step(cx)
    }
}

pub type BoxVec<T> = Pin<Box<dyn SignalVec<Item = T>>>;

pub enum Feed {
    Scripted(Src<VecDiff<El>>),
    Real(Option<MutableVec<El>>),
}

/// A source of a legal diff history together with its contents.
pub struct VecSource {
    pub model: VecModel,
    pub feed: Feed,
    pub ended: bool,
    /// Number of elements inserted or updated so far.
    pub values: u64,
}

fn count(d: &VecDiff<El>) -> u64 {
    match d {
        VecDiff::Replace { values } => values.len() as u64,
        VecDiff::InsertAt { .. } | VecDiff::UpdateAt { .. } | VecDiff::Push { .. } => 1,
        _ => 0,
    }
}

impl VecSource {
    pub fn new(real: bool, init: &[u8]) -> (Self, BoxVec<El>) {
        let mut model = VecModel::default();
        let v: Vec<El> = init.iter().map(|k| model.el(*k)).collect();
        model.v = v.clone();
        let values = v.len() as u64;
        if real {
            let m = MutableVec::new_with_values(v);
            let s = m.signal_vec();
            (VecSource { model, feed: Feed::Real(Some(m)), ended: false, values }, Box::pin(s))
        } else {
            let src = Src::new();
            if !v.is_empty() {
                src.push(VecDiff::Replace { values: v });
            }
            let s = VecScript(src.signal());
            (VecSource { model, feed: Feed::Scripted(src), ended: false, values }, Box::pin(s))
        }
    }

    /// Performs an operation; false if it was impossible.
    pub fn op(&mut self, op: &VOp) -> bool {
        if self.ended {
            return false;
        }
        let d = match self.model.diff(op) {
            Some(d) => d,
            None => return false,
        };
        self.values += count(&d);
        match &self.feed {
            Feed::Scripted(src) => src.push(d),
            Feed::Real(Some(m)) => {
                let mut m = m.lock_mut();
                match d {
                    VecDiff::Replace { values } => m.replace(values),
                    VecDiff::InsertAt { index, value } => m.insert(index, value),
                    VecDiff::UpdateAt { index, value } => {
                        m.set(index, value);
                    }
                    VecDiff::RemoveAt { index } => {
                        m.remove(index);
                    }
                    VecDiff::Move { old_index, new_index } => m.move_from_to(old_index, new_index),
                    VecDiff::Push { value } => m.push(value),
                    VecDiff::Pop {} => {
                        m.pop();
                    }
                    VecDiff::Clear {} => m.clear(),
                }
            }
            Feed::Real(None) => unreachable!(),
        }
        true
    }

    pub fn self_wake(&mut self) {
        if let (Feed::Scripted(s), false) = (&self.feed, self.ended) {
            s.self_wake()
        }
    }

    pub fn end(&mut self) {
        if self.ended {
            return;
        }
        self.ended = true;
        match &mut self.feed {
            Feed::Scripted(s) => s.end(),
            Feed::Real(m) => *m = None,
        }
    }

    pub fn check(&self, what: &str) -> Outcome {
        match &self.feed {
            Feed::Scripted(s) => s.check(what),
            _ => Ok(()),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum VStep {
    Op(VOp),
    /// Run until nothing is woken, then compare.
    Run,
    /// Poll once if woken.
    Once,
    /// Poll once although nothing was woken.
    Spurious,
    /// The source wakes its poller while being polled.
    Yield,
}

pub fn vstep() -> impl Strategy<Value = VStep> {
    prop_oneof![
        10 => vop().prop_map(VStep::Op),
        4 => Just(VStep::Run),
        1 => Just(VStep::Once),
        1 => Just(VStep::Spurious),
        1 => Just(VStep::Yield),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VCase {
    pub real: bool,
    pub reuse: bool,
    pub init: Vec<u8>,
    pub steps: Vec<VStep>,
    /// Whether everything is run before the source ends.
    pub settle: bool,
}

pub fn vcase() -> impl Strategy<Value = VCase> {
    vcase_sized(25, 120)
}

pub fn vcase_sized(common: usize, rare: usize) -> impl Strategy<Value = VCase> {
    (
        proptest::bool::weighted(0.25),
        proptest::bool::weighted(0.2),
        big_contents(),
        crate::gen::script(vstep(), common, rare),
        any::<bool>(),
    )
        .prop_map(|(real, reuse, init, steps, settle)| VCase { real, reuse, init, steps, settle })
}

/// A few steps on large contents.
pub fn vcase_large() -> impl Strategy<Value = VCase> {
    let step = prop_oneof![9 => vstep(), 1 => large(usize::MAX).prop_map(|v| VStep::Op(VOp::Replace(v)))];
    (proptest::bool::weighted(0.25), any::<bool>(), large(usize::MAX), proptest::collection::vec(step, 1..10), any::<bool>())
        .prop_map(|(real, reuse, init, steps, settle)| VCase { real, reuse, init, steps, settle })
}

impl VCase {
    pub fn ops(&self) -> usize {
        self.steps.iter().filter(|s| matches!(s, VStep::Op(_))).count()
    }
}

/// Drives one SignalVec -> SignalVec adapter through a case. `settled` compares
/// whenever nothing is woken (and at the end).
pub fn drive_vec<T: Debug>(
    case: &VCase,
    build: impl FnOnce(BoxVec<El>) -> BoxVec<T>,
    mut settled: impl FnMut(&VecSource, &VecSink<T>) -> Outcome,
) -> Outcome {
    let (mut src, sig) = VecSource::new(case.real, &case.init);
    let mut out = build(sig);
    let mut sink = VecSink::new(case.reuse);
    for step in &case.steps {
        match step {
            VStep::Op(op) => {
                src.op(op);
            }
            VStep::Run => {
                sink.run(&mut out)?;
                if sink.ended {
                    return Err("the output ended before its input".into());
                }
                settled(&src, &sink)?;
            }
            VStep::Once => {
                if sink.task.ready() {
                    sink.poll(&mut out)?;
                }
            }
            VStep::Spurious => {
                sink.poll(&mut out)?;
            }
            VStep::Yield => src.self_wake(),
        }
        if sink.ended {
            return Err("the output ended before its input".into());
        }
    }
    if case.settle {
        sink.run(&mut out)?;
        settled(&src, &sink)?;
        if sink.ended {
            return Err("the output ended before its input".into());
        }
    }
    src.end();
    sink.run(&mut out)?;
    if !sink.ended {
        return Err("the output did not end with its input".into());
    }
    settled(&src, &sink)?;
    src.check("the input")
}

pub type BoxSig<T> = Pin<Box<dyn futures_signals::signal::Signal<Item = T>>>;

/// Drives one SignalVec -> Signal adapter: the items must be the function of
/// contents in history order, and the function of the final contents whenever settled.
pub fn drive_scalar<T: Debug + PartialEq>(
    case: &VCase,
    build: impl FnOnce(BoxVec<El>) -> BoxSig<T>,
    f: impl Fn(&[El]) -> T,
) -> Outcome {
    let (mut src, sig) = VecSource::new(case.real, &case.init);
    let mut out = build(sig);
    let mut sink = crate::exec::SigSink::new(case.reuse);
    // the scripted source starts as an empty vector, and its initial Replace is a change
    let mut history: Vec<T> = vec![f(&[]), f(&src.model.v)];
    let mut pos = 0; // position in `history` of the last accepted item
    let mut seen = 0; // items checked so far
    let mut check = |src: &VecSource, sink: &crate::exec::SigSink<T>, history: &Vec<T>, settled: bool| -> Outcome {
        while seen < sink.items.len() {
            let item = &sink.items[seen];
            match history[pos..].iter().position(|h| h == item) {
                Some(p) => pos += p,
                None => return Err(format!("item {item:?} is not a result of the contents at or after the previous item")),
            }
            seen += 1;
        }
        if settled {
            match sink.items.last() {
                Some(x) if *x == f(&src.model.v) => {}
                other => return Err(format!("settled at {other:?}, expected {:?}", f(&src.model.v))),
            }
        }
        Ok(())
    };
    for step in &case.steps {
        match step {
            VStep::Op(op) => {
                if src.op(op) {
                    history.push(f(&src.model.v));
                }
            }
            VStep::Run => {
                sink.run(&mut out)?;
                check(&src, &sink, &history, true)?;
            }
            VStep::Once => {
                if sink.task.ready() {
                    sink.poll(&mut out)?;
                    check(&src, &sink, &history, false)?;
                }
            }
            VStep::Spurious => {
                let first = sink.task.polls == 0;
                let r = sink.poll(&mut out)?;
                if first && !r {
                    return Err("no value on the first poll".into());
                }
                check(&src, &sink, &history, false)?;
            }
            VStep::Yield => src.self_wake(),
        }
        if sink.ended {
            return Err("the output ended before its input".into());
        }
    }
    if case.settle {
        sink.run(&mut out)?;
        check(&src, &sink, &history, true)?;
        if sink.ended {
            return Err("the output ended before its input".into());
        }
    }
    src.end();
    sink.run(&mut out)?;
    if !sink.ended {
        return Err("the output did not end with its input".into());
    }
    check(&src, &sink, &history, true)?;
    src.check("the input")
}

/// Classifies a case.
pub fn note(case: &VCase, obs: &mut crate::driver::Obs) {
    obs.nontrivial_if(case.ops() > 0);
    obs.label_if(case.real, "source: MutableVec");
    obs.label_if(case.init.len() >= 40, "large contents");
    obs.label_if(!case.settle, "end in the same run as changes");
    for s in &case.steps {
        match s {
            VStep::Op(VOp::Move(..)) => obs.label("move"),
            VStep::Op(VOp::Update(..)) => obs.label("update"),
            VStep::Op(VOp::Replace(v)) if v.is_empty() => obs.label("empty replace"),
            VStep::Op(VOp::Clear) => obs.label("clear"),
            VStep::Spurious => obs.label("spurious poll"),
            VStep::Yield => obs.label("self-waking source"),
            _ => {}
        }
    }
}
