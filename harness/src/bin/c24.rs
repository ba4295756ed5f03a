//! C24: MutableVec, MutableBTreeMap and their subscribers under threads.
use futures_signals::signal_map::{MutableBTreeMap, SignalMap, SignalMapExt};
use futures_signals::signal_vec::{MutableVec, SignalVec, SignalVecExt};
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::{apply, apply_map, Task};
use harness::mapsrc::{mop, MOp, MapModel};
use harness::mvec::{mvop, perform, MvOp};
use harness::sched::{point, schedule, Quiet, Sched, Schedule};
use harness::vecsrc::El;
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// The contents in the order in which they were made, under the lock.
type Log<S> = Rc<RefCell<Vec<S>>>;

/// Next change of the subscription, applied to the state.
type Next<S> = Box<dyn FnMut(&mut S, &mut Context) -> Poll<Option<Outcome>>>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Consumer {
    reuse: bool,
    extra: u8,
    leave: Option<u8>,
    kind: u8,
    /// subscribes in its own thread
    late: bool,
}

fn consumer() -> impl Strategy<Value = Consumer> {
    (any::<bool>(), prop_oneof![3 => Just(0u8), 1 => 0u8..3], proptest::option::weighted(0.15, 0u8..4), any::<u8>(), proptest::bool::weighted(0.7))
        .prop_map(|(reuse, extra, leave, kind, late)| Consumer { reuse, extra, leave, kind, late })
}

struct Seen<S> {
    /// the contents at first and after every diff
    states: Vec<S>,
    /// log entries between which the subscription was made
    from: (usize, usize),
    ended: bool,
    left: bool,
}

type Shared<S> = Rc<RefCell<Seen<S>>>;

fn consume<S: Clone>(c: &Consumer, mut next: Next<S>, seen: &Shared<S>) -> Outcome {
    let mut task = Task::new(c.reuse);
    let mut extra = c.extra;
    let mut state = seen.borrow().states[0].clone();
    loop {
        if let Some(n) = c.leave {
            if seen.borrow().states.len() > n as usize {
                seen.borrow_mut().left = true;
                return Ok(());
            }
        }
        match task.poll(|cx| next(&mut state, cx)) {
            Poll::Ready(Some(r)) => {
                r?;
                seen.borrow_mut().states.push(state.clone());
            }
            Poll::Ready(None) => {
                seen.borrow_mut().ended = true;
                return Ok(());
            }
            Poll::Pending if extra > 0 => extra -= 1,
            Poll::Pending => task.wait(),
        }
    }
}

/// Whether the states pass through every entry of the log, from the one at the subscription.
fn follows<S: PartialEq>(states: &[S], log: &[S], from: (usize, usize), complete: bool) -> bool {
    let empty = &states[0];
    (from.0..=from.1).any(|s| {
        let mut pos = 0;
        if log[s] != *empty {
            match states.get(1) {
                Some(x) if *x == log[s] => pos = 1,
                // it left before the first diff
                None if !complete => return true,
                _ => return false,
            }
        }
        for want in &log[s..] {
            match states[pos..].iter().position(|x| x == want) {
                Some(p) => pos += p,
                // one which left has seen a part of it
                None => return !complete,
            }
        }
        true
    })
}

/// Runs writers and consumers on a collection.
trait Coll: Clone + 'static {
    type S: Clone + PartialEq + Debug + 'static;
    type Op: Clone + 'static;
    /// everything which is changed under the lock
    type Model: Default + 'static;
    fn new(model: &mut Self::Model, init: &[u8]) -> Self;
    fn write(&self, ops: &[Self::Op], shared: &Rc<RefCell<Option<Self::Model>>>, log: &Log<Self::S>) -> Outcome;
    fn read(&self, log: &Log<Self::S>) -> Outcome;
    fn subscribe(&self, kind: u8) -> Next<Self::S>;
    fn project(kind: u8, s: &Self::S) -> Self::S;
    fn empty() -> Self::S;
    fn contents(&self) -> Self::S;
}

fn snapshot<S>(log: &Log<S>, s: S) {
    log.borrow_mut().push(s)
}

/// An element whose clones are points of preemption.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Pt(El);

impl Clone for Pt {
    fn clone(&self) -> Self {
        point();
        Pt(self.0)
    }
}

impl harness::mvec::Elem for Pt {
    fn make(k: u8, id: u32) -> Self {
        Pt(El { k, id })
    }
    fn k(&self) -> u8 {
        self.0.k
    }
    fn push(l: &mut futures_signals::signal_vec::MutableVecLockMut<Self>, v: Self) {
        l.push_cloned(v)
    }
    fn insert(l: &mut futures_signals::signal_vec::MutableVecLockMut<Self>, i: usize, v: Self) {
        l.insert_cloned(i, v)
    }
    fn set(l: &mut futures_signals::signal_vec::MutableVecLockMut<Self>, i: usize, v: Self) {
        l.set_cloned(i, v)
    }
    fn replace(l: &mut futures_signals::signal_vec::MutableVecLockMut<Self>, v: Vec<Self>) {
        l.replace_cloned(v)
    }
    fn subscribe(m: &MutableVec<Self>, _: bool) -> futures_signals::signal_vec::MutableSignalVec<Self> {
        m.signal_vec_cloned()
    }
}

type VecModel = (Vec<Pt>, u32);

fn els(v: &[Pt]) -> Vec<El> {
    v.iter().map(|x| x.0).collect()
}

impl Coll for MutableVec<Pt> {
    type S = Vec<El>;
    type Op = MvOp;
    type Model = VecModel;
    fn new(model: &mut VecModel, init: &[u8]) -> Self {
        for k in init {
            model.1 += 1;
            model.0.push(Pt(El { k: *k, id: model.1 }));
        }
        MutableVec::new_with_values(model.0.clone())
    }
    fn write(&self, ops: &[MvOp], shared: &Rc<RefCell<Option<VecModel>>>, log: &Log<Vec<El>>) -> Outcome {
        let mut l = self.lock_mut();
        point();
        let mut model = shared.borrow_mut().take().ok_or("two threads hold the lock for writing")?;
        ensure_eq!(*l, model.0, "contents under the lock");
        for op in ops {
            perform(op, &mut model.0, &mut l, &mut model.1)?;
            ensure_eq!(*l, model.0, "contents after {op:?}");
            snapshot(log, els(&model.0));
            point();
        }
        *shared.borrow_mut() = Some(model);
        Ok(())
    }
    fn read(&self, log: &Log<Vec<El>>) -> Outcome {
        let l = self.lock_ref();
        let before = els(&l);
        let latest = log.borrow().last().cloned();
        ensure_eq!(Some(&before), latest.as_ref(), "contents under a lock for reading");
        point();
        ensure_eq!(els(&l), before, "contents under a lock for reading");
        drop(l);
        point();
        Ok(())
    }
    fn subscribe(&self, kind: u8) -> Next<Vec<El>> {
        let mut s: Pin<Box<dyn SignalVec<Item = Pt>>> = match kind % 3 {
            0 | 1 => Box::pin(self.signal_vec_cloned()),
            _ => Box::pin(self.signal_vec_cloned().map(|x| x)),
        };
        Box::new(move |state, cx| s.as_mut().poll_vec_change(cx).map(|d| d.map(|d| apply(state, map_diff(d)))))
    }
    fn project(_: u8, s: &Vec<El>) -> Vec<El> {
        s.clone()
    }
    fn empty() -> Vec<El> {
        vec![]
    }
    fn contents(&self) -> Vec<El> {
        els(&self.lock_ref())
    }
}

fn map_diff(d: futures_signals::signal_vec::VecDiff<Pt>) -> futures_signals::signal_vec::VecDiff<El> {
    use futures_signals::signal_vec::VecDiff::*;
    match d {
        Replace { values } => Replace { values: els(&values) },
        InsertAt { index, value } => InsertAt { index, value: value.0 },
        UpdateAt { index, value } => UpdateAt { index, value: value.0 },
        RemoveAt { index } => RemoveAt { index },
        Move { old_index, new_index } => Move { old_index, new_index },
        Push { value } => Push { value: value.0 },
        Pop {} => Pop {},
        Clear {} => Clear {},
    }
}

/// Entries as (key, value); a view of the keys alone has the value 0.
type Entries = Vec<(u16, u32)>;

#[derive(Clone)]
struct Map(MutableBTreeMap<u16, Pt>);

fn of(m: &BTreeMap<u16, Pt>) -> Entries {
    m.iter().map(|(k, v)| (*k, v.0.id)).collect()
}

impl Coll for Map {
    type S = Entries;
    type Op = MOp;
    type Model = MapModel;
    fn new(model: &mut MapModel, init: &[u8]) -> Self {
        model.m = model.collect(&init.iter().map(|k| (*k as u16, *k)).collect::<Vec<_>>());
        Map(MutableBTreeMap::with_values(model.m.iter().map(|(k, v)| (*k, Pt(*v))).collect()))
    }
    fn write(&self, ops: &[MOp], shared: &Rc<RefCell<Option<MapModel>>>, log: &Log<Entries>) -> Outcome {
        let mut l = self.0.lock_mut();
        point();
        let mut model = shared.borrow_mut().take().ok_or("two threads hold the lock for writing")?;
        let now = |model: &MapModel| -> Entries { model.m.iter().map(|(k, v)| (*k, v.id)).collect() };
        ensure_eq!(of(&l), now(&model), "contents under the lock");
        for op in ops {
            match op {
                MOp::Put(k, v) => {
                    let e = model.el(*v);
                    let want = model.m.insert(*k, e);
                    ensure_eq!(l.insert_cloned(*k, Pt(e)).map(|p| p.0), want, "insert returned");
                }
                MOp::Remove(k) => {
                    let want = model.m.remove(k);
                    ensure_eq!(l.remove(k).map(|p| p.0), want, "remove returned");
                }
                MOp::Clear => {
                    model.m.clear();
                    l.clear();
                }
                MOp::Replace(e) => {
                    model.m = model.collect(e);
                    l.replace_cloned(model.m.iter().map(|(k, v)| (*k, Pt(*v))).collect());
                }
            }
            ensure_eq!(of(&l), now(&model), "contents after {op:?}");
            snapshot(log, now(&model));
            point();
        }
        *shared.borrow_mut() = Some(model);
        Ok(())
    }
    fn read(&self, log: &Log<Entries>) -> Outcome {
        let l = self.0.lock_ref();
        let before = of(&l);
        let latest = log.borrow().last().cloned();
        ensure_eq!(Some(&before), latest.as_ref(), "contents under a lock for reading");
        point();
        ensure_eq!(of(&l), before, "contents under a lock for reading");
        drop(l);
        point();
        Ok(())
    }
    fn subscribe(&self, kind: u8) -> Next<Entries> {
        match kind % 4 {
            0 | 1 => {
                let mut m = BTreeMap::new();
                let mut s: Pin<Box<dyn SignalMap<Key = u16, Value = Pt>>> = match kind % 4 {
                    0 => Box::pin(self.0.signal_map_cloned()),
                    _ => Box::pin(self.0.signal_map_cloned().map_value(|x| x)),
                };
                Box::new(move |state, cx| {
                    s.as_mut().poll_map_change(cx).map(|d| {
                        d.map(|d| {
                            apply_map(&mut m, d)?;
                            *state = of(&m);
                            Ok(())
                        })
                    })
                })
            }
            k => {
                let mut s: Pin<Box<dyn SignalVec<Item = (u16, u32)>>> = match k {
                    2 => Box::pin(self.0.signal_vec_keys().map(|k| (k, 0))),
                    _ => Box::pin(self.0.entries_cloned().map(|(k, v)| (k, v.0.id))),
                };
                Box::new(move |state, cx| s.as_mut().poll_vec_change(cx).map(|d| d.map(|d| apply(state, d))))
            }
        }
    }
    fn project(kind: u8, s: &Entries) -> Entries {
        match kind % 4 {
            2 => s.iter().map(|(k, _)| (*k, 0)).collect(),
            _ => s.clone(),
        }
    }
    fn empty() -> Entries {
        vec![]
    }
    fn contents(&self) -> Entries {
        of(&self.0.lock_ref())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step<O> {
    /// several operations under one lock
    Write(Vec<O>),
    Read,
    Clone,
    DropClone,
    /// subscribes and drops the subscription
    Subscribe(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case<O> {
    init: Vec<u8>,
    writers: Vec<Vec<Step<O>>>,
    consumers: Vec<Consumer>,
    keeper: bool,
    schedule: Schedule,
}

fn case<O: Clone + Debug + 'static>(op: impl Strategy<Value = O> + Clone + 'static) -> impl Strategy<Value = Case<O>> {
    let step = prop_oneof![
        8 => prop_oneof![3 => proptest::collection::vec(op.clone(), 1), 1 => proptest::collection::vec(op, 0..4)].prop_map(Step::Write),
        1 => Just(Step::Read),
        1 => Just(Step::Clone),
        1 => Just(Step::DropClone),
        1 => any::<u8>().prop_map(Step::Subscribe),
    ];
    (
        proptest::collection::vec(0u8..6, 0..4),
        proptest::collection::vec(proptest::collection::vec(step, 0..4), 1..4),
        proptest::collection::vec(consumer(), 1..4),
        any::<bool>(),
        schedule(12),
    )
        .prop_map(|(init, writers, consumers, keeper, schedule)| Case { init, writers, consumers, keeper, schedule })
}

fn run<C: Coll>(case: &Case<C::Op>, obs: &mut Obs) -> Outcome
where
    C::Op: Debug,
{
    let mut model = C::Model::default();
    // never dropped when the case fails: a lock may be held forever
    let first = std::mem::ManuallyDrop::new(C::new(&mut model, &case.init));
    let log: Log<C::S> = Rc::new(RefCell::new(vec![first.contents()]));
    let shared = Rc::new(RefCell::new(Some(model)));
    let mut s = Sched::new(&case.schedule);
    let mut seen: Vec<Shared<C::S>> = vec![];
    let mut writes = 0;
    for steps in &case.writers {
        writes += steps.iter().filter(|s| matches!(s, Step::Write(o) if !o.is_empty())).count();
        let (c, steps, shared, log) = ((*first).clone(), steps.clone(), shared.clone(), log.clone());
        s.spawn("a writer", move || {
            let mut clones: Vec<C> = vec![];
            for (t, step) in steps.iter().enumerate() {
                let h = if clones.is_empty() { &c } else { &clones[t % clones.len()] };
                match step {
                    Step::Write(ops) => h.write(ops, &shared, &log)?,
                    Step::Read => h.read(&log)?,
                    Step::Clone => {
                        let h = h.clone();
                        clones.push(h);
                    }
                    Step::DropClone => {
                        point();
                        clones.pop();
                    }
                    Step::Subscribe(k) => {
                        let s = h.subscribe(*k);
                        point();
                        drop(s);
                    }
                }
            }
            for c in clones {
                point();
                drop(c);
            }
            point();
            drop(c);
            Ok(())
        });
    }
    for c in &case.consumers {
        let sn = Rc::new(RefCell::new(Seen { states: vec![C::empty()], from: (0, 0), ended: false, left: false }));
        seen.push(sn.clone());
        let (c, log) = (c.clone(), log.clone());
        if c.late {
            let h = (*first).clone();
            s.spawn("a consumer", move || {
                let from = log.borrow().len() - 1;
                let next = h.subscribe(c.kind);
                sn.borrow_mut().from = (from, log.borrow().len() - 1);
                point();
                drop(h);
                consume(&c, next, &sn)
            });
        } else {
            let next = first.subscribe(c.kind);
            s.spawn("a consumer", move || consume(&c, next, &sn));
        }
    }
    let mut keeper = Some(first);
    if !case.keeper {
        drop(std::mem::ManuallyDrop::into_inner(keeper.take().unwrap()));
    }
    let check = |end: bool| -> Outcome {
        let log = log.borrow();
        for (s, c) in seen.iter().zip(&case.consumers) {
            let s = s.borrow();
            let want: Vec<C::S> = log.iter().map(|x| C::project(c.kind, x)).collect();
            ensure!(follows(&s.states, &want, s.from, !s.left), "a subscriber saw {:?}, the contents were {want:?} (subscribed between {:?})", s.states, s.from);
            if !s.left {
                ensure_eq!(s.states.last(), want.last(), "final contents of a subscriber");
                ensure_eq!(s.ended, end, "end of a subscriber");
            }
        }
        Ok(())
    };
    let quiet = s.run()?;
    obs.nontrivial_if(s.switches > 3 && writes > 0);
    if let Some(c) = keeper {
        let latest = log.borrow().last().cloned();
        ensure_eq!(Some(c.contents()), latest, "final contents");
        check(false)?;
        obs.label("settled with a handle left");
        drop(std::mem::ManuallyDrop::into_inner(c));
        let quiet = s.run()?;
        ensure!(quiet == Quiet::Done, "the last handle is gone, but a subscriber was not woken");
    } else if quiet != Quiet::Done {
        return Err("all handles are gone, but a subscriber waits forever".into());
    }
    check(true)?;
    obs.label_if(seen.iter().any(|s| s.borrow().from.1 > 0), "subscribed after changes");
    obs.label_if(seen.iter().any(|s| s.borrow().from.0 != s.borrow().from.1), "subscribed during changes");
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C24",
        "up to three writer threads (operations under locks, clones, drops, subscriptions) and up to three subscribers (some of which subscribe in their own thread, some of which leave) in a generated interleaving at every lock operation, wakeup and element clone and, in two fifths of the cases, at every basic block of the library; non-trivial: a write and more than three switches between threads",
    );
    r.family("vec", 2_000_000, 30_000_000, || case(mvop().boxed()), run::<MutableVec<Pt>>);
    r.family("map", 2_000_000, 30_000_000, || case(mop().boxed()), run::<Map>);
    r.finish()
}
