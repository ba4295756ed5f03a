//! C26: every value is dropped exactly once, and not later than necessary.
use futures_core::Stream;
use futures_signals::map_ref;
use futures_signals::signal::{channel, from_future, from_stream, Broadcaster, Mutable, Receiver, Sender, Signal, SignalExt};
use futures_signals::signal_map::{MutableBTreeMap, SignalMap, SignalMapExt};
use futures_signals::signal_vec::{MutableVec, SignalVec, SignalVecExt, VecDiff};
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::{apply, apply_map, live_flags, Task};
use harness::ledger::{errors, live, reset, Tok};
use harness::mapsrc::{mop, MOp};
use harness::mvec::{mvop, perform, MvOp};
use harness::sched::{point, schedule, Quiet, Sched, Schedule};
use harness::sources::{Gate, ScriptStream, Src};
use harness::vecsrc::{vop, BoxSig, BoxVec, VOp, VecModel, VecScript};
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// Something which is polled and whose outputs are dropped; true when it has ended.
type Stepper = Box<dyn FnMut(&mut Context) -> Poll<bool>>;

fn signal<T: 'static>(s: impl Signal<Item = T> + 'static) -> Stepper {
    let mut s = Box::pin(s);
    Box::new(move |cx| s.as_mut().poll_change(cx).map(|x| x.is_none()))
}

fn vector<T: 'static>(s: impl SignalVec<Item = T> + 'static) -> Stepper {
    let mut s = Box::pin(s);
    Box::new(move |cx| s.as_mut().poll_vec_change(cx).map(|x| x.is_none()))
}

fn map<K: 'static, V: 'static>(s: impl SignalMap<Key = K, Value = V> + 'static) -> Stepper {
    let mut s = Box::pin(s);
    Box::new(move |cx| s.as_mut().poll_map_change(cx).map(|x| x.is_none()))
}

fn stream<T: 'static>(s: impl Stream<Item = T> + 'static) -> Stepper {
    let mut s = Box::pin(s);
    Box::new(move |cx| s.as_mut().poll_next(cx).map(|x| x.is_none()))
}

fn future<T: 'static>(s: impl Future<Output = T> + 'static) -> Stepper {
    let mut s = Box::pin(s);
    Box::new(move |cx| s.as_mut().poll(cx).map(|_| true))
}

struct Consumer {
    step: Option<Stepper>,
    task: Task,
    ended: bool,
}

impl Consumer {
    fn new(step: Stepper, reuse: bool) -> Self {
        Consumer { step: Some(step), task: Task::new(reuse), ended: false }
    }
    fn poll(&mut self) -> bool {
        let Some(step) = &mut self.step else { return false };
        if self.ended {
            return false;
        }
        match self.task.poll(|cx| step(cx)) {
            Poll::Ready(end) => {
                self.ended = end;
                true
            }
            Poll::Pending => false,
        }
    }
    fn run(&mut self) -> Outcome {
        let mut n = 0;
        while self.step.is_some() && !self.ended && self.task.ready() {
            self.poll();
            n += 1;
            ensure!(n < 100_000, "it never becomes pending");
        }
        Ok(())
    }
}

fn expect(what: &str, want: &[u32]) -> Outcome {
    errors()?;
    let mut m: BTreeMap<u32, usize> = BTreeMap::new();
    for v in want {
        *m.entry(*v).or_insert(0) += 1;
    }
    ensure_eq!(live(), m, "living instances of values {what}");
    Ok(())
}

fn within(what: &str, allowed: &BTreeSet<u32>) -> Outcome {
    errors()?;
    let extra: Vec<u32> = live().into_keys().filter(|v| !allowed.contains(v)).collect();
    ensure!(extra.is_empty(), "the values {extra:?} are still there {what}");
    Ok(())
}

/// The keys of maps are recorded values too.
const KEY: u32 = 9_000_000;

fn key(k: u16) -> Tok {
    Tok::new(k as u8, KEY + k as u32)
}

/// Exactly these values, and no other keys.
fn expect_but_keys<'a>(what: &str, want: &[u32], keys: impl Iterator<Item = &'a u16>) -> Outcome {
    let mut m = live();
    for k in keys {
        m.remove(&(KEY + *k as u32));
    }
    let mut w: BTreeMap<u32, usize> = BTreeMap::new();
    for v in want {
        *w.entry(*v).or_insert(0) += 1;
    }
    errors()?;
    ensure_eq!(m, w, "living instances of values {what} (keys of the map aside)");
    Ok(())
}

// ---------------------------------------------------------------- Mutable

#[derive(Clone, Debug, Serialize, Deserialize)]
enum CellStep {
    Set(u8),
    Swap,
    Take,
    CloneHandle,
    DropHandle(u8),
    Subscribe(u8, bool),
    Run(u8),
    Once(u8),
    Spurious(u8),
    Unsubscribe(u8),
}

fn cell_steps() -> impl Strategy<Value = Vec<CellStep>> {
    let step = prop_oneof![
        8 => any::<u8>().prop_map(CellStep::Set),
        2 => Just(CellStep::Swap),
        1 => Just(CellStep::Take),
        1 => Just(CellStep::CloneHandle),
        2 => any::<u8>().prop_map(CellStep::DropHandle),
        3 => (any::<u8>(), any::<bool>()).prop_map(|(k, r)| CellStep::Subscribe(k, r)),
        3 => any::<u8>().prop_map(CellStep::Run),
        4 => any::<u8>().prop_map(CellStep::Once),
        1 => any::<u8>().prop_map(CellStep::Spurious),
        1 => any::<u8>().prop_map(CellStep::Unsubscribe),
    ];
    harness::gen::script(step, 30, 60)
}

fn cells(steps: &Vec<CellStep>, obs: &mut Obs) -> Outcome {
    reset();
    let mut n = 1;
    let mut handles: [Vec<Mutable<Tok>>; 2] = [vec![Mutable::new(Tok::new(0, 0))], vec![Mutable::new(Tok::new(1, 1))]];
    let mut now = [Some(0), Some(1)];
    let mut subs: Vec<(usize, Consumer)> = vec![];
    let (mut sets, mut polls) = (0, 0);
    for (t, step) in steps.iter().enumerate() {
        let which = t % 2;
        let h = handles[which].last();
        match step {
            CellStep::Set(k) => {
                if let Some(m) = h {
                    sets += 1;
                    n += 1;
                    let x = Tok::new(*k, n);
                    let mut returned = None;
                    match k % 6 {
                        0 => m.set(x),
                        1 => returned = Some(m.replace(x)),
                        2 => returned = Some(m.replace_with(|_| x)),
                        3 => m.set_neq(x),
                        4 => *m.lock_mut() = x,
                        _ => m.set_if(x, |_, _| true),
                    }
                    if let Some(r) = returned {
                        ensure_eq!(Some(r.v), now[which], "value which was replaced");
                    }
                    now[which] = Some(n);
                    if k % 7 == 0 {
                        // rejected ones are dropped at once
                        m.set_if(Tok::new(*k, n + 1_000_000), |_, _| false);
                    }
                }
            }
            CellStep::Swap => {
                if let (Some(a), Some(b)) = (handles[0].last(), handles[1].last()) {
                    a.swap(b);
                    now.swap(0, 1);
                }
            }
            CellStep::Take => {
                if let Some(m) = h {
                    let x = m.get_cloned();
                    ensure_eq!(Some(x.v), now[which], "get_cloned");
                }
            }
            CellStep::CloneHandle => {
                if let Some(m) = h {
                    let m = m.clone();
                    handles[which].push(m);
                }
            }
            CellStep::DropHandle(_) => {
                // the last one stays until somebody needs the end
                if handles[which].len() > 1 || t % 5 == 0 {
                    handles[which].pop();
                }
            }
            CellStep::Subscribe(k, r) => {
                if let Some(m) = h {
                    let s = match k % 4 {
                        0 => signal(m.signal_cloned()),
                        1 => signal(m.signal_ref(|x| x.clone())),
                        2 => signal(m.read_only().signal_cloned()),
                        _ => signal(m.signal_ref(|x| x.key())),
                    };
                    subs.push((which, Consumer::new(s, *r)));
                }
            }
            CellStep::Run(i) if !subs.is_empty() => {
                let i = *i as usize % subs.len();
                polls += 1;
                subs[i].1.run()?;
            }
            CellStep::Once(i) | CellStep::Spurious(i) if !subs.is_empty() => {
                let i = *i as usize % subs.len();
                if subs[i].1.task.ready() || matches!(step, CellStep::Spurious(_)) {
                    polls += 1;
                    subs[i].1.poll();
                }
            }
            CellStep::Unsubscribe(i) if !subs.is_empty() => {
                let i = *i as usize % subs.len();
                subs.remove(i);
            }
            _ => {}
        }
        // a signal may keep the cell alive, but there is never more than the current value
        let mut want: Vec<u32> = vec![];
        for w in 0..2 {
            if !handles[w].is_empty() {
                want.extend(now[w]);
            }
        }
        let mut allowed: BTreeSet<u32> = want.iter().copied().collect();
        for (w, _) in &subs {
            allowed.extend(now[*w]);
        }
        within("after a step", &allowed)?;
        let l = live();
        ensure!(want.iter().all(|v| l.contains_key(v)), "a current value is gone");
        ensure!(l.values().all(|n| *n == 1), "a value exists twice");
    }
    obs.nontrivial_if(sets > 0 && polls > 0);
    let flip = steps.len() % 2 == 0;
    if flip {
        handles = Default::default();
        for s in &mut subs {
            s.1.run()?;
            ensure!(s.1.ended, "not ended");
        }
    }
    subs.clear();
    drop(handles);
    expect("after everything was dropped", &[])
}

// ---------------------------------------------------------------- channel

#[derive(Clone, Debug, Serialize, Deserialize)]
enum ChannelStep {
    Send(u8),
    Clone(u8),
    Drop(u8),
    Close(u8),
    Poll,
    DropReceiver,
}

fn channel_steps() -> impl Strategy<Value = Vec<ChannelStep>> {
    let step = prop_oneof![
        10 => any::<u8>().prop_map(ChannelStep::Send),
        2 => any::<u8>().prop_map(ChannelStep::Clone),
        2 => any::<u8>().prop_map(ChannelStep::Drop),
        1 => any::<u8>().prop_map(|x| if x < 80 { ChannelStep::Close(x) } else { ChannelStep::Poll }),
        6 => Just(ChannelStep::Poll),
        1 => any::<u8>().prop_map(|x| if x < 80 { ChannelStep::DropReceiver } else { ChannelStep::Poll }),
    ];
    harness::gen::script(step, 25, 60)
}

fn channels(steps: &Vec<ChannelStep>, obs: &mut Obs) -> Outcome {
    reset();
    let (s, r) = channel(Tok::new(0, 0));
    let mut senders: Vec<Sender<Tok>> = vec![s];
    let mut receiver: Option<Receiver<Tok>> = Some(r);
    let mut task = Task::new(steps.len() % 3 == 0);
    let mut unseen = vec![0];
    let mut n = 0;
    for step in steps {
        let i = |x: u8| x as usize % senders.len().max(1);
        match step {
            ChannelStep::Send(x) => {
                if let Some(s) = senders.get(i(*x)) {
                    n += 1;
                    match s.send(Tok::new(*x, n)) {
                        Ok(()) => unseen = vec![n],
                        Err(t) => ensure_eq!(t.v, n, "value which was handed back"),
                    }
                }
            }
            ChannelStep::Clone(x) => {
                if let Some(s) = senders.get(i(*x)) {
                    let s = s.clone();
                    senders.push(s);
                }
            }
            ChannelStep::Drop(x) => {
                if !senders.is_empty() {
                    let i = i(*x);
                    senders.remove(i);
                }
            }
            ChannelStep::Close(x) => {
                if let Some(s) = senders.get(i(*x)) {
                    s.close();
                }
            }
            ChannelStep::Poll => {
                if let Some(r) = &mut receiver {
                    if let Poll::Ready(Some(t)) = task.poll(|cx| Pin::new(&mut *r).poll_change(cx)) {
                        ensure_eq!(vec![t.v], unseen, "received value");
                        unseen.clear();
                    }
                }
            }
            ChannelStep::DropReceiver => {
                receiver = None;
                unseen.clear();
            }
        }
        expect("after a step", &unseen)?;
    }
    obs.nontrivial_if(n > 1);
    obs.label_if(receiver.is_none(), "receiver dropped");
    if steps.len() % 2 == 0 {
        senders.clear();
        expect("after the senders were dropped", &unseen)?;
        drop(receiver);
    } else {
        drop(receiver);
        expect("after the receiver was dropped", &[])?;
        drop(senders);
    }
    expect("after everything was dropped", &[])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ThreadCase {
    senders: Vec<u8>,
    leave: Option<u8>,
    schedule: Schedule,
}

fn thread_case() -> impl Strategy<Value = ThreadCase> {
    (proptest::collection::vec(0u8..4, 1..4), proptest::option::weighted(0.3, 0u8..3), schedule(12))
        .prop_map(|(senders, leave, schedule)| ThreadCase { senders, leave, schedule })
}

/// A channel and a Mutable with threads.
fn threads(case: &ThreadCase, obs: &mut Obs) -> Outcome {
    reset();
    let (s, r) = channel(Tok::new(0, 0));
    let m = std::mem::ManuallyDrop::new(Mutable::new(Tok::new(0, 1)));
    let mut sched = Sched::new(&case.schedule);
    for (w, sends) in case.senders.iter().enumerate() {
        let (s, m, sends) = (s.clone(), (*m).clone(), *sends);
        sched.spawn("a writer", move || {
            for i in 0..sends as u32 {
                let v = 100 * (w as u32 + 1) + i;
                if i % 2 == 0 {
                    drop(s.send(Tok::new(0, v)));
                } else {
                    drop(m.replace(Tok::new(0, v + 50)));
                }
                point();
            }
            drop(s);
            drop(m);
            errors()
        });
    }
    let sig = m.signal_cloned();
    let leave = case.leave;
    let consume = move |mut step: Stepper| {
        move || {
            let mut task = Task::new(false);
            let mut seen = 0;
            loop {
                if leave.map_or(false, |n| seen >= n) {
                    return errors();
                }
                match task.poll(|cx| step(cx)) {
                    Poll::Ready(true) => return errors(),
                    Poll::Ready(false) => seen += 1,
                    Poll::Pending => task.wait(),
                }
            }
        }
    };
    sched.spawn("a receiver", consume(signal(r)));
    sched.spawn("a consumer", consume(signal(sig)));
    drop(s);
    drop(std::mem::ManuallyDrop::into_inner(m));
    let quiet = sched.run()?;
    ensure!(quiet == Quiet::Done, "a consumer was not woken");
    obs.nontrivial_if(sched.switches > 3);
    expect("after everything was dropped", &[])
}

// ---------------------------------------------------------------- MutableVec, MutableBTreeMap

#[derive(Clone, Debug, Serialize, Deserialize)]
enum CollStep<O> {
    Op(O),
    Subscribe(u8, bool),
    Run(u8),
    Once(u8),
    Unsubscribe(u8),
    Check,
}

fn coll_steps<O: Clone + std::fmt::Debug + Serialize + 'static>(op: BoxedStrategy<O>) -> impl Strategy<Value = Vec<CollStep<O>>> {
    let step = prop_oneof![
        10 => op.prop_map(CollStep::Op),
        3 => (any::<u8>(), any::<bool>()).prop_map(|(k, r)| CollStep::Subscribe(k, r)),
        3 => any::<u8>().prop_map(CollStep::Run),
        2 => any::<u8>().prop_map(CollStep::Once),
        1 => any::<u8>().prop_map(CollStep::Unsubscribe),
        3 => Just(CollStep::Check),
    ];
    harness::gen::script(step, 25, 60)
}

fn vecs(steps: &Vec<CollStep<MvOp>>, obs: &mut Obs) -> Outcome {
    reset();
    let m: MutableVec<Tok> = MutableVec::new();
    let mut model: Vec<Tok> = vec![];
    let mut next = 0;
    let mut subs: Vec<(Consumer, Rc<RefCell<Vec<Tok>>>)> = vec![];
    let (mut ops, mut fails) = (0, None);
    let total = |model: &[Tok], subs: &[(Consumer, Rc<RefCell<Vec<Tok>>>)]| -> Vec<u32> {
        let mut want: Vec<u32> = model.iter().chain(model).map(|t| t.v).collect();
        for s in subs {
            want.extend(s.1.borrow().iter().map(|t| t.v));
        }
        want
    };
    for step in steps {
        match step {
            CollStep::Op(op) => {
                ops += 1;
                perform(op, &mut model, &mut m.lock_mut(), &mut next)?;
                errors()?;
            }
            CollStep::Subscribe(_, r) => {
                let copy: Rc<RefCell<Vec<Tok>>> = Rc::default();
                let c2 = copy.clone();
                let mut s = m.signal_vec_cloned();
                let failed: Rc<RefCell<Outcome>> = Rc::new(RefCell::new(Ok(())));
                fails.get_or_insert_with(|| failed.clone());
                let f2 = fails.clone().unwrap();
                let step: Stepper = Box::new(move |cx| {
                    Pin::new(&mut s).poll_vec_change(cx).map(|d| match d {
                        Some(d) => {
                            if let Err(e) = apply(&mut c2.borrow_mut(), d) {
                                *f2.borrow_mut() = Err(e);
                            }
                            false
                        }
                        None => true,
                    })
                });
                subs.push((Consumer::new(step, *r), copy));
            }
            CollStep::Run(i) if !subs.is_empty() => {
                let i = *i as usize % subs.len();
                subs[i].0.run()?;
            }
            CollStep::Once(i) if !subs.is_empty() => {
                let i = *i as usize % subs.len();
                if subs[i].0.task.ready() {
                    subs[i].0.poll();
                }
            }
            CollStep::Unsubscribe(i) if !subs.is_empty() => {
                let i = *i as usize % subs.len();
                subs.remove(i);
            }
            _ => {}
        }
        if matches!(step, CollStep::Check) || subs.is_empty() {
            for s in &mut subs {
                s.0.run()?;
            }
            expect("once every subscriber has caught up", &total(&model, &subs))?;
        }
        if let Some(f) = &fails {
            f.borrow().clone()?;
        }
    }
    obs.nontrivial_if(ops > 0 && !subs.is_empty());
    if steps.len() % 2 == 0 {
        drop(m);
        for s in &mut subs {
            s.0.run()?;
            ensure!(s.0.ended, "not ended");
        }
    }
    subs.clear();
    model.clear();
    if steps.len() % 2 == 0 {
        expect("after everything was dropped", &[])?;
    }
    Ok(())
}

fn vecs_then_gone(steps: &Vec<CollStep<MvOp>>, obs: &mut Obs) -> Outcome {
    vecs(steps, obs)?;
    expect("after everything was dropped", &[])
}

fn maps(steps: &Vec<CollStep<MOp>>, obs: &mut Obs) -> Outcome {
    reset();
    let m: MutableBTreeMap<Tok, Tok> = MutableBTreeMap::new();
    let mut model: BTreeMap<u16, u32> = BTreeMap::new();
    let mut next = 0;
    let failed: Rc<RefCell<Outcome>> = Rc::new(RefCell::new(Ok(())));
    let mut subs: Vec<(Consumer, Rc<RefCell<BTreeMap<Tok, Tok>>>)> = vec![];
    let mut views: Vec<Consumer> = vec![];
    let mut ops = 0;
    for step in steps {
        match step {
            CollStep::Op(op) => {
                ops += 1;
                let mut l = m.lock_mut();
                match op {
                    MOp::Put(k, x) => {
                        next += 1;
                        let old = l.insert_cloned(key(*k), Tok::new(*x, next)).map(|t| t.v);
                        ensure_eq!(old, model.insert(*k, next), "replaced value");
                    }
                    MOp::Remove(k) => {
                        ensure_eq!(l.remove(&key(*k)).map(|t| t.v), model.remove(k), "removed value");
                    }
                    MOp::Clear => {
                        l.clear();
                        model.clear();
                    }
                    MOp::Replace(e) => {
                        let mut new = BTreeMap::new();
                        model.clear();
                        for (k, x) in e {
                            next += 1;
                            new.insert(key(*k), Tok::new(*x, next));
                            model.insert(*k, next);
                        }
                        l.replace_cloned(new);
                    }
                }
                errors()?;
            }
            CollStep::Subscribe(k, r) => match k % 4 {
                0 => views.push(Consumer::new(vector(m.signal_vec_keys()), *r)),
                1 => views.push(Consumer::new(vector(m.entries_cloned()), *r)),
                _ => {
                    let copy: Rc<RefCell<BTreeMap<Tok, Tok>>> = Rc::default();
                    let (c2, f2) = (copy.clone(), failed.clone());
                    let mut s = m.signal_map_cloned();
                    let step: Stepper = Box::new(move |cx| {
                        Pin::new(&mut s).poll_map_change(cx).map(|d| match d {
                            Some(d) => {
                                if let Err(e) = apply_map(&mut c2.borrow_mut(), d) {
                                    *f2.borrow_mut() = Err(e);
                                }
                                false
                            }
                            None => true,
                        })
                    });
                    subs.push((Consumer::new(step, *r), copy));
                }
            },
            CollStep::Run(i) if !subs.is_empty() => {
                let i = *i as usize % subs.len();
                subs[i].0.run()?;
            }
            CollStep::Once(i) if !subs.is_empty() => {
                let i = *i as usize % subs.len();
                if subs[i].0.task.ready() {
                    subs[i].0.poll();
                }
            }
            CollStep::Unsubscribe(i) => {
                if !subs.is_empty() {
                    let i = *i as usize % subs.len();
                    subs.remove(i);
                }
                if !views.is_empty() {
                    let i = *i as usize % views.len();
                    views.remove(i);
                }
            }
            _ => {}
        }
        if matches!(step, CollStep::Check) || subs.is_empty() && views.is_empty() {
            for s in &mut subs {
                s.0.run()?;
            }
            for v in &mut views {
                v.run()?;
            }
            let mut want: Vec<u32> = model.values().copied().collect();
            for s in &subs {
                want.extend(s.1.borrow().values().map(|t| t.v));
            }
            expect_but_keys("once every subscriber has caught up", &want, model.keys())?;
        }
        failed.borrow().clone()?;
    }
    obs.nontrivial_if(ops > 0 && !subs.is_empty());
    if steps.len() % 2 == 0 {
        drop(m);
        for s in &mut subs {
            s.0.run()?;
            ensure!(s.0.ended, "not ended");
        }
        drop((subs, views));
    } else {
        drop((subs, views));
        drop(m);
    }
    expect("after everything was dropped", &[])
}

// ---------------------------------------------------------------- Broadcaster

fn broadcasters(steps: &Vec<CellStep>, obs: &mut Obs) -> Outcome {
    reset();
    let mut src = Some(Mutable::new(Tok::new(0, 0)));
    let (mut now, mut n, mut sets, mut polls) = (0, 0, 0, 0);
    let mut b = vec![Broadcaster::new(src.as_ref().unwrap().signal_cloned())];
    let mut subs: Vec<Consumer> = vec![];
    // the Broadcaster keeps what it consumed until its next value
    let mut kept: BTreeSet<u32> = BTreeSet::new();
    for step in steps {
        match step {
            CellStep::Set(k) => {
                if let Some(m) = &src {
                    sets += 1;
                    n += 1;
                    now = n;
                    m.set(Tok::new(*k, n));
                }
            }
            CellStep::CloneHandle => {
                if let Some(x) = b.last() {
                    let x = x.clone();
                    b.push(x);
                }
            }
            CellStep::DropHandle(k) => {
                if k % 4 == 0 {
                    src = None;
                } else {
                    b.pop();
                }
            }
            CellStep::Subscribe(k, r) => {
                if let Some(b) = b.last() {
                    let s = match k % 3 {
                        0 => signal(b.signal_cloned()),
                        1 => signal(b.signal_ref(|x| x.clone())),
                        _ => signal(b.signal_ref(|x| x.key())),
                    };
                    subs.push(Consumer::new(s, *r));
                }
            }
            CellStep::Run(i) | CellStep::Once(i) | CellStep::Spurious(i) if !subs.is_empty() => {
                let i = *i as usize % subs.len();
                polls += 1;
                match step {
                    CellStep::Run(_) => subs[i].run()?,
                    _ => {
                        subs[i].poll();
                    }
                }
                // now the Broadcaster has seen the latest value
                kept.clear();
                kept.insert(now);
            }
            CellStep::Unsubscribe(i) if !subs.is_empty() => {
                let i = *i as usize % subs.len();
                subs.remove(i);
            }
            _ => {}
        }
        let mut allowed = kept.clone();
        allowed.insert(now);
        within("after a step", &allowed)?;
        ensure!(live().values().all(|n| *n <= 2), "too many instances of a value");
    }
    obs.nontrivial_if(sets > 0 && polls > 0);
    match steps.len() % 3 {
        0 => drop((src, b, subs)),
        1 => drop((subs, b, src)),
        _ => drop((b, src, subs)),
    }
    expect("after everything was dropped", &[])
}

// ---------------------------------------------------------------- pipelines of signals

#[derive(Clone, Debug, Serialize, Deserialize)]
enum PStep<O> {
    Op(O),
    Gate,
    Run,
    Once,
    Spurious,
    End,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PCase<O> {
    kind: u8,
    lossy: bool,
    reuse: bool,
    steps: Vec<PStep<O>>,
    /// the order of the drops
    order: u8,
}

fn pcase<O: Clone + std::fmt::Debug + Serialize + 'static>(op: BoxedStrategy<O>) -> impl Strategy<Value = PCase<O>> {
    let step = prop_oneof![
        10 => op.prop_map(PStep::Op),
        4 => Just(PStep::Gate),
        6 => Just(PStep::Run),
        4 => Just(PStep::Once),
        1 => Just(PStep::Spurious),
        1 => any::<u8>().prop_map(|x| if x < 100 { PStep::End } else { PStep::Run }),
    ];
    (any::<u8>(), any::<bool>(), any::<bool>(), harness::gen::script(step, 20, 60), any::<u8>())
        .prop_map(|(kind, lossy, reuse, steps, order)| PCase { kind, lossy, reuse, steps, order })
}

/// The futures which combinators wait for, some of which hold values.
#[derive(Clone, Default)]
struct Gates(Rc<RefCell<Vec<Gate<()>>>>);

impl Gates {
    fn make(&self) -> harness::sources::GateFuture<()> {
        let g = Gate::new();
        let f = g.future();
        self.0.borrow_mut().push(g);
        f
    }
    fn open_one(&self) {
        if let Some(g) = self.0.borrow().iter().rev().find(|g| !g.get(|s| s.done)) {
            g.open(())
        }
    }
}

const CAPTURED: u32 = 9_000_000;

/// Number of kinds, and whether the pipeline waits for futures.
const SIGNALS: u8 = 26;

fn signal_pipeline(kind: u8, s: BoxSig<Tok>, gates: &Gates, extra: &Mutable<Tok>, items: ScriptStream<Tok>) -> Stepper {
    let cap = Tok::new(0, CAPTURED);
    let g = gates.clone();
    let e = extra.clone();
    match kind {
        0 => signal(s.map(move |x| (x, cap.clone()))),
        1 => signal(s.inspect(move |x| {
            cap.touch();
            x.touch()
        })),
        2 => signal(s.dedupe_cloned()),
        3 => signal(s.dedupe_map(move |x| {
            cap.touch();
            x.clone()
        })),
        4 => signal(s.eq(cap)),
        5 => signal(s.neq(cap)),
        6 => signal(s.filter_map(move |x| {
            cap.touch();
            (x.k % 2 == 0).then_some(x)
        })),
        7 => signal(s.stop_if(move |x| {
            cap.touch();
            x.k == 3
        })),
        8 => signal(s.first()),
        9 => signal(s.map(move |x| e.signal_ref(move |y| (x.clone(), y.clone()))).flatten()),
        10 => signal(s.switch(move |x| {
            cap.touch();
            futures_signals::signal::always(x)
        })),
        11 => vector(s.switch_signal_vec(move |x| {
            cap.touch();
            futures_signals::signal_vec::always(vec![x.clone(), x])
        })),
        12 => {
            let other = extra.signal_cloned();
            signal(map_ref! { let a = s, let b = other => move { cap.touch(); (a.clone(), b.clone()) } })
        }
        13 => vector(s.map(|x| vec![x.clone(), x]).to_signal_vec()),
        14 => stream(s.to_stream()),
        15 => future(s.to_future()),
        16 => future(s.wait_for(cap)),
        17 => stream(s.sample_stream_cloned(items)),
        18 => signal(s.broadcast().signal_cloned()),
        19 => signal(futures_signals::signal::option(Some(s))),
        // these wait for futures
        20 => signal(s.map_future(move |x| {
            let f = g.make();
            async move {
                f.await;
                x
            }
        })),
        21 => signal(s.throttle(move || {
            cap.touch();
            g.make()
        })),
        22 => future(s.for_each(move |x| {
            cap.touch();
            let f = g.make();
            async move {
                f.await;
                x.touch()
            }
        })),
        23 => {
            let f = g.make();
            signal(from_future(async move {
                f.await;
                cap
            }))
        }
        24 => signal(from_stream(items)),
        _ => {
            let (handle, f) = futures_signals::cancelable_future(
                s.for_each(move |x| {
                    x.touch();
                    std::future::ready(())
                }),
                move || cap.touch(),
            );
            let mut handle = Some(handle);
            let mut f = Box::pin(f);
            Box::new(move |cx| {
                let r = f.as_mut().poll(cx).map(|_| true);
                if g.0.borrow().len() > 3 {
                    drop(handle.take());
                }
                r
            })
        }
    }
}

fn signals(case: &PCase<u8>, obs: &mut Obs) -> Outcome {
    reset();
    let kind = case.kind % SIGNALS;
    let src: Src<Tok> = if case.lossy { Src::lossy() } else { Src::new() };
    src.push(Tok::new(0, 1));
    let mut n = 1;
    let gates = Gates::default();
    let extra = Mutable::new(Tok::new(0, 0));
    let items: Src<Tok> = Src::new();
    let mut c = Consumer::new(signal_pipeline(kind, Box::pin(src.signal()), &gates, &extra, ScriptStream(items.signal())), case.reuse);
    let waits = kind >= 20 || kind == 17;
    let mut ended = false;
    let mut changes = 0;
    let mut stopped = false;
    for step in &case.steps {
        match step {
            PStep::Op(k) if !ended => {
                changes += 1;
                n += 1;
                match k % 5 {
                    0 if kind == 17 || kind == 24 => items.push(Tok::new(*k, n + 200_000)),
                    0 if kind == 9 || kind == 12 => extra.set(Tok::new(*k, n + 100_000)),
                    _ => src.push(Tok::new(*k % 6, n)),
                }
            }
            PStep::Gate => gates.open_one(),
            PStep::Run => {
                c.run()?;
                stopped |= c.ended;
                // whatever is not the latest value can't be observed any more
                if !waits && !stopped {
                    let mut allowed: BTreeSet<u32> = [CAPTURED, extra.lock_ref().v].into_iter().collect();
                    let newest = live().into_keys().filter(|v| *v < 100_000 && *v > 0).max();
                    allowed.extend(newest);
                    // `first` consumes nothing beyond its result
                    if kind != 8 {
                        within("once settled", &allowed)?;
                    }
                }
            }
            PStep::Once if !c.task.ready() => {}
            PStep::Once | PStep::Spurious => {
                c.poll();
                stopped |= c.ended;
            }
            PStep::End if !ended => {
                ended = true;
                src.end();
                items.end();
            }
            _ => {}
        }
        errors()?;
    }
    obs.nontrivial_if(changes > 0);
    obs.label_if(waits, "waits for futures");
    obs.label_if(stopped, "ended");
    match case.order % 4 {
        0 => drop((c, src, extra, items, gates)),
        1 => drop((gates, src, extra, items, c)),
        2 => drop((extra, src, c, gates, items)),
        _ => {
            src.end();
            items.end();
            for _ in 0..40 {
                c.run()?;
                gates.open_one();
            }
            drop((items, c, gates, src, extra));
        }
    }
    expect("after everything was dropped", &[])
}

// ---------------------------------------------------------------- pipelines of vectors

const VECTORS: u8 = 18;

fn vector_pipeline(kind: u8, s: BoxVec<Tok>, gates: &Gates, extra: &Mutable<Tok>) -> Stepper {
    let cap = Tok::new(0, CAPTURED);
    let g = gates.clone();
    let e = extra.clone();
    match kind {
        0 => vector(s.map(move |x| (x, cap.clone()))),
        1 => vector(s.filter(move |x| {
            cap.touch();
            x.k % 2 == 0
        })),
        2 => vector(s.filter_map(move |x| {
            cap.touch();
            (x.k % 2 == 0).then_some(x)
        })),
        3 => vector(s.sort_by_cloned(move |a, b| {
            cap.touch();
            a.cmp(b)
        })),
        4 => vector(s.enumerate().map(move |(i, x)| {
            cap.touch();
            drop(i);
            x
        })),
        5 => vector(s.map(|x| x).chain(futures_signals::signal_vec::always(vec![cap]))),
        6 => vector(s.map(move |x| {
            cap.touch();
            futures_signals::signal_vec::always(vec![x.clone(), x])
        }).flatten()),
        7 => vector(s.map_signal(move |x| {
            cap.touch();
            e.signal_ref(move |y| (x.clone(), y.clone()))
        })),
        8 => vector(s.filter_signal_cloned(move |x| {
            cap.touch();
            let k = x.k;
            e.signal_ref(move |y| (y.k + k) % 2 == 0)
        })),
        9 => signal(s.to_signal_cloned()),
        10 => signal(s.to_signal_map(move |x| {
            cap.touch();
            x.to_vec()
        })),
        11 => signal(s.len()),
        12 => signal(s.is_empty()),
        13 => stream(s.to_stream()),
        14 => vector(s.delay_remove(move |_| {
            cap.touch();
            std::future::ready(())
        })),
        // these wait for futures
        15 => vector(s.delay_remove(move |x| {
            let f = g.make();
            let x = x.clone();
            async move {
                f.await;
                x.touch()
            }
        })),
        16 => future(s.for_each(move |d| {
            let f = g.make();
            async move {
                f.await;
                drop(d)
            }
        })),
        _ => vector(s.delay_remove(move |_| g.make()).map(move |x| (x, cap.clone())).filter(|x| x.0.k != 1)),
    }
}

fn tok_diff(d: VecDiff<harness::vecsrc::El>) -> VecDiff<Tok> {
    use VecDiff::*;
    let t = |e: harness::vecsrc::El| Tok::new(e.k, e.id);
    match d {
        Replace { values } => Replace { values: values.into_iter().map(t).collect() },
        InsertAt { index, value } => InsertAt { index, value: t(value) },
        UpdateAt { index, value } => UpdateAt { index, value: t(value) },
        RemoveAt { index } => RemoveAt { index },
        Move { old_index, new_index } => Move { old_index, new_index },
        Push { value } => Push { value: t(value) },
        Pop {} => Pop {},
        Clear {} => Clear {},
    }
}

fn vectors(case: &PCase<VOp>, obs: &mut Obs) -> Outcome {
    reset();
    let kind = case.kind % VECTORS;
    let src: Src<VecDiff<Tok>> = Src::new();
    let mut model = VecModel::default();
    let gates = Gates::default();
    let extra = Mutable::new(Tok::new(0, 0));
    let mut c = Consumer::new(vector_pipeline(kind, Box::pin(VecScript(src.signal())), &gates, &extra), case.reuse);
    let waits = kind >= 15;
    let (mut ended, mut changes) = (false, 0);
    for (t, step) in case.steps.iter().enumerate() {
        match step {
            PStep::Op(op) if !ended => {
                if let Some(d) = model.diff(op) {
                    changes += 1;
                    src.push(tok_diff(d));
                }
            }
            PStep::Gate if waits => gates.open_one(),
            PStep::Gate => extra.set(Tok::new(t as u8 % 4, 8_000_000 + t as u32)),
            PStep::Run => {
                c.run()?;
                if !waits {
                    let mut allowed: BTreeSet<u32> = model.v.iter().map(|e| e.id).collect();
                    allowed.extend([CAPTURED, extra.lock_ref().v]);
                    within("once settled", &allowed)?;
                }
            }
            PStep::Once if !c.task.ready() => {}
            PStep::Once | PStep::Spurious => {
                c.poll();
            }
            PStep::End if !ended => {
                ended = true;
                src.end();
            }
            _ => {}
        }
        errors()?;
    }
    obs.nontrivial_if(changes > 0);
    obs.label_if(waits, "waits for futures");
    if waits {
        // once every future has completed only the present elements are there
        let mut rounds = 0;
        loop {
            c.run()?;
            let open = gates.0.borrow().iter().any(|g| !g.get(|s| s.done || s.dropped));
            if !open || rounds > 100_000 {
                break;
            }
            for g in gates.0.borrow().iter() {
                g.open(());
            }
            rounds += 1;
        }
        let mut allowed: BTreeSet<u32> = model.v.iter().map(|e| e.id).collect();
        allowed.extend([CAPTURED, extra.lock_ref().v]);
        if kind != 16 || ended {
            within("once all futures completed", &allowed)?;
        }
    }
    match case.order % 3 {
        0 => drop((c, src, extra, gates)),
        1 => drop((gates, src, extra, c)),
        _ => {
            src.end();
            c.run()?;
            drop((extra, c, gates, src));
        }
    }
    expect("after everything was dropped", &[])
}

// ---------------------------------------------------------------- pipelines of maps

fn map_pipeline(kind: u8, m: &MutableBTreeMap<Tok, Tok>, extra: &Mutable<Tok>) -> Stepper {
    let cap = Tok::new(0, CAPTURED);
    let e = extra.clone();
    let s = m.signal_map_cloned();
    match kind % 4 {
        0 => map(s.map_value(move |x| (x, cap.clone()))),
        1 => map(s.map_value_signal(move |x| {
            cap.touch();
            e.signal_ref(move |y| (x.clone(), y.clone()))
        })),
        2 => signal(s.key_cloned(key(2))),
        _ => future(s.for_each(move |d| {
            cap.touch();
            drop(d);
            std::future::ready(())
        })),
    }
}

fn map_pipelines(case: &PCase<MOp>, obs: &mut Obs) -> Outcome {
    reset();
    let m: MutableBTreeMap<Tok, Tok> = MutableBTreeMap::new();
    let mut model: BTreeMap<u16, u32> = BTreeMap::new();
    let mut next = 0;
    let extra = Mutable::new(Tok::new(0, 0));
    let mut c = Consumer::new(map_pipeline(case.kind, &m, &extra), case.reuse);
    let mut m = Some(m);
    let mut changes = 0;
    for (t, step) in case.steps.iter().enumerate() {
        match step {
            PStep::Op(op) => {
                if let Some(m) = &m {
                    changes += 1;
                    let mut l = m.lock_mut();
                    match op {
                        MOp::Put(k, x) => {
                            next += 1;
                            model.insert(*k, next);
                            l.insert_cloned(key(*k), Tok::new(*x, next));
                        }
                        MOp::Remove(k) => {
                            model.remove(k);
                            l.remove(&key(*k));
                        }
                        MOp::Clear => {
                            model.clear();
                            l.clear();
                        }
                        MOp::Replace(e) => {
                            let mut new = BTreeMap::new();
                            model.clear();
                            for (k, x) in e {
                                next += 1;
                                new.insert(key(*k), Tok::new(*x, next));
                                model.insert(*k, next);
                            }
                            l.replace_cloned(new);
                        }
                    }
                }
            }
            PStep::Gate => extra.set(Tok::new(t as u8 % 4, 8_000_000 + t as u32)),
            PStep::Run => {
                c.run()?;
                let mut allowed: BTreeSet<u32> = model.values().copied().collect();
                allowed.extend([CAPTURED, extra.lock_ref().v]);
                allowed.extend(model.keys().map(|k| KEY + *k as u32));
                if case.kind % 4 == 2 {
                    allowed.insert(KEY + 2);
                }
                within("once settled", &allowed)?;
            }
            PStep::Once if !c.task.ready() => {}
            PStep::Once | PStep::Spurious => {
                c.poll();
            }
            PStep::End => m = None,
        }
        errors()?;
    }
    obs.nontrivial_if(changes > 0);
    match case.order % 3 {
        0 => drop((c, m, extra)),
        1 => drop((extra, m, c)),
        _ => {
            drop(m);
            c.run()?;
            drop((extra, c));
        }
    }
    expect("after everything was dropped", &[])
}

/// Everything includes the wakers (and so the tasks) which were passed to the library.
fn released<C>(f: impl Fn(&C, &mut Obs) -> Outcome + Copy) -> impl Fn(&C, &mut Obs) -> Outcome + Copy {
    move |c, obs| {
        let before = live_flags();
        f(c, obs)?;
        ensure_eq!(live_flags(), before, "wakers which were not released");
        Ok(())
    }
}

fn main() {
    let mut r = Runner::new(
        "C26",
        "histories with values which record every clone, use and drop: Mutables, channels (also with threads), collections with subscribers, Broadcasters and pipelines, dropped in different orders; non-trivial: values were replaced and something was polled or subscribed",
    );
    r.family("Mutable", 200_000, 4_000_000, cell_steps, released(cells));
    r.family("channel", 200_000, 4_000_000, channel_steps, released(channels));
    r.family("threads", 200_000, 6_000_000, thread_case, released(threads));
    r.family("MutableVec", 200_000, 4_000_000, || coll_steps(mvop().boxed()), released(vecs_then_gone));
    r.family("MutableBTreeMap", 200_000, 4_000_000, || coll_steps(mop().boxed()), released(maps));
    r.family("Broadcaster", 200_000, 4_000_000, cell_steps, released(broadcasters));
    r.family("signals", 400_000, 8_000_000, || pcase(any::<u8>().boxed()), released(signals));
    r.family("vectors", 300_000, 6_000_000, || pcase(vop().boxed()), released(vectors));
    r.family("maps", 100_000, 2_000_000, || pcase(mop().boxed()), released(map_pipelines));
    r.finish()
}
