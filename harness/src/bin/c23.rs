//! C23: Mutable, channel and Broadcaster under threads.
use futures_signals::signal::{channel, Broadcaster, Mutable, Signal};
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::Task;
use harness::sched::{point, schedule, Quiet, Sched, Schedule};
use harness::vecsrc::BoxSig;
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::task::Poll;

/// (writer, number of the write)
type Val = (usize, u32);

/// One write and when it happened.
#[derive(Clone, Copy, Debug)]
struct Write {
    val: Val,
    from: u64,
    to: u64,
}

/// The history of a run on a global clock.
#[derive(Default)]
struct History {
    now: Cell<u64>,
    writes: RefCell<Vec<Write>>,
    /// starts and ends of the calls of close
    closes: RefCell<Vec<(u64, u64)>>,
    /// when the drop of the last writer started
    gone: Cell<Option<u64>>,
    writers: Cell<usize>,
}

impl History {
    fn tick(&self) -> u64 {
        self.now.set(self.now.get() + 1);
        self.now.get()
    }
    fn write(&self, val: Val, f: impl FnOnce() -> bool) {
        let from = self.tick();
        if f() {
            let to = self.tick();
            self.writes.borrow_mut().push(Write { val, from, to });
        }
    }
    fn handle(&self) {
        self.writers.set(self.writers.get() + 1);
    }
    fn release(&self, f: impl FnOnce()) {
        self.writers.set(self.writers.get() - 1);
        if self.writers.get() == 0 {
            self.gone.set(Some(self.tick()));
        }
        f()
    }
    /// Whether `val` was overwritten by a write which began after it was written and ended before `before`.
    fn stale(&self, val: Val, before: u64) -> Option<Val> {
        let w = self.writes.borrow();
        // a value which is not there is still being written, or was there at first
        let to = match w.iter().find(|w| w.val == val) {
            Some(w) => w.to,
            None if val.0 == FIRST => 0,
            None => return None,
        };
        w.iter().find(|o| o.from > to && o.to < before && o.val != val).map(|o| o.val)
    }
}

const FIRST: usize = 99;

/// What a consumer saw.
#[derive(Default)]
struct Seen {
    /// values and when their poll began
    items: Vec<(Val, u64)>,
    ended: Option<u64>,
    dropped: bool,
}

type Shared = Rc<RefCell<Seen>>;

fn consume(sig: BoxSig<Val>, seen: &Shared, h: &History, reuse: bool, extra: u8, leave: Option<u8>) {
    let mut sig = sig;
    let mut task = Task::new(reuse);
    let mut extra = extra;
    loop {
        if let Some(n) = leave {
            if seen.borrow().items.len() >= n as usize {
                seen.borrow_mut().dropped = true;
                return;
            }
        }
        let at = h.tick();
        match task.poll(|cx| sig.as_mut().poll_change(cx)) {
            Poll::Ready(Some(x)) => seen.borrow_mut().items.push((x, at)),
            Poll::Ready(None) => {
                seen.borrow_mut().ended = Some(h.tick());
                return;
            }
            Poll::Pending if extra > 0 => extra -= 1,
            Poll::Pending => task.wait(),
        }
    }
}

fn ordered(items: &[(Val, u64)], strict: bool) -> Outcome {
    for (i, (a, _)) in items.iter().enumerate() {
        for (b, _) in &items[i + 1..] {
            if a.0 == b.0 {
                ensure!(a.1 < b.1 || (!strict && a.1 == b.1), "yielded {b:?} after {a:?}");
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum MOp {
    Set,
    Replace,
    ReplaceWith,
    SetNeq,
    SetIf(bool),
    Lock(bool),
    Read,
    /// clones the handle, and drops the clone at the end
    Clone,
    /// drops one of the clones
    DropClone,
    /// creates a signal and drops it unpolled
    Signal,
    /// exchanges with the other Mutable
    Swap,
    SwapSelf,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Consumer {
    reuse: bool,
    extra: u8,
    /// leaves after so many items
    leave: Option<u8>,
    /// how the signal is made
    kind: u8,
    /// subscribes in its own thread
    late: bool,
    of: bool,
}

fn consumer() -> impl Strategy<Value = Consumer> {
    (any::<bool>(), prop_oneof![3 => Just(0u8), 1 => 0u8..3], proptest::option::weighted(0.15, 0u8..3), 0u8..4, any::<bool>(), any::<bool>())
        .prop_map(|(reuse, extra, leave, kind, late, of)| Consumer { reuse, extra, leave, kind, late, of })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// per writer thread: which Mutable it holds, and what it does
    writers: Vec<(bool, Vec<MOp>)>,
    consumers: Vec<Consumer>,
    /// a handle which stays until everything is quiet
    keeper: bool,
    schedule: Schedule,
}

fn case(swaps: bool) -> impl Strategy<Value = Case> {
    let op = prop_oneof![
        6 => Just(MOp::Set),
        2 => Just(MOp::Replace),
        2 => Just(MOp::ReplaceWith),
        1 => Just(MOp::SetNeq),
        2 => any::<bool>().prop_map(MOp::SetIf),
        2 => any::<bool>().prop_map(MOp::Lock),
        1 => Just(MOp::Read),
        1 => Just(MOp::Clone),
        1 => Just(MOp::DropClone),
        1 => Just(MOp::Signal),
        (if swaps { 6 } else { 1 }) => if swaps { Just(MOp::Swap).boxed() } else { Just(MOp::Set).boxed() },
        1 => if swaps { Just(MOp::SwapSelf).boxed() } else { Just(MOp::Set).boxed() },
    ];
    (
        proptest::collection::vec((any::<bool>(), proptest::collection::vec(op, 0..4)), 1..4),
        proptest::collection::vec(consumer(), 1..3),
        any::<bool>(),
        schedule(12),
    )
        .prop_map(|(writers, consumers, keeper, schedule)| Case { writers, consumers, keeper, schedule })
}

fn signal_of(m: &futures_signals::signal::ReadOnlyMutable<Val>, kind: u8) -> BoxSig<Val> {
    match kind % 3 {
        0 => Box::pin(m.signal()),
        1 => Box::pin(m.signal_cloned()),
        _ => Box::pin(m.signal_ref(|x| {
            point();
            *x
        })),
    }
}

type BOf = Broadcaster<BoxSig<Val>>;

fn child_of(b: &BOf, kind: u8) -> BoxSig<Val> {
    match kind % 3 {
        0 => Box::pin(b.signal()),
        1 => Box::pin(b.signal_cloned()),
        _ => Box::pin(b.signal_ref(|x| {
            point();
            *x
        })),
    }
}

/// Mutables, optionally seen through a Broadcaster each.
fn mutables(case: &Case, obs: &mut Obs, swaps: bool, broadcast: bool) -> Outcome {
    // never dropped when the case fails: a lock may be held forever
    let h: [Rc<History>; 2] = [Rc::default(), Rc::default()];
    let cells = std::mem::ManuallyDrop::new([Mutable::new((FIRST, 0)), Mutable::new((FIRST, 1))]);
    let ro = [cells[0].read_only(), cells[1].read_only()];
    let bs: Option<[BOf; 2]> = broadcast.then(|| {
        [Broadcaster::new(Box::pin(ro[0].signal()) as BoxSig<Val>), Broadcaster::new(Box::pin(ro[1].signal()) as BoxSig<Val>)]
    });
    let mut s = Sched::new(&case.schedule);
    let mut seen: Vec<(usize, Shared)> = vec![];
    for (w, (which, ops)) in case.writers.iter().enumerate() {
        let k = if swaps { *which as usize } else { 0 };
        let (m, other, ops) = (cells[k].clone(), cells[1 - k].clone(), ops.clone());
        let (hk, ho) = (h[k].clone(), h[1 - k].clone());
        hk.handle();
        ho.handle();
        let b = bs.clone();
        s.spawn("a writer", move || {
            let mut clones = vec![];
            let mut n = 0;
            for op in &ops {
                n += 1;
                let val = (w, n);
                match op {
                    MOp::Set => hk.write(val, || {
                        m.set(val);
                        true
                    }),
                    MOp::Replace => hk.write(val, || {
                        m.replace(val);
                        true
                    }),
                    MOp::ReplaceWith => hk.write(val, || {
                        m.replace_with(|_| val);
                        true
                    }),
                    MOp::SetNeq => hk.write(val, || {
                        m.set_neq(val);
                        true
                    }),
                    MOp::SetIf(b) => hk.write(val, || {
                        m.set_if(val, |_, _| *b);
                        *b
                    }),
                    MOp::Lock(b) => hk.write(val, || {
                        let mut l = m.lock_mut();
                        if *b {
                            *l = val;
                        }
                        point();
                        *b
                    }),
                    MOp::Read => {
                        let l = m.lock_ref();
                        point();
                        drop(l);
                        m.get();
                    }
                    MOp::Clone => {
                        hk.handle();
                        clones.push(m.clone())
                    }
                    MOp::DropClone => {
                        if let Some(c) = clones.pop() {
                            hk.release(|| drop(c))
                        }
                    }
                    MOp::Signal => match &b {
                        Some(b) => drop(child_of(&b[k], n as u8)),
                        None => drop(signal_of(&m, n as u8)),
                    },
                    MOp::Swap => m.swap(&other),
                    MOp::SwapSelf => m.swap(&m.clone()),
                }
            }
            for c in clones {
                hk.release(|| drop(c));
            }
            ho.release(|| drop(other));
            hk.release(|| drop(m));
            Ok(())
        });
    }
    for c in &case.consumers {
        let k = if swaps { c.of as usize } else { 0 };
        let sn = Shared::default();
        seen.push((k, sn.clone()));
        let (c, hk) = (c.clone(), h[k].clone());
        let ro = ro[k].clone();
        let b = bs.as_ref().map(|b| b[k].clone());
        let make = move || match b {
            Some(b) => child_of(&b, c.kind),
            None => signal_of(&ro, c.kind),
        };
        if c.late {
            s.spawn("a consumer", move || {
                consume(make(), &sn, &hk, c.reuse, c.extra, c.leave);
                Ok(())
            });
        } else {
            let sig = make();
            s.spawn("a consumer", move || {
                consume(sig, &sn, &hk, c.reuse, c.extra, c.leave);
                Ok(())
            });
        }
    }
    drop(bs);
    let mut cells = Some(cells);
    for h in &h {
        h.handle();
    }
    let release = |c: std::mem::ManuallyDrop<[Mutable<Val>; 2]>| {
        for h in &h {
            h.writers.set(h.writers.get() - 1);
            if h.writers.get() == 0 {
                h.gone.set(Some(h.tick()));
            }
        }
        drop(std::mem::ManuallyDrop::into_inner(c));
    };
    if !case.keeper {
        release(cells.take().unwrap());
    }
    let check = |end: bool| -> Outcome {
        for (k, s) in &seen {
            let s = s.borrow();
            if !swaps {
                ordered(&s.items, false)?;
                for (v, at) in &s.items {
                    if let (false, Some(newer)) = (broadcast, h[*k].stale(*v, *at)) {
                        return Err(format!("yielded {v:?} although {newer:?} had been written"));
                    }
                }
            }
            if s.dropped {
                continue;
            }
            ensure_eq!(s.items.last().map(|x| x.0), Some(ro[*k].get()), "last value of a consumer");
            if let Some(at) = s.ended {
                ensure!(h[*k].gone.get().map_or(false, |g| g < at), "ended although there are writers");
            }
            ensure!(!end || s.ended.is_some(), "not ended although all writers are gone");
        }
        Ok(())
    };
    let quiet = s.run()?;
    obs.nontrivial_if(s.switches > 3);
    if let Some(c) = cells {
        check(false)?;
        obs.label("settled with a writer left");
        release(c);
        let quiet = s.run()?;
        ensure!(quiet == Quiet::Done, "the last writer is gone, but a consumer was not woken");
    } else if quiet != Quiet::Done {
        return Err("all writers are gone, but a consumer waits forever".into());
    }
    check(true)?;
    obs.label_if(case.consumers.iter().any(|c| c.late), "subscribed in a thread");
    obs.label_if(seen.iter().any(|(_, s)| s.borrow().items.len() > 1), "saw more than one value");
    if swaps && case.writers.iter().all(|(_, o)| o.iter().all(|o| matches!(o, MOp::Swap | MOp::SwapSelf | MOp::Read | MOp::Clone | MOp::DropClone | MOp::Signal))) {
        let mut v = [ro[0].get(), ro[1].get()];
        v.sort();
        ensure_eq!(v, [(FIRST, 0), (FIRST, 1)], "values after swaps only");
        obs.label("swaps only");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum COp {
    Send,
    Close,
    /// clones the sender, the clone is used from now on
    Clone,
    /// drops a clone
    Drop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ChannelCase {
    senders: Vec<Vec<COp>>,
    reuse: bool,
    extra: u8,
    leave: Option<u8>,
    keeper: bool,
    /// the keeper closes instead of being dropped
    closes: bool,
    schedule: Schedule,
}

fn channel_case() -> impl Strategy<Value = ChannelCase> {
    let op = |close: u32| {
        prop_oneof![
            8 => Just(COp::Send),
            close => Just(COp::Close),
            2 => Just(COp::Clone),
            2 => Just(COp::Drop),
        ]
    };
    let senders = prop_oneof![
        proptest::collection::vec(proptest::collection::vec(op(1), 0..5), 1..4),
        // without any close
        proptest::collection::vec(
            proptest::collection::vec(prop_oneof![8 => Just(COp::Send), 2 => Just(COp::Clone), 2 => Just(COp::Drop)], 0..5),
            1..4
        ),
    ];
    (
        senders,
        any::<bool>(),
        prop_oneof![3 => Just(0u8), 1 => 0u8..3],
        proptest::option::weighted(0.1, 0u8..3),
        any::<bool>(),
        any::<bool>(),
        schedule(12),
    )
        .prop_map(|(senders, reuse, extra, leave, keeper, closes, schedule)| ChannelCase { senders, reuse, extra, leave, keeper, closes, schedule })
}

fn channels(case: &ChannelCase, obs: &mut Obs) -> Outcome {
    let h: Rc<History> = Rc::default();
    let (first, rx) = channel((FIRST, 0));
    let mut s = Sched::new(&case.schedule);
    // failed sends: when they began
    let refused: Rc<RefCell<Vec<(u64, u64)>>> = Rc::default();
    // when the receiver began to be dropped
    let left: Rc<Cell<Option<u64>>> = Rc::default();
    for (w, ops) in case.senders.iter().enumerate() {
        let (tx, ops, h, refused) = (first.clone(), ops.clone(), h.clone(), refused.clone());
        h.handle();
        s.spawn("a sender", move || {
            let mut txs = vec![tx];
            let mut n = 0;
            for op in &ops {
                let last = txs.len() - 1;
                match op {
                    COp::Send => {
                        n += 1;
                        let from = h.tick();
                        match txs[last].send((w, n)) {
                            Ok(()) => {
                                let to = h.tick();
                                h.writes.borrow_mut().push(Write { val: (w, n), from, to });
                            }
                            Err(v) => {
                                ensure_eq!(v, (w, n), "value handed back by send");
                                refused.borrow_mut().push((from, h.tick()));
                            }
                        }
                    }
                    COp::Close => {
                        let from = h.tick();
                        txs[last].close();
                        let to = h.tick();
                        h.closes.borrow_mut().push((from, to));
                    }
                    COp::Clone => {
                        h.handle();
                        let c = txs[last].clone();
                        txs.push(c);
                    }
                    COp::Drop => {
                        if last > 0 {
                            let tx = txs.pop();
                            h.release(|| drop(tx));
                        }
                    }
                }
            }
            for tx in txs {
                h.release(|| drop(tx));
            }
            Ok(())
        });
    }
    let seen = Shared::default();
    {
        let (seen, h, reuse, extra, leave, left) = (seen.clone(), h.clone(), case.reuse, case.extra, case.leave, left.clone());
        s.spawn("the receiver", move || {
            // the receiver is dropped when it left
            let sig: BoxSig<Val> = Box::pin(rx);
            consume_keeping(sig, &seen, &h, reuse, extra, leave, &left);
            Ok(())
        });
    }
    h.handle();
    let mut keeper = Some(first);
    if !case.keeper {
        h.release(|| drop(keeper.take()));
    }
    let check = || -> Outcome {
        let seen = seen.borrow();
        ordered(&seen.items, true)?;
        for (v, at) in &seen.items {
            if let Some(newer) = h.stale(*v, *at) {
                return Err(format!("yielded {v:?} although {newer:?} had been sent"));
            }
        }
        let closes = h.closes.borrow();
        // sends which overlap a close may be lost
        let close = closes.iter().map(|c| c.0).min().unwrap_or(u64::MAX);
        if !seen.dropped {
            let last = seen.items.last().map(|x| x.0);
            ensure!(last.is_some(), "the first value was not yielded");
            let last = last.unwrap();
            if let Some(w) = h.stale(last, close) {
                return Err(format!("the last value yielded is {last:?}, but {w:?} was sent after it"));
            }
            if let Some(at) = seen.ended {
                ensure!(close < at || h.gone.get().map_or(false, |g| g < at), "ended although there are senders");
            }
        }
        let closed = closes.iter().map(|c| c.1).min().unwrap_or(u64::MAX);
        for w in h.writes.borrow().iter() {
            ensure!(w.from < closed, "send succeeded after the channel was closed");
        }
        let leave = left.get().unwrap_or(u64::MAX);
        for (_, to) in refused.borrow().iter() {
            ensure!(*to > close || *to > leave, "send failed although the channel is open");
        }
        Ok(())
    };
    let quiet = s.run()?;
    obs.nontrivial_if(s.switches > 3);
    let closed = !h.closes.borrow().is_empty();
    obs.label_if(closed, "closed");
    check()?;
    if let Some(k) = keeper {
        if !closed && quiet == Quiet::Parked {
            obs.label("settled with a sender left");
        }
        if case.closes {
            let from = h.tick();
            k.close();
            h.closes.borrow_mut().push((from, h.tick()));
            ensure!(k.clone().send((FIRST, 7)).is_err(), "send succeeded after close");
            let quiet = s.run()?;
            ensure!(quiet == Quiet::Done, "closed, but the receiver was not woken");
        }
        h.release(|| drop(k));
        let quiet = s.run()?;
        ensure!(quiet == Quiet::Done, "the last sender is gone, but the receiver was not woken");
    } else {
        ensure!(quiet == Quiet::Done, "all senders are gone, but the receiver waits forever");
    }
    check()?;
    let seen = seen.borrow();
    ensure!(seen.dropped || seen.ended.is_some(), "not ended");
    obs.label_if(seen.items.len() > 1, "saw more than one value");
    Ok(())
}

fn consume_keeping(sig: BoxSig<Val>, seen: &Shared, h: &History, reuse: bool, extra: u8, leave: Option<u8>, left: &Cell<Option<u64>>) {
    struct OnDrop<'a>(BoxSig<Val>, &'a History, &'a Cell<Option<u64>>);
    impl Drop for OnDrop<'_> {
        fn drop(&mut self) {
            self.2.set(Some(self.1.tick()));
        }
    }
    impl Signal for OnDrop<'_> {
        type Item = Val;
        fn poll_change(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context) -> Poll<Option<Val>> {
            self.0.as_mut().poll_change(cx)
        }
    }
    // the lifetime ends with this call
    let sig: BoxSig<Val> = unsafe {
        std::mem::transmute::<std::pin::Pin<Box<dyn Signal<Item = Val> + '_>>, BoxSig<Val>>(Box::pin(OnDrop(sig, h, left)))
    };
    consume(sig, seen, h, reuse, extra, leave);
}

// ---------------------------------------------------------------- atomicity

/// Operations on the first (false) or the second (true) of two Mutables.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum AOp {
    Get(bool, u8),
    Set(bool, u8),
    Replace(bool, u8),
    ReplaceWith(bool, u8),
    SetIfMore(bool, u8),
    SetNeq(bool, u8),
    Lock(bool, u8),
    /// from the first to the second, or in the other direction
    Swap(bool),
    /// polls a signal which was made before everything
    Poll(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AtomicCase {
    threads: Vec<Vec<AOp>>,
    schedule: Schedule,
}

fn atomic_case() -> impl Strategy<Value = AtomicCase> {
    let m = || proptest::bool::weighted(0.25);
    let op = prop_oneof![
        2 => (m(), 0u8..5).prop_map(|(m, k)| AOp::Get(m, k)),
        2 => (m(), 0u8..6).prop_map(|(m, v)| AOp::Set(m, v)),
        2 => (m(), 0u8..6).prop_map(|(m, v)| AOp::Replace(m, v)),
        3 => (m(), 1u8..6).prop_map(|(m, v)| AOp::ReplaceWith(m, v)),
        3 => (m(), 0u8..6).prop_map(|(m, v)| AOp::SetIfMore(m, v)),
        2 => (m(), 0u8..6).prop_map(|(m, v)| AOp::SetNeq(m, v)),
        3 => (m(), 1u8..6).prop_map(|(m, v)| AOp::Lock(m, v)),
        2 => any::<bool>().prop_map(AOp::Swap),
        2 => m().prop_map(AOp::Poll),
    ];
    (proptest::collection::vec(proptest::collection::vec(op, 1..5), 2..4), schedule(12)).prop_map(|(threads, schedule)| AtomicCase { threads, schedule })
}

/// What an operation did and when.
struct Done {
    op: AOp,
    /// the old values which it saw, and the new value which it passed on
    saw: Option<u8>,
    from: u64,
    to: u64,
}

impl Done {
    /// The effect on the two values if this is the next operation; None if it can't have seen what it saw.
    fn step(&self, mut v: [u8; 2]) -> Option<[u8; 2]> {
        let saw = |x: u8| self.saw.is_none_or(|s| s == x).then_some(());
        match self.op {
            AOp::Get(m, _) | AOp::Poll(m) => saw(v[m as usize])?,
            AOp::Set(m, x) => v[m as usize] = x,
            AOp::SetNeq(m, x) => v[m as usize] = x,
            AOp::Replace(m, x) => {
                saw(v[m as usize])?;
                v[m as usize] = x;
            }
            AOp::ReplaceWith(m, x) | AOp::Lock(m, x) => {
                saw(v[m as usize])?;
                v[m as usize] = v[m as usize].wrapping_add(x);
            }
            AOp::SetIfMore(m, x) => {
                saw(v[m as usize])?;
                v[m as usize] = v[m as usize].max(x);
            }
            AOp::Swap(_) => v.swap(0, 1),
        }
        Some(v)
    }
}

/// Whether some order of the operations explains everything.
fn explained(threads: &[Vec<Done>], at: &mut Vec<usize>, v: [u8; 2], end: [u8; 2], tried: &mut std::collections::HashSet<(Vec<usize>, [u8; 2])>) -> bool {
    if threads.iter().zip(&*at).all(|(t, i)| *i == t.len()) {
        return v == end;
    }
    if !tried.insert((at.clone(), v)) {
        return false;
    }
    // the earliest end of an operation which is not there yet: what began later comes later
    let first = threads.iter().zip(&*at).filter_map(|(t, i)| t.get(*i)).map(|d| d.to).min().unwrap();
    for k in 0..threads.len() {
        let Some(d) = threads[k].get(at[k]) else { continue };
        if d.from > first {
            continue;
        }
        if let Some(v) = d.step(v) {
            at[k] += 1;
            if explained(threads, at, v, end, tried) {
                return true;
            }
            at[k] -= 1;
        }
    }
    false
}

fn atomic(case: &AtomicCase, obs: &mut Obs) -> Outcome {
    let cells = std::mem::ManuallyDrop::new([Mutable::new(0u8), Mutable::new(1u8)]);
    let now: Rc<Cell<u64>> = Rc::default();
    let log: Rc<RefCell<Vec<Vec<Done>>>> = Rc::new(RefCell::new(case.threads.iter().map(|_| vec![]).collect()));
    let mut s = Sched::new(&case.schedule);
    for (t, ops) in case.threads.iter().enumerate() {
        let (cells, now, log, ops) = ([cells[0].clone(), cells[1].clone()], now.clone(), log.clone(), ops.clone());
        s.spawn("a thread", move || {
            let mut signals = [cells[0].signal(), cells[1].signal()];
            let mut task = Task::new(true);
            for op in ops {
                now.set(now.get() + 1);
                let from = now.get();
                let mut saw = None;
                match op {
                    AOp::Get(m, k) => {
                        let c = &cells[m as usize];
                        saw = Some(match k {
                            0 => c.get(),
                            1 => c.get_cloned(),
                            2 => c.read_only().get(),
                            3 => {
                                let l = c.lock_ref();
                                let x = *l;
                                point();
                                ensure_eq!(*l, x, "the value changed while it was locked");
                                x
                            }
                            _ => {
                                let mut x = c.signal_ref(|x| {
                                    point();
                                    *x
                                });
                                match task.poll(|cx| std::pin::Pin::new(&mut x).poll_change(cx)) {
                                    Poll::Ready(Some(x)) => x,
                                    r => return Err(format!("the first poll gave {r:?}")),
                                }
                            }
                        })
                    }
                    AOp::Set(m, x) => cells[m as usize].set(x),
                    AOp::SetNeq(m, x) => cells[m as usize].set_neq(x),
                    AOp::Replace(m, x) => saw = Some(cells[m as usize].replace(x)),
                    AOp::ReplaceWith(m, x) => {
                        let mut inner = 0;
                        let old = cells[m as usize].replace_with(|v| {
                            inner = *v;
                            point();
                            v.wrapping_add(x)
                        });
                        ensure_eq!(old, inner, "the value which replace_with returned and the one which it passed");
                        saw = Some(old);
                    }
                    AOp::SetIfMore(m, x) => cells[m as usize].set_if(x, |old, new| {
                        saw = Some(*old);
                        point();
                        new > old
                    }),
                    AOp::Lock(m, x) => {
                        let mut l = cells[m as usize].lock_mut();
                        saw = Some(*l);
                        point();
                        *l = l.wrapping_add(x);
                    }
                    AOp::Swap(b) => cells[b as usize].swap(&cells[!b as usize]),
                    AOp::Poll(m) => match task.poll(|cx| std::pin::Pin::new(&mut signals[m as usize]).poll_change(cx)) {
                        Poll::Ready(Some(x)) => saw = Some(x),
                        Poll::Pending => {}
                        Poll::Ready(None) => return Err("ended".into()),
                    },
                }
                now.set(now.get() + 1);
                log.borrow_mut()[t].push(Done { op, saw, from, to: now.get() });
            }
            Ok(())
        });
    }
    ensure!(s.run()? == Quiet::Done, "a thread waits");
    obs.nontrivial_if(s.switches > 3);
    let end = [cells[0].get(), cells[1].get()];
    drop(std::mem::ManuallyDrop::into_inner(cells));
    let log = log.borrow();
    let mut all: Vec<&Done> = log.iter().flatten().collect();
    all.sort_by_key(|d| d.from);
    obs.label_if(all.windows(2).any(|w| w[1].from < w[0].to), "overlapping operations");
    if !explained(&log, &mut vec![0; log.len()], [0, 1], end, &mut Default::default()) {
        let all: Vec<String> = log.iter().enumerate().flat_map(|(t, l)| l.iter().map(move |d| format!("{t}: {}..{} {:?} saw {:?}", d.from, d.to, d.op, d.saw))).collect();
        return Err(format!("no order of the operations explains what they saw and the final values {end:?}: {}", all.join("; ")));
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C23",
        "programs of 1-3 writer threads (all writing operations, clones and drops of handles, swaps, closes) and 1-2 consumer threads which poll only when woken, under a generated schedule which can preempt at every lock and atomic operation, wakeup and callback and, in two fifths of the cases, at every basic block of the library; non-trivial: more than three context switches",
    );
    r.family("mutable", 2_000_000, 20_000_000, || case(false), |c: &Case, obs: &mut Obs| mutables(c, obs, false, false));
    r.family("swap", 1_200_000, 10_000_000, || case(true), |c: &Case, obs: &mut Obs| mutables(c, obs, true, false));
    r.family("broadcaster", 2_000_000, 20_000_000, || case(false), |c: &Case, obs: &mut Obs| mutables(c, obs, false, true));
    r.family("channel", 2_000_000, 20_000_000, channel_case, channels);
    r.family("atomic", 1_200_000, 12_000_000, atomic_case, atomic);
    r.finish()
}
