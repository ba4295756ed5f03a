//! C19: MutableBTreeMap and its subscribers.
use futures_signals::signal_map::{MapDiff, MutableBTreeMap, MutableBTreeMapLockMut, MutableSignalMap, SignalMapExt};
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::{apply_map, Task};
use harness::mapsrc::{any_key, entries, large_entries, mkey};
use harness::mvec::{panics, Cl};
use harness::vecsrc::El;
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::task::Poll;

/// Keys and values with the operations which differ between Copy and Clone.
trait Kind: 'static {
    type K: Ord + Clone + Debug + Hash + 'static;
    type V: Ord + Clone + Debug + Hash + 'static;
    fn key(k: u16) -> Self::K;
    fn value(k: u8, id: u32) -> Self::V;
    fn insert(l: &mut MutableBTreeMapLockMut<Self::K, Self::V>, k: Self::K, v: Self::V, cloned: bool) -> Option<Self::V>;
    fn replace(l: &mut MutableBTreeMapLockMut<Self::K, Self::V>, m: BTreeMap<Self::K, Self::V>, cloned: bool);
    fn subscribe(m: &MutableBTreeMap<Self::K, Self::V>, cloned: bool) -> MutableSignalMap<Self::K, Self::V>;
}

struct Copied;
struct Cloned;

impl Kind for Copied {
    type K = u16;
    type V = El;
    fn key(k: u16) -> u16 {
        k
    }
    fn value(k: u8, id: u32) -> El {
        El { k, id }
    }
    fn insert(l: &mut MutableBTreeMapLockMut<u16, El>, k: u16, v: El, cloned: bool) -> Option<El> {
        if cloned {
            l.insert_cloned(k, v)
        } else {
            l.insert(k, v)
        }
    }
    fn replace(l: &mut MutableBTreeMapLockMut<u16, El>, m: BTreeMap<u16, El>, cloned: bool) {
        if cloned {
            l.replace_cloned(m)
        } else {
            l.replace(m)
        }
    }
    fn subscribe(m: &MutableBTreeMap<u16, El>, cloned: bool) -> MutableSignalMap<u16, El> {
        if cloned {
            m.signal_map_cloned()
        } else {
            m.signal_map()
        }
    }
}

impl Kind for Cloned {
    type K = String;
    type V = Cl;
    fn key(k: u16) -> String {
        format!("{k:05}")
    }
    fn value(k: u8, id: u32) -> Cl {
        Cl(Box::new(El { k, id }))
    }
    fn insert(l: &mut MutableBTreeMapLockMut<String, Cl>, k: String, v: Cl, _: bool) -> Option<Cl> {
        l.insert_cloned(k, v)
    }
    fn replace(l: &mut MutableBTreeMapLockMut<String, Cl>, m: BTreeMap<String, Cl>, _: bool) {
        l.replace_cloned(m)
    }
    fn subscribe(m: &MutableBTreeMap<String, Cl>, _: bool) -> MutableSignalMap<String, Cl> {
        m.signal_map_cloned()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Insert(u16, u8, bool),
    Remove(u16),
    Clear,
    Replace(Vec<(u16, u8)>, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Ops(Vec<Op>),
    Subscribe(bool, bool),
    Run(u8),
    Once(u8),
    Spurious(u8),
    Unsubscribe(u8),
    CloneHandle,
    DropHandle,
    Views,
    /// this many more subscribers, handles
    Crowd(u16, u32),
    /// only this many of the subscribers and one of the handles stay
    Leave(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cloned: bool,
    init: Vec<(u16, u8)>,
    steps: Vec<Step>,
}

fn op_large() -> impl Strategy<Value = Op> {
    prop_oneof![
        10 => (any_key(), 0u8..4, any::<bool>()).prop_map(|(k, v, c)| Op::Insert(k, v, c)),
        6 => any_key().prop_map(Op::Remove),
        1 => Just(Op::Clear),
        2 => (large_entries(), any::<bool>()).prop_map(|(e, c)| Op::Replace(e, c)),
    ]
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        10 => (mkey(), 0u8..4, any::<bool>()).prop_map(|(k, v, c)| Op::Insert(k, v, c)),
        6 => mkey().prop_map(Op::Remove),
        1 => Just(Op::Clear),
        2 => (entries(), any::<bool>()).prop_map(|(e, c)| Op::Replace(e, c)),
    ]
}

fn case() -> impl Strategy<Value = Case> {
    sized(op().boxed(), false)
}

/// A few steps on large maps.
fn case_large() -> impl Strategy<Value = Case> {
    sized(prop_oneof![op(), op_large()].boxed(), true)
}

fn sized(op: BoxedStrategy<Op>, large: bool) -> impl Strategy<Value = Case> {
    let step = prop_oneof![
        12 => prop_oneof![3 => proptest::collection::vec(op.clone(), 1), 1 => proptest::collection::vec(op, 0..5)].prop_map(Step::Ops),
        3 => (any::<bool>(), any::<bool>()).prop_map(|(c, r)| Step::Subscribe(c, r)),
        6 => any::<u8>().prop_map(Step::Run),
        3 => any::<u8>().prop_map(Step::Once),
        1 => any::<u8>().prop_map(Step::Spurious),
        1 => any::<u8>().prop_map(Step::Unsubscribe),
        1 => Just(Step::CloneHandle),
        1 => Just(Step::DropHandle),
        1 => Just(Step::Views),
    ];
    (
        any::<bool>(),
        if large { large_entries().boxed() } else { entries().boxed() },
        if large { proptest::collection::vec(step, 2..12).boxed() } else { harness::gen::script(step, 30, 120).boxed() },
    )
        .prop_map(|(cloned, init, steps)| Case { cloned, init, steps })
}

/// Hundreds of subscribers and of handles.
fn case_crowd() -> impl Strategy<Value = Case> {
    let many = || prop_oneof![Just(255u16), Just(256), Just(257), 2u16..600];
    let step = prop_oneof![
        2 => (many(), prop_oneof![4 => many().prop_map(u32::from), 1 => 65_530u32..65_540]).prop_map(|(s, h)| Step::Crowd(s, h)),
        1 => (0u16..20).prop_map(Step::Leave),
        6 => proptest::collection::vec(op(), 0..4).prop_map(Step::Ops),
        2 => any::<u8>().prop_map(Step::Run),
        1 => any::<u8>().prop_map(Step::Unsubscribe),
        1 => Just(Step::DropHandle),
    ];
    (any::<bool>(), entries(), proptest::collection::vec(step, 3..15)).prop_map(|(cloned, init, steps)| Case { cloned, init, steps })
}

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

struct Sub<K, V> {
    sig: MutableSignalMap<K, V>,
    task: Task,
    m: BTreeMap<K, V>,
    due: VecDeque<BTreeMap<K, V>>,
    first: BTreeMap<K, V>,
    diffs: usize,
    pending: bool,
    ended: bool,
    /// an operation that sends something happened since it subscribed
    touched: bool,
}

impl<K: Ord + Clone + Debug, V: PartialEq + Clone + Debug> Sub<K, V> {
    fn new(sig: MutableSignalMap<K, V>, reuse: bool, m: &BTreeMap<K, V>) -> Self {
        Sub {
            sig,
            task: Task::new(reuse),
            m: BTreeMap::new(),
            due: if m.is_empty() { VecDeque::new() } else { VecDeque::from([m.clone()]) },
            first: m.clone(),
            diffs: 0,
            pending: false,
            ended: false,
            touched: false,
        }
    }
    fn poll(&mut self) -> Outcome {
        if self.ended {
            return Ok(());
        }
        let was = self.due.len();
        let woken = self.task.woken();
        match self.task.poll(|cx| self.sig.poll_map_change_unpin(cx)) {
            Poll::Ready(Some(d)) => {
                ensure!(!self.pending || woken, "a diff came without a wakeup");
                ensure!(self.touched || !self.first.is_empty(), "got {d:?} although it was empty and nothing was changed");
                if self.diffs == 0 && !self.first.is_empty() {
                    match &d {
                        MapDiff::Replace { entries } if entries.iter().map(|(k, v)| (k, v)).eq(self.first.iter()) => {}
                        d => return Err(format!("the first diff is {d:?} instead of the contents {:?}", self.first)),
                    }
                }
                apply_map(&mut self.m, d)?;
                self.diffs += 1;
                self.pending = false;
                while self.due.front().map_or(false, |s| *s == self.m) {
                    self.due.pop_front();
                }
            }
            Poll::Ready(None) => {
                ensure!(was == 0, "ended with undelivered changes");
                self.ended = true;
            }
            Poll::Pending => {
                ensure!(was == 0, "pending although changes were not delivered");
                self.pending = true;
            }
        }
        Ok(())
    }
}

fn run<X: Kind>(case: &Case, obs: &mut Obs) -> Outcome {
    let mut next = 0;
    let mut make = |e: &[(u16, u8)]| -> BTreeMap<X::K, X::V> {
        e.iter()
            .map(|(k, v)| {
                next += 1;
                (X::key(*k), X::value(*v, next))
            })
            .collect()
    };
    let mut m = make(&case.init);
    let first = match case.init.len() {
        0 if case.steps.len() % 2 == 0 => MutableBTreeMap::default(),
        0 => MutableBTreeMap::new(),
        n if n % 2 == 0 => MutableBTreeMap::with_values(m.clone()),
        _ => MutableBTreeMap::from(m.clone()),
    };
    let mut handles = vec![first];
    let mut subs: Vec<Sub<X::K, X::V>> = vec![];
    let mut changes = 0;
    let mut late = false;
    for (t, step) in case.steps.iter().enumerate() {
        let n = subs.len();
        match step {
            Step::Ops(ops) => {
                let h = handles[t % handles.len()].clone();
                let mut l = h.lock_mut();
                for op in ops {
                    let woken: Vec<bool> = subs.iter().map(|s| s.task.woken()).collect();
                    let changed = match op {
                        Op::Insert(k, v, c) => {
                            let v = make(&[(*k, *v)]).pop_last().unwrap().1;
                            let want = m.insert(X::key(*k), v.clone());
                            ensure_eq!(X::insert(&mut l, X::key(*k), v, *c), want, "insert returned");
                            true
                        }
                        Op::Remove(k) => {
                            let want = m.remove(&X::key(*k));
                            ensure_eq!(l.remove(&X::key(*k)), want, "remove returned");
                            want.is_some()
                        }
                        Op::Clear => {
                            l.clear();
                            let changed = !m.is_empty();
                            m.clear();
                            changed
                        }
                        Op::Replace(e, c) => {
                            m = make(e);
                            X::replace(&mut l, m.clone(), *c);
                            true
                        }
                    };
                    ensure_eq!(*l, m, "contents after {op:?}");
                    changes += changed as u32;
                    for (s, woken) in subs.iter_mut().zip(woken) {
                        if changed {
                            s.touched = true;
                            // replacing nothing by nothing may send nothing
                            if s.due.back().unwrap_or(&s.m) != &m {
                                ensure!(!s.pending || s.task.woken(), "a subscriber is not woken by {op:?}");
                                s.due.push_back(m.clone());
                            }
                        } else {
                            ensure!(s.task.woken() == woken, "a subscriber is woken by {op:?}, which changes nothing");
                        }
                    }
                }
            }
            Step::Crowd(s, h) => {
                if n < 900 {
                    for i in 0..*s {
                        subs.push(Sub::new(X::subscribe(&handles[0], i % 2 == 0), i % 3 == 0, &m));
                    }
                    // all but the first few are polled, so that they have to be woken
                    for s in subs.iter_mut().skip(n + 2) {
                        while s.task.ready() && !s.ended {
                            s.poll()?;
                        }
                        ensure!(!s.ended, "ended although there are handles");
                    }
                    late |= changes > 0;
                }
                if handles.len() < 140_000 {
                    let first = handles[0].clone();
                    handles.extend((0..*h).map(|_| first.clone()));
                }
                obs.label_if(subs.len() > 256, "hundreds of subscribers");
            }
            Step::Leave(keep) => {
                handles.truncate(1);
                subs.truncate(*keep as usize);
            }
            Step::Subscribe(c, r) => {
                subs.push(Sub::new(X::subscribe(&handles[n % handles.len()], *c), *r, &m));
                late |= changes > 0;
            }
            Step::Run(i) if n > 0 => {
                let s = &mut subs[*i as usize % n];
                while s.task.ready() && !s.ended {
                    s.poll()?;
                }
                ensure_eq!(s.m, m, "contents of a subscriber which caught up");
                ensure!(!s.ended, "ended although there are handles");
            }
            Step::Once(i) | Step::Spurious(i) if n > 0 => {
                let s = &mut subs[*i as usize % n];
                if matches!(step, Step::Spurious(_)) || s.task.ready() {
                    s.poll()?;
                }
                ensure!(!s.ended, "ended although there are handles");
            }
            Step::Unsubscribe(i) if n > 0 => {
                subs.remove(*i as usize % n);
            }
            Step::CloneHandle => {
                let h = handles[0].clone();
                handles.push(h);
            }
            Step::DropHandle => {
                if handles.len() > 1 {
                    handles.swap_remove(t % handles.len());
                }
            }
            Step::Views => {
                let h = &handles[t % handles.len()];
                ensure_eq!(format!("{h:?}"), format!("MutableBTreeMap({m:?})"), "Debug");
                let other = MutableBTreeMap::from(make(&case.init));
                let om: BTreeMap<X::K, X::V> = other.lock_ref().clone();
                {
                    let (a, b) = (h.lock_ref(), other.lock_ref());
                    ensure!(a == m, "a lock differs from the map");
                    ensure_eq!(a == b, m == om, "== of locks");
                    ensure_eq!(a != b, m != om, "!= of locks");
                    ensure_eq!(a.cmp(&b), m.cmp(&om), "cmp");
                    ensure_eq!(a.partial_cmp(&b), m.partial_cmp(&om), "partial_cmp");
                    ensure_eq!(a.partial_cmp(&om), m.partial_cmp(&om), "partial_cmp with a map");
                    ensure_eq!(hash(&a), hash(&m), "hash");
                    for k in 0..8 {
                        let k = X::key(k);
                        ensure_eq!(a.get(&k), m.get(&k), "get");
                        match m.get(&k) {
                            Some(v) => ensure_eq!(a[&k], *v, "index"),
                            None => ensure!(
                                panics(|| {
                                    let _ = &a[&k];
                                }),
                                "no panic for the index of an absent key"
                            ),
                        }
                    }
                }
                let (a, b) = (h.lock_mut(), other.lock_mut());
                ensure!(a == m, "a mutable lock differs from the map");
                ensure_eq!(a == b, m == om, "== of mutable locks");
                ensure_eq!(a.cmp(&b), m.cmp(&om), "cmp of mutable locks");
                ensure_eq!(hash(&a), hash(&m), "hash of a mutable lock");
            }
            _ => {}
        }
    }
    obs.nontrivial_if(changes > 0 && !subs.is_empty());
    obs.label_if(subs.len() > 1, "several subscribers");
    obs.label_if(late, "subscribed after changes");
    obs.label_if(case.cloned, "Clone elements");
    for (i, s) in subs.iter_mut().enumerate() {
        if i % 2 == 0 {
            while s.task.ready() && !s.ended {
                s.poll()?;
            }
            ensure!(!s.ended, "ended although there are handles");
        }
    }
    handles.clear();
    for s in &mut subs {
        ensure!(s.task.ready(), "not woken by the drop of the last handle");
        while s.task.ready() && !s.ended {
            s.poll()?;
        }
        ensure!(s.ended, "not ended although all handles are gone");
        ensure_eq!(s.m, m, "final contents of a subscriber");
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C19",
        "histories of MutableBTreeMap operations (several per lock) through several handles, with subscribers which come and go at any time and poll at any time; non-trivial: at least one effective change and a subscriber",
    );
    let any = |c: &Case, obs: &mut Obs| if c.cloned { run::<Cloned>(c, obs) } else { run::<Copied>(c, obs) };
    r.family("map", 600_000, 12_000_000, case, any);
    r.family("large", 300, 6_000, case_large, any);
    r.family("crowd", 2_000, 20_000, case_crowd, any);
    r.finish()
}
