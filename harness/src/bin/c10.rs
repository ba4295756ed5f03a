//! C10: MutableVec is a Vec.
use futures_signals::signal_vec::{MutableVec, MutableVecLockMut, VecDiff};
use harness::driver::{Obs, Outcome, Runner};
use harness::mvec::*;
use harness::vecsrc::{large, big_contents, contents, key, El};
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::ops::Bound;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cloned: bool,
    /// with_capacity and extend, or from the contents
    capacity: Option<u8>,
    init: Vec<u8>,
    /// operations, and whether they go through another clone with a new lock
    ops: Vec<(bool, MvOp)>,
    subscribers: u8,
}

/// A few operations on large contents.
fn case_large() -> impl Strategy<Value = Case> {
    (any::<bool>(), proptest::option::weighted(0.2, 0u8..20), large(usize::MAX), proptest::collection::vec((any::<bool>(), mvop()), 2..9), 0u8..4)
        .prop_map(|(cloned, capacity, init, ops, subscribers)| Case { cloned, capacity, init, ops, subscribers })
}

fn case() -> impl Strategy<Value = Case> {
    (
        any::<bool>(),
        proptest::option::weighted(0.2, 0u8..20),
        big_contents(),
        harness::gen::script((any::<bool>(), mvop()), 20, 100),
        0u8..4,
    )
        .prop_map(|(cloned, capacity, init, ops, subscribers)| Case { cloned, capacity, init, ops, subscribers })
}

fn hash(x: &(impl Hash + ?Sized)) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn views<T: Elem>(m: &MutableVec<T>, v: &[T]) -> Outcome {
    let a = m.lock_ref();
    ensure_eq!(&a[..], v, "contents");
    ensure_eq!(a.len(), v.len(), "len");
    ensure_eq!(a.is_empty(), v.is_empty(), "is_empty");
    ensure_eq!(a.as_slice(), v, "as_slice");
    let b: &[T] = a.as_ref();
    ensure_eq!(b, v, "as_ref");
    let b: &[T] = std::borrow::Borrow::borrow(&a);
    ensure_eq!(b, v, "borrow");
    ensure!(a == v, "a lock differs from the slice");
    ensure_eq!(hash(&a), hash(v), "hash");
    ensure!(a.capacity() >= v.len(), "capacity below the length");
    drop(a);
    ensure_eq!(format!("{m:?}"), format!("MutableVec({v:?})"), "Debug");
    Ok(())
}

fn run<T: Elem>(case: &Case, obs: &mut Obs) -> Outcome {
    let mut next = 0;
    let mut v: Vec<T> = vec![];
    for k in &case.init {
        next += 1;
        v.push(T::make(*k, next));
    }
    let m = match case.capacity {
        Some(c) => {
            let m = MutableVec::with_capacity(c as usize);
            ensure!(m.lock_ref().capacity() >= c as usize, "with_capacity");
            m.lock_mut().extend(v.clone());
            m
        }
        None if v.is_empty() => MutableVec::default(),
        None if case.subscribers & 1 == 0 => MutableVec::from(v.clone()),
        None => MutableVec::new_with_values(v.clone()),
    };
    // the number of subscribers decides how values are cloned; some are dropped early
    let mut subs: Vec<_> = (0..case.subscribers).map(|i| T::subscribe(&m, i & 1 == 0)).collect();
    let other = m.clone();
    views(&m, &v)?;
    let mut changed = 0;
    let mut lock: Option<MutableVecLockMut<T>> = None;
    for (i, (switch, op)) in case.ops.iter().enumerate() {
        if *switch {
            drop(lock.take());
            views(if i % 2 == 0 { &m } else { &other }, &v)?;
            if i % 5 == 4 {
                subs.pop();
            }
        }
        let l = lock.get_or_insert_with(|| if i % 2 == 0 { m.lock_mut() } else { other.lock_mut() });
        changed += perform(op, &mut v, l, &mut next)? as u32;
        ensure_eq!(&l[..], &v[..], "contents after {op:?}");
        ensure_eq!(hash(l), hash(&v[..]), "hash");
        ensure!(*l == &v[..], "a lock differs from the slice");
    }
    drop(lock);
    views(&other, &v)?;
    obs.nontrivial_if(changed > 0);
    obs.label_if(case.cloned, "Clone elements");
    obs.label_if(case.init.len() >= 40, "large contents");
    obs.label_if(case.subscribers > 1, "several subscribers");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    a: Vec<u8>,
    b: Vec<u8>,
    /// the second is the first with a change
    derived: u8,
    ranges: Vec<(u8, u8)>,
}

/// Comparisons and indexing.
fn compare(case: &Pair, obs: &mut Obs) -> Outcome {
    let a: Vec<El> = case.a.iter().map(|k| El { k: *k, id: 0 }).collect();
    let mut b: Vec<El> = case.b.iter().map(|k| El { k: *k, id: 0 }).collect();
    match case.derived {
        0 => b = a.clone(),
        1 => {
            b = a.clone();
            b.pop();
        }
        2 => {
            b = a.clone();
            b.extend(a.first().copied());
        }
        _ => {}
    }
    let (m, n) = (MutableVec::new_with_values(a.clone()), MutableVec::from(b.clone()));
    obs.nontrivial_if(a.len() > 1 && b.len() > 1);
    obs.label_if(a == b, "equal");
    {
        let (x, y) = (m.lock_ref(), n.lock_ref());
        ensure_eq!(x == y, a == b, "== of locks");
        ensure_eq!(x != y, a != b, "!= of locks");
        ensure_eq!(x.partial_cmp(&y), a.partial_cmp(&b), "partial_cmp");
        ensure_eq!(x.cmp(&y), a.cmp(&b), "cmp");
        ensure_eq!(x < y, a < b, "<");
        ensure_eq!(x >= y, a >= b, ">=");
        ensure_eq!(x == &b[..], a == b, "== of a lock and a slice");
        ensure_eq!(x != &b[..], a != b, "!= of a lock and a slice");
        for (i, j) in &case.ranges {
            let (i, j) = (*i as usize, *j as usize);
            ensure_eq!(x.get(i), a.get(i), "get");
            let p = panics(|| {
                let _ = x[i];
            });
            ensure_eq!(p, i >= a.len(), "panic of index {i}");
            if i < a.len() {
                ensure_eq!(x[i], a[i], "index {i}");
                ensure_eq!(x[i..], a[i..], "range from {i}");
                ensure_eq!(x[..=i], a[..=i], "range to {i}");
            }
            if i <= j && j <= a.len() {
                ensure_eq!(x[i..j], a[i..j], "range {i}..{j}");
            }
        }
    }
    let (x, y) = (m.lock_mut(), n.lock_mut());
    ensure_eq!(x == y, a == b, "== of mutable locks");
    ensure_eq!(x != y, a != b, "!= of mutable locks");
    ensure_eq!(x.cmp(&y), a.cmp(&b), "cmp of mutable locks");
    ensure_eq!(x.partial_cmp(&y), a.partial_cmp(&b), "partial_cmp of mutable locks");
    ensure_eq!(x == &b[..], a == b, "== of a mutable lock and a slice");
    ensure_eq!(x.as_slice(), &a[..], "as_slice of a mutable lock");
    ensure_eq!(hash(&x) == hash(&y), hash(&a[..]) == hash(&b[..]), "hashes of mutable locks");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bad {
    Insert(usize),
    InsertCloned(usize),
    Set(usize),
    SetCloned(usize),
    Remove(usize),
    Move(usize, usize),
    Swap(usize, usize),
    Drain(u8, usize, u8, usize),
    ApplyInsert(usize),
    ApplyUpdate(usize),
    ApplyRemove(usize),
    ApplyMove(usize, usize),
    ApplyPop,
    ToVecInsert(usize),
    ToVecUpdate(usize),
    ToVecRemove(usize),
    ToVecMove(usize, usize),
    ToVecPop,
}

fn far() -> impl Strategy<Value = usize> {
    prop_oneof![20 => 0usize..9, 1 => Just(usize::MAX), 1 => Just(usize::MAX - 1), 1 => 0usize..1000]
}

fn bad() -> impl Strategy<Value = (Vec<u8>, u8, Bad)> {
    let op = prop_oneof![
        far().prop_map(Bad::Insert),
        far().prop_map(Bad::InsertCloned),
        far().prop_map(Bad::Set),
        far().prop_map(Bad::SetCloned),
        far().prop_map(Bad::Remove),
        (far(), far()).prop_map(|(i, j)| Bad::Move(i, j)),
        (far(), far()).prop_map(|(i, j)| Bad::Swap(i, j)),
        (0u8..3, far(), 0u8..3, far()).prop_map(|(a, i, b, j)| Bad::Drain(a, i, b, j)),
        (0u8..3, far(), 0u8..3, far()).prop_map(|(a, i, b, j)| Bad::Drain(a, i, b, j)),
        far().prop_map(Bad::ApplyInsert),
        far().prop_map(Bad::ApplyUpdate),
        far().prop_map(Bad::ApplyRemove),
        (far(), far()).prop_map(|(i, j)| Bad::ApplyMove(i, j)),
        Just(Bad::ApplyPop),
        far().prop_map(Bad::ToVecInsert),
        far().prop_map(Bad::ToVecUpdate),
        far().prop_map(Bad::ToVecRemove),
        (far(), far()).prop_map(|(i, j)| Bad::ToVecMove(i, j)),
        Just(Bad::ToVecPop),
    ];
    (prop_oneof![1 => Just(vec![]), 6 => proptest::collection::vec(key(), 0..7)], 0u8..3, op)
}

fn bound(kind: u8, i: usize) -> Bound<usize> {
    match kind {
        0 => Bound::Included(i),
        1 => Bound::Excluded(i),
        _ => Bound::Unbounded,
    }
}

/// Arguments which may be out of range: a panic exactly when Vec panics.
fn ranges(case: &(Vec<u8>, u8, Bad), obs: &mut Obs) -> Outcome {
    let (init, subs, op) = case;
    let el = El { k: 9, id: 99 };
    let v: Vec<El> = init.iter().enumerate().map(|(i, k)| El { k: *k, id: i as u32 }).collect();
    let m = MutableVec::new_with_values(v.clone());
    let _subs: Vec<_> = (0..*subs).map(|_| m.signal_vec()).collect();
    let mut w = v.clone();
    // Moving an index to itself, or swapping it with itself, is documented to do nothing by its
    // implementation; Vec has no such operation, or checks the index first.
    if matches!(op, Bad::Move(i, j) | Bad::Swap(i, j) | Bad::ApplyMove(i, j) if i == j) {
        return Ok(());
    }
    let n = v.len();
    let shift = |w: &mut Vec<El>, i: usize, j: usize| {
        assert!(i < n && j < n);
        let x = w.remove(i);
        w.insert(j, x);
    };
    let mut drained = (vec![], vec![]);
    let want = panics(|| match op {
        Bad::Insert(i) | Bad::InsertCloned(i) | Bad::ApplyInsert(i) | Bad::ToVecInsert(i) => w.insert(*i, el),
        Bad::Set(i) | Bad::SetCloned(i) | Bad::ApplyUpdate(i) | Bad::ToVecUpdate(i) => w[*i] = el,
        Bad::Remove(i) | Bad::ApplyRemove(i) | Bad::ToVecRemove(i) => {
            w.remove(*i);
        }
        Bad::Move(i, j) | Bad::ApplyMove(i, j) | Bad::ToVecMove(i, j) => shift(&mut w, *i, *j),
        Bad::Swap(i, j) => w.swap(*i, *j),
        Bad::Drain(a, i, b, j) => drained.0 = w.drain((bound(*a, *i), bound(*b, *j))).collect(),
        Bad::ApplyPop | Bad::ToVecPop => {
            w.pop().unwrap();
        }
    });
    let mut x = v.clone();
    let mut to_vec = false;
    let got = panics(|| {
        let diff = match op {
            Bad::ApplyInsert(i) | Bad::ToVecInsert(i) => Some(VecDiff::InsertAt { index: *i, value: el }),
            Bad::ApplyUpdate(i) | Bad::ToVecUpdate(i) => Some(VecDiff::UpdateAt { index: *i, value: el }),
            Bad::ApplyRemove(i) | Bad::ToVecRemove(i) => Some(VecDiff::RemoveAt { index: *i }),
            Bad::ApplyMove(i, j) | Bad::ToVecMove(i, j) => Some(VecDiff::Move { old_index: *i, new_index: *j }),
            Bad::ApplyPop | Bad::ToVecPop => Some(VecDiff::Pop {}),
            _ => None,
        };
        match op {
            Bad::ToVecInsert(_) | Bad::ToVecUpdate(_) | Bad::ToVecRemove(_) | Bad::ToVecMove(..) | Bad::ToVecPop => {
                to_vec = true;
                diff.unwrap().apply_to_vec(&mut x)
            }
            _ => {
                let mut l = m.lock_mut();
                match op {
                    Bad::Insert(i) => l.insert(*i, el),
                    Bad::InsertCloned(i) => l.insert_cloned(*i, el),
                    Bad::Set(i) => l.set(*i, el),
                    Bad::SetCloned(i) => l.set_cloned(*i, el),
                    Bad::Remove(i) => {
                        l.remove(*i);
                    }
                    Bad::Move(i, j) => l.move_from_to(*i, *j),
                    Bad::Swap(i, j) => l.swap(*i, *j),
                    Bad::Drain(a, i, b, j) => drained.1 = l.drain((bound(*a, *i), bound(*b, *j))).collect(),
                    _ => MutableVecLockMut::apply_vec_diff(&mut l, diff.unwrap()),
                }
            }
        }
    });
    ensure_eq!(got, want, "panic");
    obs.nontrivial();
    obs.label_if(want, "panics");
    if !want {
        ensure_eq!(drained.1, drained.0, "drained elements");
        if to_vec {
            ensure_eq!(x, w, "contents");
        } else {
            ensure_eq!(&m.lock_ref()[..], &w[..], "contents");
        }
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C10",
        "sequences of all MutableVec operations through several handles and locks (Copy and Clone elements, 0-3 subscribers), pairs of vectors for the comparisons, and single operations with arguments around and beyond the bounds; non-trivial: at least one effective change (sequences), two elements each (pairs)",
    );
    let any = |c: &Case, obs: &mut Obs| if c.cloned { run::<Cl>(c, obs) } else { run::<El>(c, obs) };
    r.family("operations", 400_000 * 2, 8_000_000, case, any);
    r.family("large", 500, 10_000, case_large, any);
    r.family("views", 400_000 * 2, 4_000_000, || {
        (contents(), contents(), 0u8..6, proptest::collection::vec((0u8..12, 0u8..12), 0..4)).prop_map(|(a, b, derived, ranges)| Pair { a, b, derived, ranges })
    }, compare);
    r.family("ranges", 300_000 * 2, 4_000_000, bad, ranges);
    r.finish()
}
