//! Operations of MutableVec next to the same operations of Vec.
use crate::driver::last_panic;
use crate::vecsrc::{contents, idx, key, pick, El};
use futures_signals::signal_vec::{MutableSignalVec, MutableVec, MutableVecLockMut, VecDiff};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::hash::Hash;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// An element which is only Clone.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Cl(pub Box<El>);

impl Debug for Cl {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

/// Elements with the operations which differ between Copy and Clone.
pub trait Elem: Clone + Debug + Ord + Hash + 'static {
    fn make(k: u8, id: u32) -> Self;
    fn k(&self) -> u8;
    fn push(l: &mut MutableVecLockMut<Self>, v: Self);
    fn insert(l: &mut MutableVecLockMut<Self>, i: usize, v: Self);
    fn set(l: &mut MutableVecLockMut<Self>, i: usize, v: Self);
    fn replace(l: &mut MutableVecLockMut<Self>, v: Vec<Self>);
    fn subscribe(m: &MutableVec<Self>, cloned: bool) -> MutableSignalVec<Self>;
}

impl Elem for El {
    fn make(k: u8, id: u32) -> Self {
        El { k, id }
    }
    fn k(&self) -> u8 {
        self.k
    }
    fn push(l: &mut MutableVecLockMut<Self>, v: Self) {
        l.push(v)
    }
    fn insert(l: &mut MutableVecLockMut<Self>, i: usize, v: Self) {
        l.insert(i, v)
    }
    fn set(l: &mut MutableVecLockMut<Self>, i: usize, v: Self) {
        l.set(i, v)
    }
    fn replace(l: &mut MutableVecLockMut<Self>, v: Vec<Self>) {
        l.replace(v)
    }
    fn subscribe(m: &MutableVec<Self>, cloned: bool) -> MutableSignalVec<Self> {
        if cloned {
            m.signal_vec_cloned()
        } else {
            m.signal_vec()
        }
    }
}

impl Elem for Cl {
    fn make(k: u8, id: u32) -> Self {
        Cl(Box::new(El { k, id }))
    }
    fn k(&self) -> u8 {
        self.0.k
    }
    fn push(l: &mut MutableVecLockMut<Self>, v: Self) {
        l.push_cloned(v)
    }
    fn insert(l: &mut MutableVecLockMut<Self>, i: usize, v: Self) {
        l.insert_cloned(i, v)
    }
    fn set(l: &mut MutableVecLockMut<Self>, i: usize, v: Self) {
        l.set_cloned(i, v)
    }
    fn replace(l: &mut MutableVecLockMut<Self>, v: Vec<Self>) {
        l.replace_cloned(v)
    }
    fn subscribe(m: &MutableVec<Self>, _: bool) -> MutableSignalVec<Self> {
        m.signal_vec_cloned()
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum End {
    Unbounded,
    Included(u16),
    Excluded(u16),
}

/// Operations; indices are taken modulo the length (plus one where that is legal).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MvOp {
    Push(u8),
    PushCloned(u8),
    Insert(u16, u8),
    InsertCloned(u16, u8),
    Set(u16, u8),
    SetCloned(u16, u8),
    Remove(u16),
    Pop,
    Move(u16, u16),
    Swap(u16, u16),
    Reverse,
    Truncate(u16),
    /// removes elements by a mask
    Retain(u64),
    /// iterated so many times from each side before it is dropped
    Drain(End, End, u8, u8),
    Extend(Vec<u8>),
    Clear,
    Replace(Vec<u8>),
    ReplaceCloned(Vec<u8>),
    /// apply_vec_diff of the diff which the number selects
    Apply(u8, u16, u16, u8),
    Reserve(u8),
    ReserveExact(u8),
    Shrink,
}

fn end() -> impl Strategy<Value = End> {
    prop_oneof![1 => Just(End::Unbounded), 2 => idx().prop_map(End::Included), 3 => idx().prop_map(End::Excluded)]
}

pub fn mvop() -> impl Strategy<Value = MvOp> {
    prop_oneof![
        4 => key().prop_map(MvOp::Push),
        2 => key().prop_map(MvOp::PushCloned),
        4 => (idx(), key()).prop_map(|(i, k)| MvOp::Insert(i, k)),
        2 => (idx(), key()).prop_map(|(i, k)| MvOp::InsertCloned(i, k)),
        2 => (idx(), key()).prop_map(|(i, k)| MvOp::Set(i, k)),
        2 => (idx(), key()).prop_map(|(i, k)| MvOp::SetCloned(i, k)),
        4 => idx().prop_map(MvOp::Remove),
        2 => Just(MvOp::Pop),
        3 => (idx(), idx()).prop_map(|(i, j)| MvOp::Move(i, j)),
        3 => (idx(), idx()).prop_map(|(i, j)| MvOp::Swap(i, j)),
        2 => Just(MvOp::Reverse),
        2 => idx().prop_map(MvOp::Truncate),
        4 => prop_oneof![3 => any::<u64>(), 1 => Just(0), 1 => Just(u64::MAX), 1 => any::<u64>().prop_map(|x| x | x >> 20 | x << 13)].prop_map(MvOp::Retain),
        4 => (end(), end(), 0u8..4, 0u8..4).prop_map(|(a, b, c, d)| MvOp::Drain(a, b, c, d)),
        2 => proptest::collection::vec(key(), 0..4).prop_map(MvOp::Extend),
        1 => Just(MvOp::Clear),
        1 => contents().prop_map(MvOp::Replace),
        1 => contents().prop_map(MvOp::ReplaceCloned),
        4 => (0u8..8, idx(), idx(), key()).prop_map(|(d, i, j, k)| MvOp::Apply(d, i, j, k)),
        1 => any::<u8>().prop_map(MvOp::Reserve),
        1 => any::<u8>().prop_map(MvOp::ReserveExact),
        1 => Just(MvOp::Shrink),
    ]
}

/// An iterator with any legal size hint, which has another value after its end.
struct Odd<T> {
    iter: std::vec::IntoIter<T>,
    extra: Option<T>,
    hint: u8,
    ended: bool,
}

impl<T> Iterator for Odd<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.ended {
            return self.extra.take();
        }
        let x = self.iter.next();
        self.ended = x.is_none();
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.iter.len();
        match self.hint % 5 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n + 3)),
            3 => (n / 2, Some(usize::MAX)),
            _ => (n, None),
        }
    }
}

fn bound(e: End, n: usize) -> Bound<usize> {
    match e {
        End::Unbounded => Bound::Unbounded,
        End::Included(i) => Bound::Included(pick(i, n + 1)),
        End::Excluded(i) => Bound::Excluded(pick(i, n + 1)),
    }
}

/// A legal range of a vector with `n` elements.
fn range(a: End, b: End, n: usize) -> (Bound<usize>, Bound<usize>) {
    let from = |b: &Bound<usize>| match *b {
        Bound::Unbounded => 0,
        Bound::Included(i) => i,
        Bound::Excluded(i) => i + 1,
    };
    let to = |b: &Bound<usize>| match *b {
        Bound::Unbounded => n,
        Bound::Included(i) => i + 1,
        Bound::Excluded(i) => i,
    };
    let (a, b) = (bound(a, n), bound(b, n));
    match (from(&a), to(&b)) {
        (x, y) if x <= y && y <= n => (a, b),
        (x, y) if y <= n && y <= x => (Bound::Included(y), Bound::Excluded(x.min(n))),
        (x, _) => (Bound::Included(x.min(n)), Bound::Unbounded),
    }
}

/// Performs an operation on a plain Vec and on the MutableVec, and compares the
/// return values. Returns false if the operation is impossible or structurally
/// changes nothing (so that subscribers must not hear of it).
pub fn perform<T: Elem>(op: &MvOp, v: &mut Vec<T>, l: &mut MutableVecLockMut<T>, next: &mut u32) -> Result<bool, String> {
    let n = v.len();
    let mut new = |k: u8| {
        *next += 1;
        T::make(k, *next)
    };
    macro_rules! same {
        ($a:expr, $b:expr) => {{
            let (a, b) = ($a, $b);
            if a != b {
                return Err(format!("{op:?} returned {a:?}, Vec returns {b:?}"));
            }
        }};
    }
    Ok(match op {
        MvOp::Push(k) => {
            let x = new(*k);
            v.push(x.clone());
            T::push(l, x);
            true
        }
        MvOp::PushCloned(k) => {
            let x = new(*k);
            v.push(x.clone());
            l.push_cloned(x);
            true
        }
        MvOp::Insert(i, k) | MvOp::InsertCloned(i, k) => {
            let (i, x) = (pick(*i, n + 1), new(*k));
            v.insert(i, x.clone());
            match op {
                MvOp::Insert(..) => T::insert(l, i, x),
                _ => l.insert_cloned(i, x),
            }
            true
        }
        MvOp::Set(i, k) | MvOp::SetCloned(i, k) if n > 0 => {
            let (i, x) = (pick(*i, n), new(*k));
            v[i] = x.clone();
            match op {
                MvOp::Set(..) => T::set(l, i, x),
                _ => l.set_cloned(i, x),
            }
            true
        }
        MvOp::Remove(i) if n > 0 => {
            let i = pick(*i, n);
            same!(l.remove(i), v.remove(i));
            true
        }
        MvOp::Pop => {
            same!(l.pop(), v.pop());
            n > 0
        }
        MvOp::Move(i, j) if n > 0 => {
            let (i, j) = (pick(*i, n), pick(*j, n));
            let x = v.remove(i);
            v.insert(j, x);
            l.move_from_to(i, j);
            i != j
        }
        MvOp::Swap(i, j) if n > 0 => {
            let (i, j) = (pick(*i, n), pick(*j, n));
            v.swap(i, j);
            l.swap(i, j);
            i != j
        }
        MvOp::Reverse => {
            v.reverse();
            l.reverse();
            n > 1
        }
        MvOp::Truncate(i) => {
            let i = pick(*i, n + 3);
            v.truncate(i);
            l.truncate(i);
            i < n
        }
        MvOp::Retain(mask) => {
            let f = |i: usize| mask >> (i % 64) & 1 == 1;
            let (mut a, mut b) = (0, 0);
            let (mut seen, mut want) = (vec![], vec![]);
            v.retain(|x| {
                want.push(x.clone());
                a += 1;
                f(a - 1)
            });
            l.retain(|x| {
                seen.push(x.clone());
                b += 1;
                f(b - 1)
            });
            if seen != want {
                return Err(format!("retain called its closure with {seen:?}, Vec with {want:?}"));
            }
            v.len() != n
        }
        MvOp::Drain(a, b, front, back) => {
            let r = range(*a, *b, n);
            let take = |d: &mut dyn DoubleEndedIterator<Item = T>| {
                let mut out = vec![];
                for _ in 0..*front {
                    out.push(d.next());
                }
                for _ in 0..*back {
                    out.push(d.next_back());
                }
                out
            };
            let x = take(&mut v.drain(r));
            let y = take(&mut l.drain(r));
            same!(y, x);
            v.len() != n
        }
        MvOp::Extend(ks) => {
            let xs: Vec<T> = ks.iter().map(|k| new(*k)).collect();
            v.extend(xs.iter().cloned());
            let hint = ks.iter().fold(0u8, |a, k| a.wrapping_mul(3).wrapping_add(*k));
            l.extend(Odd { extra: xs.first().cloned(), iter: xs.into_iter(), hint, ended: false });
            !ks.is_empty()
        }
        MvOp::Clear => {
            v.clear();
            l.clear();
            n > 0
        }
        MvOp::Replace(ks) | MvOp::ReplaceCloned(ks) => {
            let xs: Vec<T> = ks.iter().map(|k| new(*k)).collect();
            *v = xs.clone();
            match op {
                MvOp::Replace(_) => T::replace(l, xs),
                _ => l.replace_cloned(xs),
            }
            true
        }
        MvOp::Apply(d, i, j, k) => {
            let diff = match d {
                0 => VecDiff::Replace { values: (0..*k).map(&mut new).collect() },
                1 => VecDiff::InsertAt { index: pick(*i, n + 1), value: new(*k) },
                2 if n > 0 => VecDiff::UpdateAt { index: pick(*i, n), value: new(*k) },
                3 if n > 0 => VecDiff::RemoveAt { index: pick(*i, n) },
                4 if n > 0 => VecDiff::Move { old_index: pick(*i, n), new_index: pick(*j, n) },
                5 => VecDiff::Push { value: new(*k) },
                6 if n > 0 => VecDiff::Pop {},
                7 => VecDiff::Clear {},
                _ => return Ok(false),
            };
            let before = v.clone();
            crate::exec::apply(v, diff.clone())?;
            let mut w = before;
            diff.clone().apply_to_vec(&mut w);
            if w != *v {
                return Err(format!("apply_to_vec of {diff:?} gave {w:?}, expected {v:?}"));
            }
            let changes = match &diff {
                VecDiff::Move { old_index, new_index } => old_index != new_index,
                VecDiff::Clear {} => n > 0,
                _ => true,
            };
            MutableVecLockMut::apply_vec_diff(l, diff);
            changes
        }
        MvOp::Reserve(k) | MvOp::ReserveExact(k) => {
            match op {
                MvOp::Reserve(_) => l.reserve(*k as usize),
                _ => l.reserve_exact(*k as usize),
            }
            if l.capacity() < n + *k as usize {
                return Err(format!("capacity {} after {op:?} with {n} elements", l.capacity()));
            }
            false
        }
        MvOp::Shrink => {
            l.shrink_to_fit();
            if l.capacity() < n {
                return Err("capacity below the length".into());
            }
            false
        }
        _ => false,
    })
}

/// Whether `f` panics.
pub fn panics(f: impl FnOnce()) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => false,
        Err(e) => {
            drop(e);
            last_panic();
            true
        }
    }
}
