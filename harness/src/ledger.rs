//! Values which record their clones and drops.
use crate::driver::{tick, Outcome};
use crate::mvec::Elem;
use futures_signals::signal_vec::{MutableSignalVec, MutableVec, MutableVecLockMut};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

#[derive(Default)]
struct Ledger {
    /// the value of every living instance
    live: HashMap<u64, u32>,
    next: u64,
    errors: Vec<String>,
}

thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::default();
}

fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    LEDGER.with(|l| f(&mut l.borrow_mut()))
}

pub fn reset() {
    with(|l| *l = Ledger::default())
}

/// Number of living instances of every value.
pub fn live() -> BTreeMap<u32, usize> {
    with(|l| {
        let mut m = BTreeMap::new();
        for v in l.live.values() {
            *m.entry(*v).or_insert(0) += 1;
        }
        m
    })
}

pub fn errors() -> Outcome {
    with(|l| l.errors.first().cloned().map_or(Ok(()), Err))
}

/// A value; the key decides the order and the equality together with the number.
pub struct Tok {
    inst: u64,
    pub k: u8,
    pub v: u32,
}

impl Tok {
    pub fn new(k: u8, v: u32) -> Tok {
        let inst = with(|l| {
            l.next += 1;
            l.live.insert(l.next, v);
            l.next
        });
        Tok { inst, k, v }
    }
    /// Uses the value.
    pub fn touch(&self) {
        tick();
        with(|l| {
            if l.live.get(&self.inst) != Some(&self.v) {
                l.errors.push(format!("the value {} was used after it was dropped", self.v));
            }
        })
    }
    pub fn key(&self) -> (u8, u32) {
        self.touch();
        (self.k, self.v)
    }
}

impl Clone for Tok {
    fn clone(&self) -> Self {
        self.touch();
        Tok::new(self.k, self.v)
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let _ = LEDGER.try_with(|l| {
            let mut l = l.borrow_mut();
            if l.live.remove(&self.inst) != Some(self.v) {
                l.errors.push(format!("the value {} was dropped twice", self.v));
            }
        });
    }
}

impl Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}#{}", self.k, self.v)
    }
}

impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.key() == o.key()
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> std::cmp::Ordering {
        self.key().cmp(&o.key())
    }
}
impl Hash for Tok {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.key().hash(h)
    }
}

impl Elem for Tok {
    fn make(k: u8, id: u32) -> Self {
        Tok::new(k, id)
    }
    fn k(&self) -> u8 {
        self.k
    }
    fn push(l: &mut MutableVecLockMut<Self>, v: Self) {
        l.push_cloned(v)
    }
    fn insert(l: &mut MutableVecLockMut<Self>, i: usize, v: Self) {
        l.insert_cloned(i, v)
    }
    fn set(l: &mut MutableVecLockMut<Self>, i: usize, v: Self) {
        l.set_cloned(i, v)
    }
    fn replace(l: &mut MutableVecLockMut<Self>, v: Vec<Self>) {
        l.replace_cloned(v)
    }
    fn subscribe(m: &MutableVec<Self>, _: bool) -> MutableSignalVec<Self> {
        m.signal_vec_cloned()
    }
}
