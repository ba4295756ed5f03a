//! Signals with generated histories, which log what was consumed from them.
use crate::driver::Outcome;
use crate::sources::Src;
use crate::vecsrc::BoxSig;
use futures_signals::signal::{Mutable, Signal};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// A value: equality sees only the key, the id tells equal values apart.
#[derive(Clone, Copy, Serialize, Deserialize)]
pub struct V {
    pub k: u8,
    pub id: u32,
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        self.k == o.k
    }
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}#{}", self.k, self.id)
    }
}

impl V {
    pub fn raw(&self) -> (u8, u32) {
        (self.k, self.id)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    /// Yields every value.
    Lossless,
    /// Yields only the latest value.
    Lossy,
    Mutable,
}

pub fn kind() -> impl Strategy<Value = Kind> {
    prop_oneof![3 => Just(Kind::Lossless), 1 => Just(Kind::Lossy), 1 => Just(Kind::Mutable)]
}

pub type Log<T> = Rc<RefCell<Vec<T>>>;

/// Logs the items which were consumed from a signal.
pub struct Logged<T> {
    inner: BoxSig<T>,
    log: Log<T>,
}

impl<T: Clone> Signal for Logged<T> {
    type Item = T;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> {
        let r = self.inner.as_mut().poll_change(cx);
        if let Poll::Ready(Some(x)) = &r {
            self.log.borrow_mut().push(x.clone());
        }
        r
    }
}

pub struct SigSource<T> {
    pub kind: Kind,
    pub src: Src<T>,
    cell: Option<Mutable<T>>,
    pub pushed: Vec<T>,
    pub log: Log<T>,
    pub ended: bool,
    pub yields: bool,
}

impl<T: Clone + 'static> SigSource<T> {
    pub fn new(kind: Kind, first: T) -> (Self, BoxSig<T>) {
        let src = if kind == Kind::Lossy { Src::lossy() } else { Src::new() };
        let cell = (kind == Kind::Mutable).then(|| Mutable::new(first.clone()));
        let log: Log<T> = Rc::default();
        let inner: BoxSig<T> = match &cell {
            Some(m) => Box::pin(m.signal_cloned()),
            None => {
                src.push(first.clone());
                Box::pin(src.signal())
            }
        };
        let sig = Box::pin(Logged { inner, log: log.clone() });
        (SigSource { kind, src, cell, pushed: vec![first], log, ended: false, yields: false }, sig)
    }
    pub fn push(&mut self, x: T) -> bool {
        if self.ended {
            return false;
        }
        self.pushed.push(x.clone());
        match &self.cell {
            Some(m) => m.set(x),
            None => self.src.push(x),
        }
        true
    }
    /// The source wakes its poller while being polled (after its first value).
    pub fn self_wake(&mut self) {
        if !self.ended && self.cell.is_none() && self.src.get(|s| s.yielded) > 0 {
            self.yields = true;
            self.src.self_wake();
        }
    }
    pub fn end(&mut self) {
        if !self.ended {
            self.ended = true;
            if self.cell.take().is_none() {
                self.src.end();
            }
        }
    }
    pub fn latest(&self) -> &T {
        self.pushed.last().unwrap()
    }
    pub fn consumed(&self) -> usize {
        self.log.borrow().len()
    }
    pub fn last_consumed(&self) -> Option<T> {
        self.log.borrow().last().cloned()
    }
    pub fn check(&self, what: &str) -> Outcome {
        self.src.check(what)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SStep {
    Push(u8),
    Yield,
    Run,
    Once,
    Spurious,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SCase {
    pub kind: Kind,
    pub reuse: bool,
    pub first: u8,
    pub steps: Vec<SStep>,
    pub settle: bool,
    /// parameter of the combinator
    pub param: u8,
}

pub fn sstep(keys: u8) -> impl Strategy<Value = SStep> {
    prop_oneof![
        10 => (0..keys).prop_map(SStep::Push),
        2 => Just(SStep::Yield),
        4 => Just(SStep::Run),
        2 => Just(SStep::Once),
        2 => Just(SStep::Spurious),
    ]
}

pub fn scase() -> impl Strategy<Value = SCase> {
    (
        kind(),
        any::<bool>(),
        0u8..4,
        crate::gen::script(sstep(4), 20, 80),
        any::<bool>(),
        0u8..16,
    )
        .prop_map(|(kind, reuse, first, steps, settle, param)| SCase { kind, reuse, first, steps, settle, param })
}
