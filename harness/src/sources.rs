//! Scripted sources: what a source yields is decided by the generated history,
//! and every source records how it was polled.
use crate::driver::tick;
use futures_core::Stream;
use futures_signals::signal::Signal;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

pub enum Step<T> {
    Item(T),
    End,
    /// The source is pending but wakes its poller at once.
    Yield,
}

pub struct State<T> {
    queue: VecDeque<Step<T>>,
    waker: Option<Waker>,
    pub ended: bool,
    pub polls: u64,
    pub polled_after_end: u64,
    pub yielded: u64,
    pub dropped: bool,
    lossy: bool,
}

/// The controlling side of a scripted source.
pub struct Src<T>(Rc<RefCell<State<T>>>);

impl<T> Clone for Src<T> {
    fn clone(&self) -> Self {
        Src(self.0.clone())
    }
}

impl<T> Default for Src<T> {
    fn default() -> Self {
        Self::new()
    }
}

impl<T> Src<T> {
    /// A source which yields every pushed item, in order.
    pub fn new() -> Self {
        Src(Rc::new(RefCell::new(State {
            queue: VecDeque::new(),
            waker: None,
            ended: false,
            polls: 0,
            polled_after_end: 0,
            yielded: 0,
            dropped: false,
            lossy: false,
        })))
    }
    /// A source which yields only the latest pushed item, like a Mutable.
    pub fn lossy() -> Self {
        let s = Self::new();
        s.0.borrow_mut().lossy = true;
        s
    }
    fn step(&self, step: Step<T>) {
        let (waker, by_ref) = {
            let mut s = self.0.borrow_mut();
            s.queue.push_back(step);
            (s.waker.take(), s.polls % 3 == 0)
        };
        if let Some(w) = waker {
            if by_ref {
                w.wake_by_ref();
            } else {
                w.wake();
            }
        }
    }
    pub fn push(&self, x: T) {
        self.step(Step::Item(x))
    }
    pub fn end(&self) {
        self.step(Step::End)
    }
    pub fn self_wake(&self) {
        self.step(Step::Yield)
    }
    /// Everything pushed was consumed.
    pub fn drained(&self) -> bool {
        self.0.borrow().queue.is_empty()
    }
    pub fn get<R>(&self, f: impl FnOnce(&State<T>) -> R) -> R {
        f(&self.0.borrow())
    }
    pub fn check(&self, what: &str) -> Result<(), String> {
        let n = self.0.borrow().polled_after_end;
        if n > 0 {
            Err(format!("{what} was polled after it ended"))
        } else {
            Ok(())
        }
    }
    pub fn signal(&self) -> Script<T> {
        Script(self.0.clone())
    }
}

/// The polled side: a Signal and a Stream. See `vecsrc` and `mapsrc` for the others.
pub struct Script<T>(Rc<RefCell<State<T>>>);

impl<T> Unpin for Script<T> {}

impl<T> Script<T> {
    pub fn poll_step(&mut self, cx: &mut Context) -> Poll<Option<T>> {
        tick();
        let mut s = self.0.borrow_mut();
        s.polls += 1;
        if s.ended {
            s.polled_after_end += 1;
            return Poll::Ready(None);
        }
        loop {
            match s.queue.pop_front() {
                Some(Step::Item(x)) => {
                    if s.lossy && s.queue.iter().any(|q| matches!(q, Step::Item(_))) {
                        continue;
                    }
                    s.yielded += 1;
                    return Poll::Ready(Some(x));
                }
                Some(Step::End) => {
                    s.ended = true;
                    s.waker = None;
                    return Poll::Ready(None);
                }
                Some(Step::Yield) => {
                    drop(s);
                    self.0.borrow_mut().waker = None;
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                None => {
                    s.waker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
            }
        }
    }
}

impl<T> Drop for Script<T> {
    fn drop(&mut self) {
        let waker = {
            let mut s = self.0.borrow_mut();
            s.dropped = true;
            s.waker.take()
        };
        drop(waker);
    }
}

impl<T> Signal for Script<T> {
    type Item = T;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> {
        self.poll_step(cx)
    }
}

impl<T> std::fmt::Debug for Script<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Script")
    }
}

/// A scripted Stream.
pub struct ScriptStream<T>(pub Script<T>);

impl<T> Stream for ScriptStream<T> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> {
        self.0.poll_step(cx)
    }
}

pub struct GateState<T> {
    value: Option<T>,
    waker: Option<Waker>,
    pub done: bool,
    pub polls: u64,
    pub polled_after_done: u64,
    pub dropped: bool,
}

impl<T> GateState<T> {
    pub fn opened(&self) -> bool {
        self.done || self.value.is_some()
    }
}

/// Controls a future which completes when it is opened.
pub struct Gate<T>(Rc<RefCell<GateState<T>>>);

impl<T> Clone for Gate<T> {
    fn clone(&self) -> Self {
        Gate(self.0.clone())
    }
}

impl<T> Default for Gate<T> {
    fn default() -> Self {
        Self::new()
    }
}

impl<T> Gate<T> {
    pub fn new() -> Self {
        Gate(Rc::new(RefCell::new(GateState {
            value: None,
            waker: None,
            done: false,
            polls: 0,
            polled_after_done: 0,
            dropped: false,
        })))
    }
    pub fn open(&self, x: T) {
        let (w, by_ref) = {
            let mut s = self.0.borrow_mut();
            if s.done {
                return;
            }
            s.value = Some(x);
            (s.waker.take(), s.polls % 2 == 0)
        };
        if let Some(w) = w {
            if by_ref {
                w.wake_by_ref()
            } else {
                w.wake()
            }
        }
    }
    pub fn get<R>(&self, f: impl FnOnce(&GateState<T>) -> R) -> R {
        f(&self.0.borrow())
    }
    pub fn future(&self) -> GateFuture<T> {
        GateFuture(self.0.clone())
    }
}

pub struct GateFuture<T>(Rc<RefCell<GateState<T>>>);

impl<T> Future for GateFuture<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<T> {
        tick();
        let mut s = self.0.borrow_mut();
        s.polls += 1;
        if s.done {
            s.polled_after_done += 1;
            return Poll::Pending;
        }
        match s.value.take() {
            Some(x) => {
                s.done = true;
                Poll::Ready(x)
            }
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

impl<T> Drop for GateFuture<T> {
    fn drop(&mut self) {
        let w = {
            let mut s = self.0.borrow_mut();
            s.dropped = true;
            s.waker.take()
        };
        drop(w);
    }
}
