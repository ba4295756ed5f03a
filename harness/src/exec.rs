//! Strict executor pieces: a task is polled again only if its most recent waker
//! was woken (or it returned Ready), and replay sinks which check every diff.
use crate::driver::tick;
use futures_signals::signal::Signal;
use futures_signals::signal_map::{MapDiff, SignalMap};
use futures_signals::signal_vec::{SignalVec, VecDiff};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag(AtomicU64);

thread_local! {
    static FLAGS: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}

/// Number of wakers' flags which exist on this thread.
pub fn live_flags() -> i64 {
    FLAGS.with(|n| n.get())
}

impl Default for Flag {
    fn default() -> Self {
        FLAGS.with(|n| n.set(n.get() + 1));
        Flag(AtomicU64::new(0))
    }
}

impl Drop for Flag {
    fn drop(&mut self) {
        let _ = FLAGS.try_with(|n| n.set(n.get() - 1));
    }
}

impl Flag {
    pub fn woken(&self) -> u64 {
        self.0.load(Ordering::SeqCst)
    }
}

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        tick();
        crate::sched::point();
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

/// Bookkeeping of one polled object.
pub struct Task {
    flag: Arc<Flag>,
    hot: bool,
    reuse: bool,
    pub polls: u64,
}

impl Task {
    /// With `reuse` the same waker is passed to every poll, otherwise a fresh one each time.
    pub fn new(reuse: bool) -> Self {
        Task { flag: Arc::default(), hot: true, reuse, polls: 0 }
    }

    /// Whether a correct executor would poll now.
    pub fn ready(&self) -> bool {
        self.hot || self.flag.woken() > 0
    }

    pub fn woken(&self) -> bool {
        self.flag.woken() > 0
    }

    /// Suspends the scheduled thread until the most recent waker is woken.
    pub fn wait(&self) {
        let flag = self.flag.clone();
        crate::sched::wait_until(move || flag.woken() > 0)
    }

    pub fn poll<R>(&mut self, f: impl FnOnce(&mut Context) -> Poll<R>) -> Poll<R> {
        tick();
        self.polls += 1;
        if self.reuse {
            self.flag.0.store(0, Ordering::SeqCst);
        } else {
            self.flag = Arc::default();
        }
        let waker: Waker = self.flag.clone().into();
        let r = f(&mut Context::from_waker(&waker));
        self.hot = r.is_ready();
        r
    }
}

pub const ITEM_LIMIT: usize = 5_000_000;

/// Consumes a Signal.
pub struct SigSink<T> {
    pub task: Task,
    pub items: Vec<T>,
    pub ended: bool,
}

impl<T> SigSink<T> {
    pub fn new(reuse: bool) -> Self {
        SigSink { task: Task::new(reuse), items: vec![], ended: false }
    }
    pub fn last(&self) -> Option<&T> {
        self.items.last()
    }
    /// Polls once, whether or not the task is ready; true if it returned Ready.
    pub fn poll<S: Signal<Item = T> + ?Sized>(&mut self, s: &mut Pin<Box<S>>) -> Result<bool, String> {
        if self.ended {
            return Ok(false);
        }
        match self.task.poll(|cx| s.as_mut().poll_change(cx)) {
            Poll::Ready(Some(x)) => {
                self.items.push(x);
                if self.items.len() > ITEM_LIMIT {
                    return Err("the signal never becomes pending".into());
                }
                Ok(true)
            }
            Poll::Ready(None) => {
                self.ended = true;
                Ok(true)
            }
            Poll::Pending => Ok(false),
        }
    }
    /// Polls as long as a wake-driven executor would.
    pub fn run<S: Signal<Item = T> + ?Sized>(&mut self, s: &mut Pin<Box<S>>) -> Result<(), String> {
        while !self.ended && self.task.ready() {
            self.poll(s)?;
        }
        Ok(())
    }
}

/// Applies a diff, failing if it is not applicable.
pub fn apply<T: Debug>(v: &mut Vec<T>, diff: VecDiff<T>) -> Result<(), String> {
    let len = v.len();
    let bad = |d: String| Err(format!("diff {d} is not applicable to a vector of {len}"));
    match diff {
        VecDiff::Replace { values } => *v = values,
        VecDiff::InsertAt { index, value } => {
            if index > len {
                return bad(format!("InsertAt({index})"));
            }
            v.insert(index, value)
        }
        VecDiff::UpdateAt { index, value } => {
            if index >= len {
                return bad(format!("UpdateAt({index})"));
            }
            v[index] = value
        }
        VecDiff::RemoveAt { index } => {
            if index >= len {
                return bad(format!("RemoveAt({index})"));
            }
            v.remove(index);
        }
        VecDiff::Move { old_index, new_index } => {
            if old_index >= len || new_index >= len {
                return bad(format!("Move({old_index},{new_index})"));
            }
            let x = v.remove(old_index);
            v.insert(new_index, x);
        }
        VecDiff::Push { value } => v.push(value),
        VecDiff::Pop {} => {
            if v.pop().is_none() {
                return bad("Pop".into());
            }
        }
        VecDiff::Clear {} => v.clear(),
    }
    Ok(())
}

/// Consumes a SignalVec, replaying its diffs.
pub struct VecSink<T> {
    pub task: Task,
    pub v: Vec<T>,
    pub diffs: usize,
    pub ended: bool,
}

impl<T: Debug> VecSink<T> {
    pub fn new(reuse: bool) -> Self {
        VecSink { task: Task::new(reuse), v: vec![], diffs: 0, ended: false }
    }
    pub fn poll<S: SignalVec<Item = T> + ?Sized>(&mut self, s: &mut Pin<Box<S>>) -> Result<bool, String> {
        if self.ended {
            return Ok(false);
        }
        match self.task.poll(|cx| s.as_mut().poll_vec_change(cx)) {
            Poll::Ready(Some(d)) => {
                apply(&mut self.v, d)?;
                self.diffs += 1;
                if self.diffs > ITEM_LIMIT {
                    return Err("the signal vec never becomes pending".into());
                }
                Ok(true)
            }
            Poll::Ready(None) => {
                self.ended = true;
                Ok(true)
            }
            Poll::Pending => Ok(false),
        }
    }
    pub fn run<S: SignalVec<Item = T> + ?Sized>(&mut self, s: &mut Pin<Box<S>>) -> Result<(), String> {
        while !self.ended && self.task.ready() {
            self.poll(s)?;
        }
        Ok(())
    }
}

pub fn apply_map<K: Ord + Debug, V: Debug>(m: &mut BTreeMap<K, V>, diff: MapDiff<K, V>) -> Result<(), String> {
    match diff {
        MapDiff::Replace { entries } => {
            let n = entries.len();
            let sorted = entries.windows(2).all(|w| w[0].0 < w[1].0);
            *m = entries.into_iter().collect();
            if m.len() != n {
                return Err("Replace with duplicate keys".into());
            }
            if !sorted {
                return Err("Replace with unsorted entries".into());
            }
        }
        MapDiff::Insert { key, value } => {
            if m.contains_key(&key) {
                return Err(format!("Insert of the present key {key:?}"));
            }
            m.insert(key, value);
        }
        MapDiff::Update { key, value } => {
            if !m.contains_key(&key) {
                return Err(format!("Update of the absent key {key:?}"));
            }
            m.insert(key, value);
        }
        MapDiff::Remove { key } => {
            if m.remove(&key).is_none() {
                return Err(format!("Remove of the absent key {key:?}"));
            }
        }
        MapDiff::Clear {} => m.clear(),
    }
    Ok(())
}

/// Consumes a SignalMap, replaying its diffs.
pub struct MapSink<K, V> {
    pub task: Task,
    pub m: BTreeMap<K, V>,
    pub diffs: usize,
    pub ended: bool,
}

impl<K: Ord + Debug, V: Debug> MapSink<K, V> {
    pub fn new(reuse: bool) -> Self {
        MapSink { task: Task::new(reuse), m: BTreeMap::new(), diffs: 0, ended: false }
    }
    pub fn poll<S: SignalMap<Key = K, Value = V> + ?Sized>(&mut self, s: &mut Pin<Box<S>>) -> Result<bool, String> {
        if self.ended {
            return Ok(false);
        }
        match self.task.poll(|cx| s.as_mut().poll_map_change(cx)) {
            Poll::Ready(Some(d)) => {
                apply_map(&mut self.m, d)?;
                self.diffs += 1;
                if self.diffs > ITEM_LIMIT {
                    return Err("the signal map never becomes pending".into());
                }
                Ok(true)
            }
            Poll::Ready(None) => {
                self.ended = true;
                Ok(true)
            }
            Poll::Pending => Ok(false),
        }
    }
    pub fn run<S: SignalMap<Key = K, Value = V> + ?Sized>(&mut self, s: &mut Pin<Box<S>>) -> Result<(), String> {
        while !self.ended && self.task.ready() {
            self.poll(s)?;
        }
        Ok(())
    }
}

/// Runs a future like a wake-driven executor.
pub struct FutSink<T> {
    pub task: Task,
    pub out: Option<T>,
}

impl<T> FutSink<T> {
    pub fn new(reuse: bool) -> Self {
        FutSink { task: Task::new(reuse), out: None }
    }
    pub fn poll<F: Future<Output = T> + ?Sized>(&mut self, f: &mut Pin<Box<F>>) -> bool {
        if self.out.is_some() {
            return false;
        }
        match self.task.poll(|cx| f.as_mut().poll(cx)) {
            Poll::Ready(x) => {
                self.out = Some(x);
                true
            }
            Poll::Pending => false,
        }
    }
    pub fn run<F: Future<Output = T> + ?Sized>(&mut self, f: &mut Pin<Box<F>>) {
        while self.out.is_none() && self.task.ready() {
            self.poll(f);
        }
    }
}
