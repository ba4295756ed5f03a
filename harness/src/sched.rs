//! Runs several bodies as coroutines of one OS thread and decides, at every lock
//! and atomic operation of the code under test, which of them goes on. A schedule
//! is a list of preemptions, so that it shrinks.
use crate::driver::{guarded_section, last_panic, tick, Outcome};
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Schedule {
    /// Operations are the basic blocks of the library too, not only its lock and atomic operations.
    pub fine: bool,
    /// After `.0` operations of the running thread, switch to another one.
    pub at: Vec<(u16, u8)>,
}

pub fn schedule(max: usize) -> impl Strategy<Value = Schedule> {
    let coarse = prop_oneof![6 => 0u16..5, 4 => 0u16..14, 1 => 0u16..60];
    let fine = prop_oneof![4 => 0u16..12, 4 => 0u16..60, 2 => 0u16..250];
    let list = move |gap: BoxedStrategy<u16>| proptest::collection::vec((gap, 0u8..12), 0..max);
    let (coarse, fine) = (list(coarse.boxed()), list(fine.boxed()));
    prop_oneof![
        3 => coarse.prop_map(|at| Schedule { fine: false, at }),
        (if crate::fine::available() { 2 } else { 0 }) => fine.prop_map(|at| Schedule { fine: true, at }),
    ]
}

/// Operations after which a running thread is preempted anyway (spin loops).
const FAIR: u32 = 3_000;

enum Why {
    /// Preempted, may go on at any time.
    Point,
    /// Failed to get a lock.
    Blocked,
    /// Waits for a condition.
    Parked(Box<dyn Fn() -> bool>),
}

enum State {
    Ready,
    /// Failed to get a lock at this time.
    Blocked(u64),
    Parked(Box<dyn Fn() -> bool>),
    Done,
}

type Co = Coroutine<(), Why, Outcome, DefaultStack>;

struct Ctl {
    yielder: *const Yielder<(), Why>,
    /// operations left until the next preemption
    gap: Cell<u32>,
    ops: Cell<u64>,
}

struct FiberHook;

thread_local! {
    static CTL: RefCell<Option<Rc<Ctl>>> = const { RefCell::new(None) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(vec![]) };
}

fn ctl() -> Option<Rc<Ctl>> {
    CTL.with(|c| c.borrow().clone())
}

fn suspend(c: &Ctl, why: Why) {
    // the yielder lives as long as its coroutine runs, and only the running one is in CTL
    unsafe { &*c.yielder }.suspend(why);
}

/// A point where another thread may run.
pub fn point() {
    if let Some(c) = ctl() {
        c.ops.set(c.ops.get() + 1);
        tick();
        if std::thread::panicking() {
            return;
        }
        if c.gap.get() == 0 {
            suspend(&c, Why::Point);
        } else {
            c.gap.set(c.gap.get() - 1);
        }
    }
}

/// Suspends the thread until the condition holds.
pub fn wait_until(cond: impl Fn() -> bool + 'static) {
    while !cond() {
        let c = ctl().expect("wait_until outside of a scheduled thread");
        // the condition is evaluated by the scheduler; another thread may undo it before we run
        let cond: &dyn Fn() -> bool = &cond;
        let cond: Box<dyn Fn() -> bool> = unsafe { std::mem::transmute::<Box<dyn Fn() -> bool + '_>, Box<dyn Fn() -> bool>>(Box::new(move || cond())) };
        suspend(&c, Why::Parked(cond));
    }
}

impl futures_signals::verif::Hook for FiberHook {
    fn operation(&self) {
        point()
    }
    fn blocked(&self) {
        tick();
        let c = ctl().expect("a thread");
        if std::thread::panicking() {
            eprintln!("deadlock while unwinding");
            std::process::abort();
        }
        suspend(&c, Why::Blocked)
    }
}

struct Thread {
    co: Option<Co>,
    ctl: Rc<RefCell<Option<Rc<Ctl>>>>,
    state: State,
    name: &'static str,
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Quiet {
    /// Every thread is done.
    Done,
    /// Some threads wait for conditions which nobody will make true.
    Parked,
}

pub struct Sched {
    threads: Vec<Thread>,
    fine: bool,
    schedule: std::vec::IntoIter<(u16, u8)>,
    target: u8,
    gap: u32,
    time: u64,
    pub switches: u64,
    current: usize,
}

impl Sched {
    pub fn new(schedule: &Schedule) -> Self {
        let mut s = Sched { threads: vec![], fine: schedule.fine, schedule: schedule.at.clone().into_iter(), target: 0, gap: 0, time: 0, switches: 0, current: 0 };
        s.next_preemption();
        s
    }

    fn next_preemption(&mut self) {
        match self.schedule.next() {
            Some((gap, target)) => {
                self.gap = gap as u32;
                self.target = target;
            }
            None => {
                self.gap = FAIR;
                self.target = 0;
            }
        }
    }

    pub fn spawn(&mut self, name: &'static str, body: impl FnOnce() -> Outcome + 'static) {
        let slot: Rc<RefCell<Option<Rc<Ctl>>>> = Rc::default();
        let slot2 = slot.clone();
        let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(128 << 10).expect("stack"));
        let co = Coroutine::with_stack(stack, move |yielder: &Yielder<(), Why>, ()| {
            let c = Rc::new(Ctl { yielder: yielder as *const _, gap: Cell::new(0), ops: Cell::new(0) });
            *slot2.borrow_mut() = Some(c.clone());
            CTL.with(|x| *x.borrow_mut() = Some(c));
            yielder.suspend(Why::Point);
            let r = catch_unwind(AssertUnwindSafe(body));
            match r {
                Ok(r) => r,
                Err(e) => {
                    drop(e);
                    Err(format!("panic: {}", last_panic()))
                }
            }
        });
        self.threads.push(Thread { co: Some(co), ctl: slot, state: State::Ready, name });
    }

    fn resume(&mut self, i: usize) -> Result<bool, String> {
        let t = &mut self.threads[i];
        let co = t.co.as_mut().expect("running thread");
        let mine = t.ctl.borrow().clone();
        let before = mine.as_ref().map_or(0, |c| c.ops.get());
        if let Some(c) = &mine {
            c.gap.set(self.gap);
        }
        CTL.with(|c| *c.borrow_mut() = mine.clone());
        crate::fine::ON.with(|f| f.set(self.fine));
        let r = guarded_section(Rc::new(FiberHook), || co.resume(()));
        crate::fine::ON.with(|f| f.set(false));
        CTL.with(|c| *c.borrow_mut() = None);
        let ops = mine.as_ref().map_or(0, |c| c.ops.get()) - before;
        self.gap = mine.as_ref().map_or(self.gap, |c| c.gap.get());
        let progress = match r {
            CoroutineResult::Yield(Why::Point) => {
                t.state = State::Ready;
                true
            }
            CoroutineResult::Yield(Why::Blocked) => {
                t.state = State::Blocked(0);
                // the retried lock operation itself is no progress
                ops > 0
            }
            CoroutineResult::Yield(Why::Parked(cond)) => {
                t.state = State::Parked(cond);
                true
            }
            CoroutineResult::Return(r) => {
                t.state = State::Done;
                let co = t.co.take().unwrap();
                STACKS.with(|s| s.borrow_mut().push(co.into_stack()));
                r.map_err(|e| format!("{}: {e}", t.name))?;
                true
            }
        };
        if progress {
            self.time += 1;
        }
        if let State::Blocked(at) = &mut self.threads[i].state {
            *at = self.time;
        }
        Ok(progress)
    }

    fn runnable(&self, i: usize) -> bool {
        match &self.threads[i].state {
            State::Ready => true,
            State::Blocked(at) => *at < self.time,
            State::Parked(cond) => cond(),
            State::Done => false,
        }
    }

    /// Runs until every thread is done or waits for a condition.
    pub fn run(&mut self) -> Result<Quiet, String> {
        loop {
            let n = self.threads.len();
            let able: Vec<usize> = (0..n).map(|d| (self.current + d) % n).filter(|i| self.runnable(*i)).collect();
            if able.is_empty() {
                let blocked: Vec<_> = self.threads.iter().filter(|t| matches!(t.state, State::Blocked(_))).map(|t| t.name).collect();
                if !blocked.is_empty() {
                    return Err(format!("deadlock: {} wait for locks which are never released", blocked.join(", ")));
                }
                let parked = self.threads.iter().any(|t| matches!(t.state, State::Parked(_)));
                return Ok(if parked { Quiet::Parked } else { Quiet::Done });
            }
            // `able` starts with the current thread if it is runnable
            let here = able[0] == self.current && matches!(self.threads[self.current].state, State::Ready);
            let i = if here && self.gap == 0 && able.len() > 1 {
                let others = able.len() - 1;
                let i = able[1 + self.target as usize % others];
                self.next_preemption();
                i
            } else if here {
                if self.gap == 0 {
                    self.next_preemption();
                }
                able[0]
            } else {
                able[self.target as usize % able.len()]
            };
            if i != self.current {
                self.switches += 1;
            }
            self.current = i;
            self.resume(i)?;
        }
    }

    /// Names of the threads which wait for conditions.
    pub fn parked(&self) -> Vec<&'static str> {
        self.threads.iter().filter(|t| matches!(t.state, State::Parked(_))).map(|t| t.name).collect()
    }
}

impl Drop for Sched {
    fn drop(&mut self) {
        for t in &mut self.threads {
            if let Some(mut co) = t.co.take() {
                // never unwound: it may hold locks, and only failing cases get here
                if co.started() {
                    unsafe { co.force_reset() };
                    STACKS.with(|s| s.borrow_mut().push(co.into_stack()));
                } else {
                    std::mem::forget(co);
                }
            }
        }
    }
}
