//! C15: enumerate index signals always show the current position.
use futures_signals::signal::{ReadOnlyMutable, Signal};
use futures_signals::signal_vec::{SignalVecExt, VecDiff};
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::{SigSink, VecSink};
use harness::vecsrc::*;
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use std::collections::{HashMap, HashSet};
use std::pin::Pin;

struct Watch {
    cell: ReadOnlyMutable<Option<usize>>,
    sink: SigSink<Option<usize>>,
    signal: Pin<Box<dyn Signal<Item = Option<usize>>>>,
}

struct World {
    watches: HashMap<u32, Watch>,
    /// Elements which were replaced in place: their index handle may live on in their successor.
    updated: HashSet<u32>,
}

impl World {
    fn settled(&mut self, src: &VecSource, out: &VecSink<(ReadOnlyMutable<Option<usize>>, El)>, watch_all: bool, live: bool) -> Outcome {
        let want = &src.model.v;
        ensure_eq!(out.v.iter().map(|x| x.1).collect::<Vec<_>>(), *want, "enumerated values");
        for (i, (cell, el)) in out.v.iter().enumerate() {
            if live {
                ensure_eq!(cell.get(), Some(i), "index of {el:?}");
            }
            if watch_all || el.id % 3 == 0 {
                if !self.watches.contains_key(&el.id) {
                    self.watches.insert(
                        el.id,
                        Watch { cell: cell.clone(), sink: SigSink::new(el.id % 2 == 0), signal: Box::pin(cell.signal()) },
                    );
                }
            }
        }
        let pos: HashMap<u32, usize> = want.iter().enumerate().map(|(i, e)| (e.id, i)).collect();
        for (id, w) in self.watches.iter_mut() {
            w.sink.run(&mut w.signal)?;
            match pos.get(id) {
                Some(i) => {
                    ensure_eq!(w.cell.get(), Some(*i), "index cell of element {id}");
                    ensure_eq!(w.sink.last(), Some(&Some(*i)), "index signal of element {id}");
                }
                None if !self.updated.contains(id) => {
                    ensure_eq!(w.cell.get(), None, "index cell of the removed element {id}");
                    ensure_eq!(w.sink.last(), Some(&None), "index signal of the removed element {id}");
                }
                None => {}
            }
        }
        Ok(())
    }
}

fn main() {
    let mut r = Runner::new(
        "C15",
        "legal diff histories, index signals subscribed at every settled moment and polled only when woken; non-trivial: at least one operation after the initial contents",
    );
    for (name, quick, thorough, large) in [("enumerate", 1_250_000u64, 4_000_000u64, false), ("enumerate large", 500, 10_000, true)] {
    r.family(
        name,
        quick,
        thorough,
        move || (if large { vcase_large().boxed() } else { vcase().boxed() }, any::<bool>()),
        |(case, watch_all): &(VCase, bool), obs: &mut Obs| -> Outcome {
            note(case, obs);
            let mut world = World { watches: HashMap::new(), updated: HashSet::new() };
            let (mut src, sig) = VecSource::new(case.real, &case.init);
            let mut out: BoxVec<(ReadOnlyMutable<Option<usize>>, El)> = Box::pin(sig.enumerate());
            let mut sink = VecSink::new(case.reuse);
            for step in &case.steps {
                match step {
                    VStep::Op(op) => {
                        let before = src.model.v.clone();
                        if src.op(op) {
                            if let VOp::Update(i, _) = op {
                                world.updated.insert(before[pick(*i, before.len())].id);
                            }
                        }
                    }
                    VStep::Run => {
                        sink.run(&mut out)?;
                        world.settled(&src, &sink, *watch_all, true)?;
                    }
                    VStep::Once if !sink.task.ready() => {}
                    VStep::Once | VStep::Spurious => {
                        sink.poll(&mut out)?;
                    }
                    VStep::Yield => src.self_wake(),
                }
                ensure!(!sink.ended, "ended before its input");
            }
            sink.run(&mut out)?;
            world.settled(&src, &sink, *watch_all, true)?;
            if case.settle {
                src.op(&VOp::Insert(0, 1));
                src.op(&VOp::Move(1, 0));
            }
            src.end();
            sink.run(&mut out)?;
            ensure!(sink.ended, "did not end with its input");
            world.settled(&src, &sink, *watch_all, true)?;
            src.check("the input")?;
            // once the enumeration is gone no index can change any more
            drop(out);
            for (id, w) in world.watches.iter_mut() {
                w.sink.run(&mut w.signal)?;
                ensure!(w.sink.ended, "index signal of element {id} did not end");
            }
            let _ = VecDiff::<u8>::Pop {};
            Ok(())
        },
    );
    }
    r.finish()
}
