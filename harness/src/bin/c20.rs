//! C20: SignalMap combinators and the sorted key and entry views.
use futures_signals::signal_map::{MapDiff, MutableBTreeMap, SignalMap, SignalMapExt};
use futures_signals::signal_vec::SignalVec;
use harness::adapters::*;
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::{apply_map, MapSink, SigSink, VecSink};
use harness::mapsrc::*;
use harness::sigsrc::{kind, Kind, Log, SigSource};
use harness::vecsrc::{BoxSig, El};
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{HashSet, BTreeMap, HashMap};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// Logs the diffs which were consumed from a map.
struct Logged {
    inner: BoxMap<Key, El>,
    log: Log<MapDiff<Key, El>>,
}

impl SignalMap for Logged {
    type Key = Key;
    type Value = El;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<Key, El>>> {
        let r = self.inner.as_mut().poll_map_change(cx);
        if let Poll::Ready(Some(d)) = &r {
            self.log.borrow_mut().push(d.clone());
        }
        r
    }
}

fn logged(case: &MCase) -> (MapSource, Log<MapDiff<Key, El>>, Logged) {
    let (src, inner) = MapSource::new(case.real, &case.init);
    let log: Log<MapDiff<Key, El>> = Rc::default();
    (src, log.clone(), Logged { inner, log })
}

fn changes(case: &MCase) -> bool {
    case.steps.iter().any(|s| matches!(s, MStep::Op(_)))
}

fn map_value(case: &MCase, obs: &mut Obs) -> Outcome {
    let (mut src, log, sig) = logged(case);
    let calls = Rc::new(Cell::new(0u64));
    let c2 = calls.clone();
    let f = |e: El| (e.k ^ 1, e.id);
    let boxed = case.param & 1 == 1;
    let mapped = sig.map_value(move |e: El| {
        c2.set(c2.get() + 1);
        f(e)
    });
    let mut out: BoxMap<Key, (u8, u32)> = if boxed { SignalMapExt::boxed_local(mapped) } else { Box::pin(mapped) };
    out = match case.param >> 1 & 7 {
        0 => AsSend(out).boxed(),
        1 => Box::pin(in_box(AsSend(out))),
        2 => Box::pin(ByRef(out)),
        _ => out,
    };
    let mut sink = MapSink::new(case.reuse);
    let mut consumed = BTreeMap::new();
    let mut seen = 0;
    let mut poll = |sink: &mut MapSink<Key, (u8, u32)>| -> Outcome {
        sink.poll(&mut out)?;
        for d in &log.borrow()[seen..] {
            apply_map(&mut consumed, d.clone())?;
        }
        seen = log.borrow().len();
        let want: BTreeMap<Key, (u8, u32)> = consumed.iter().map(|(k, e)| (*k, f(*e))).collect();
        ensure_eq!(sink.m, want, "contents, expected the mapped consumed contents");
        ensure_eq!(sink.diffs, seen, "number of diffs");
        Ok(())
    };
    macro_rules! run {
        () => {{
            while !sink.ended && sink.task.ready() {
                poll(&mut sink)?;
            }
            let want: BTreeMap<Key, (u8, u32)> = src.model.m.iter().map(|(k, e)| (*k, f(*e))).collect();
            ensure_eq!(sink.m, want, "settled contents");
            ensure_eq!(calls.get(), src.values, "closure calls");
            ensure_eq!(sink.ended, src.ended, "end once settled");
            src.check("the map")?;
        }};
    }
    for step in &case.steps {
        match step {
            MStep::Op(op) => {
                src.op(op);
            }
            MStep::Run => run!(),
            MStep::Once if !sink.task.ready() => {}
            MStep::Once | MStep::Spurious => poll(&mut sink)?,
            MStep::Yield => src.self_wake(),
        }
    }
    obs.nontrivial_if(changes(case));
    if case.settle {
        run!();
    }
    src.end();
    run!();
    Ok(())
}

fn affects(d: &MapDiff<Key, El>, key: Key) -> bool {
    match d {
        MapDiff::Replace { .. } | MapDiff::Clear {} => true,
        MapDiff::Insert { key: k, .. } | MapDiff::Update { key: k, .. } | MapDiff::Remove { key: k } => *k == key,
    }
}

fn key_cloned(case: &MCase, obs: &mut Obs) -> Outcome {
    let key = if case.init.len() > 300 { case.param as Key * 37 } else { case.param as Key % (KEYS + 1) };
    let (mut src, log, sig) = logged(case);
    let mut out: BoxSig<Option<El>> = Box::pin(sig.key_cloned(key));
    let mut sink: SigSink<Option<El>> = SigSink::new(case.reuse);
    let mut consumed = BTreeMap::new();
    let mut seen = 0;
    let mut affected = false;
    let mut poll = |sink: &mut SigSink<Option<El>>, obs: &mut Obs| -> Outcome {
        let n = sink.items.len();
        let first = sink.task.polls == 0;
        sink.poll(&mut out)?;
        for d in &log.borrow()[seen..] {
            affected |= affects(d, key);
            apply_map(&mut consumed, d.clone())?;
            obs.label_if(!affects(d, key), "diff of another key");
        }
        seen = log.borrow().len();
        let yielded = sink.items.len() > n;
        ensure!(yielded || !first, "no value on the first poll");
        ensure!(!yielded || first || affected, "a value although the key was not affected");
        if yielded {
            affected = false;
            ensure_eq!(sink.items.last().unwrap(), &consumed.get(&key).copied(), "value of the key");
        }
        ensure!(!affected, "no value although the key was affected");
        Ok(())
    };
    macro_rules! run {
        () => {{
            while !sink.ended && sink.task.ready() {
                poll(&mut sink, obs)?;
            }
            ensure_eq!(sink.items.last(), Some(&src.model.m.get(&key).copied()), "settled value");
            ensure_eq!(sink.ended, src.ended, "end once settled");
            src.check("the map")?;
        }};
    }
    for step in &case.steps {
        match step {
            MStep::Op(op) => {
                src.op(op);
            }
            MStep::Run => run!(),
            MStep::Once if !sink.task.ready() => {}
            MStep::Once | MStep::Spurious => poll(&mut sink, obs)?,
            MStep::Yield => src.self_wake(),
        }
    }
    obs.nontrivial_if(changes(case));
    if case.settle {
        run!();
    }
    src.end();
    run!();
    ensure_eq!(sink.items.last(), Some(&src.model.m.get(&key).copied()), "final value");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum EStep {
    Map(MStep),
    Entry(u8),
    EntryYield(u8),
    EntryEnd(u8),
    End,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ECase {
    real: bool,
    reuse: bool,
    kinds: [Kind; 2],
    init: Vec<(Key, u8)>,
    steps: Vec<EStep>,
    settle: bool,
}

fn ecase() -> impl Strategy<Value = ECase> {
    ecase_of(mstep().boxed(), entries().boxed(), false)
}

/// A few steps on large maps.
fn ecase_large() -> impl Strategy<Value = ECase> {
    let entries = large_entries().prop_map(|mut e| {
        e.truncate(1500);
        e
    });
    let op = mop_large().prop_map(|op| match op {
        MOp::Replace(mut e) => {
            e.truncate(1500);
            MOp::Replace(e)
        }
        op => op,
    });
    ecase_of(prop_oneof![1 => op.prop_map(MStep::Op), 1 => mstep()].boxed(), entries.boxed(), true)
}

fn ecase_of(step: BoxedStrategy<MStep>, entries: BoxedStrategy<Vec<(Key, u8)>>, large: bool) -> impl Strategy<Value = ECase> {
    let step = prop_oneof![
        18 => step.prop_map(EStep::Map),
        10 => any::<u8>().prop_map(EStep::Entry),
        1 => any::<u8>().prop_map(EStep::EntryYield),
        2 => any::<u8>().prop_map(EStep::EntryEnd),
        1 => proptest::bool::weighted(0.3).prop_map(|b| if b { EStep::End } else { EStep::Map(MStep::Run) }),
    ];
    (
        proptest::bool::weighted(0.25),
        any::<bool>(),
        [kind(), kind()],
        entries,
        if large { proptest::collection::vec(step, 2..16).boxed() } else { harness::gen::script(step, 30, 120).boxed() },
        any::<bool>(),
    )
        .prop_map(|(real, reuse, kinds, init, steps, settle)| ECase { real, reuse, kinds, init, steps, settle })
}

type Item = (u32, u32);

struct Entry {
    src: SigSource<Item>,
    sig: Option<BoxSig<Item>>,
}

fn map_value_signal(case: &ECase, obs: &mut Obs) -> Outcome {
    let reg: Rc<RefCell<HashMap<u32, Entry>>> = Rc::default();
    let (mut src, sig) = MapSource::new(case.real, &case.init);
    let calls = Rc::new(Cell::new(0u64));
    let (r2, c2) = (reg.clone(), calls.clone());
    let mut out: BoxMap<Key, Item> = Box::pin(sig.map_value_signal(move |e: El| {
        c2.set(c2.get() + 1);
        r2.borrow_mut().get_mut(&e.id).unwrap().sig.take().expect("a value was mapped twice")
    }));
    let mut sink = MapSink::new(case.reuse);
    let mut version = 0;
    let register = |src: &MapSource| {
        for e in src.model.m.values() {
            reg.borrow_mut().entry(e.id).or_insert_with(|| {
                let (src, sig) = SigSource::new(case.kinds[e.id as usize % 2], (e.id, 0));
                Entry { src, sig: Some(sig) }
            });
        }
    };
    register(&src);
    let settled = |src: &MapSource, sink: &MapSink<Key, Item>| -> Outcome {
        let reg = reg.borrow();
        let want: BTreeMap<Key, Item> = src.model.m.iter().map(|(k, e)| (*k, *reg[&e.id].src.latest())).collect();
        ensure_eq!(sink.m, want, "settled contents");
        ensure_eq!(calls.get(), src.values, "closure calls");
        ensure_eq!(sink.ended, src.ended && src.model.m.values().all(|e| reg[&e.id].src.ended), "end once settled");
        src.check("the map")?;
        let ids: HashSet<u32> = src.model.m.values().map(|x| x.id).collect();
        for (id, e) in reg.iter() {
            let present = ids.contains(id);
            e.src.check("an entry's signal")?;
            if !present && e.sig.is_none() && e.src.kind != Kind::Mutable {
                ensure!(e.src.src.get(|s| s.dropped), "the signal of a removed entry is kept");
            }
        }
        Ok(())
    };
    let target = |src: &MapSource, i: u8| {
        let m = &src.model.m;
        m.values().nth(i as usize % m.len().max(1)).map(|e| e.id)
    };
    let (mut ops, mut elems) = (0, 0);
    macro_rules! run {
        () => {{
            sink.run(&mut out)?;
            settled(&src, &sink)?;
        }};
    }
    for step in &case.steps {
        match step {
            EStep::Map(MStep::Op(op)) => {
                ops += src.op(op).is_some() as u32;
                register(&src);
            }
            EStep::Map(MStep::Run) => run!(),
            EStep::Map(MStep::Once) if !sink.task.ready() => {}
            EStep::Map(MStep::Once) | EStep::Map(MStep::Spurious) => {
                sink.poll(&mut out)?;
            }
            EStep::Map(MStep::Yield) => src.self_wake(),
            EStep::Entry(i) | EStep::EntryYield(i) | EStep::EntryEnd(i) => {
                if let Some(id) = target(&src, *i) {
                    let mut reg = reg.borrow_mut();
                    let e = &mut reg.get_mut(&id).unwrap().src;
                    match step {
                        EStep::Entry(_) => {
                            version += 1;
                            elems += e.push((id, version)) as u32;
                        }
                        EStep::EntryYield(_) => e.self_wake(),
                        _ => e.end(),
                    }
                }
            }
            EStep::End => {
                obs.label_if(!src.ended, "map ended before its entries");
                src.end()
            }
        }
    }
    obs.nontrivial_if(ops > 0 && elems > 0);
    if case.settle {
        run!();
    }
    src.end();
    for e in reg.borrow_mut().values_mut() {
        e.src.end();
    }
    run!();
    ensure!(sink.ended, "not ended although the map and all entries ended");
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum View {
    Keys,
    Entries,
    EntriesCloned,
}

fn views(case: &MCase, obs: &mut Obs, view: View) -> Outcome {
    let mut src = MapSource::new(true, &case.init).0;
    let handle = |src: &MapSource| -> MutableBTreeMap<Key, El> {
        match &src.feed {
            Feed::Real(Some(m)) => m.clone(),
            _ => unreachable!(),
        }
    };
    // the view is taken after a few of the steps
    let start = case.param as usize % 4;
    type Out = Pin<Box<dyn SignalVec<Item = (Key, Option<El>)>>>;
    let make = |m: MutableBTreeMap<Key, El>| -> Out {
        use futures_signals::signal_vec::SignalVecExt;
        match view {
            View::Keys => Box::pin(m.signal_vec_keys().map(|k| (k, None))),
            View::Entries => Box::pin(m.signal_vec_entries().map(|(k, e)| (k, Some(e)))),
            View::EntriesCloned => Box::pin(m.entries_cloned().map(|(k, e)| (k, Some(e)))),
        }
    };
    let mut out: Option<Out> = None;
    let mut sink = VecSink::new(case.reuse);
    let mut changed = 0;
    macro_rules! run {
        () => {{
            if let Some(out) = &mut out {
                sink.run(out)?;
                let want: Vec<(Key, Option<El>)> = src.model.m.iter().map(|(k, e)| (*k, (view != View::Keys).then_some(*e))).collect();
                ensure_eq!(sink.v, want, "settled contents");
                ensure_eq!(sink.ended, src.ended, "end once settled");
            }
        }};
    }
    for (t, step) in case.steps.iter().enumerate() {
        if t >= start && out.is_none() {
            out = Some(make(handle(&src)));
        }
        match step {
            MStep::Op(op) => {
                changed += (src.op(op).is_some() && out.is_some()) as u32;
            }
            MStep::Run => run!(),
            MStep::Once | MStep::Spurious | MStep::Yield => {
                if let (Some(out), true) = (&mut out, sink.task.ready() || !matches!(step, MStep::Once)) {
                    sink.poll(out)?;
                }
            }
        }
    }
    obs.nontrivial_if(changed > 0);
    if case.settle {
        run!();
    }
    out.get_or_insert_with(|| make(handle(&src)));
    src.end();
    run!();
    Ok(())
}

fn always(case: &(Vec<(Key, u8)>, bool), obs: &mut Obs) -> Outcome {
    let mut model = MapModel::default();
    let m = model.collect(&case.0);
    let mut sink = MapSink::new(case.1);
    let mut out: BoxMap<Key, El> = if case.1 {
        Box::pin(futures_signals::signal_map::always(m.clone()))
    } else {
        Box::pin(futures_signals::signal_map::always(m.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>()))
    };
    obs.nontrivial_if(!m.is_empty());
    sink.run(&mut out)?;
    ensure_eq!(sink.m, m, "contents");
    ensure!(sink.ended, "not ended");
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C20",
        "map-diff histories (scripted or made by a MutableBTreeMap), signals per entry, ends in any order, self-waking inputs, runs, single and spurious polls; non-trivial: at least one change of the map (map_value_signal: and one of an entry's signal)",
    );
    r.family("map_value", 400_000, 6_000_000, mcase, map_value);
    r.family("map_value_signal", 600_000, 12_000_000, ecase, map_value_signal);
    r.family("key_cloned", 600_000, 9_000_000, mcase, key_cloned);
    r.family("map_value large", 500, 10_000, mcase_large, map_value);
    r.family("map_value_signal large", 300, 6_000, ecase_large, map_value_signal);
    r.family("key_cloned large", 500, 10_000, mcase_large, key_cloned);
    r.family("signal_vec_keys large", 500, 10_000, mcase_large, |c: &MCase, obs: &mut Obs| views(c, obs, View::Keys));
    r.family("signal_vec_entries large", 500, 10_000, mcase_large, |c: &MCase, obs: &mut Obs| views(c, obs, View::Entries));
    r.family("signal_vec_keys", 300_000, 5_000_000, mcase, |c: &MCase, obs: &mut Obs| views(c, obs, View::Keys));
    r.family("signal_vec_entries", 300_000, 5_000_000, mcase, |c: &MCase, obs: &mut Obs| views(c, obs, View::Entries));
    r.family("entries_cloned", 200_000, 3_000_000, mcase, |c: &MCase, obs: &mut Obs| views(c, obs, View::EntriesCloned));
    r.family("always", 20_000, 200_000, || (entries(), any::<bool>()), always);
    r.finish()
}
