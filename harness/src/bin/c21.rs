//! C21: compositions of combinators are woken for every change and settle to the right value.
use futures_signals::signal::{self, Mutable, ReadOnlyMutable, Signal, SignalExt};
use futures_signals::signal_map::{MapDiff, MutableBTreeMap, SignalMap, SignalMapExt};
use futures_signals::signal_vec::{self, MutableVec, SignalVec, SignalVecExt, VecDiff};
use futures_signals::{map_mut, map_ref};
use harness::adapters::*;
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::{apply, apply_map, Task};
use harness::mapsrc::{mop, MOp, MapScript};
use harness::sources::{Gate, Src};
use harness::vecsrc::{pick, vop, VOp, VecScript};
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

type BoxS = Pin<Box<dyn Signal<Item = i64>>>;
type BoxV = Pin<Box<dyn SignalVec<Item = i64>>>;
type BoxM = Pin<Box<dyn SignalMap<Key = u16, Value = i64>>>;

const MOD: i64 = 16;

fn md(x: i64) -> i64 {
    x.rem_euclid(MOD)
}

// ---------------------------------------------------------------- expressions

/// A signal.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum S {
    Leaf(u8),
    Const(u8),
    Map(Box<S>, u8),
    Same(Box<S>, u8),
    Dedupe(Box<S>, u8),
    Eq(Box<S>, u8, bool),
    Not(Box<S>),
    And(Box<S>, Box<S>, bool),
    MapRef2(Box<S>, Box<S>, bool),
    MapRef3(Box<S>, Box<S>, Box<S>, bool),
    /// the selector, and two signals to select from
    Switch(Box<S>, Box<S>, Box<S>, bool),
    MapFuture(Box<S>, bool),
    Throttle(Box<S>, bool),
    Stream(Box<S>),
    Broadcast(Box<S>),
    Diamond(Box<S>),
    Len(Box<V>),
    IsEmpty(Box<V>),
    Sum(Box<V>),
    ToSignal(Box<V>, bool),
    Key(Box<M>, u8),
}

/// A vector.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum V {
    Leaf(u8),
    Always(Vec<u8>),
    Map(Box<V>, u8),
    Same(Box<V>, u8),
    Filter(Box<V>, u8),
    FilterMap(Box<V>, u8),
    Sort(Box<V>),
    Enumerate(Box<V>),
    Chain(Box<V>, Box<V>),
    Flatten(Box<V>, Box<V>),
    MapSignal(Box<V>, Box<S>),
    FilterSignal(Box<V>, Box<S>),
    FromSignal(Box<S>),
    Switch(Box<S>, Box<V>, Box<V>),
    DelayRemove(Box<V>, bool),
    Keys(u8),
    Entries(u8),
}

/// A map.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum M {
    Leaf(u8),
    MapValue(Box<M>, u8),
    MapValueSignal(Box<M>, Box<S>),
    Same(Box<M>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Top {
    S(S),
    V(V),
    M(M),
}

fn levels(depth: usize) -> (BoxedStrategy<S>, BoxedStrategy<V>, BoxedStrategy<M>) {
    let s0 = prop_oneof![8 => (0u8..3).prop_map(S::Leaf), 1 => (0u8..16).prop_map(S::Const)].boxed();
    let v0 = prop_oneof![
        8 => (0u8..2).prop_map(V::Leaf),
        1 => proptest::collection::vec(0u8..16, 0..4).prop_map(V::Always),
        1 => (0u8..2).prop_map(V::Keys),
        1 => (0u8..2).prop_map(V::Entries),
    ]
    .boxed();
    let m0 = (0u8..2).prop_map(M::Leaf).boxed();
    let (mut s, mut v, mut m) = (s0.clone(), v0.clone(), m0.clone());
    for _ in 0..depth {
        let bs = || s.clone().prop_map(Box::new);
        let bv = || v.clone().prop_map(Box::new);
        let bm = || m.clone().prop_map(Box::new);
        let s2 = prop_oneof![
            3 => s0.clone(),
            2 => (bs(), any::<u8>()).prop_map(|(a, k)| S::Map(a, k)),
            1 => (bs(), any::<u8>()).prop_map(|(a, k)| S::Same(a, k)),
            2 => (bs(), any::<u8>()).prop_map(|(a, k)| S::Dedupe(a, k)),
            1 => (bs(), 0u8..6, any::<bool>()).prop_map(|(a, k, b)| S::Eq(a, k, b)),
            1 => bs().prop_map(S::Not),
            1 => (bs(), bs(), any::<bool>()).prop_map(|(a, b, c)| S::And(a, b, c)),
            2 => (bs(), bs(), any::<bool>()).prop_map(|(a, b, c)| S::MapRef2(a, b, c)),
            1 => (bs(), bs(), bs(), any::<bool>()).prop_map(|(a, b, c, d)| S::MapRef3(a, b, c, d)),
            5 => (bs(), bs(), bs(), any::<bool>()).prop_map(|(a, b, c, d)| S::Switch(a, b, c, d)),
            2 => (bs(), any::<bool>()).prop_map(|(a, b)| S::MapFuture(a, b)),
            2 => (bs(), any::<bool>()).prop_map(|(a, b)| S::Throttle(a, b)),
            1 => bs().prop_map(S::Stream),
            2 => bs().prop_map(S::Broadcast),
            2 => bs().prop_map(S::Diamond),
            2 => bv().prop_map(S::Len),
            1 => bv().prop_map(S::IsEmpty),
            1 => bv().prop_map(S::Sum),
            3 => (bv(), any::<bool>()).prop_map(|(a, b)| S::ToSignal(a, b)),
            3 => (bm(), 0u8..6).prop_map(|(a, k)| S::Key(a, k)),
        ]
        .boxed();
        let v2 = prop_oneof![
            3 => v0.clone(),
            1 => (bv(), any::<u8>()).prop_map(|(a, k)| V::Map(a, k)),
            1 => (bv(), any::<u8>()).prop_map(|(a, k)| V::Same(a, k)),
            2 => (bv(), any::<u8>()).prop_map(|(a, k)| V::Filter(a, k)),
            1 => (bv(), any::<u8>()).prop_map(|(a, k)| V::FilterMap(a, k)),
            3 => bv().prop_map(V::Sort),
            3 => bv().prop_map(V::Enumerate),
            4 => (bv(), bv()).prop_map(|(a, b)| V::Chain(a, b)),
            4 => (bv(), bv()).prop_map(|(a, b)| V::Flatten(a, b)),
            4 => (bv(), bs()).prop_map(|(a, b)| V::MapSignal(a, b)),
            4 => (bv(), bs()).prop_map(|(a, b)| V::FilterSignal(a, b)),
            3 => bs().prop_map(V::FromSignal),
            4 => (bs(), bv(), bv()).prop_map(|(a, b, c)| V::Switch(a, b, c)),
            3 => (bv(), any::<bool>()).prop_map(|(a, b)| V::DelayRemove(a, b)),
        ]
        .boxed();
        let m2 = prop_oneof![
            3 => m0.clone(),
            1 => (bm(), any::<u8>()).prop_map(|(a, k)| M::MapValue(a, k)),
            4 => (bm(), bs()).prop_map(|(a, b)| M::MapValueSignal(a, b)),
            1 => bm().prop_map(M::Same),
        ]
        .boxed();
        s = s2;
        v = v2;
        m = m2;
    }
    (s, v, m)
}

// ---------------------------------------------------------------- sources

struct SLeaf {
    kind: u8,
    value: i64,
    ended: bool,
    subs: Vec<Src<i64>>,
    rw: Option<Mutable<i64>>,
    ro: ReadOnlyMutable<i64>,
}

struct VLeaf {
    values: Vec<i64>,
    ended: bool,
    subs: Vec<Src<VecDiff<i64>>>,
    real: bool,
    rw: Option<MutableVec<i64>>,
}

struct MLeaf {
    values: BTreeMap<u16, i64>,
    ended: bool,
    subs: Vec<Src<MapDiff<u16, i64>>>,
    real: bool,
    rw: Option<MutableBTreeMap<u16, i64>>,
}

#[derive(Default)]
struct World {
    s: Vec<SLeaf>,
    v: Vec<VLeaf>,
    m: Vec<MLeaf>,
    gates: Vec<Gate<()>>,
    error: Option<String>,
    subscriptions: usize,
}

fn prune<T>(subs: &mut Vec<Src<T>>, error: &mut Option<String>) {
    subs.retain(|s| {
        if let Err(e) = s.check("a source") {
            *error = Some(e);
        }
        !s.get(|s| s.dropped)
    })
}

impl World {
    fn check(&mut self) -> Outcome {
        for l in &mut self.s {
            prune(&mut l.subs, &mut self.error)
        }
        for l in &mut self.v {
            prune(&mut l.subs, &mut self.error)
        }
        for l in &mut self.m {
            prune(&mut l.subs, &mut self.error)
        }
        self.error.clone().map_or(Ok(()), Err)
    }
}

type W = Rc<RefCell<World>>;

fn future(w: &W, gated: bool) -> Pin<Box<dyn Future<Output = ()>>> {
    if gated {
        let g = Gate::new();
        let f = g.future();
        w.borrow_mut().gates.push(g);
        Box::pin(f)
    } else {
        Box::pin(std::future::ready(()))
    }
}

fn build_s(e: &S, w: &W) -> BoxS {
    match e {
        S::Leaf(i) => {
            let mut world = w.borrow_mut();
            world.subscriptions += 1;
            let l = &mut world.s[*i as usize];
            if l.kind == 2 {
                return match &l.rw {
                    Some(m) if l.value % 2 == 0 => Box::pin(m.signal_cloned()),
                    Some(m) if l.value % 3 == 0 => Box::pin(m.signal_ref(|x| *x)),
                    _ => Box::pin(l.ro.signal()),
                };
            }
            let s = if l.kind == 1 { Src::lossy() } else { Src::new() };
            s.push(l.value);
            if l.ended {
                s.end();
            }
            let r = s.signal();
            l.subs.push(s);
            Box::pin(r)
        }
        S::Const(k) => Box::pin(signal::always(*k as i64)),
        S::Map(a, k) => {
            let k = *k as i64;
            Box::pin(build_s(a, w).map(move |x| md(x * k + k)))
        }
        S::Same(a, k) => {
            let s = build_s(a, w);
            match k % 7 {
                4 => AsSend(s).boxed(),
                5 => Box::pin(in_box(AsSend(s))),
                6 => Box::pin(ByRef(s)),
                0 => Box::pin(s.inspect(|_| {})),
                1 => s.boxed_local(),
                2 => Box::pin(signal::option(Some(s)).map(|x| x.unwrap_or(-1))),
                _ => Box::pin(signal::result(Ok::<_, ()>(s)).map(|x| x.unwrap_or(-1))),
            }
        }
        S::Dedupe(a, k) => {
            let s = build_s(a, w);
            match k % 3 {
                0 => Box::pin(s.dedupe()),
                1 => Box::pin(s.dedupe_cloned()),
                _ => Box::pin(s.dedupe_map(|x| *x)),
            }
        }
        S::Eq(a, k, b) => {
            let s = build_s(a, w);
            if *b {
                Box::pin(s.eq(*k as i64).map(|x| x as i64))
            } else {
                Box::pin(s.neq(*k as i64).map(|x| x as i64))
            }
        }
        S::Not(a) => Box::pin(signal::not(build_s(a, w).map(|x| x % 2 == 0)).map(|x| x as i64)),
        S::And(a, b, and) => {
            let a = build_s(a, w).map(|x| x % 2 == 0);
            let b = build_s(b, w).map(|x| x % 2 == 0);
            if *and {
                Box::pin(signal::and(a, b).map(|x| x as i64))
            } else {
                Box::pin(signal::or(a, b).map(|x| x as i64))
            }
        }
        S::MapRef2(a, b, m) => {
            let (a, b) = (build_s(a, w), build_s(b, w));
            if *m {
                Box::pin(map_mut! { let a = a, let b = b => md(*a + 3 * *b) })
            } else {
                Box::pin(map_ref! { let a = a, let b = b => md(*a + 3 * *b) })
            }
        }
        S::MapRef3(a, b, c, m) => {
            let (a, b, c) = (build_s(a, w), build_s(b, w), build_s(c, w));
            if *m {
                Box::pin(map_mut! { let a = a, let b = b, let c = c => md(*a + 3 * *b + 5 * *c) })
            } else {
                Box::pin(map_ref! { let a = a, let b = b, let c = c => md(*a + 3 * *b + 5 * *c) })
            }
        }
        S::Switch(sel, a, b, flat) => {
            let sel = build_s(sel, w);
            let (a, b, w) = (a.clone(), b.clone(), w.clone());
            let f = move |x: i64| -> BoxS {
                match x % 3 {
                    0 => build_s(&a, &w),
                    1 => build_s(&b, &w),
                    _ => Box::pin(signal::always(x)),
                }
            };
            if *flat {
                Box::pin(sel.map(f).flatten())
            } else {
                Box::pin(sel.switch(f))
            }
        }
        S::MapFuture(a, gated) => {
            let s = build_s(a, w);
            let (w, gated) = (w.clone(), *gated);
            Box::pin(
                s.map_future(move |x| {
                    let f = future(&w, gated);
                    async move {
                        f.await;
                        md(x + 1)
                    }
                })
                .map(|x| x.unwrap_or(-1)),
            )
        }
        S::Throttle(a, gated) => {
            let s = build_s(a, w);
            let (w, gated) = (w.clone(), *gated);
            Box::pin(s.throttle(move || future(&w, gated)))
        }
        S::Stream(a) => Box::pin(signal::from_stream(build_s(a, w).to_stream()).map(|x| x.unwrap_or(-1))),
        S::Broadcast(a) => Box::pin(build_s(a, w).broadcast().signal_cloned()),
        S::Diamond(a) => {
            let b = build_s(a, w).broadcast();
            let (x, y) = (b.signal(), b.signal_cloned().map(|x| 2 * x));
            Box::pin(map_ref! { let x = x, let y = y => md(*x + *y) })
        }
        S::Len(a) => Box::pin(build_v(a, w).len().map(|x| md(x as i64))),
        S::IsEmpty(a) => Box::pin(build_v(a, w).is_empty().map(|x| x as i64)),
        S::Sum(a) => Box::pin(build_v(a, w).sum().map(md)),
        S::ToSignal(a, map) => {
            let a = build_v(a, w);
            if *map {
                Box::pin(a.to_signal_map(fold))
            } else {
                Box::pin(a.to_signal_cloned().map(|x| fold(&x)))
            }
        }
        S::Key(a, k) => Box::pin(build_m(a, w).key_cloned(*k as u16).map(|x| x.unwrap_or(-1))),
    }
}

fn fold(x: &[i64]) -> i64 {
    md(x.iter().enumerate().map(|(i, x)| (2 * i as i64 + 1) * (x + 1)).sum())
}

fn spread(x: i64) -> Vec<i64> {
    (0..x.rem_euclid(4)).map(|i| md(x + i)).collect()
}

fn build_v(e: &V, w: &W) -> BoxV {
    match e {
        V::Leaf(i) => {
            let mut world = w.borrow_mut();
            world.subscriptions += 1;
            let l = &mut world.v[*i as usize];
            if l.real {
                return match &l.rw {
                    Some(m) => Box::pin(m.signal_vec()),
                    None => Box::pin(signal_vec::always(l.values.clone())),
                };
            }
            let s = Src::new();
            if !l.values.is_empty() {
                s.push(VecDiff::Replace { values: l.values.clone() });
            }
            if l.ended {
                s.end();
            }
            let r = VecScript(s.signal());
            l.subs.push(s);
            Box::pin(r)
        }
        V::Always(v) => Box::pin(signal_vec::always(v.iter().map(|x| *x as i64).collect())),
        V::Map(a, k) => {
            let k = *k as i64;
            Box::pin(build_v(a, w).map(move |x| md(x * k + k)))
        }
        V::Same(a, k) => {
            let s = build_v(a, w);
            match k % 5 {
                0 => Box::pin(s.map(|x| x)),
                1 => AsSend(s).boxed(),
                2 => Box::pin(in_box(AsSend(s))),
                3 => Box::pin(ByRef(s)),
                _ => s.boxed_local(),
            }
        }
        V::Filter(a, k) => {
            let k = *k as i64;
            Box::pin(build_v(a, w).filter(move |x| (x + k) % 3 != 0))
        }
        V::FilterMap(a, k) => {
            let k = *k as i64;
            Box::pin(build_v(a, w).filter_map(move |x| ((x + k) % 3 != 0).then_some(md(x + 1))))
        }
        V::Sort(a) => Box::pin(build_v(a, w).sort_by_cloned(|a, b| (a % 4).cmp(&(b % 4)))),
        V::Enumerate(a) => Box::pin(build_v(a, w).enumerate().map_signal(|(i, x)| {
            i.signal().map(move |i| i.map_or(-1, |i| md(x + 2 * i as i64)))
        })),
        V::Chain(a, b) => Box::pin(build_v(a, w).chain(build_v(b, w))),
        V::Flatten(a, b) => {
            let a = build_v(a, w);
            let (b, w) = (b.clone(), w.clone());
            Box::pin(
                a.map(move |x| -> BoxV {
                    match x % 3 {
                        0 => Box::pin(signal_vec::always(spread(x))),
                        _ => Box::pin(build_v(&b, &w).map(move |y| md(x + y))),
                    }
                })
                .flatten(),
            )
        }
        V::MapSignal(a, b) => {
            let a = build_v(a, w);
            let (b, w) = (b.clone(), w.clone());
            Box::pin(a.map_signal(move |x| build_s(&b, &w).map(move |y| md(x + 3 * y))))
        }
        V::FilterSignal(a, b) => {
            let a = build_v(a, w);
            let (b, w) = (b.clone(), w.clone());
            Box::pin(a.filter_signal_cloned(move |x| {
                let x = *x;
                build_s(&b, &w).map(move |y| (x + y) % 3 != 0)
            }))
        }
        V::FromSignal(a) => Box::pin(build_s(a, w).map(spread).to_signal_vec()),
        V::Switch(sel, a, b) => {
            let sel = build_s(sel, w);
            let (a, b, w) = (a.clone(), b.clone(), w.clone());
            Box::pin(sel.switch_signal_vec(move |x| -> BoxV {
                match x % 3 {
                    0 => build_v(&a, &w),
                    1 => build_v(&b, &w),
                    _ => Box::pin(signal_vec::always(spread(x))),
                }
            }))
        }
        V::DelayRemove(a, gated) => {
            let a = build_v(a, w);
            let (w, gated) = (w.clone(), *gated);
            Box::pin(a.delay_remove(move |_| future(&w, gated)))
        }
        V::Keys(i) | V::Entries(i) => {
            let l = &w.borrow().m[*i as usize];
            match (&l.rw, e) {
                (Some(m), V::Keys(_)) => Box::pin(m.signal_vec_keys().map(|k| k as i64)),
                (Some(m), _) => Box::pin(m.signal_vec_entries().map(|(k, v)| md(k as i64 + 5 * v))),
                (None, V::Keys(_)) => Box::pin(signal_vec::always(l.values.keys().map(|k| *k as i64).collect())),
                (None, _) => Box::pin(signal_vec::always(l.values.iter().map(|(k, v)| md(*k as i64 + 5 * v)).collect())),
            }
        }
    }
}

/// A map which never changes.
struct Fixed(Option<Vec<(u16, i64)>>);
impl SignalMap for Fixed {
    type Key = u16;
    type Value = i64;
    fn poll_map_change(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<MapDiff<u16, i64>>> {
        Poll::Ready(self.0.take().map(|entries| MapDiff::Replace { entries }))
    }
}

fn build_m(e: &M, w: &W) -> BoxM {
    match e {
        M::Leaf(i) => {
            let mut world = w.borrow_mut();
            world.subscriptions += 1;
            let l = &mut world.m[*i as usize];
            let entries: Vec<(u16, i64)> = l.values.iter().map(|(k, v)| (*k, *v)).collect();
            if l.real {
                return match &l.rw {
                    Some(m) => Box::pin(m.signal_map()),
                    None => Box::pin(Fixed(Some(entries))),
                };
            }
            let s = Src::new();
            if !entries.is_empty() {
                s.push(MapDiff::Replace { entries });
            }
            if l.ended {
                s.end();
            }
            let r = MapScript(s.signal());
            l.subs.push(s);
            Box::pin(r)
        }
        M::MapValue(a, k) => {
            let k = *k as i64;
            Box::pin(build_m(a, w).map_value(move |x| md(x * k + k)))
        }
        M::MapValueSignal(a, b) => {
            let a = build_m(a, w);
            let (b, w) = (b.clone(), w.clone());
            Box::pin(a.map_value_signal(move |x| build_s(&b, &w).map(move |y| md(x + 3 * y))))
        }
        M::Same(a) => build_m(a, w).boxed_local(),
    }
}

// ---------------------------------------------------------------- what is expected

/// The value, and whether it can't change any more.
fn eval_s(e: &S, w: &World) -> (i64, bool) {
    let bit = |a: &S| {
        let (x, end) = eval_s(a, w);
        (x % 2 == 0, end)
    };
    match e {
        S::Leaf(i) => (w.s[*i as usize].value, w.s[*i as usize].ended),
        S::Const(k) => (*k as i64, true),
        S::Map(a, k) => {
            let (x, end) = eval_s(a, w);
            (md(x * *k as i64 + *k as i64), end)
        }
        S::Same(a, _) | S::Dedupe(a, _) | S::Throttle(a, _) | S::Stream(a) | S::Broadcast(a) => eval_s(a, w),
        S::Eq(a, k, b) => {
            let (x, end) = eval_s(a, w);
            (((x == *k as i64) == *b) as i64, end)
        }
        S::Not(a) => {
            let (x, end) = bit(a);
            (!x as i64, end)
        }
        S::And(a, b, and) => {
            let ((x, xe), (y, ye)) = (bit(a), bit(b));
            (if *and { x && y } else { x || y } as i64, xe && ye)
        }
        S::MapRef2(a, b, _) => {
            let ((x, xe), (y, ye)) = (eval_s(a, w), eval_s(b, w));
            (md(x + 3 * y), xe && ye)
        }
        S::MapRef3(a, b, c, _) => {
            let ((x, xe), (y, ye), (z, ze)) = (eval_s(a, w), eval_s(b, w), eval_s(c, w));
            (md(x + 3 * y + 5 * z), xe && ye && ze)
        }
        S::Switch(sel, a, b, _) => {
            let (x, end) = eval_s(sel, w);
            let (y, inner) = match x % 3 {
                0 => eval_s(a, w),
                1 => eval_s(b, w),
                _ => (x, true),
            };
            (y, end && inner)
        }
        S::MapFuture(a, _) => {
            let (x, end) = eval_s(a, w);
            (md(x + 1), end)
        }
        S::Diamond(a) => {
            let (x, end) = eval_s(a, w);
            (md(3 * x), end)
        }
        S::Len(a) => {
            let (x, end) = eval_v(a, w);
            (md(x.len() as i64), end)
        }
        S::IsEmpty(a) => {
            let (x, end) = eval_v(a, w);
            (x.is_empty() as i64, end)
        }
        S::Sum(a) => {
            let (x, end) = eval_v(a, w);
            (md(x.iter().sum()), end)
        }
        S::ToSignal(a, _) => {
            let (x, end) = eval_v(a, w);
            (fold(&x), end)
        }
        S::Key(a, k) => {
            let (x, end) = eval_m(a, w);
            (x.get(&(*k as u16)).copied().unwrap_or(-1), end)
        }
    }
}

fn eval_v(e: &V, w: &World) -> (Vec<i64>, bool) {
    match e {
        V::Leaf(i) => (w.v[*i as usize].values.clone(), w.v[*i as usize].ended),
        V::Always(v) => (v.iter().map(|x| *x as i64).collect(), true),
        V::Map(a, k) => {
            let (x, end) = eval_v(a, w);
            (x.into_iter().map(|x| md(x * *k as i64 + *k as i64)).collect(), end)
        }
        V::Same(a, _) | V::DelayRemove(a, _) => eval_v(a, w),
        V::Filter(a, k) => {
            let (x, end) = eval_v(a, w);
            (x.into_iter().filter(|x| (x + *k as i64) % 3 != 0).collect(), end)
        }
        V::FilterMap(a, k) => {
            let (x, end) = eval_v(a, w);
            (x.into_iter().filter(|x| (x + *k as i64) % 3 != 0).map(|x| md(x + 1)).collect(), end)
        }
        V::Sort(a) => {
            let (mut x, end) = eval_v(a, w);
            x.sort_by_key(|x| x % 4);
            (x, end)
        }
        V::Enumerate(a) => {
            let (x, end) = eval_v(a, w);
            (x.into_iter().enumerate().map(|(i, x)| md(x + 2 * i as i64)).collect(), end)
        }
        V::Chain(a, b) => {
            let ((mut x, xe), (y, ye)) = (eval_v(a, w), eval_v(b, w));
            x.extend(y);
            (x, xe && ye)
        }
        V::Flatten(a, b) => {
            let (x, mut end) = eval_v(a, w);
            let (y, inner) = eval_v(b, w);
            let mut out = vec![];
            for x in x {
                if x % 3 == 0 {
                    out.extend(spread(x));
                } else {
                    out.extend(y.iter().map(|y| md(x + y)));
                    end &= inner;
                }
            }
            (out, end)
        }
        V::MapSignal(a, b) => {
            let ((x, xe), (y, ye)) = (eval_v(a, w), eval_s(b, w));
            let end = xe && (x.is_empty() || ye);
            (x.into_iter().map(|x| md(x + 3 * y)).collect(), end)
        }
        V::FilterSignal(a, b) => {
            let ((x, xe), (y, ye)) = (eval_v(a, w), eval_s(b, w));
            let end = xe && (x.is_empty() || ye);
            (x.into_iter().filter(|x| (x + y) % 3 != 0).collect(), end)
        }
        V::FromSignal(a) => {
            let (x, end) = eval_s(a, w);
            (spread(x), end)
        }
        V::Switch(sel, a, b) => {
            let (x, end) = eval_s(sel, w);
            let (y, inner) = match x % 3 {
                0 => eval_v(a, w),
                1 => eval_v(b, w),
                _ => (spread(x), true),
            };
            (y, end && inner)
        }
        V::Keys(i) => {
            let l = &w.m[*i as usize];
            (l.values.keys().map(|k| *k as i64).collect(), l.ended)
        }
        V::Entries(i) => {
            let l = &w.m[*i as usize];
            (l.values.iter().map(|(k, v)| md(*k as i64 + 5 * v)).collect(), l.ended)
        }
    }
}

fn eval_m(e: &M, w: &World) -> (BTreeMap<u16, i64>, bool) {
    match e {
        M::Leaf(i) => (w.m[*i as usize].values.clone(), w.m[*i as usize].ended),
        M::MapValue(a, k) => {
            let (x, end) = eval_m(a, w);
            (x.into_iter().map(|(key, x)| (key, md(x * *k as i64 + *k as i64))).collect(), end)
        }
        M::MapValueSignal(a, b) => {
            let ((x, xe), (y, ye)) = (eval_m(a, w), eval_s(b, w));
            let end = xe && (x.is_empty() || ye);
            (x.into_iter().map(|(k, x)| (k, md(x + 3 * y))).collect(), end)
        }
        M::Same(a) => eval_m(a, w),
    }
}

// ---------------------------------------------------------------- the pipeline as it is polled

#[derive(Default, Debug, PartialEq, Clone)]
struct Out {
    s: Option<i64>,
    v: Vec<i64>,
    m: BTreeMap<u16, i64>,
}

type Step1 = Box<dyn FnMut(&mut Context) -> Poll<Result<bool, String>>>;

fn pipeline(top: &Top, consumer: u8, w: &W, out: &Rc<RefCell<Out>>) -> Step1 {
    let out = out.clone();
    let failed: Rc<RefCell<Option<String>>> = Rc::default();
    let failed2 = failed.clone();
    // for_each and to_stream instead of polling the pipeline itself
    let wrap = move |mut f: Pin<Box<dyn Future<Output = ()>>>| -> Step1 {
        Box::new(move |cx| {
            let r = f.as_mut().poll(cx);
            if let Some(e) = failed.borrow().clone() {
                return Poll::Ready(Err(e));
            }
            r.map(|_| Ok(true))
        })
    };
    match top {
        Top::S(e) => {
            let mut s = build_s(e, w);
            match consumer % 3 {
                0 => wrap(Box::pin(s.for_each(move |x| {
                    out.borrow_mut().s = Some(x);
                    std::future::ready(())
                }))),
                1 => {
                    let mut s = s.to_stream();
                    Box::new(move |cx| {
                        futures_core::Stream::poll_next(Pin::new(&mut s), cx).map(|x| {
                            Ok(match x {
                                Some(x) => {
                                    out.borrow_mut().s = Some(x);
                                    false
                                }
                                None => true,
                            })
                        })
                    })
                }
                _ => Box::new(move |cx| {
                    let r = s.as_mut().poll_change(cx);
                    if out.borrow().s.is_none() && !matches!(r, Poll::Ready(Some(_))) {
                        return Poll::Ready(Err("no value on the first poll".into()));
                    }
                    r.map(|x| {
                        Ok(match x {
                            Some(x) => {
                                out.borrow_mut().s = Some(x);
                                false
                            }
                            None => true,
                        })
                    })
                }),
            }
        }
        Top::V(e) => {
            let mut s = build_v(e, w);
            match consumer % 3 {
                0 => wrap(Box::pin(s.for_each(move |d| {
                    if let Err(e) = apply(&mut out.borrow_mut().v, d) {
                        *failed2.borrow_mut() = Some(e);
                    }
                    std::future::ready(())
                }))),
                1 => {
                    let mut s = s.to_stream();
                    Box::new(move |cx| {
                        futures_core::Stream::poll_next(Pin::new(&mut s), cx).map(|x| match x {
                            Some(d) => apply(&mut out.borrow_mut().v, d).map(|_| false),
                            None => Ok(true),
                        })
                    })
                }
                _ => Box::new(move |cx| {
                    s.as_mut().poll_vec_change(cx).map(|x| match x {
                        Some(d) => apply(&mut out.borrow_mut().v, d).map(|_| false),
                        None => Ok(true),
                    })
                }),
            }
        }
        Top::M(e) => {
            let mut s = build_m(e, w);
            match consumer % 2 {
                0 => wrap(Box::pin(s.for_each(move |d| {
                    if let Err(e) = apply_map(&mut out.borrow_mut().m, d) {
                        *failed2.borrow_mut() = Some(e);
                    }
                    std::future::ready(())
                }))),
                _ => Box::new(move |cx| {
                    s.as_mut().poll_map_change(cx).map(|x| match x {
                        Some(d) => apply_map(&mut out.borrow_mut().m, d).map(|_| false),
                        None => Ok(true),
                    })
                }),
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Do {
    Signal(u8, u8),
    Vec(u8, VOp),
    Map(u8, MOp),
    /// A source wakes its poller while it is polled.
    Yield(u8),
    End(u8),
    Open,
    Settle,
    Run,
    Once,
    Spurious,
}

fn step() -> impl Strategy<Value = Do> {
    prop_oneof![
        6 => (0u8..3, 0u8..16).prop_map(|(i, x)| Do::Signal(i, x)),
        6 => (0u8..2, vop()).prop_map(|(i, x)| Do::Vec(i, x)),
        3 => (0u8..2, mop()).prop_map(|(i, x)| Do::Map(i, x)),
        1 => (0u8..3).prop_map(Do::Yield),
        1 => (0u8..7).prop_map(Do::End),
        2 => Just(Do::Open),
        6 => Just(Do::Settle),
        2 => Just(Do::Run),
        3 => Just(Do::Once),
        1 => Just(Do::Spurious),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    top: Top,
    consumer: u8,
    /// the kinds of the sources: scripted, scripted but keeping the latest only, or of the library
    kinds: (u8, u8, u8),
    real: u8,
    reuse: bool,
    steps: Vec<Do>,
    /// the order in which the sources end
    ends: u8,
    settle_last: bool,
}

fn case(depth: usize) -> impl Strategy<Value = Case> {
    let (s, v, m) = levels(depth);
    let top = prop_oneof![3 => s.prop_map(Top::S), 5 => v.prop_map(Top::V), 1 => m.prop_map(Top::M)];
    (
        top,
        any::<u8>(),
        (0u8..3, 0u8..3, 0u8..3),
        any::<u8>(),
        proptest::bool::weighted(0.2),
        harness::gen::script(step(), 16, 40),
        any::<u8>(),
        any::<bool>(),
    )
        .prop_map(|(top, consumer, kinds, real, reuse, steps, ends, settle_last)| Case {
            top,
            consumer,
            kinds,
            real,
            reuse,
            steps,
            ends,
            settle_last,
        })
}

fn set_signal(w: &W, i: usize, x: i64) -> bool {
    let (subs, m) = {
        let mut w = w.borrow_mut();
        let l = &mut w.s[i];
        if l.ended {
            return false;
        }
        l.value = x;
        (l.subs.clone(), l.rw.clone())
    };
    for s in subs {
        s.push(x);
    }
    if let Some(m) = m {
        m.set(x);
    }
    true
}

fn change_vec(w: &W, i: usize, op: &VOp) -> bool {
    let (d, subs, m) = {
        let mut w = w.borrow_mut();
        let l = &mut w.v[i];
        let n = l.values.len();
        if l.ended {
            return false;
        }
        let x = |k: &u8| *k as i64;
        let d = match op {
            VOp::Push(k) if n < 6 => VecDiff::Push { value: x(k) },
            VOp::Insert(i, k) if n < 6 => VecDiff::InsertAt { index: pick(*i, n + 1), value: x(k) },
            VOp::Update(i, k) if n > 0 => VecDiff::UpdateAt { index: pick(*i, n), value: x(k) },
            VOp::Remove(i) if n > 0 => VecDiff::RemoveAt { index: pick(*i, n) },
            VOp::Move(i, j) if n > 0 => VecDiff::Move { old_index: pick(*i, n), new_index: pick(*j, n) },
            VOp::Pop if n > 0 => VecDiff::Pop {},
            VOp::Clear => VecDiff::Clear {},
            VOp::Replace(k) => VecDiff::Replace { values: k.iter().take(5).map(x).collect() },
            _ => return false,
        };
        apply(&mut l.values, d.clone()).expect("legal");
        (d, l.subs.clone(), l.rw.clone())
    };
    for s in subs {
        s.push(d.clone());
    }
    if let Some(m) = m {
        let mut m = m.lock_mut();
        match d {
            VecDiff::Replace { values } => m.replace(values),
            VecDiff::InsertAt { index, value } => m.insert(index, value),
            VecDiff::UpdateAt { index, value } => m.set(index, value),
            VecDiff::RemoveAt { index } => {
                m.remove(index);
            }
            VecDiff::Move { old_index, new_index } => m.move_from_to(old_index, new_index),
            VecDiff::Push { value } => m.push(value),
            VecDiff::Pop {} => {
                m.pop();
            }
            VecDiff::Clear {} => m.clear(),
        }
    }
    true
}

fn change_map(w: &W, i: usize, op: &MOp) -> bool {
    let (d, subs, m) = {
        let mut w = w.borrow_mut();
        let l = &mut w.m[i];
        if l.ended {
            return false;
        }
        let d = match op {
            MOp::Put(k, v) => {
                let (key, value) = (*k % 6, *v as i64);
                match l.values.insert(key, value) {
                    None => MapDiff::Insert { key, value },
                    Some(_) => MapDiff::Update { key, value },
                }
            }
            MOp::Remove(k) => {
                if l.values.remove(k).is_none() {
                    return false;
                }
                MapDiff::Remove { key: *k }
            }
            MOp::Clear => {
                l.values.clear();
                MapDiff::Clear {}
            }
            MOp::Replace(e) => {
                l.values = e.iter().map(|(k, v)| (*k % 6, *v as i64)).collect();
                MapDiff::Replace { entries: l.values.iter().map(|(k, v)| (*k, *v)).collect() }
            }
        };
        (d, l.subs.clone(), l.rw.clone())
    };
    for s in subs {
        s.push(d.clone());
    }
    if let Some(m) = m {
        let mut m = m.lock_mut();
        match d {
            MapDiff::Replace { entries } => m.replace(entries.into_iter().collect()),
            MapDiff::Insert { key, value } | MapDiff::Update { key, value } => {
                m.insert(key, value);
            }
            MapDiff::Remove { key } => {
                m.remove(&key);
            }
            MapDiff::Clear {} => m.clear(),
        }
    }
    true
}

fn end(w: &W, i: usize) {
    let mut wakes: Vec<Box<dyn FnOnce()>> = vec![];
    {
        let mut w = w.borrow_mut();
        fn stop<T: 'static, M: 'static>(ended: &mut bool, subs: &[Src<T>], rw: &mut Option<M>, wakes: &mut Vec<Box<dyn FnOnce()>>) {
            if !std::mem::replace(ended, true) {
                let (subs, m) = (subs.to_vec(), rw.take());
                wakes.push(Box::new(move || {
                    for s in subs {
                        s.end()
                    }
                    drop(m)
                }));
            }
        }
        match i {
            0..=2 => {
                let l = &mut w.s[i];
                stop(&mut l.ended, &l.subs, &mut l.rw, &mut wakes)
            }
            3..=4 => {
                let l = &mut w.v[i - 3];
                stop(&mut l.ended, &l.subs, &mut l.rw, &mut wakes)
            }
            _ => {
                let l = &mut w.m[i - 5];
                stop(&mut l.ended, &l.subs, &mut l.rw, &mut wakes)
            }
        }
    }
    for f in wakes {
        f()
    }
}

struct Machine {
    step: Step1,
    task: Task,
    ended: bool,
}

impl Machine {
    fn poll(&mut self) -> Outcome {
        if self.ended {
            return Ok(());
        }
        let step = &mut self.step;
        if let Poll::Ready(r) = self.task.poll(|cx| step(cx)) {
            self.ended = r?;
        }
        Ok(())
    }
    fn run(&mut self) -> Outcome {
        let mut n = 0;
        while !self.ended && self.task.ready() {
            self.poll()?;
            n += 1;
            ensure!(n < 50_000, "it never becomes pending");
        }
        Ok(())
    }
}

/// Completes the first future which was not completed yet.
fn open(w: &W) -> bool {
    let g = {
        let mut w = w.borrow_mut();
        w.gates.retain(|g| !g.get(|s| s.done || s.dropped));
        let g = w.gates.iter().find(|g| !g.get(|s| s.opened())).cloned();
        g
    };
    match g {
        Some(g) => {
            g.open(());
            true
        }
        None => false,
    }
}

fn settle(m: &mut Machine, top: &Top, w: &W, out: &Rc<RefCell<Out>>) -> Outcome {
    let mut n = 0;
    loop {
        m.run()?;
        if !open(w) {
            break;
        }
        while open(w) {}
        n += 1;
        ensure!(n < 500, "it never settles");
    }
    w.borrow_mut().check()?;
    let world = w.borrow();
    let mut want = Out::default();
    let end;
    match top {
        Top::S(e) => {
            let (x, b) = eval_s(e, &world);
            want.s = Some(x);
            end = b;
        }
        Top::V(e) => {
            let (x, b) = eval_v(e, &world);
            want.v = x;
            end = b;
        }
        Top::M(e) => {
            let (x, b) = eval_m(e, &world);
            want.m = x;
            end = b;
        }
    }
    ensure_eq!(*out.borrow(), want, "output when nothing is woken");
    ensure_eq!(m.ended, end, "whether it has ended");
    Ok(())
}

fn run(case: &Case, obs: &mut Obs) -> Outcome {
    let w: W = Rc::default();
    {
        let mut w = w.borrow_mut();
        for (i, kind) in [case.kinds.0, case.kinds.1, case.kinds.2].into_iter().enumerate() {
            let m = Mutable::new(i as i64);
            let ro = m.read_only();
            w.s.push(SLeaf { kind, value: i as i64, ended: false, subs: vec![], rw: Some(m), ro });
        }
        for i in 0..2 {
            let values: Vec<i64> = (0..2 * i).collect();
            let rw = Some(MutableVec::new_with_values(values.clone()));
            w.v.push(VLeaf { values, ended: false, subs: vec![], real: case.real & (1 << i) != 0, rw });
        }
        for i in 0..2u8 {
            let values: BTreeMap<u16, i64> = (0..2 * i).map(|i| (i as u16, i as i64)).collect();
            let rw = Some(MutableBTreeMap::with_values(values.clone()));
            w.m.push(MLeaf { values, ended: false, subs: vec![], real: case.real & (8 << i) != 0, rw });
        }
    }
    let out: Rc<RefCell<Out>> = Rc::default();
    let mut m = Machine { step: pipeline(&case.top, case.consumer, &w, &out), task: Task::new(case.reuse), ended: false };
    let mut changes = 0;
    for step in &case.steps {
        match step {
            Do::Signal(i, x) => changes += set_signal(&w, *i as usize, *x as i64) as usize,
            Do::Vec(i, op) => changes += change_vec(&w, *i as usize, op) as usize,
            Do::Map(i, op) => changes += change_map(&w, *i as usize, op) as usize,
            Do::Yield(i) => {
                let subs = w.borrow().s[*i as usize].subs.clone();
                for s in subs {
                    // every signal has a value from the start
                    if s.get(|s| s.yielded > 0) {
                        s.self_wake();
                    }
                }
            }
            Do::End(i) => end(&w, *i as usize),
            Do::Open => {
                open(&w);
            }
            Do::Settle => settle(&mut m, &case.top, &w, &out)?,
            Do::Run => m.run()?,
            Do::Once => {
                if m.task.ready() {
                    m.poll()?;
                }
            }
            Do::Spurious => m.poll()?,
        }
    }
    if case.settle_last {
        settle(&mut m, &case.top, &w, &out)?;
    }
    for i in 0..7 {
        end(&w, (i + case.ends as usize) % 7);
        if case.ends & 64 != 0 {
            settle(&mut m, &case.top, &w, &out)?;
        }
    }
    settle(&mut m, &case.top, &w, &out)?;
    ensure!(m.ended, "not ended although all sources have");
    let n = w.borrow().subscriptions;
    obs.nontrivial_if(changes > 0 && n > 0);
    obs.label(match case.top {
        Top::S(_) => "a signal",
        Top::V(_) => "a vector",
        Top::M(_) => "a map",
    });
    obs.label_if(n > 3, "more than three subscriptions of sources");
    obs.label_if(m.task.polls > 20, "more than twenty polls");
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C21",
        "random compositions of Signal, SignalVec and SignalMap combinators over scripted and library sources which are changed and polled; non-trivial: a source is used and sources changed",
    );
    r.family("one", 150_000, 4_000_000, || case(1), run);
    r.family("two", 400_000, 12_000_000, || case(2), run);
    r.family("three", 400_000, 16_000_000, || case(3), run);
    r.family("four", 100_000, 8_000_000, || case(4), run);
    r.finish()
}
