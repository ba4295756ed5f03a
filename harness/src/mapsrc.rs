//! Legal MapDiff histories: scripted, or made by a real MutableBTreeMap.
use crate::driver::Outcome;
use crate::sources::{Script, Src};
use crate::vecsrc::El;
use futures_signals::signal_map::{MapDiff, MutableBTreeMap, SignalMap};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::pin::Pin;
use std::task::{Context, Poll};

pub type Key = u16;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MOp {
    /// insert or update
    Put(Key, u8),
    Remove(Key),
    Clear,
    Replace(Vec<(Key, u8)>),
}

pub const KEYS: Key = 6;

pub fn entries() -> impl Strategy<Value = Vec<(Key, u8)>> {
    prop_oneof![
        32 => proptest::collection::vec((0..KEYS, 0u8..4), 0..5),
        4 => proptest::collection::vec((0..60u16, 0u8..4), 0..60),
        1 => proptest::collection::vec((0..256u16, 0u8..4), 0..300),
    ]
}

/// Thousands of entries.
pub fn large_entries() -> impl Strategy<Value = Vec<(Key, u8)>> {
    (prop_oneof![4 => 257u16..700, 3 => 4000u16..9000, 1 => 60_000u16..=u16::MAX], 1u16..4, any::<u8>())
        .prop_map(|(n, step, p)| (0..n).map(|i| (i.wrapping_mul(step), (i as u8 ^ p) & 3)).collect())
}

/// Any key, mostly of those which large_entries has.
pub fn any_key() -> impl Strategy<Value = Key> {
    prop_oneof![2 => 0u16..700, 2 => 0u16..9000, 1 => any::<u16>()]
}

pub fn mkey() -> impl Strategy<Value = Key> {
    prop_oneof![48 => 0..KEYS, 4 => 0..60u16, 1 => any::<u8>().prop_map(|k| k as u16)]
}

pub fn mop() -> impl Strategy<Value = MOp> {
    prop_oneof![
        10 => (mkey(), 0u8..4).prop_map(|(k, v)| MOp::Put(k, v)),
        6 => mkey().prop_map(MOp::Remove),
        1 => Just(MOp::Clear),
        2 => entries().prop_map(MOp::Replace),
    ]
}

/// For maps from large_entries.
pub fn mop_large() -> impl Strategy<Value = MOp> {
    prop_oneof![
        10 => (any_key(), 0u8..4).prop_map(|(k, v)| MOp::Put(k, v)),
        6 => any_key().prop_map(MOp::Remove),
        1 => Just(MOp::Clear),
        2 => large_entries().prop_map(MOp::Replace),
    ]
}

#[derive(Default, Clone)]
pub struct MapModel {
    pub m: BTreeMap<Key, El>,
    next: u32,
}

impl MapModel {
    pub fn el(&mut self, k: u8) -> El {
        self.next += 1;
        El { k, id: self.next }
    }
    pub fn collect(&mut self, e: &[(Key, u8)]) -> BTreeMap<Key, El> {
        e.iter().map(|(k, v)| (*k, self.el(*v))).collect()
    }
    pub fn diff(&mut self, op: &MOp) -> Option<MapDiff<Key, El>> {
        Some(match op {
            MOp::Put(k, v) => {
                let value = self.el(*v);
                match self.m.insert(*k, value) {
                    None => MapDiff::Insert { key: *k, value },
                    Some(_) => MapDiff::Update { key: *k, value },
                }
            }
            MOp::Remove(k) => {
                self.m.remove(k)?;
                MapDiff::Remove { key: *k }
            }
            MOp::Clear => {
                self.m.clear();
                MapDiff::Clear {}
            }
            MOp::Replace(e) => {
                self.m = self.collect(e);
                MapDiff::Replace { entries: self.m.iter().map(|(k, v)| (*k, *v)).collect() }
            }
        })
    }
}

pub struct MapScript<K, V>(pub Script<MapDiff<K, V>>);

impl<K, V> Unpin for MapScript<K, V> {}

impl<K, V> SignalMap for MapScript<K, V> {
    type Key = K;
    type Value = V;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<K, V>>> {
        self.0.poll_step(cx)
    }
}

pub type BoxMap<K, V> = Pin<Box<dyn SignalMap<Key = K, Value = V>>>;

pub enum Feed {
    Scripted(Src<MapDiff<Key, El>>),
    Real(Option<MutableBTreeMap<Key, El>>),
}

pub struct MapSource {
    pub model: MapModel,
    pub feed: Feed,
    pub ended: bool,
    pub values: u64,
}

fn count(d: &MapDiff<Key, El>) -> u64 {
    match d {
        MapDiff::Replace { entries } => entries.len() as u64,
        MapDiff::Insert { .. } | MapDiff::Update { .. } => 1,
        _ => 0,
    }
}

impl MapSource {
    pub fn new(real: bool, init: &[(Key, u8)]) -> (Self, BoxMap<Key, El>) {
        let mut model = MapModel::default();
        model.m = model.collect(init);
        let values = model.m.len() as u64;
        if real {
            let m = MutableBTreeMap::with_values(model.m.clone());
            let s = m.signal_map();
            (MapSource { model, feed: Feed::Real(Some(m)), ended: false, values }, Box::pin(s))
        } else {
            let src = Src::new();
            if !model.m.is_empty() {
                src.push(MapDiff::Replace { entries: model.m.iter().map(|(k, v)| (*k, *v)).collect() });
            }
            let s = MapScript(src.signal());
            (MapSource { model, feed: Feed::Scripted(src), ended: false, values }, Box::pin(s))
        }
    }
    pub fn op(&mut self, op: &MOp) -> Option<MapDiff<Key, El>> {
        if self.ended {
            return None;
        }
        let was_empty = self.model.m.is_empty();
        let d = self.model.diff(op)?;
        self.values += count(&d);
        match &self.feed {
            Feed::Scripted(s) => s.push(d.clone()),
            Feed::Real(Some(m)) => {
                let mut m = m.lock_mut();
                match &d {
                    MapDiff::Replace { entries } => m.replace(entries.iter().copied().collect()),
                    MapDiff::Insert { key, value } | MapDiff::Update { key, value } => {
                        m.insert(*key, *value);
                    }
                    MapDiff::Remove { key } => {
                        m.remove(key);
                    }
                    MapDiff::Clear {} => {
                        m.clear();
                        if was_empty {
                            return None;
                        }
                    }
                }
            }
            Feed::Real(None) => unreachable!(),
        }
        Some(d)
    }
    pub fn self_wake(&mut self) {
        if let (Feed::Scripted(s), false) = (&self.feed, self.ended) {
            s.self_wake()
        }
    }
    pub fn end(&mut self) {
        if !self.ended {
            self.ended = true;
            match &mut self.feed {
                Feed::Scripted(s) => s.end(),
                Feed::Real(m) => *m = None,
            }
        }
    }
    pub fn check(&self, what: &str) -> Outcome {
        match &self.feed {
            Feed::Scripted(s) => s.check(what),
            _ => Ok(()),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MStep {
    Op(MOp),
    Run,
    Once,
    Spurious,
    Yield,
}

pub fn mstep() -> impl Strategy<Value = MStep> {
    prop_oneof![
        10 => mop().prop_map(MStep::Op),
        4 => Just(MStep::Run),
        1 => Just(MStep::Once),
        1 => Just(MStep::Spurious),
        1 => Just(MStep::Yield),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MCase {
    pub real: bool,
    pub reuse: bool,
    pub init: Vec<(Key, u8)>,
    pub steps: Vec<MStep>,
    pub settle: bool,
    pub param: u8,
}

/// A few steps on large maps.
pub fn mcase_large() -> impl Strategy<Value = MCase> {
    let step = prop_oneof![1 => mop_large().prop_map(MStep::Op), 1 => mstep()];
    (proptest::bool::weighted(0.25), any::<bool>(), large_entries(), proptest::collection::vec(step, 2..16), any::<bool>(), any::<u8>())
        .prop_map(|(real, reuse, init, steps, settle, param)| MCase { real, reuse, init, steps, settle, param })
}

pub fn mcase() -> impl Strategy<Value = MCase> {
    (
        proptest::bool::weighted(0.25),
        proptest::bool::weighted(0.2),
        entries(),
        crate::gen::script(mstep(), 25, 120),
        any::<bool>(),
        any::<u8>(),
    )
        .prop_map(|(real, reuse, init, steps, settle, param)| MCase { real, reuse, init, steps, settle, param })
}
