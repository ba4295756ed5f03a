//! C25: serde of Mutable, MutableVec and MutableBTreeMap.
use bincode::Options;
use futures_signals::signal::{Mutable, SignalExt};
use futures_signals::signal_map::{MapDiff, MutableBTreeMap};
use futures_signals::signal_vec::{MutableVec, VecDiff};
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::{MapSink, SigSink, VecSink};
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use std::fmt::Debug;

/// A value which can't always be serialised, and can't always be deserialised.
#[derive(Clone, Debug, PartialEq)]
struct Odd(u8);

impl Serialize for Odd {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 > 250 {
            Err(serde::ser::Error::custom("odd"))
        } else {
            self.0.serialize(s)
        }
    }
}

impl<'de> Deserialize<'de> for Odd {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u8::deserialize(d)? {
            x if x > 240 => Err(serde::de::Error::custom("odd")),
            x => Ok(Odd(x)),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum En {
    Unit,
    Number(i64),
    Pair(u8, Option<String>),
    Fields { a: bool, b: Vec<u16> },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Rec {
    odd: Odd,
    name: Option<String>,
    items: Vec<En>,
    map: BTreeMap<u8, Option<u32>>,
    unit: (),
}

/// Generated values; unlike `Rec` every case can be written to a replay file.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seed {
    odd: u8,
    name: Option<String>,
    items: Vec<(u8, i64)>,
    map: Vec<(u8, Option<u32>)>,
}

impl Seed {
    fn rec(&self) -> Rec {
        Rec {
            odd: Odd(self.odd),
            name: self.name.clone(),
            items: self
                .items
                .iter()
                .map(|(k, n)| match k % 4 {
                    0 => En::Unit,
                    1 => En::Number(*n),
                    2 => En::Pair(*k, (*n % 2 == 0).then(|| n.to_string())),
                    _ => En::Fields { a: *n > 0, b: vec![*n as u16; (*k >> 2) as usize % 3] },
                })
                .collect(),
            map: self.map.iter().cloned().collect(),
            unit: (),
        }
    }
}

fn seed() -> impl Strategy<Value = Seed> {
    (
        prop_oneof![20 => 0u8..240, 1 => 240u8..=255],
        proptest::option::of("[a-z\"\\\\é]{0,4}"),
        proptest::collection::vec((any::<u8>(), any::<i64>()), 0..3),
        proptest::collection::vec((any::<u8>(), any::<Option<u32>>()), 0..3),
    )
        .prop_map(|(odd, name, items, map)| Seed { odd, name, items, map })
}

/// An edit of serialised text or bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Delete(u16, u8),
    Insert(u16, u8),
    Set(u16, u8),
    Copy(u16, u16, u8),
    Cut(u16),
}

const TEXT: &[u8] = b"0123456789-+.,:\"[]{}()nulltrefasSomeUnitNone \\xE\xff";

fn edits() -> impl Strategy<Value = Vec<Edit>> {
    proptest::collection::vec(
        prop_oneof![
            (any::<u16>(), 1u8..4).prop_map(|(i, n)| Edit::Delete(i, n)),
            (any::<u16>(), any::<u8>()).prop_map(|(i, b)| Edit::Insert(i, b)),
            (any::<u16>(), any::<u8>()).prop_map(|(i, b)| Edit::Set(i, b)),
            (any::<u16>(), any::<u16>(), 1u8..12).prop_map(|(i, j, n)| Edit::Copy(i, j, n)),
            any::<u16>().prop_map(Edit::Cut),
        ],
        0..4,
    )
}

fn edit(bytes: &[u8], edits: &[Edit], text: bool) -> Vec<u8> {
    let mut b = bytes.to_vec();
    let byte = |x: u8| if text { TEXT[x as usize % TEXT.len()] } else { x };
    for e in edits {
        let n = b.len();
        let at = |i: u16, n: usize| i as usize % n.max(1);
        match *e {
            Edit::Delete(i, k) => {
                let i = at(i, n);
                b.drain(i.min(n)..(i + k as usize).min(n));
            }
            Edit::Insert(i, x) => b.insert(at(i, n + 1), byte(x)),
            Edit::Set(i, x) if n > 0 => b[at(i, n)] = byte(x),
            Edit::Copy(i, j, k) => {
                let i = at(i, n);
                let part = b[i.min(n)..(i + k as usize).min(n)].to_vec();
                let j = at(j, n + 1);
                b.splice(j..j, part);
            }
            Edit::Cut(i) => b.truncate(at(i, n + 1)),
            _ => {}
        }
    }
    b
}

/// Compares a container with the plain value which it contains.
fn compare<P, M>(plain: &P, container: &M, edits: &[Edit], read: impl Fn(&M) -> P, obs: &mut Obs) -> Outcome
where
    P: Serialize + DeserializeOwned + PartialEq + Debug,
    M: Serialize + DeserializeOwned,
{
    let bin = || bincode::DefaultOptions::new().with_limit(100_000);
    let formats: [(&str, fn(&P) -> Option<Vec<u8>>, fn(&M) -> Option<Vec<u8>>, fn(&[u8]) -> Option<P>, fn(&[u8]) -> Option<M>); 4] = [
        (
            "json",
            |p| serde_json::to_vec(p).ok(),
            |m| serde_json::to_vec(m).ok(),
            |b| serde_json::from_slice(b).ok(),
            |b| serde_json::from_slice(b).ok(),
        ),
        (
            "json value",
            |p| serde_json::to_value(p).ok().map(|v| v.to_string().into_bytes()),
            |m| serde_json::to_value(m).ok().map(|v| v.to_string().into_bytes()),
            |b| serde_json::from_slice::<serde_json::Value>(b).ok().and_then(|v| serde_json::from_value(v).ok()),
            |b| serde_json::from_slice::<serde_json::Value>(b).ok().and_then(|v| serde_json::from_value(v).ok()),
        ),
        (
            "bincode",
            |p| bincode::DefaultOptions::new().serialize(p).ok(),
            |m| bincode::DefaultOptions::new().serialize(m).ok(),
            |_| None,
            |_| None,
        ),
        (
            "ron",
            |p| ron::to_string(p).ok().map(String::into_bytes),
            |m| ron::to_string(m).ok().map(String::into_bytes),
            |b| ron::de::from_bytes(b).ok(),
            |b| ron::de::from_bytes(b).ok(),
        ),
    ];
    for (name, ser_p, ser_m, de_p, de_m) in formats {
        let (a, b) = (ser_p(plain), ser_m(container));
        ensure!(a == b, "{name}: the container gives {:?}, the plain value {:?}", b.map(|b| String::from_utf8_lossy(&b).into_owned()), a.map(|a| String::from_utf8_lossy(&a).into_owned()));
        let Some(bytes) = a else {
            obs.label("can't be serialised");
            continue;
        };
        let text = name != "bincode";
        for (e, input) in [(&[][..], bytes.clone()), (edits, edit(&bytes, edits, text))] {
            let (p, m) = if text { (de_p(&input), de_m(&input)) } else { (bin().deserialize(&input).ok(), bin().deserialize(&input).ok()) };
            let m: Option<P> = m.as_ref().map(&read);
            ensure!(p == m, "{name}: {} gives {m:?}, for the plain type {p:?}", String::from_utf8_lossy(&input));
            if e.is_empty() {
                obs.label_if(p.is_none(), "can't be deserialised");
            } else if input != bytes {
                obs.label(if p.is_some() { "edited input is accepted" } else { "edited input is rejected" });
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    init: Vec<Seed>,
    ops: Vec<(u8, u16, Seed)>,
    edits: Vec<Edit>,
    subscribed: bool,
}

fn case() -> impl Strategy<Value = Case> {
    (
        proptest::collection::vec(seed(), 0..4),
        proptest::collection::vec((any::<u8>(), any::<u16>(), seed()), 0..6),
        edits(),
        any::<bool>(),
    )
        .prop_map(|(init, ops, edits, subscribed)| Case { init, ops, edits, subscribed })
}

fn note(c: &Case, obs: &mut Obs) {
    obs.nontrivial_if(!c.ops.is_empty() && !c.edits.is_empty());
}

fn cell(c: &Case, obs: &mut Obs) -> Outcome {
    note(c, obs);
    let mut plain: Option<Rec> = c.init.first().map(|s| s.rec());
    let m = Mutable::new(plain.clone());
    let sub = c.subscribed.then(|| m.signal_cloned());
    for (k, i, s) in &c.ops {
        plain = (*i % 4 != 0).then(|| s.rec());
        match k % 3 {
            0 => m.set(plain.clone()),
            1 => *m.lock_mut() = plain.clone(),
            _ => {
                m.clone().replace(plain.clone());
            }
        }
    }
    compare(&plain, &m, &c.edits, |m| m.get_cloned(), obs)?;
    let nested = Mutable::new(Mutable::new(plain.clone()));
    compare(&plain, &nested, &c.edits, |m| m.get_cloned().get_cloned(), obs)?;
    // a deserialised one works like any other
    if let Some(m) = serde_json::to_vec(&m).ok().and_then(|b| serde_json::from_slice::<Mutable<Option<Rec>>>(&b).ok()) {
        let mut sink = SigSink::new(false);
        let mut s = Box::pin(m.signal_cloned().map(|x| x));
        sink.run(&mut s)?;
        ensure_eq!(sink.last(), Some(&plain), "signal of a deserialised Mutable");
        m.set(None);
        sink.run(&mut s)?;
        ensure_eq!(sink.last(), Some(&None), "signal of a deserialised Mutable after a change");
        drop(m);
        sink.run(&mut s)?;
        ensure!(sink.ended, "the signal of a deserialised Mutable does not end");
    }
    drop(sub);
    Ok(())
}

fn vec(c: &Case, obs: &mut Obs) -> Outcome {
    note(c, obs);
    let mut plain: Vec<Rec> = c.init.iter().map(|s| s.rec()).collect();
    let m = MutableVec::new_with_values(plain.clone());
    let sub = c.subscribed.then(|| m.signal_vec_cloned());
    for (k, i, s) in &c.ops {
        let n = plain.len();
        let d = match k % 6 {
            0 | 1 => VecDiff::Push { value: s.rec() },
            2 => VecDiff::InsertAt { index: *i as usize % (n + 1), value: s.rec() },
            3 if n > 0 => VecDiff::RemoveAt { index: *i as usize % n },
            4 if n > 0 => VecDiff::UpdateAt { index: *i as usize % n, value: s.rec() },
            5 if n > 0 => VecDiff::Move { old_index: *i as usize % n, new_index: (*i >> 8) as usize % n },
            _ => continue,
        };
        harness::exec::apply(&mut plain, d.clone())?;
        let mut l = m.lock_mut();
        futures_signals::signal_vec::MutableVecLockMut::apply_vec_diff(&mut l, d);
    }
    compare(&plain, &m, &c.edits, |m| m.lock_ref().to_vec(), obs)?;
    if let Some(m) = serde_json::to_vec(&m).ok().and_then(|b| serde_json::from_slice::<MutableVec<Rec>>(&b).ok()) {
        let mut sink = VecSink::new(false);
        let mut s = Box::pin(m.signal_vec_cloned());
        sink.run(&mut s)?;
        ensure_eq!(sink.v, plain, "subscriber of a deserialised MutableVec");
        m.lock_mut().clear();
        drop(m);
        sink.run(&mut s)?;
        ensure!(sink.v.is_empty() && sink.ended, "the subscriber of a deserialised MutableVec misses a change or the end");
    }
    drop(sub);
    Ok(())
}

fn map(c: &Case, obs: &mut Obs) -> Outcome {
    note(c, obs);
    let key = |i: usize| format!("k{}", i % 7);
    let mut plain: BTreeMap<String, Rec> = c.init.iter().enumerate().map(|(i, s)| (key(i), s.rec())).collect();
    let m = MutableBTreeMap::with_values(plain.clone());
    let sub = c.subscribed.then(|| m.signal_map_cloned());
    for (k, i, s) in &c.ops {
        let mut l = m.lock_mut();
        match k % 4 {
            0..=2 => {
                plain.insert(key(*i as usize), s.rec());
                l.insert_cloned(key(*i as usize), s.rec());
            }
            _ => {
                plain.remove(&key(*i as usize));
                l.remove(&key(*i as usize));
            }
        }
    }
    compare(&plain, &m, &c.edits, |m| m.lock_ref().clone(), obs)?;
    let numbers: BTreeMap<u8, Option<String>> = plain.values().enumerate().map(|(i, r)| (i as u8 * 3, r.name.clone())).collect();
    compare(&numbers, &MutableBTreeMap::from(numbers.clone()), &c.edits, |m| m.lock_ref().clone(), obs)?;
    if let Some(m) = serde_json::to_vec(&m).ok().and_then(|b| serde_json::from_slice::<MutableBTreeMap<String, Rec>>(&b).ok()) {
        let mut sink = MapSink::new(false);
        let mut s = Box::pin(m.signal_map_cloned());
        sink.run(&mut s)?;
        ensure_eq!(sink.m, plain, "subscriber of a deserialised MutableBTreeMap");
        m.lock_mut().clear();
        drop(m);
        sink.run(&mut s)?;
        ensure!(sink.m.is_empty() && sink.ended, "the subscriber of a deserialised MutableBTreeMap misses a change or the end");
    }
    drop(sub);
    Ok(())
}

type Deep = Mutable<MutableVec<Mutable<MutableBTreeMap<u8, MutableVec<Mutable<Rec>>>>>>;
type Plain = Vec<BTreeMap<u8, Vec<Rec>>>;

fn deep(p: &Plain) -> Deep {
    let row = |m: &BTreeMap<u8, Vec<Rec>>| {
        let m: BTreeMap<u8, MutableVec<Mutable<Rec>>> =
            m.iter().map(|(k, v)| (*k, v.iter().cloned().map(Mutable::new).collect::<Vec<_>>().into())).collect();
        Mutable::new(MutableBTreeMap::from(m))
    };
    Mutable::new(MutableVec::from(p.iter().map(row).collect::<Vec<_>>()))
}

fn shallow(d: &Deep) -> Plain {
    let row = |m: &Mutable<MutableBTreeMap<u8, MutableVec<Mutable<Rec>>>>| -> BTreeMap<u8, Vec<Rec>> {
        m.lock_ref().lock_ref().iter().map(|(k, v)| (*k, v.lock_ref().iter().map(|r| r.get_cloned()).collect())).collect()
    };
    d.lock_ref().lock_ref().iter().map(row).collect()
}

fn nested(c: &Case, obs: &mut Obs) -> Outcome {
    note(c, obs);
    let mut plain: Plain = c.init.iter().map(|s| BTreeMap::from([(s.odd, vec![s.rec()])])).collect();
    let d = deep(&plain);
    for (k, i, s) in &c.ops {
        let n = plain.len();
        let outer = d.lock_ref();
        if n == 0 || k % 8 == 0 {
            plain.push(BTreeMap::new());
            outer.lock_mut().push_cloned(Mutable::new(MutableBTreeMap::new()));
            continue;
        }
        let row = *i as usize % n;
        let key = (k >> 3) % 3;
        let cell = outer.lock_ref()[row].clone();
        let map = cell.lock_ref();
        match k % 8 {
            1 => {
                plain[row].remove(&key);
                map.lock_mut().remove(&key);
            }
            2 | 3 => {
                plain[row].insert(key, vec![s.rec(), s.rec()]);
                map.lock_mut().insert_cloned(key, MutableVec::from(vec![Mutable::new(s.rec()), Mutable::new(s.rec())]));
            }
            _ => {
                if let (Some(v), Some(m)) = (plain[row].get_mut(&key), map.lock_ref().get(&key)) {
                    match v.last_mut() {
                        Some(r) if k % 2 == 0 => {
                            *r = s.rec();
                            m.lock_ref().last().unwrap().set(s.rec());
                        }
                        _ => {
                            v.push(s.rec());
                            m.lock_mut().push_cloned(Mutable::new(s.rec()));
                        }
                    }
                }
            }
        }
    }
    compare(&plain, &d, &c.edits, shallow, obs)
}

/// The diffs themselves round-trip.
fn diffs(c: &Case, obs: &mut Obs) -> Outcome {
    note(c, obs);
    let mut plain: Vec<u16> = vec![];
    let mut map: BTreeMap<u8, u16> = BTreeMap::new();
    let (mut v2, mut m2) = (plain.clone(), map.clone());
    for (k, i, s) in &c.ops {
        let n = plain.len();
        let value = *i;
        let d = match k % 8 {
            0 => VecDiff::Push { value },
            1 => VecDiff::InsertAt { index: s.odd as usize % (n + 1), value },
            2 => VecDiff::Replace { values: s.items.iter().map(|x| x.1 as u16).collect() },
            3 if n > 0 => VecDiff::RemoveAt { index: s.odd as usize % n },
            4 if n > 0 => VecDiff::UpdateAt { index: s.odd as usize % n, value },
            5 if n > 0 => VecDiff::Move { old_index: s.odd as usize % n, new_index: *i as usize % n },
            6 if n > 0 => VecDiff::Pop {},
            _ => VecDiff::Clear {},
        };
        let key = s.odd % 8;
        let e = match k >> 3 & 3 {
            0 => MapDiff::Replace { entries: s.map.iter().map(|(k, v)| (*k, v.unwrap_or(0) as u16)).collect::<BTreeMap<_, _>>().into_iter().collect() },
            1 if map.contains_key(&key) => MapDiff::Remove { key },
            2 => MapDiff::Clear {},
            _ if map.contains_key(&key) => MapDiff::Update { key, value },
            _ => MapDiff::Insert { key, value },
        };
        let d2: VecDiff<u16> = serde_json::from_slice(&serde_json::to_vec(&d).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        let d3: VecDiff<u16> = bincode::deserialize(&bincode::serialize(&d).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        let e2: MapDiff<u8, u16> = ron::from_str(&ron::to_string(&e).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        ensure_eq!(d2, d, "json of a VecDiff");
        ensure_eq!(d3, d, "bincode of a VecDiff");
        ensure_eq!(e2, e, "ron of a MapDiff");
        harness::exec::apply(&mut plain, d)?;
        harness::exec::apply(&mut v2, d2)?;
        harness::exec::apply_map(&mut map, e)?;
        harness::exec::apply_map(&mut m2, e2)?;
    }
    ensure_eq!(v2, plain, "contents replayed from json");
    ensure_eq!(m2, map, "contents replayed from ron");
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C25",
        "values with every kind of serde data (some which can't be serialised or deserialised), histories of changes, and edits of the serialised text or bytes, in json, json values, bincode and ron; non-trivial: at least one change and one edit",
    );
    r.family("Mutable", 150_000, 3_000_000, case, cell);
    r.family("MutableVec", 150_000, 3_000_000, case, vec);
    r.family("MutableBTreeMap", 150_000, 3_000_000, case, map);
    r.family("nested", 150_000, 3_000_000, case, nested);
    r.family("diffs", 200_000, 3_000_000, case, diffs);
    r.finish()
}
