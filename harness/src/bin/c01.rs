//! C01: a Mutable is one shared cell for all of its handles.
use futures_signals::signal::{Mutable, ReadOnlyMutable};
use harness::driver::{Obs, Outcome, Runner};
use harness::vecsrc::{idx, pick};
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

/// Equal if the keys are equal; the id tells equal values apart.
#[derive(Clone, Copy, Default, Serialize, Deserialize)]
struct V {
    k: u8,
    id: u32,
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        self.k == o.k
    }
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}#{}", self.k, self.id)
    }
}
fn raw(v: &V) -> (u8, u32) {
    (v.k, v.id)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    New(u8),
    Clone(u16),
    ReadOnly(u16),
    CloneRo(u16),
    Drop(u16),
    DropRo(u16),
    Set(u16, u8),
    Replace(u16, u8),
    /// the closure also overwrites the value in place
    ReplaceWith(u16, u8, Option<u8>),
    Swap(u16, u16),
    SetIf(u16, u8, bool),
    SetNeq(u16, u8),
    LockMut(u16, Vec<u8>),
    MemSwap(u16, u16),
    /// Signals exist too, in between.
    Signal(u16),
}

fn op() -> impl Strategy<Value = Op> {
    let k = || 0u8..3;
    prop_oneof![
        1 => k().prop_map(Op::New),
        2 => idx().prop_map(Op::Clone),
        1 => idx().prop_map(Op::ReadOnly),
        1 => idx().prop_map(Op::CloneRo),
        1 => idx().prop_map(Op::Drop),
        1 => idx().prop_map(Op::DropRo),
        2 => (idx(), k()).prop_map(|(i, k)| Op::Set(i, k)),
        2 => (idx(), k()).prop_map(|(i, k)| Op::Replace(i, k)),
        2 => (idx(), k(), proptest::option::of(k())).prop_map(|(i, k, x)| Op::ReplaceWith(i, k, x)),
        3 => (idx(), idx()).prop_map(|(i, j)| Op::Swap(i, j)),
        2 => (idx(), k(), any::<bool>()).prop_map(|(i, k, b)| Op::SetIf(i, k, b)),
        2 => (idx(), k()).prop_map(|(i, k)| Op::SetNeq(i, k)),
        2 => (idx(), proptest::collection::vec(k(), 0..3)).prop_map(|(i, ks)| Op::LockMut(i, ks)),
        1 => (idx(), idx()).prop_map(|(i, j)| Op::MemSwap(i, j)),
        1 => idx().prop_map(Op::Signal),
    ]
}

fn run(ops: &[Op], obs: &mut Obs) -> Outcome {
    let mut next = 0;
    let mut v = |k: u8| {
        next += 1;
        V { k, id: next }
    };
    let mut cells: Vec<V> = vec![v(0), v(1)];
    let mut rw: Vec<(usize, Mutable<V>)> = vec![(0, Mutable::new(cells[0])), (1, Mutable::from(cells[1]))];
    let mut ro: Vec<(usize, ReadOnlyMutable<V>)> = vec![];
    let mut signals: Vec<Box<dyn std::any::Any>> = vec![];
    let mut writes = 0;
    for op in ops {
        let at = |i: u16| (!rw.is_empty()).then(|| pick(i, rw.len()));
        match op {
            Op::New(k) => {
                let (x, m) = match k {
                    2 => (V::default(), Mutable::default()),
                    _ => {
                        let x = v(*k);
                        (x, Mutable::new(x))
                    }
                };
                cells.push(x);
                rw.push((cells.len() - 1, m));
            }
            Op::Clone(i) => {
                if let Some(i) = at(*i) {
                    let (c, m) = &rw[i];
                    let new = (*c, m.clone());
                    rw.push(new);
                }
            }
            Op::ReadOnly(i) => {
                if let Some(i) = at(*i) {
                    ro.push((rw[i].0, rw[i].1.read_only()));
                }
            }
            Op::CloneRo(i) if !ro.is_empty() => {
                let (c, m) = &ro[pick(*i, ro.len())];
                let new = (*c, m.clone());
                ro.push(new);
            }
            Op::CloneRo(_) => {}
            Op::Drop(i) => {
                if let Some(i) = at(*i) {
                    rw.remove(i);
                    obs.label("handle dropped");
                }
            }
            Op::DropRo(i) => {
                if !ro.is_empty() {
                    ro.remove(pick(*i, ro.len()));
                }
            }
            Op::Set(i, k) => {
                if let Some(i) = at(*i) {
                    let x = v(*k);
                    rw[i].1.set(x);
                    cells[rw[i].0] = x;
                    writes += 1;
                }
            }
            Op::Replace(i, k) => {
                if let Some(i) = at(*i) {
                    let x = v(*k);
                    let old = rw[i].1.replace(x);
                    let want = std::mem::replace(&mut cells[rw[i].0], x);
                    ensure_eq!(raw(&old), raw(&want), "result of replace");
                    writes += 1;
                }
            }
            Op::ReplaceWith(i, k, inplace) => {
                if let Some(i) = at(*i) {
                    let x = v(*k);
                    let over = inplace.map(&mut v);
                    let seen = RefCell::new(vec![]);
                    let old = rw[i].1.replace_with(|cur| {
                        seen.borrow_mut().push(raw(cur));
                        if let Some(o) = over {
                            *cur = o;
                        }
                        x
                    });
                    let c = rw[i].0;
                    ensure_eq!(seen.into_inner(), vec![raw(&cells[c])], "values seen by the closure of replace_with");
                    if let Some(o) = over {
                        cells[c] = o;
                    }
                    let want = std::mem::replace(&mut cells[c], x);
                    ensure_eq!(raw(&old), raw(&want), "result of replace_with");
                    writes += 1;
                }
            }
            Op::Swap(i, j) => {
                if let (Some(i), Some(j)) = (at(*i), at(*j)) {
                    obs.label(if i == j {
                        "swap of a handle with itself"
                    } else if rw[i].0 == rw[j].0 {
                        "swap of two handles of one Mutable"
                    } else {
                        "swap"
                    });
                    rw[i].1.swap(&rw[j].1);
                    let (a, b) = (rw[i].0, rw[j].0);
                    cells.swap(a, b);
                    writes += 1;
                }
            }
            Op::SetIf(i, k, b) => {
                if let Some(i) = at(*i) {
                    let x = v(*k);
                    let seen = RefCell::new(vec![]);
                    rw[i].1.set_if(x, |cur, new| {
                        seen.borrow_mut().push((raw(cur), raw(new)));
                        *b
                    });
                    let c = rw[i].0;
                    ensure_eq!(seen.into_inner(), vec![(raw(&cells[c]), raw(&x))], "arguments of set_if's closure");
                    if *b {
                        cells[c] = x;
                    }
                    writes += 1;
                }
            }
            Op::SetNeq(i, k) => {
                if let Some(i) = at(*i) {
                    let x = v(*k);
                    rw[i].1.set_neq(x);
                    let c = rw[i].0;
                    obs.label_if(cells[c].k == x.k, "set_neq of an equal value");
                    if cells[c].k != x.k {
                        cells[c] = x;
                    }
                    writes += 1;
                }
            }
            Op::LockMut(i, ks) => {
                if let Some(i) = at(*i) {
                    let c = rw[i].0;
                    let mut lock = rw[i].1.lock_mut();
                    ensure_eq!(raw(&lock), raw(&cells[c]), "value of lock_mut");
                    for k in ks {
                        let x = v(*k);
                        *lock = x;
                        cells[c] = x;
                        ensure_eq!(raw(&lock), raw(&cells[c]), "value of lock_mut after a write");
                    }
                    writes += 1;
                }
            }
            Op::MemSwap(i, j) => {
                if let (Some(i), Some(j)) = (at(*i), at(*j)) {
                    if rw[i].0 != rw[j].0 {
                        let mut a = rw[i].1.lock_mut();
                        let mut b = rw[j].1.lock_mut();
                        std::mem::swap(&mut *a, &mut *b);
                        cells.swap(rw[i].0, rw[j].0);
                        writes += 1;
                    }
                }
            }
            Op::Signal(i) => {
                if let Some(i) = at(*i) {
                    if signals.len() > 5 {
                        signals.clear();
                    }
                    signals.push(Box::new(rw[i].1.signal()));
                }
            }
        }
        for (c, m) in &rw {
            ensure_eq!(raw(&m.get()), raw(&cells[*c]), "get after {:?}", op);
            ensure_eq!(raw(&m.get_cloned()), raw(&cells[*c]), "get_cloned after {:?}", op);
            ensure_eq!(raw(&m.lock_ref()), raw(&cells[*c]), "lock_ref after {:?}", op);
            let d = format!("{:?}", m);
            ensure!(d.contains(&format!("({:?})", cells[*c])), "Debug shows {d}, expected {:?}", cells[*c]);
        }
        for (c, m) in &ro {
            ensure_eq!(raw(&m.get()), raw(&cells[*c]), "read-only get after {:?}", op);
            ensure_eq!(raw(&m.get_cloned()), raw(&cells[*c]), "read-only get_cloned after {:?}", op);
            let (a, b) = (m.lock_ref(), m.lock_ref());
            ensure_eq!(raw(&a), raw(&cells[*c]), "read-only lock_ref after {:?}", op);
            ensure_eq!(raw(&b), raw(&cells[*c]), "second lock_ref after {:?}", op);
            drop((a, b));
            let d = format!("{:?}", m);
            ensure!(d.contains(&format!("({:?})", cells[*c])), "Debug shows {d}, expected {:?}", cells[*c]);
        }
    }
    obs.nontrivial_if(writes > 0 && ops.len() > 2);
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C01",
        "sequences of operations on two or more Mutables through clones and read-only views; non-trivial: more than two operations with a write",
    );
    r.family(
        "cells",
        1_500_000,
        10_000_000,
        || harness::gen::script(op(), 15, 80),
        |ops: &Vec<Op>, obs: &mut Obs| run(ops, obs),
    );
    r.finish()
}
