//! C05: single-input signal combinators.
use futures_signals::signal::{self, Signal, SignalExt};
use harness::adapters::*;
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::SigSink;
use harness::sigsrc::*;
use harness::vecsrc::BoxSig;
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use std::cell::Cell;
use std::fmt::Debug;
use std::pin::Pin;
use std::rc::Rc;

type Calls = Rc<Cell<u64>>;

/// What the outputs must be after consuming these inputs, and whether the
/// combinator stops there by itself, and how often its closure was called.
struct Want<T> {
    out: Vec<T>,
    stopped: bool,
    calls: u64,
}

fn drive<T: PartialEq + Debug>(
    case: &SCase,
    obs: &mut Obs,
    build: impl FnOnce(BoxSig<V>, Calls) -> BoxSig<T>,
    want: impl Fn(&[V]) -> Want<T>,
) -> Outcome {
    let mut next = 0;
    let mut v = |k: u8| {
        next += 1;
        V { k, id: next }
    };
    let (mut src, sig) = SigSource::new(case.kind, v(case.first));
    let calls = Calls::default();
    let mut out = build(sig, calls.clone());
    let mut sink = SigSink::new(case.reuse);
    let check = |src: &SigSource<V>, sink: &SigSink<T>, settled: bool| -> Outcome {
        let consumed = src.log.borrow().clone();
        let w = want(&consumed);
        ensure_eq!(sink.items, w.out, "outputs after consuming {:?}", consumed);
        if let Some((_, before)) = consumed.split_last() {
            ensure!(!want(before).stopped, "consumed {} values, more than needed to stop", consumed.len());
        }
        ensure_eq!(calls.get(), w.calls, "closure calls after consuming {:?}", consumed);
        if settled {
            let last = consumed.last().map(|v| v.raw());
            ensure!(w.stopped || last == Some(src.latest().raw()), "settled without the latest input {:?}: consumed {:?}", src.latest(), consumed);
            if !w.stopped && case.kind == Kind::Lossless {
                ensure_eq!(consumed.len(), src.pushed.len(), "number of consumed inputs once settled");
            }
            ensure_eq!(sink.ended, w.stopped || src.ended, "end once settled");
        } else {
            ensure!(!sink.ended || w.stopped || src.ended, "ended too early");
        }
        src.check("the input")
    };
    let mut pushes = 0;
    for step in &case.steps {
        match step {
            SStep::Push(k) => {
                pushes += src.push(v(*k)) as u32;
                continue;
            }
            SStep::Yield => {
                src.self_wake();
                continue;
            }
            SStep::Run => {
                sink.run(&mut out)?;
                check(&src, &sink, true)?;
            }
            SStep::Once if !sink.task.ready() => {}
            SStep::Once | SStep::Spurious => {
                let first = sink.task.polls == 0;
                let ready = sink.poll(&mut out)?;
                ensure!(!first || ready, "no value on the first poll");
                check(&src, &sink, false)?;
            }
        }
    }
    obs.nontrivial_if(pushes > 0);
    obs.label_if(case.kind == Kind::Mutable, "input: Mutable");
    obs.label_if(src.yields, "self-waking input");
    if case.settle {
        sink.run(&mut out)?;
        check(&src, &sink, true)?;
    }
    src.end();
    sink.run(&mut out)?;
    check(&src, &sink, true)?;
    obs.label_if(!case.settle, "end in the same run as changes");
    Ok(())
}

fn all<T>(items: &[V], f: impl Fn(&V) -> T) -> Want<T> {
    Want { out: items.iter().map(f).collect(), stopped: false, calls: 0 }
}

fn with_calls<T>(mut w: Want<T>, n: usize) -> Want<T> {
    w.calls = n as u64;
    w
}

fn dedup(items: &[V]) -> Vec<V> {
    let mut out: Vec<V> = vec![];
    for v in items {
        if out.last() != Some(v) {
            out.push(*v);
        }
    }
    out
}

fn dedup_bool(items: impl Iterator<Item = bool>) -> Vec<bool> {
    let mut v: Vec<bool> = items.collect();
    v.dedup();
    v
}

fn bump(c: &Calls) {
    c.set(c.get() + 1);
}

/// A bit of the parameter decides about a key.
fn bit(param: u8, v: &V) -> bool {
    param >> (v.k & 3) & 1 == 1
}

fn main() {
    let mut r = Runner::new(
        "C05",
        "values with repeated keys from a scripted (lossless or lossy, possibly self-waking) signal or a Mutable, with runs, single and spurious polls; non-trivial: at least one value after the first",
    );
    const Q: u64 = 700_000;
    const T: u64 = 3_000_000;
    r.family("map", Q, T, scase, |c: &SCase, obs: &mut Obs| {
        drive(
            c,
            obs,
            |s, n| {
                Box::pin(s.map(move |v| {
                    bump(&n);
                    (v.k, v.id + 1)
                }))
            },
            |i| with_calls(all(i, |v| (v.k, v.id + 1)), i.len()),
        )
    });
    r.family("inspect", Q, T, scase, |c: &SCase, obs: &mut Obs| {
        let seen: Log<(u8, u32)> = Log::default();
        let s2 = seen.clone();
        drive(
            c,
            obs,
            |s, n| {
                Box::pin(
                    s.inspect(move |v| {
                        bump(&n);
                        s2.borrow_mut().push(v.raw())
                    })
                    .map(|v| v.raw()),
                )
            },
            |i| with_calls(all(i, V::raw), i.len()),
        )?;
        let n = seen.borrow().len();
        ensure!(n > 0, "inspect saw nothing");
        Ok(())
    });
    r.family("eq", Q, T, scase, |c: &SCase, obs: &mut Obs| {
        let x = V { k: c.param & 3, id: 999 };
        drive(c, obs, |s, _| Box::pin(s.eq(x)), |i| Want { out: dedup_bool(i.iter().map(|v| *v == x)), stopped: false, calls: 0 })
    });
    r.family("neq", Q, T, scase, |c: &SCase, obs: &mut Obs| {
        let x = V { k: c.param & 3, id: 999 };
        drive(c, obs, |s, _| Box::pin(s.neq(x)), |i| Want { out: dedup_bool(i.iter().map(|v| *v != x)), stopped: false, calls: 0 })
    });
    r.family("dedupe", Q, T, scase, |c: &SCase, obs: &mut Obs| {
        drive(c, obs, |s, _| Box::pin(s.dedupe().map(|v| v.raw())), |i| all(&dedup(i), V::raw))
    });
    r.family("dedupe_cloned", Q, T, scase, |c: &SCase, obs: &mut Obs| {
        drive(c, obs, |s, _| Box::pin(s.dedupe_cloned().map(|v| v.raw())), |i| all(&dedup(i), V::raw))
    });
    r.family("dedupe_map", Q, T, scase, |c: &SCase, obs: &mut Obs| {
        drive(
            c,
            obs,
            |s, n| {
                Box::pin(s.dedupe_map(move |v| {
                    bump(&n);
                    v.id += 1;
                    (v.k, v.id)
                }))
            },
            |i| {
                let d = dedup(i);
                with_calls(all(&d, |v| (v.k, v.id + 1)), d.len())
            },
        )
    });
    r.family("filter_map", Q, T, scase, |c: &SCase, obs: &mut Obs| {
        let p = c.param;
        drive(
            c,
            obs,
            |s, n| {
                Box::pin(s.filter_map(move |v| {
                    bump(&n);
                    bit(p, &v).then(|| v.raw())
                }))
            },
            |i| {
                let mut out = vec![];
                for (j, v) in i.iter().enumerate() {
                    if bit(p, v) {
                        out.push(Some(v.raw()))
                    } else if j == 0 {
                        out.push(None)
                    }
                }
                Want { out, stopped: false, calls: i.len() as u64 }
            },
        )
    });
    r.family("stop_if", Q, T, scase, |c: &SCase, obs: &mut Obs| {
        let p = c.param & c.param.rotate_left(3);
        drive(
            c,
            obs,
            |s, n| {
                Box::pin(
                    s.stop_if(move |v| {
                        bump(&n);
                        bit(p, v)
                    })
                    .map(|v| v.raw()),
                )
            },
            |i| Want { out: i.iter().map(V::raw).collect(), stopped: i.iter().any(|v| bit(p, v)), calls: i.len() as u64 },
        )
    });
    r.family("first", Q / 4, T / 4, scase, |c: &SCase, obs: &mut Obs| {
        drive(c, obs, |s, _| Box::pin(s.first().map(|v| v.raw())), |i| Want { out: i.iter().take(1).map(V::raw).collect(), stopped: !i.is_empty(), calls: 0 })
    });
    r.family("not", Q / 2, T / 2, scase, |c: &SCase, obs: &mut Obs| {
        drive(c, obs, |s, _| Box::pin(signal::not(s.map(|v| v.k % 2 == 0))), |i| all(i, |v| v.k % 2 != 0))
    });
    r.family("wrappers", Q, T, scase, |c: &SCase, obs: &mut Obs| {
        struct Unpinned(BoxSig<V>);
        impl Signal for Unpinned {
            type Item = V;
            fn poll_change(mut self: Pin<&mut Self>, cx: &mut std::task::Context) -> std::task::Poll<Option<V>> {
                self.0.poll_change_unpin(cx)
            }
        }
        drive(
            c,
            obs,
            |s, _| -> BoxSig<(u8, u32)> {
                let s: BoxSig<V> = match c.param % 8 {
                    7 => AsSend(s).boxed(),
                    0 => Box::pin(s.debug()),
                    1 => s.boxed_local(),
                    2 => Box::pin(Box::new(s)),
                    3 => Box::pin(Unpinned(s)),
                    4 => Box::pin(ByRef(s)),
                    5 => {
                        return Box::pin(signal::option(Some(s)).map(|v| v.expect("option(Some) yields Some").raw()));
                    }
                    _ => {
                        return Box::pin(signal::result::<_, ()>(Ok(s)).map(|v| v.expect("result(Ok) yields Ok").raw()));
                    }
                };
                Box::pin(s.map(|v| v.raw()))
            },
            |i| all(i, V::raw),
        )
    });
    r.family("constants", 100_000, 400_000, || (0u8..3, any::<u32>(), any::<bool>(), 1usize..4), |(which, x, reuse, extra): &(u8, u32, bool, usize), obs: &mut Obs| {
        obs.nontrivial();
        let mut out: BoxSig<Option<u32>> = match which {
            0 => Box::pin(signal::always(Some(*x))),
            1 => Box::pin(signal::option::<signal::Always<u32>>(None)),
            _ => Box::pin(signal::result::<signal::Always<u32>, u32>(Err(*x)).map(|r| r.err())),
        };
        let want = if *which == 1 { None } else { Some(*x) };
        let mut sink = SigSink::new(*reuse);
        sink.run(&mut out)?;
        ensure!(sink.ended, "did not end");
        ensure_eq!(sink.items, vec![want], "items");
        let _ = extra;
        Ok(())
    });
    // chains of combinators equal the composition of the list functions
    r.family("compositions", Q, T, || (scase(), proptest::collection::vec(0u8..8, 2..5)), |(c, ops): &(SCase, Vec<u8>), obs: &mut Obs| {
        let (p, ops2) = (c.param, ops.clone());
        drive(
            c,
            obs,
            |s, _| {
                let mut s = s;
                for op in &ops2 {
                    s = match op {
                        0 => Box::pin(s.map(|v| V { k: (v.k + 1) & 3, id: v.id })),
                        1 => Box::pin(s.dedupe()),
                        2 => Box::pin(s.dedupe_cloned()),
                        3 => Box::pin(s.inspect(|_| {})),
                        4 => Box::pin(s.filter_map(move |v| bit(p, &v).then_some(v)).map(|o| o.unwrap_or(V { k: 0, id: 0 }))),
                        5 => Box::pin(s.stop_if(|v| v.k == 3)),
                        6 => Box::pin(s.eq(V { k: 1, id: 0 }).map(|b| V { k: b as u8, id: 1 })),
                        _ => Box::pin(s.dedupe_map(|v| V { k: v.k / 2, id: v.id })),
                    };
                }
                Box::pin(s.map(|v| v.raw()))
            },
            |i| {
                let mut l: Vec<V> = i.to_vec();
                let mut stopped = false;
                for op in &ops2 {
                    l = match op {
                        0 => l.iter().map(|v| V { k: (v.k + 1) & 3, id: v.id }).collect(),
                        1 | 2 => dedup(&l),
                        3 => l,
                        4 => l
                            .iter()
                            .enumerate()
                            .filter_map(|(j, v)| if bit(p, v) { Some(*v) } else if j == 0 { Some(V { k: 0, id: 0 }) } else { None })
                            .collect(),
                        5 => match l.iter().position(|v| v.k == 3) {
                            Some(j) => {
                                stopped = true;
                                l[..=j].to_vec()
                            }
                            None => l,
                        },
                        6 => {
                            let mut b: Vec<bool> = l.iter().map(|v| v.k == 1).collect();
                            b.dedup();
                            b.iter().map(|b| V { k: *b as u8, id: 1 }).collect()
                        }
                        _ => dedup(&l).iter().map(|v| V { k: v.k / 2, id: v.id }).collect(),
                    };
                }
                Want { out: l.iter().map(V::raw).collect(), stopped, calls: 0 }
            },
        )
    });
    r.finish()
}
