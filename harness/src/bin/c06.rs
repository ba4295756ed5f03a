//! C06: map_ref!, map_mut!, and, or.
use futures_signals::signal::{self, SignalExt};
use futures_signals::{map_mut, map_ref};
use harness::driver::{Obs, Outcome, Runner};
use harness::exec::SigSink;
use harness::sigsrc::*;
use harness::vecsrc::BoxSig;
use harness::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::fmt::Debug;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Push(u8, u8),
    Yield(u8),
    End(u8),
    Run,
    Once,
    Spurious,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kinds: Vec<Kind>,
    reuse: bool,
    steps: Vec<Step>,
    settle: bool,
}

fn case(n: usize) -> impl Strategy<Value = Case> {
    let i = move || 0..n as u8;
    let step = prop_oneof![
        20 => (i(), 0u8..4).prop_map(|(i, k)| Step::Push(i, k)),
        2 => i().prop_map(Step::Yield),
        1 => i().prop_map(Step::End),
        6 => Just(Step::Run),
        4 => Just(Step::Once),
        2 => Just(Step::Spurious),
    ];
    (
        proptest::collection::vec(kind(), n),
        any::<bool>(),
        harness::gen::script(step, 25, 100),
        any::<bool>(),
    )
        .prop_map(|(kinds, reuse, steps, settle)| Case { kinds, reuse, steps, settle })
}

type Calls = Rc<Cell<u64>>;

/// `eval` computes the output from the latest consumed values (and may change them, for map_mut).
fn drive<T: PartialEq + Debug>(
    case: &Case,
    obs: &mut Obs,
    counts_calls: bool,
    build: impl FnOnce(Vec<BoxSig<V>>, Calls) -> BoxSig<T>,
    eval: impl Fn(&mut [V]) -> T,
) -> Outcome {
    let n = case.kinds.len();
    let mut next = 0;
    let mut v = |k: u8| {
        next += 1;
        V { k, id: next }
    };
    let (mut srcs, mut sigs) = (vec![], vec![]);
    for k in &case.kinds {
        let (a, b) = SigSource::new(*k, v(1));
        srcs.push(a);
        sigs.push(b);
    }
    let calls = Calls::default();
    let mut out = build(sigs, calls.clone());
    let mut sink = SigSink::new(case.reuse);
    // the values as the combinator should have them, and how much of each log they cover
    let mut vals: Vec<V> = vec![V { k: 0, id: 0 }; n];
    let mut seen = vec![0; n];
    let mut yields = 0u64;
    let mut last: Option<T> = None;
    let mut poll = |srcs: &[SigSource<V>], sink: &mut SigSink<T>, out: &mut BoxSig<T>| -> Outcome {
        let items = sink.items.len();
        sink.poll(out)?;
        let mut changed = 0;
        for i in 0..n {
            let log = srcs[i].log.borrow();
            if log.len() > seen[i] {
                seen[i] = log.len();
                vals[i] = *log.last().unwrap();
                changed += 1;
            }
        }
        if sink.items.len() > items {
            yields += 1;
            ensure!(seen.iter().all(|s| *s > 0), "a value although an input has none");
            ensure!(changed > 0, "a value although no input changed");
            let want = eval(&mut vals);
            ensure_eq!(*sink.items.last().unwrap(), want, "value computed from {:?}", vals);
            last = Some(want);
            for s in srcs {
                // inputs which yield only their latest value must have done so
                if s.kind != Kind::Lossless && !s.yields {
                    ensure_eq!(s.last_consumed().map(|v| v.raw()), Some(s.latest().raw()), "latest value of an input");
                }
            }
        } else {
            ensure!(changed == 0, "no value although {changed} inputs changed");
        }
        if counts_calls {
            ensure_eq!(calls.get(), yields, "evaluations of the expression");
        }
        if sink.ended {
            ensure!(srcs.iter().all(|s| s.ended), "ended before all inputs ended");
        }
        Ok(())
    };
    let settled = |srcs: &[SigSource<V>], sink: &SigSink<T>| -> Outcome {
        for s in srcs {
            ensure_eq!(s.last_consumed().map(|v| v.raw()), Some(s.latest().raw()), "settled without the latest value of an input");
            s.check("an input")?;
        }
        ensure!(!sink.items.is_empty(), "no value");
        ensure_eq!(sink.ended, srcs.iter().all(|s| s.ended), "end once settled");
        Ok(())
    };
    let (mut pushes, mut ends) = (0, 0);
    macro_rules! run {
        () => {
            while !sink.ended && sink.task.ready() {
                poll(&srcs, &mut sink, &mut out)?;
            }
            settled(&srcs, &sink)?;
        };
    }
    for step in &case.steps {
        match step {
            Step::Push(i, k) => pushes += srcs[*i as usize].push(v(*k)) as u32,
            Step::Yield(i) => srcs[*i as usize].self_wake(),
            Step::End(i) => {
                ends += 1;
                srcs[*i as usize].end()
            }
            Step::Run => {
                run!();
            }
            Step::Once if !sink.task.ready() => {}
            Step::Once | Step::Spurious => poll(&srcs, &mut sink, &mut out)?,
        }
    }
    obs.nontrivial_if(pushes > 0);
    obs.label_if(ends > 0 && !srcs.iter().all(|s| s.ended), "some inputs ended early");
    obs.label_if(srcs.iter().any(|s| s.yields), "self-waking input");
    if case.settle {
        run!();
    }
    for s in &mut srcs {
        s.end();
    }
    run!();
    Ok(())
}

fn hash(vs: &[&V]) -> u64 {
    vs.iter().fold(7u64, |h, v| h.wrapping_mul(1_000_003).wrapping_add(v.k as u64 * 131 + v.id as u64))
}

fn bump(c: &Calls) {
    c.set(c.get() + 1)
}

fn main() {
    let mut r = Runner::new(
        "C06",
        "interleaved changes and ends of 1 to 5 inputs (scripted, possibly self-waking, or Mutable), with runs, single and spurious polls; non-trivial: at least one change after the first values",
    );
    const Q: u64 = 1_000_000;
    const T: u64 = 4_000_000;
    r.family("map_ref 1", Q / 5, T / 5, || case(1), |c: &Case, obs: &mut Obs| {
        drive(
            c,
            obs,
            true,
            |mut s, n| {
                let a = s.remove(0);
                Box::pin(map_ref!(a => { bump(&n); hash(&[a]) }))
            },
            |v| hash(&[&v[0]]),
        )
    });
    r.family("map_ref 2", Q, T, || case(2), |c: &Case, obs: &mut Obs| {
        drive(
            c,
            obs,
            true,
            |mut s, n| {
                let b = s.remove(1);
                Box::pin(map_ref! {
                    let V { k, id } = s.remove(0),
                    let y = b =>
                    { bump(&n); hash(&[&V { k: *k, id: *id }, y]) }
                })
            },
            |v| hash(&[&v[0], &v[1]]),
        )
    });
    r.family("map_ref 3", Q, T, || case(3), |c: &Case, obs: &mut Obs| {
        drive(
            c,
            obs,
            true,
            |mut s, n| {
                let a = s.remove(0);
                let c = s.remove(1);
                Box::pin(map_ref! {
                    a,
                    let b = s.remove(0),
                    c =>
                    move { bump(&n); hash(&[a, b, c]) }
                })
            },
            |v| hash(&[&v[0], &v[1], &v[2]]),
        )
    });
    r.family("map_ref 5", Q / 2, T / 2, || case(5), |c: &Case, obs: &mut Obs| {
        drive(
            c,
            obs,
            true,
            |s, n| {
                let mut s = s.into_iter();
                let mut t = || s.next().unwrap();
                let (a, b, c, d, e) = (t(), t(), t(), t(), t());
                Box::pin(map_ref!(a, b, c, d, e => { bump(&n); hash(&[a, b, c, d, e]) }))
            },
            |v| hash(&[&v[0], &v[1], &v[2], &v[3], &v[4]]),
        )
    });
    r.family("map_mut", Q, T, || case(3), |c: &Case, obs: &mut Obs| {
        drive(
            c,
            obs,
            true,
            |mut s, n| {
                let c = s.remove(2);
                Box::pin(map_mut! {
                    let a = s.remove(0),
                    let b = s.remove(0),
                    let c = c =>
                    { bump(&n); a.id += 1000; c.k = c.k.wrapping_add(b.k); hash(&[a, b, c]) }
                })
            },
            |v| {
                v[0].id += 1000;
                v[2].k = v[2].k.wrapping_add(v[1].k);
                hash(&[&v[0], &v[1], &v[2]])
            },
        )
    });
    r.family("map_ref 8", Q / 8, T / 8, || case(8), |c: &Case, obs: &mut Obs| {
        drive(
            c,
            obs,
            true,
            |s, n| {
                let mut s = s.into_iter();
                let mut t = || s.next().unwrap();
                let (a, b, c, d, e, f) = (t(), t(), t(), t(), t(), t());
                Box::pin(map_ref!(a, b, let c = c, d, e, f, let V { k, id } = t(), let h = t() => { bump(&n); hash(&[a, b, c, d, e, f, &V { k: *k, id: *id }, h]) }))
            },
            |v| hash(&v.iter().collect::<Vec<_>>()),
        )
    });
    r.family("map_mut 5", Q / 5, T / 5, || case(5), |c: &Case, obs: &mut Obs| {
        drive(
            c,
            obs,
            true,
            |s, n| {
                let mut s = s.into_iter();
                let mut t = || s.next().unwrap();
                let (a, b, c, d, e) = (t(), t(), t(), t(), t());
                Box::pin(map_mut!(a, b, c, d, e => { bump(&n); d.id += 7; e.k = e.k.wrapping_add(a.k); std::mem::swap(&mut b.k, &mut c.k); hash(&[a, b, c, d, e]) }))
            },
            |v| {
                v[3].id += 7;
                v[4].k = v[4].k.wrapping_add(v[0].k);
                let k = v[1].k;
                v[1].k = v[2].k;
                v[2].k = k;
                hash(&v.iter().collect::<Vec<_>>())
            },
        )
    });
    // values without any contents: only that there is a change can be seen
    r.family("units", Q / 8, T / 8, || case(2), |c: &Case, obs: &mut Obs| {
        drive(
            c,
            obs,
            true,
            |mut s, n| {
                let b = s.remove(1).map(|_| ());
                let a = s.remove(0).map(|_| ());
                Box::pin(map_ref!(a, b => { bump(&n); assert!(a == b) }))
            },
            |_| (),
        )
    });
    r.family("and", Q / 2, T / 2, || case(2), |c: &Case, obs: &mut Obs| {
        drive(
            c,
            obs,
            false,
            |mut s, _| {
                let b = s.remove(1).map(|v| v.k % 2 == 0);
                Box::pin(signal::and(s.remove(0).map(|v| v.k % 2 == 0), b))
            },
            |v| v[0].k % 2 == 0 && v[1].k % 2 == 0,
        )
    });
    r.family("or", Q / 2, T / 2, || case(2), |c: &Case, obs: &mut Obs| {
        drive(
            c,
            obs,
            false,
            |mut s, _| {
                let b = s.remove(1).map(|v| v.k % 2 == 0);
                Box::pin(signal::or(s.remove(0).map(|v| v.k % 2 == 0), b))
            },
            |v| v[0].k % 2 == 0 || v[1].k % 2 == 0,
        )
    });
    // nested: the output of one is an input of another
    r.family("nested", Q / 2, T / 2, || case(4), |c: &Case, obs: &mut Obs| {
        drive(
            c,
            obs,
            false,
            |s, _| {
                let mut s = s.into_iter();
                let mut t = || s.next().unwrap();
                let (a, b, c, d) = (t(), t(), t(), t());
                let left = map_ref!(a, b => hash(&[a, b]));
                let right = map_ref!(c, d => hash(&[c, d]));
                Box::pin(map_ref!(left, right => left.wrapping_mul(31) ^ right))
            },
            |v| hash(&[&v[0], &v[1]]).wrapping_mul(31) ^ hash(&[&v[2], &v[3]]),
        )
    });
    r.finish()
}
