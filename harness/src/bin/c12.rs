//! C12: map, filter, filter_map track the transformed contents.
use futures_signals::signal_vec::SignalVecExt;
use harness::adapters::*;
use harness::driver::{Obs, Outcome, Runner};
use harness::vecsrc::*;
use harness::{ensure, ensure_eq};
use std::cell::Cell;
use std::rc::Rc;

fn keep(mask: u8, e: &El) -> bool {
    mask >> e.k & 1 == 1
}

fn main() {
    let mut r = Runner::new(
        "C12",
        "legal diff histories (scripted or from a MutableVec) with runs, single and spurious polls; non-trivial: at least one operation after the initial contents",
    );
    let calls = || Rc::new(Cell::new(0u64));
    let map = |case: &VCase, obs: &mut Obs| -> Outcome {
        note(case, obs);
        let n = calls();
        let c = n.clone();
        drive_vec(
            case,
            move |s| {
                Box::pin(s.map(move |e| {
                    c.set(c.get() + 1);
                    (e, e.k as u32 * 3)
                }))
            },
            |src, sink| {
                ensure_eq!(sink.v, src.model.v.iter().map(|e| (*e, e.k as u32 * 3)).collect::<Vec<_>>(), "mapped contents");
                ensure_eq!(n.get(), src.values, "closure calls");
                Ok(())
            },
        )
    };
    r.family("map", 300_000, 5_000_000, vcase, map);
    r.family("map large", 1_000, 20_000, vcase_large, map);
    let filter =
        |(case, mask): &(VCase, u8), obs: &mut Obs| -> Outcome {
            note(case, obs);
            let n = calls();
            let c = n.clone();
            let mask = *mask;
            drive_vec(
                case,
                move |s| {
                    Box::pin(s.filter(move |e| {
                        c.set(c.get() + 1);
                        keep(mask, e)
                    }))
                },
                |src, sink| {
                    ensure_eq!(sink.v, src.model.v.iter().copied().filter(|e| keep(mask, e)).collect::<Vec<_>>(), "filtered contents");
                    ensure_eq!(n.get(), src.values, "closure calls");
                    Ok(())
                },
            )
        };
    r.family("filter", 600_000, 10_000_000, || (vcase(), proptest::bits::u8::masked(0x3f)), filter);
    r.family("filter large", 1_000, 20_000, || (vcase_large(), proptest::bits::u8::masked(0x3f)), filter);
    let filter_map =
        |(case, mask): &(VCase, u8), obs: &mut Obs| -> Outcome {
            note(case, obs);
            let n = calls();
            let c = n.clone();
            let mask = *mask;
            let f = move |e: El| if keep(mask, &e) { Some((e.id, e.k)) } else { None };
            drive_vec(
                case,
                move |s| {
                    Box::pin(s.filter_map(move |e| {
                        c.set(c.get() + 1);
                        f(e)
                    }))
                },
                |src, sink| {
                    ensure_eq!(sink.v, src.model.v.iter().copied().filter_map(f).collect::<Vec<_>>(), "filter_mapped contents");
                    ensure_eq!(n.get(), src.values, "closure calls");
                    Ok(())
                },
            )
        };
    r.family("filter_map", 600_000, 10_000_000, || (vcase(), proptest::bits::u8::masked(0x3f)), filter_map);
    r.family("filter_map large", 1_000, 20_000, || (vcase_large(), proptest::bits::u8::masked(0x3f)), filter_map);
    r.family("passthrough", 100_000, 1_000_000, vcase, |case: &VCase, obs: &mut Obs| -> Outcome {
        note(case, obs);
        drive_vec(
            case,
            |s| match case.init.len() % 5 {
                0 => Box::pin(s.debug().boxed_local().debug()),
                1 => AsSend(s).boxed(),
                2 => Box::pin(in_box(AsSend(s))),
                3 => Box::pin(ByRef(s)),
                _ => s.boxed_local(),
            },
            |src, sink| {
                ensure_eq!(sink.v, src.model.v, "contents");
                ensure!(sink.diffs <= case.ops() + 1, "more diffs than operations");
                Ok(())
            },
        )
    });
    r.finish()
}
