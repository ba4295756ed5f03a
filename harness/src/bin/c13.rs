//! C13: sort_by_cloned always outputs the stably sorted input.
use futures_signals::signal_vec::SignalVecExt;
use harness::driver::{Obs, Outcome, Runner};
use harness::ensure_eq;
use harness::vecsrc::*;
use proptest::prelude::*;

fn main() {
    let mut r = Runner::new(
        "C13",
        "legal diff histories and an arbitrary total preorder (a rank per key or per element, optionally reversed); non-trivial: at least one operation after the initial contents",
    );
    for (name, quick, thorough, common, rare) in [("sort", 1_500_000u64, 12_000_000u64, 25, 120), ("sort long", 120_000, 1_000_000, 150, 400), ("sort large", 800, 16_000, 0, 0)] {
        r.family(
            name,
            quick,
            thorough,
            move || (if common == 0 { vcase_large().boxed() } else { vcase_sized(common, rare).boxed() }, prop_oneof![4 => proptest::collection::vec(0u8..4, 6), 1 => proptest::collection::vec(0u8..2, 6), 1 => Just(vec![0; 6])], any::<bool>(), prop_oneof![3 => Just(0u32), 1 => 2u32..20, 1 => 20u32..2000]),
            |(case, rank, rev, spread): &(VCase, Vec<u8>, bool, u32), obs: &mut Obs| -> Outcome {
                note(case, obs);
                let (rank, rev, spread) = (rank.clone(), *rev, *spread);
                obs.label_if(rank.iter().all(|r| *r == rank[0]), "all equal");
                obs.label_if(spread > 0, "many ranks");
                // with a spread, elements with equal keys are also ordered among themselves
                let of = move |e: &El| match spread {
                    0 => rank[e.k as usize] as u32,
                    n => e.id.wrapping_mul(2_654_435_761).rotate_left(rank[e.k as usize] as u32 * 8) % n,
                };
                let cmp = move |a: &El, b: &El| {
                    let (a, b) = (of(a), of(b));
                    if rev { b.cmp(&a) } else { a.cmp(&b) }
                };
                let c = cmp.clone();
                drive_vec(
                    case,
                    move |s| Box::pin(s.sort_by_cloned(c)),
                    |src, sink| {
                        let mut want = src.model.v.clone();
                        want.sort_by(&cmp); // stable
                        ensure_eq!(sink.v, want, "sorted contents");
                        Ok(())
                    },
                )
            },
        );
    }
    r.finish()
}
