//! C15: the decomposition gives every key of the curve to exactly one existing rank, in contiguous
//! pieces, the same on all ranks, and balances the particles.
use mc::mmpi::Bounds;
use mc::*;
use subsweep::domain::decomposition::{Decomposition, KeyCounter};
use subsweep::domain::{get_decomposition_from_points_and_box, DecompositionState, DomainKey, IntoKey};
use subsweep::prelude::SimulationBox;
use subsweep::units::{Length, VecLength};
use subsweep::verif::PeanoKey2d;

#[global_allocator]
static A: mmpi::alloc::Tracking = mmpi::alloc::Tracking;

/// The owners of the probes must be existing ranks and grow along the curve.
fn check_owners(probes: &[u128], owners: &[i32], n: usize) -> Result<(), String> {
    for (p, o) in probes.iter().zip(owners) {
        if *o < 0 || *o >= n as i32 {
            return Err(format!("key {p:#x} belongs to rank {o} of {n}"));
        }
    }
    for i in 1..probes.len() {
        if owners[i] < owners[i - 1] {
            return Err(format!(
                "key {:#x} belongs to rank {} but key {:#x} to rank {}",
                probes[i - 1], owners[i - 1], probes[i], owners[i]
            ));
        }
    }
    Ok(())
}

/// `keys` sorted. Pieces of equal keys cannot be cut, so each cut may be off by one such piece.
fn check_balance(keys: &[u128], owners: &[i32], n: usize) -> Result<(), String> {
    let mut loads = vec![0i64; n];
    for o in owners {
        loads[*o as usize] += 1;
    }
    let mut same = 0;
    let mut most = 0;
    for i in 0..keys.len() {
        same = if i > 0 && keys[i] == keys[i - 1] { same + 1 } else { 1 };
        most = most.max(same);
    }
    let ideal = keys.len() as i64 / n as i64;
    let bound = 3 * n as i64 * most;
    if loads.iter().any(|l| (l - ideal).abs() > bound) {
        return Err(format!("loads {loads:?} for {} particles, at most {most} with the same key", keys.len()));
    }
    Ok(())
}

fn with_neighbours(keys: &[u128], max: u128) -> Vec<u128> {
    let mut p: Vec<u128> = keys.iter().flat_map(|k| [k.saturating_sub(1), *k, (*k + 1).min(max)]).collect();
    p.push(0);
    p.push(max);
    p.sort();
    p.dedup();
    p
}

fn serial(c: &Check, keys: &[u128], n: usize, dim: usize) {
    let max = if dim == 2 { u64::MAX as u128 } else { (1u128 << 126) - 1 };
    let case = || json!({"keys": keys.iter().map(|k| format!("{k:#x}")).collect::<Vec<_>>(), "ranks": n, "dimension": dim});
    // The probes include keys that no particle has.
    let probes = with_neighbours(keys, max);
    let both = c.guard("serial", case, || {
        if dim == 2 {
            let mut counter = KeyCounter::new(keys.iter().map(|k| PeanoKey2d(*k as u64)).collect());
            let d = Decomposition::new(&mut counter, n);
            let f = |k: &u128| d.get_owning_rank(PeanoKey2d(*k as u64));
            (probes.iter().map(f).collect::<Vec<_>>(), keys.iter().map(f).collect::<Vec<_>>(), d.get_imbalance())
        } else {
            let mut counter = KeyCounter::new(keys.iter().map(|k| DomainKey { 0: *k }).collect());
            let d = Decomposition::new(&mut counter, n);
            let f = |k: &u128| d.get_owning_rank(DomainKey { 0: *k });
            (probes.iter().map(f).collect::<Vec<_>>(), keys.iter().map(f).collect::<Vec<_>>(), d.get_imbalance())
        }
    });
    let Some((owners, of_keys, imbalance)) = both else { return };
    // Only keys up to the largest one that occurs are ever looked up.
    let inside: Vec<usize> = (0..probes.len()).filter(|i| probes[*i] <= *keys.last().unwrap()).collect();
    let p: Vec<u128> = inside.iter().map(|i| probes[*i]).collect();
    let o: Vec<i32> = inside.iter().map(|i| owners[*i]).collect();
    let r = check_owners(&p, &o, n).and_then(|_| check_balance(keys, &of_keys, n)).and_then(|_| {
        if (0.0..=1.0).contains(&imbalance) {
            Ok(())
        } else {
            Err(format!("the imbalance is {imbalance}"))
        }
    });
    c.count(1, probes.len() as u64, 1);
    if let Err(what) = r {
        c.violation("serial", &what, case());
    }
}

/// All sorted sequences (with repetition) of `len` of 0..base.
fn multisets(base: usize, len: usize) -> Vec<Vec<usize>> {
    fn go(base: usize, len: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == len {
            out.push(cur.clone());
            return;
        }
        for i in from..base {
            cur.push(i);
            go(base, len, i, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(base, len, 0, &mut vec![], &mut out);
    out
}

/// `runs[i]` is a run of keys: (first, step, number).
fn expand(runs: &[(u128, u128, usize)]) -> Vec<u128> {
    let mut keys: Vec<u128> = runs.iter().flat_map(|(f, s, n)| (0..*n).map(move |i| f + s * i as u128)).collect();
    keys.sort();
    keys
}

fn serial_all(c: &Check) {
    for dim in [2, 3] {
        let bits = if dim == 2 { 64 } else { 126 };
        let top = if dim == 2 { u64::MAX as u128 } else { (1u128 << 126) - 1 };
        // Few keys, at all relative distances.
        let alphabet: Vec<u128> =
            vec![0, 1, 2, 3, 1 << 20, (1 << 20) + 1, 1 << (bits / 2), (1 << (bits / 2)) + 5, 1 << (bits - 2), (1 << (bits - 1)) - 1, 1 << (bits - 1), top - 1, top];
        for len in 1..=c.pick(5, 7) {
            let sets = multisets(alphabet.len(), len);
            par(sets.len(), |i| {
                if c.stopped() {
                    return;
                }
                let keys: Vec<u128> = sets[i].iter().map(|k| alphabet[*k]).collect();
                for n in 1..=5 {
                    serial(c, &keys, n, dim);
                }
            });
        }
        // Clusters of many keys: up to three clusters of all positions, densities and sizes.
        let mut runs = vec![];
        for first in [0, 12345, 1u128 << (bits / 3), 1 << (bits / 2), (1 << (bits - 1)) + 77] {
            for step in [0u128, 1, 2, 7, 1 << 10, 1 << (bits / 4), 1 << (bits / 2), 1 << (bits - 9)] {
                for num in [1, 16, 60, 300] {
                    if step * num as u128 + first <= top {
                        runs.push((first, step, num));
                    }
                }
            }
        }
        let count = c.pick(2, 3);
        for len in 1..=count {
            let sets = multisets(runs.len(), len);
            par(sets.len(), |i| {
                if c.stopped() {
                    return;
                }
                let keys = expand(&sets[i].iter().map(|k| runs[*k]).collect::<Vec<_>>());
                for n in c.pick(vec![1, 2, 3, 7], vec![2, 3, 7, 13]) {
                    serial(c, &keys, n, dim);
                }
            });
        }
    }
}

/// The positions of the particles, one list per rank.
fn parallel(c: &Check, ranks: &[Vec<[f64; 3]>], b: &Bounds) {
    if c.stopped() {
        return;
    }
    let n = ranks.len();
    let size = 4.0;
    let box_ = || SimulationBox::cube_from_side_length(Length::meters(size));
    let all: Vec<[f64; 3]> = ranks.iter().flatten().copied().collect();
    let pos = |p: &[f64; 3]| VecLength::meters(p[0], p[1], p[2]);
    let key = |p: &[f64; 3]| pos(p).into_key(&*box_()).0;
    let mut keys: Vec<u128> = all.iter().map(key).collect();
    keys.sort();
    let keys = &keys;
    let want = {
        // What one counter that knows all keys says.
        let mut counter = KeyCounter::new(keys.iter().map(|k| DomainKey { 0: *k }).collect());
        let d = Decomposition::new(&mut counter, n);
        keys.iter().map(|k| d.get_owning_rank(DomainKey { 0: *k })).collect::<Vec<_>>()
    };
    let body = |r: usize| {
        let d: DecompositionState =
            get_decomposition_from_points_and_box(ranks[r].iter().map(pos), &box_(), n);
        keys.iter().map(|k| d.get_owning_rank(DomainKey { 0: *k })).collect::<Vec<_>>()
    };
    c.explore("parallel", json!({"positions": ranks}), n, b, &body, &mut |got: &[Vec<i32>]| {
        for (r, g) in got.iter().enumerate() {
            check_owners(keys, g, n).map_err(|e| format!("rank {r}: {e}"))?;
            if *g != got[0] {
                return Err(format!("rank {r} gives the keys to {g:?}, rank 0 to {:?}", got[0]));
            }
        }
        check_balance(keys, &got[0], n)?;
        if got[0] != want {
            return Err(format!("the ranks give the keys to {:?}, one rank with all keys to {want:?}", got[0]));
        }
        Ok(())
    });
}

fn parallel_all(c: &Check) {
    let points: Vec<[f64; 3]> = vec![
        [0.0, 0.0, 0.0],
        [0.5, 0.5, 0.5],
        [3.5, 0.5, 0.5],
        [3.5, 3.5, 0.5],
        [0.5, 0.5, 0.500001],
        [1.5, 2.5, 3.5],
        [3.9999999, 3.9999999, 3.9999999],
    ];
    let one = Bounds { bases: vec![mmpi::explore::Base::PollsLast], modes: vec![mmpi::Mode::Eager], ..Bounds::new(0) };
    for n in 1..=c.pick(3usize, 4) {
        let num = c.pick(6, 7);
        // All ways to give a subset of the points to the ranks, each rank at least one (the code
        // requires it).
        let total = (n as u64 + 1).pow(num as u32);
        let cases: Vec<Vec<Vec<[f64; 3]>>> = (0..total)
            .filter_map(|i| {
                let d = digits(i, n as u64 + 1, num);
                let mut r = vec![vec![]; n];
                for (p, k) in d.iter().enumerate() {
                    if (*k as usize) < n {
                        r[*k as usize].push(points[p]);
                    }
                }
                r.iter().all(|x| !x.is_empty()).then_some(r)
            })
            .collect();
        par(cases.len(), |i| parallel(c, &cases[i], &one));
        c.add("distributions", cases.len() as u64);
    }
    // Schedules.
    let split = |n: usize| -> Vec<Vec<[f64; 3]>> { (0..n).map(|r| points.iter().copied().skip(r).step_by(n).collect()).collect() };
    par(2, |i| parallel(c, &split(i + 2), &Bounds { horizon: 100_000, ..Bounds::new(c.pick(1, 2)) }));
}

fn main() {
    let c = Check::new("C15");
    c.assume("every rank has at least one particle before the decomposition, as the readers ensure unless there are more ranks than particles");
    serial_all(c);
    if !c.stopped() {
        parallel_all(c);
    }
    c.sample(json!({"keys": ["0x0", "0x1", "0x1", "0x3"], "ranks": 3}));
    c.info("bounds", json!({"keys": c.pick("1..5 keys of 13 (2D and 3D), 1..5 ranks; 1..2 clusters of 120", "1..7 keys; 1..3 clusters"), "parallel": "all distributions of subsets of 6 (7) positions over 1..3 (4) ranks"}));
    c.finish()
}
