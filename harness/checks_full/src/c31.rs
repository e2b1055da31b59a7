//! C31: with the check for deadlocks, a sweep over a grid on whose faces the ranks do not agree, or
//! in which no cell can be solved first, ends with an error on every schedule, and a sweep over any
//! other grid is not disturbed.
mod sweepsim;
use mc::mmpi::{explore::Base, explore::BASES, Bounds, Mode};
use mc::*;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering};
use sweepsim::*;

#[global_allocator]
static A: mmpi::alloc::Tracking = mmpi::alloc::Tracking;

fn distributions(n: usize, ranks: usize) -> Vec<Vec<usize>> {
    let total = (ranks as u64).pow(n as u32);
    (0..total)
        .map(|i| digits(i, ranks as u64, n).into_iter().map(|x| x as usize).collect::<Vec<_>>())
        .filter(|v| (0..ranks).all(|r| v.contains(&r)))
        .collect()
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
}

/// What the code prints about grids that it refuses is not part of the report.
fn without_output(f: impl FnOnce()) {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    let _ = std::io::stdout().flush();
    let null = std::fs::File::options().write(true).open("/dev/null").expect("/dev/null");
    let old = unsafe { dup(1) };
    unsafe { dup2(null.as_raw_fd(), 1) };
    f();
    let _ = std::io::stdout().flush();
    unsafe { dup2(old, 1) };
}

struct Counts {
    refused: AtomicU64,
    accepted: AtomicU64,
}

/// All schedules within the bounds end as they should.
fn decide(c: &Check, counts: &Counts, key: &str, s: &Setup, case: Value, bad: bool, bases: &[Base], devs: usize) {
    for base in bases {
        for mode in [Mode::Eager, Mode::Rendezvous] {
            if c.stopped() {
                return;
            }
            let b = Bounds { bases: vec![*base], modes: vec![mode], max_executions: 50, ..Bounds::new(devs) };
            let mut cells = 0;
            let got = mmpi::explore(s.ranks(), &b, &|r| run(s, r), &mut |g| {
                cells = merge(s, g).len();
                Ok(())
            });
            let end = match &got {
                Ok(_) => "comes to an end".to_string(),
                Err(o) => o.what.clone(),
            };
            // The error of one rank ends all of them.
            let refused = end.contains("panicked");
            if bad {
                c.count(1, 1, 1);
                counts.refused.fetch_add(1, Ordering::Relaxed);
            } else if let Ok(s) = &got {
                c.count(s.states + s.complete, s.transitions, s.complete);
                counts.accepted.fetch_add(1, Ordering::Relaxed);
            }
            if refused != bad || !bad && got.is_err() {
                let what = if bad { "the ranks do not agree, but" } else { "the ranks agree, but" };
                c.violation(key, &format!("{what} the sweep: {end}"), json!({"case": case, "base": format!("{base:?}"), "mode": format!("{mode:?}")}));
                return;
            }
        }
    }
}

/// The faces of one rank's cells to cells of another one, as (cell, face, other cell).
fn remote(s: &Setup) -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for (i, cell) in s.cells.iter().enumerate() {
        for (k, f) in cell.faces.iter().enumerate() {
            if let To::Cell(j) = f.to {
                if s.rank[i] != s.rank[j] {
                    v.push((i, k, j));
                }
            }
        }
    }
    v
}

fn agree(s: &Setup) -> bool {
    let all: BTreeSet<(usize, usize)> = remote(s).iter().map(|x| (x.0, x.2)).collect();
    all.iter().all(|(i, j)| all.contains(&(*j, *i)))
}

fn main() {
    let c = Check::new("C31");
    let counts = Counts { refused: 0.into(), accepted: 0.into() };
    let dirs = vec![[1.0, 0.3, 0.2], [-0.5, 1.0, -0.1]];
    let mut setups: Vec<(String, Setup)> = vec![];
    let shapes: Vec<(usize, usize)> = c.pick(vec![(2, 1), (3, 1), (2, 2), (4, 1)], vec![(2, 1), (3, 1), (2, 2), (4, 1), (3, 2)]);
    for (nx, ny) in shapes {
        for ranks in 2..=3usize.min(nx * ny) {
            for d in distributions(nx * ny, ranks) {
                for levels in 1..=2 {
                    let mut s = Setup::new(cartesian(nx, ny, 1, false, [1.0; 3]), dirs.clone());
                    s.rank = d.clone();
                    s.levels = levels;
                    s.steps = 2 * levels;
                    s.check_deadlock = true;
                    s.gas[0].source = 1e5;
                    setups.push((format!("{nx}x{ny} cells on ranks {d:?}, {levels} levels"), s));
                }
            }
        }
    }
    without_output(|| par(setups.len(), |j| {
        let (name, s) = &setups[j];
        let faces = remote(s);
        decide(c, &counts, "agreeing", s, json!({"setup": name}), false, &BASES, 1);
        // Without one or two of the faces, each on one side.
        let mut sets: Vec<Vec<usize>> = (0..faces.len()).map(|x| vec![x]).collect();
        for x in 0..faces.len() {
            sets.extend((0..x).map(|y| vec![y, x]));
        }
        if c.thorough {
            for x in 0..faces.len() {
                for y in 0..x {
                    sets.extend((0..y).map(|z| vec![z, y, x]));
                }
            }
        }
        for (k, set) in sets.iter().enumerate() {
            if c.stopped() {
                return;
            }
            let mut t = s.clone();
            for f in set {
                let (i, k, _) = faces[*f];
                t.cells[i].faces[k].to = To::Boundary;
            }
            let gone: Vec<(usize, usize)> = set.iter().map(|f| (faces[*f].0, faces[*f].2)).collect();
            let case = json!({"setup": name, "faces_missing": gone});
            decide(c, &counts, "missing", &t, case, !agree(&t), &[BASES[k % 4]], 0);
        }
        // A face leads to another cell of the same rank.
        for (i, k, j) in &faces {
            for other in 0..s.cells.len() {
                if s.rank[other] != s.rank[*j] || other == *j {
                    continue;
                }
                let mut t = s.clone();
                t.cells[*i].faces[*k].to = To::Cell(other);
                let case = json!({"setup": name, "face": [i, j], "leads_to": other});
                decide(c, &counts, "wrong", &t, case, !agree(&t), &[BASES[k % 4]], 0);
            }
        }
        if j % 29 == 3 {
            c.sample(json!({"setup": name, "faces": faces.len(), "sets": sets.len()}));
        }
    }));
    // Rings, in which every cell waits for the one before it.
    for n in 2..=c.pick(4usize, 6) {
        for ranks in 2..=3usize.min(n) {
            for d in distributions(n, ranks) {
                let face = |x: f64, to| FaceSpec { area: 1.0, normal: [x, 0.0, 0.0], to: To::Cell(to) };
                let cells = (0..n)
                    .map(|i| CellSpec {
                        pos: [i as f64 + 0.5, 0.5, 0.5],
                        size: 1.0,
                        volume: 1.0,
                        faces: vec![face(1.0, (i + 1) % n), face(-1.0, (i + n - 1) % n)],
                    })
                    .collect();
                let mut s = Setup::new(cells, vec![[1.0, 0.0, 0.0]]);
                s.rank = d.clone();
                s.check_deadlock = true;
                decide(c, &counts, "ring", &s, json!({"ring": n, "ranks": d}), true, &BASES, 0);
            }
        }
    }
    c.add("sweeps refused", counts.refused.load(Ordering::Relaxed));
    c.add("sweeps accepted", counts.accepted.load(Ordering::Relaxed));
    c.info("bounds", json!("chains of up to 4 cells and 2x2 cells (3x2 thorough) on all distributions over 2 and 3 ranks, 1 and 2 timestep levels; all sets of one or two (three thorough) one-sided faces missing; every face leading to every other cell of the rank; rings of up to 4 (6) cells on 2 and 3 ranks; one schedule, 4 schedules with 1 deviation for what is accepted, eager and rendezvous"));
    c.assume("an error of one rank ends all of them, as under mpirun");
    c.finish()
}
