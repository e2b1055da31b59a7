//! C12: one sweep over a grid solves the transport equation, however the cells are distributed
//! over ranks and whatever the schedule, and it ends.
mod sweepsim;
use mc::mmpi::{explore::Base, Bounds, Mode};
use mc::*;
use sweepsim::*;

#[global_allocator]
static A: mmpi::alloc::Tracking = mmpi::alloc::Tracking;

fn dirs() -> Vec<(&'static str, Vec<[f64; 3]>)> {
    vec![
        ("oblique", vec![[1.0, 0.7, 0.4]]),
        ("opposite", vec![[1.0, 0.6, 0.3], [-1.0, -0.6, -0.3]]),
        ("along the axes", vec![[1.0, 0.0, 0.0], [0.0, -1.0, 0.0]]),
        ("four", vec![[1.0, 0.5, 0.2], [-1.0, 0.5, 0.3], [0.9, -0.5, 0.2], [-0.8, -0.5, -0.2]]),
    ]
}

/// All distributions of n cells over exactly `ranks` ranks, up to nothing.
fn distributions(n: usize, ranks: usize) -> Vec<Vec<usize>> {
    let total = (ranks as u64).pow(n as u32);
    (0..total)
        .map(|i| digits(i, ranks as u64, n).into_iter().map(|x| x as usize).collect::<Vec<_>>())
        .filter(|v| (0..ranks).all(|r| v.contains(&r)))
        .collect()
}

struct Case {
    setup: Setup,
    bounds: Bounds,
    name: String,
}

fn check(c: &Check, case: &Case) {
    if c.stopped() {
        return;
    }
    let s = &case.setup;
    let (want, wrapped) = reference(s);
    let periodic = s.cells.iter().any(|c| c.faces.iter().any(|f| matches!(f.to, To::Wrapped(_))));
    let scale = want.iter().cloned().fold(0.0, f64::max).max(1.0);
    let what = json!({"case": case.name, "ranks_of_cells": s.rank, "directions": s.dirs,
        "sources": s.gas.iter().map(|g| g.source).collect::<Vec<_>>(), "tasks_before_send": s.tasks_before_send});
    let mut all_same: Option<Vec<f64>> = None;
    c.explore("sweep", what, s.ranks(), &case.bounds, &|r| run(s, r), &mut |got| {
        let m = merge(s, got);
        let mut last = vec![];
        for i in 0..s.cells.len() {
            if m[i].len() != s.steps {
                return Err(format!("cell {i} has {} results after {} sweeps", m[i].len(), s.steps));
            }
            // What comes in through periodic boundaries lags behind, so only the last sweep is
            // held against the steady state there.
            let from = if periodic { s.steps - 1 } else { 0 };
            let tol = if periodic { 1e-7 } else { 1e-9 };
            for (k, x) in m[i].iter().enumerate().skip(from) {
                if (x.rate - want[i]).abs() > tol * want[i].abs() + tol * 1e-3 * scale {
                    return Err(format!(
                        "cell {i} on rank {} receives {:e} photons per second in sweep {k}, the transport \
                         equation says {:e} (periodic: {:e})",
                        s.rank[i], x.rate, want[i], wrapped[i]
                    ));
                }
            }
            last.push(m[i].last().unwrap().rate);
        }
        for (r, g) in got.iter().enumerate() {
            for (k, t) in g.times.iter().enumerate() {
                if !close(*t, s.max_timestep * (k + 1) as f64, 1e-12) {
                    return Err(format!("rank {r}: the time is {t:e} after {} sweeps", k + 1));
                }
            }
        }
        if let Some(old) = &all_same {
            if old.iter().zip(&last).any(|(a, b)| (a - b).abs() > 1e-12 * scale) && !periodic {
                return Err(format!("the result depends on the schedule: {old:?}, {last:?}"));
            }
        } else {
            all_same = Some(last);
        }
        Ok(())
    });
}

/// Directions that are rotated after every step.
fn rotated(c: &Check, case: &Case) {
    if c.stopped() {
        return;
    }
    let s = &case.setup;
    let what = json!({"case": case.name, "ranks_of_cells": s.rank, "directions": s.dirs});
    let mut wrong: Option<String> = None;
    c.explore("sweep", what.clone(), s.ranks(), &case.bounds, &|r| run(s, r), &mut |got| {
        let m = merge(s, got);
        for k in 0..s.steps {
            let dirs = got[0].dirs[k].clone();
            if got.iter().any(|g| g.dirs[k] != dirs) {
                return Err(format!("the ranks have different directions in sweep {k}"));
            }
            let dot = |a: &[f64; 3], b: &[f64; 3]| a.iter().zip(b).map(|(x, y)| x * y).sum::<f64>();
            for i in 0..dirs.len() {
                for j in 0..=i {
                    let want = dot(&s.dirs[i], &s.dirs[j]) / (dot(&s.dirs[i], &s.dirs[i]) * dot(&s.dirs[j], &s.dirs[j])).sqrt();
                    if (dot(&dirs[i], &dirs[j]) - want).abs() > 1e-9 {
                        return Err(format!("the angles between the directions changed: {dirs:?} in sweep {k}"));
                    }
                }
            }
            if k > 0 && dirs == got[0].dirs[k - 1] {
                return Err(format!("the directions are not rotated after sweep {}", k - 1));
            }
            let (want, _) = reference(&Setup { dirs, ..s.clone() });
            for i in 0..s.cells.len() {
                let x = m[i][k].rate;
                if (x - want[i]).abs() > 1e-9 * want[i] + 1e-6 {
                    let e = format!("cell {i} receives {x:e} photons per second in sweep {k}, with the directions of that sweep {:e} are right", want[i]);
                    if k == 0 {
                        return Err(e);
                    }
                    wrong.get_or_insert(e);
                }
            }
        }
        Ok(())
    });
    if let Some(e) = wrong {
        c.violation("rotated-directions", &e, what);
    }
}

fn main() {
    let c = Check::new("C12");
    c.assume("MPI is the model of harness/mmpi; bevy, diman and hdf5 are the stand-ins of harness/shims");
    let mut cases: Vec<Case> = vec![];
    let opaque = |s: &mut Setup, taus: &[f64]| {
        for i in 0..s.cells.len() {
            let tau = taus[i % taus.len()];
            s.gas[i].density = density_for(tau, s.cells[i].size);
            s.gas[i].fraction = 1e-6;
        }
    };
    let light = |deviations: usize| Bounds {
        bases: vec![Base::PollsLast, Base::Reverse],
        ..Bounds::new(deviations)
    };
    // All distributions of small grids, on 2 and 3 ranks.
    let grids = [(4, 1, 1), (2, 2, 1), (3, 2, 1), (2, 2, 2)];
    for (gi, (nx, ny, nz)) in grids.into_iter().enumerate() {
        let n = nx * ny * nz;
        for ranks in 1..=3 {
            if n > 6 && ranks > 2 && !c.thorough {
                continue;
            }
            for (k, rank) in distributions(n, ranks).into_iter().enumerate() {
                for (di, (name, d)) in dirs().into_iter().enumerate() {
                    // quick: every distribution with one set of directions, thorough: with all
                    let few = !c.thorough || n > 4 && ranks > 2;
                    if few && (k + gi) % 4 != di && n > 4 {
                        continue;
                    }
                    for all_sources in [false, true] {
                        if few && all_sources != (k % 2 == 0) {
                            continue;
                        }
                        let mut s = Setup::new(cartesian(nx, ny, nz, false, [1.0, 1.5, 0.5]), d.clone());
                        s.rank = rank.clone();
                        opaque(&mut s, &[0.5, 1.0, 0.1, 2.0]);
                        for i in 0..n {
                            s.gas[i].source = if all_sources || i == k % n { 1e5 * (1 + i) as f64 } else { 0.0 };
                        }
                        s.steps = 2;
                        s.tasks_before_send = [0, 1, 10000][k % 3];
                        let dev = if ranks == 1 { 0 } else { c.pick((n <= 4 && ranks == 2) as usize, if n > 6 && ranks > 2 { 0 } else { 1 + (n <= 4 && ranks == 2) as usize }) };
                        cases.push(Case { setup: s, bounds: light(dev), name: format!("{nx}x{ny}x{nz} {name}") });
                    }
                }
            }
        }
    }
    // Deep schedules of some that need many messages both ways.
    for (rank, nx, ny) in [
        (vec![0, 1, 0, 1], 4, 1),
        (vec![0, 1, 1, 0], 2, 2),
        (vec![0, 1, 2, 0], 4, 1),
        (vec![0, 1, 2, 1], 2, 2),
    ] {
        for (name, d) in dirs() {
            for tasks in [0, 10000] {
                let ranks = rank.iter().max().unwrap() + 1;
                let mut s = Setup::new(cartesian(nx, ny, 1, false, [1.0; 3]), d.clone());
                s.rank = rank.clone();
                opaque(&mut s, &[0.3]);
                for i in 0..4 {
                    s.gas[i].source = 1e5 * (i + 1) as f64;
                }
                s.tasks_before_send = tasks;
                let dev = if ranks == 2 { c.pick(3, 4) } else { c.pick(2, 3) };
                let mut b = Bounds::new(dev);
                b.max_executions = c.pick(20_000, 40_000);
                cases.push(Case { setup: s, bounds: b, name: format!("deep {nx}x{ny} {name}") });
            }
        }
    }
    // Photon rates below the threshold are dropped.
    for (k, rank) in distributions(4, 2).into_iter().enumerate() {
        let mut s = Setup::new(cartesian(4, 1, 1, false, [1.0; 3]), vec![[1.0, 0.1, 0.1]]);
        s.rank = rank;
        opaque(&mut s, &[1.0]);
        s.gas[0].source = 1e5;
        s.threshold = [1e4, 3e4, 9e4, 2e5][k % 4];
        cases.push(Case { setup: s, bounds: light(1), name: "threshold".into() });
    }
    // Periodic boundaries: the ranks come to the steady state.
    for (nx, ny) in [(3, 1), (2, 2)] {
        for ranks in 1..=3 {
            for (k, rank) in distributions(nx * ny, ranks).into_iter().enumerate() {
                let d = dirs()[k % 4].1.clone();
                let mut s = Setup::new(cartesian(nx, ny, 1, true, [1.0; 3]), d);
                s.rank = rank;
                opaque(&mut s, &[2.0, 1.5]);
                s.gas[k % (nx * ny)].source = 1e5;
                s.steps = 24;
                let mut b = light(c.pick(0, 1));
                b.modes = vec![if k % 2 == 0 { Mode::Eager } else { Mode::Rendezvous }];
                b.max_executions = 2000;
                cases.push(Case { setup: s, bounds: b, name: format!("periodic {nx}x{ny}") });
            }
        }
    }
    let mut turning: Vec<Case> = vec![];
    for (nx, ny) in [(3, 1), (2, 2)] {
        for ranks in 1..=2 {
            for (k, rank) in distributions(nx * ny, ranks).into_iter().enumerate() {
                let mut s = Setup::new(cartesian(nx, ny, 1, false, [1.0; 3]), dirs()[k % 4].1.clone());
                s.rank = rank;
                opaque(&mut s, &[0.2, 0.5]);
                s.gas[k % (nx * ny)].source = 1e5;
                s.steps = 4;
                s.rotate = true;
                turning.push(Case { setup: s, bounds: light(c.pick(0, 1)), name: format!("rotated directions {nx}x{ny}") });
            }
        }
    }
    par(turning.len(), |i| rotated(c, &turning[i]));
    let n = cases.len();
    c.info("cases", json!(n));
    par(n, |i| check(c, &cases[i]));
    c.sample(json!({"case": cases[n / 2].name, "ranks_of_cells": cases[n / 2].setup.rank}));
    c.info("bounds", json!("all distributions of grids of 4x1x1, 2x2x1, 3x2x1, 2x2x2 cells over 1-3 ranks; schedules with up to the stated number of deviations from 2-4 base schedules, eager and rendezvous sends"));
    c.finish()
}
