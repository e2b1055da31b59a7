//! C30: every cell is advanced by exactly the time that passes, in steps that its own timescale
//! allows. The sweep runs with a chemistry that the harness controls.
mod sweepsim;
use mc::mmpi::{explore::Base, Bounds, Mode};
use mc::*;
use subsweep::sweep::verif::schedule::{Steps, Update};
use subsweep::parameters::SweepParameters;
use subsweep::sweep::DirectionsSpecification;
use subsweep::units;
use sweepsim::*;

#[global_allocator]
static A: mmpi::alloc::Tracking = mmpi::alloc::Tracking;

const MAX: f64 = 1024.0;
const THRESHOLD: f64 = 1e-2;

#[derive(Clone)]
struct Case {
    setup: Setup,
    safety: f64,
    /// by step and cell
    timescale: Vec<Vec<f64>>,
    outgoing: Vec<Vec<f64>>,
}

#[derive(Clone, Debug, PartialEq)]
struct Got {
    steps: Vec<(f64, Vec<Update>)>,
}

fn run(case: &Case, r: usize) -> Got {
    let s = &case.setup;
    let cells = (0..s.cells.len())
        .filter(|i| s.rank[*i] == r)
        .map(|i| (s.id(i), i, cell(s, i), s.gas[i].source))
        .collect();
    let haloes = (0..s.cells.len())
        .filter(|i| s.rank[*i] != r && s.cells[*i].faces.iter().any(|f| matches!(f.to, To::Cell(j) if s.rank[j] == r)))
        .map(|i| s.id(i))
        .collect();
    let dirs = || DirectionsSpecification::Explicit(s.dirs.iter().map(|d| vec3(*d)).collect());
    let parameters = SweepParameters {
        directions: dirs(),
        rotate_directions: false,
        num_timestep_levels: s.levels,
        significant_rate_threshold: units::PhotonRate::photons_per_second(THRESHOLD),
        timestep_safety_factor: case.safety.into(),
        chemistry_timestep_safety_factor: 0.7.into(),
        check_deadlock: s.check_deadlock,
        periodic: false,
        max_timestep: units::Time::seconds(MAX),
        prevent_cooling: false,
        num_tasks_to_solve_before_send_receive: s.tasks_before_send,
    };
    let mut steps = Steps::new(cells, haloes, dirs(), parameters, s.ranks(), r as i32);
    Got { steps: case.timescale.iter().zip(&case.outgoing).map(|(t, o)| steps.step(t, o)).collect() }
}

/// Compares the updates with what the timescales ask for.
fn judge(case: &Case, got: &[Got]) -> Result<(), String> {
    let s = &case.setup;
    let n = s.cells.len();
    let smallest = MAX * 0.5f64.powi(s.levels as i32 - 1);
    // What the cell asked for at its last update.
    let mut desired = vec![0.0f64; n];
    let mut previous = vec![0.0; n];
    let mut out = vec![0.0; n];
    let mut allowed = smallest;
    for k in 0..case.timescale.len() {
        if k >= 2 && allowed < MAX {
            allowed *= 2.0;
        }
        for (r, g) in got.iter().enumerate() {
            if !close(g.steps[k].0, allowed, 1e-12) {
                return Err(format!("step {k} on rank {r} is {} long, not {allowed}", g.steps[k].0));
            }
        }
        let step = |i: usize| -> f64 {
            let mut dt = allowed;
            while dt > desired[i] && dt > smallest {
                dt *= 0.5;
            }
            dt
        };
        let steps: Vec<f64> = (0..n).map(step).collect();
        let mut at: Vec<usize> = vec![0; got.len()];
        let mut clock = vec![0.0; n];
        let mut now = 0.0;
        while now < allowed {
            let due: Vec<usize> = (0..n).filter(|i| clock[*i] == now).collect();
            for i in &due {
                out[*i] = case.outgoing[k][*i];
            }
            // Updates of one sweep come in any order.
            for (r, g) in got.iter().enumerate() {
                let here = due.iter().filter(|i| s.rank[**i] == r).count();
                let list = &g.steps[k].1;
                let mut seen: Vec<&Update> = list.iter().skip(at[r]).take(here).collect();
                at[r] += here;
                seen.sort_by_key(|u| u.cell);
                let want: Vec<usize> = due.iter().cloned().filter(|i| s.rank[*i] == r).collect();
                if seen.iter().map(|u| u.cell).collect::<Vec<_>>() != want {
                    return Err(format!("step {k}, time {now} of {allowed}: cells {want:?} are due on rank {r}, but it updates {seen:?}"));
                }
                for u in seen {
                    let i = u.cell;
                    if !close(u.seconds, steps[i], 1e-12) {
                        return Err(format!(
                            "step {k}, time {now}: cell {i} asked for at most {} and is advanced by {}, not by {} (the steps allowed are {smallest} to {allowed})",
                            desired[i], u.seconds, steps[i]
                        ));
                    }
                    let rate = s.gas[i].source
                        + s.cells[i]
                            .faces
                            .iter()
                            .map(|f| match f.to {
                                // On a chain, all that leaves a cell enters the next.
                                To::Cell(j) if f.normal[0] < 0.0 => out[j],
                                _ => 0.0,
                            })
                            .sum::<f64>();
                    if (u.rate - rate).abs() > 1e-9 * (1.0 + rate) {
                        return Err(format!("step {k}, time {now}: cell {i} receives {}, its upwind neighbour and its source say {rate}", u.rate));
                    }
                    let change = if rate < THRESHOLD { 0.0 } else { (rate - previous[i]).abs() / rate };
                    previous[i] = rate;
                    desired[i] = case.safety * case.timescale[k][i].min(if change == 0.0 { f64::INFINITY } else { steps[i] / change });
                    // Exact powers of two decide between steps; what is left of them is rounding.
                    desired[i] *= 1.0 + 1e-9;
                    clock[i] += steps[i];
                }
            }
            now += smallest;
        }
        for (r, g) in got.iter().enumerate() {
            if at[r] != g.steps[k].1.len() {
                return Err(format!("step {k}: rank {r} makes {} updates, not {}", g.steps[k].1.len(), at[r]));
            }
        }
    }
    Ok(())
}

fn chain(n: usize, levels: usize) -> Setup {
    let mut s = Setup::new(cartesian(n, 1, 1, false, [1.0; 3]), vec![[1.0, 0.0, 0.0]]);
    s.levels = levels;
    s
}

fn check(c: &Check, case: &Case, bounds: &Bounds) {
    if c.stopped() {
        return;
    }
    let s = &case.setup;
    let what = json!({"cells": s.cells.len(), "ranks_of_cells": s.rank, "levels": s.levels, "safety": case.safety,
        "sources": s.gas.iter().map(|g| g.source).collect::<Vec<_>>(),
        "timescales": case.timescale.iter().map(|v| v.iter().map(|x| x.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "outgoing": case.outgoing});
    c.explore("steps", what, s.ranks(), bounds, &|r| run(case, r), &mut |g| judge(case, g));
}

fn bounds(deviations: usize, max: u64) -> Bounds {
    if deviations == 0 {
        return Bounds { bases: vec![Base::PollsLast], modes: vec![Mode::Eager], ..Bounds::new(0) };
    }
    Bounds { bases: vec![Base::PollsLast, Base::Reverse], max_executions: max, ..Bounds::new(deviations) }
}

fn main() {
    let c = Check::new("C30");
    c.assume("MPI is the model of harness/mmpi; bevy, diman and hdf5 are the stand-ins of harness/shims");
    c.assume("the chemistry is the harness's: it records the updates and asks for the timescales of the case");
    let safety = 0.25;
    let inf = f64::INFINITY;
    // Timescales as fractions of the longest step, after the safety factor.
    let values = [inf, 1.0, 0.9, 0.5, 0.3, 0.126, 0.125, 0.0];
    let scale = |x: f64| x * MAX / safety;
    // One cell: all sequences of timescales.
    let few = c.pick(6usize, 8);
    let steps = c.pick(5usize, 6);
    for levels in 1..=4usize {
        par((few as u64).pow(steps as u32 - 1) as usize, |i| {
            let mut timescale: Vec<Vec<f64>> = digits(i as u64, few as u64, steps - 1)
                .into_iter()
                .map(|d| vec![scale(values[(d as usize * 8 / few) % 8])])
                .collect();
            timescale.push(vec![inf]);
            let outgoing = vec![vec![0.0]; steps];
            check(c, &Case { setup: chain(1, levels), safety, timescale, outgoing }, &bounds(0, 1));
        });
    }
    // One cell, once at the full step: all values around the powers of two, 1 to 10 levels.
    for levels in 1..=10usize {
        for e in 0..11 {
            par(5, |j| {
                let x = 0.5f64.powi(e) * [1.0, 0.999, 1.001, 0.75, 1.5][j];
                let n = levels + 3;
                let mut timescale = vec![vec![inf]; n];
                timescale[n - 2] = vec![scale(x)];
                check(c, &Case { setup: chain(1, levels), safety, timescale, outgoing: vec![vec![0.0]; n] }, &bounds(0, 1));
            });
        }
    }
    // Two and three cells, on all distributions over ranks.
    let small = [inf, 0.5, 0.3, 0.0];
    let steps = c.pick(4usize, 5);
    for (n, ranks) in [(2usize, vec![vec![0usize, 0], vec![0, 1], vec![1, 0]]), (3, vec![vec![0, 0, 0], vec![0, 1, 0], vec![0, 1, 2], vec![2, 0, 1], vec![1, 1, 0]])] {
        for levels in 2..=4usize {
            for rank in &ranks {
                let free = if n == 2 { steps - 1 } else { 2 };
                let all = 4u64.pow((n * free) as u32);
                par(all as usize, |i| {
                    let d = digits(i as u64, 4, n * free);
                    let mut setup = chain(n, levels);
                    setup.rank = rank.clone();
                    setup.tasks_before_send = i % 2;
                    setup.check_deadlock = i % 7 == 0;
                    let total = levels + free;
                    let timescale = (0..total)
                        .map(|k| {
                            (0..n)
                                .map(|j| {
                                    // The first steps are short, whatever the cells ask for.
                                    let from = total - 1 - free;
                                    if k < from || k == total - 1 { inf } else { scale(small[d[(k - from) * n + j] as usize]) }
                                })
                                .collect()
                        })
                        .collect();
                    check(c, &Case { setup, safety, timescale, outgoing: vec![vec![0.0; n]; total] }, &bounds(0, 1));
                });
            }
        }
    }
    // Light that changes: the rate decides about the step of the second cell.
    let light = [0.0, 1e-3, 1.0, 1.25, 8.0];
    let steps = c.pick(4usize, 5);
    for levels in 1..=3usize {
        for (rank, source) in [(vec![0usize, 0], 0.0), (vec![0, 0], 4.0), (vec![0, 1], 0.0), (vec![1, 0], 4.0)] {
            par(5usize.pow(steps as u32 + 1), |i| {
                let d = digits(i as u64, 5, steps + 1);
                let mut setup = chain(2, levels);
                setup.rank = rank.clone();
                setup.gas[1].source = source;
                let total = levels + steps - 1;
                let mut outgoing: Vec<Vec<f64>> = (0..total)
                    .map(|k| vec![light[d[(k + steps).saturating_sub(total)] as usize], 0.0])
                    .collect();
                let last = outgoing.last().unwrap().clone();
                outgoing.push(last);
                let slow = [inf, 1.0, 0.3, 0.126, 0.0][d[steps] as usize];
                let timescale = (0..=total).map(|_| vec![scale(slow), inf]).collect();
                check(c, &Case { setup, safety: 1.0, timescale, outgoing }, &bounds(0, 1));
            });
        }
    }
    // Schedules.
    for (rank, levels) in [(vec![0usize, 1], 3usize), (vec![1, 0, 1], 3), (vec![0, 1, 2], 2)] {
        let n = rank.len();
        par(4usize.pow(n as u32), |i| {
            let d = digits(i as u64, 4, n);
            let mut setup = chain(n, levels);
            setup.rank = rank.clone();
            let total = levels + 2;
            let timescale = (0..total).map(|k| (0..n).map(|j| if k + 2 == total { scale(small[d[j] as usize]) } else { inf }).collect()).collect();
            let outgoing = (0..total).map(|k| (0..n).map(|j| 1.0 + ((k + j) % 2) as f64).collect()).collect();
            check(c, &Case { setup, safety, timescale, outgoing }, &bounds(1, c.pick(400, 20_000)));
        });
    }
    let s = chain(2, 3);
    c.sample(json!({"cells": s.cells.len(), "levels": 3, "timescales": [["inf", "2048"], ["1228.8", "0"]]}));
    c.info("bounds", json!("all sequences of timescales of one cell (4 or 5 steps, 6 or 8 values, 1-4 levels), of 2 cells (3 or 4 steps, 4 values) and of 3 cells (2 steps) on all distributions; 1-10 levels with values around the powers of two; all sequences of photon rates"));
    c.finish()
}
