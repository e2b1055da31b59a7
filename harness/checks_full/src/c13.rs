//! C13: individual timesteps. A simulation with several timestep levels does not depend on how the
//! cells are distributed over ranks or on the schedule, comes to the steady solution of the
//! transport equation, and advances every cell by the time that passes.
mod sweepsim;
use mc::mmpi::{explore::Base, Bounds, Mode};
use mc::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::Mutex;
use sweepsim::*;

#[global_allocator]
static A: mmpi::alloc::Tracking = mmpi::alloc::Tracking;

const L: f64 = 3e19;

fn distributions(n: usize, ranks: usize) -> Vec<Vec<usize>> {
    let total = (ranks as u64).pow(n as u32);
    (0..total)
        .map(|i| digits(i, ranks as u64, n).into_iter().map(|x| x as usize).collect::<Vec<_>>())
        .filter(|v| (0..ranks).all(|r| v.contains(&r)))
        .collect()
}

fn few(deviations: usize, max: u64) -> Bounds {
    Bounds { bases: vec![Base::PollsLast, Base::Reverse], max_executions: max, ..Bounds::new(deviations) }
}

fn one() -> Bounds {
    Bounds { bases: vec![Base::PollsLast], modes: vec![Mode::Eager], ..Bounds::new(0) }
}

type Run = (Vec<Vec<CellResult>>, Vec<f64>);

/// The only execution on one rank.
fn serial(c: &Check, s: &Setup, what: &Value) -> Option<Run> {
    let mut s = s.clone();
    s.rank = vec![0; s.cells.len()];
    let got = RefCell::new(None);
    c.explore("serial", what.clone(), 1, &one(), &|r| run(&s, r), &mut |g| {
        *got.borrow_mut() = Some((merge(&s, g), g[0].times.clone()));
        Ok(())
    });
    got.into_inner()
}

fn times_of(s: &Setup) -> Vec<f64> {
    // Two steps at the smallest timestep, then doubling.
    let mut t = 0.0;
    let mut level = s.levels - 1;
    (0..s.steps)
        .map(|k| {
            if k >= 2 && level > 0 {
                level -= 1;
            }
            t += s.max_timestep * 0.5f64.powi(level as i32);
            t
        })
        .collect()
}

fn setup(nx: usize, ny: usize, periodic: bool, dirs: Vec<[f64; 3]>) -> Setup {
    let mut s = Setup::new(cartesian(nx, ny, 1, periodic, [L; 3]), dirs);
    for g in &mut s.gas {
        g.density = 1.67e-24;
        g.fraction = 1e-4;
        g.temperature = 1e4;
    }
    s.safety = 0.2;
    s.threshold = 1e46;
    s
}

struct Case {
    name: String,
    setup: Setup,
    ranks: Vec<Vec<usize>>,
    bounds: Bounds,
    steady: bool,
}

fn describe(c: &Case) -> Value {
    let s = &c.setup;
    json!({"case": c.name, "directions": s.dirs, "levels": s.levels, "max_timestep": s.max_timestep,
        "check_deadlock": s.check_deadlock, "tasks_before_send": s.tasks_before_send,
        "gas": s.gas.iter().map(|g| json!([g.density, g.fraction, g.temperature, g.source])).collect::<Vec<_>>()})
}

fn check(c: &Check, case: &Case) {
    if c.stopped() {
        return;
    }
    let s = &case.setup;
    let what = describe(case);
    let periodic = s.cells.iter().any(|c| c.faces.iter().any(|f| matches!(f.to, To::Wrapped(_))));
    let tol = if periodic { 1e-2 } else { 1e-6 };
    let Some((want, times)) = serial(c, s, &what) else { return };
    let expected = times_of(s);
    if !times.iter().zip(&expected).all(|(a, b)| close(*a, *b, 1e-9)) {
        c.violation("times", &format!("the times are {times:?}, not {expected:?}"), what);
        return;
    }
    for v in want.iter().flatten() {
        if !(v.rate >= 0.0 && v.fraction >= 0.0 && v.fraction <= 1.0 && v.temperature > 0.0) {
            c.violation("state", &format!("impossible state {v:?}"), what);
            return;
        }
    }
    if case.steady {
        let mut t = s.clone();
        for (i, g) in t.gas.iter_mut().enumerate() {
            g.fraction = want[i].last().unwrap().fraction;
        }
        let (rates, _) = reference(&t);
        let scale = rates.iter().cloned().fold(0.0, f64::max);
        for i in 0..rates.len() {
            let got = want[i].last().unwrap().rate;
            if (got - rates[i]).abs() > 1e-2 * rates[i] + 1e-4 * scale {
                c.violation(
                    "steady",
                    &format!("after {} steps cell {i} receives {got:e}, the transport equation says {:e}", s.steps, rates[i]),
                    what,
                );
                return;
            }
        }
    }
    for rank in &case.ranks {
        if c.stopped() {
            return;
        }
        let mut p = s.clone();
        p.rank = rank.clone();
        let mut what = what.clone();
        what["ranks_of_cells"] = json!(rank);
        c.explore("distributed", what, p.ranks(), &case.bounds, &|r| run(&p, r), &mut |got| {
            let m = merge(&p, got);
            for i in 0..m.len() {
                for k in if periodic { p.steps - 1..p.steps } else { 0..p.steps } {
                    let (a, b) = (&m[i][k], &want[i][k]);
                    let scale = want.iter().map(|v| v[k].rate).fold(0.0, f64::max);
                    if (a.rate - b.rate).abs() > tol * b.rate + tol * 1e-4 * scale
                        || !close(a.fraction, b.fraction, tol)
                        || !close(a.temperature, b.temperature, tol)
                    {
                        return Err(format!(
                            "cell {i} on rank {} differs from a run on one rank after step {k}: {a:?} instead of {b:?}",
                            p.rank[i]
                        ));
                    }
                }
            }
            for (r, g) in got.iter().enumerate() {
                if !g.times.iter().zip(&expected).all(|(a, b)| close(*a, *b, 1e-9)) {
                    return Err(format!("rank {r}: the times are {:?}, not {expected:?}", g.times));
                }
            }
            Ok(())
        });
    }
}

/// With all cells at the highest level, the steps are those of a simulation without levels.
fn uniform(c: &Check, k: u64) {
    if c.stopped() {
        return;
    }
    let mut fine = setup(3, 1, false, vec![[1.0, 0.2, 0.1], [-1.0, 0.3, 0.1]]);
    let d = digits(k, 3, 3);
    for i in 0..3 {
        fine.gas[i].fraction = [1e-4, 0.5, 0.99][d[i] as usize];
        fine.gas[i].temperature = [1e4, 2e4, 5e4][d[(i + 1) % 3] as usize];
    }
    fine.gas[d[0] as usize].source = 1e49;
    // Every cell asks for the smallest timestep.
    fine.safety = 1e-9;
    fine.chemistry_safety = Some(0.1);
    let total = 4e12;
    for levels in 2..=4 {
        let mut s = fine.clone();
        s.levels = levels;
        s.max_timestep = total;
        s.steps = levels + 2;
        let mut f = fine.clone();
        f.levels = 1;
        f.max_timestep = total * 0.5f64.powi(levels as i32 - 1);
        let times = times_of(&s);
        f.steps = (times.last().unwrap() / f.max_timestep).round() as usize;
        let what = json!({"case": "uniform", "pattern": d, "levels": levels});
        let (Some(a), Some(b)) = (serial(c, &s, &what), serial(c, &f, &what)) else { return };
        for (j, t) in times.iter().enumerate() {
            let n = (t / f.max_timestep).round() as usize - 1;
            for i in 0..3 {
                let (x, y) = (&a.0[i][j], &b.0[i][n]);
                if !close(x.rate, y.rate, 1e-6) || !close(x.fraction, y.fraction, 1e-6) || !close(x.temperature, y.temperature, 1e-6) {
                    c.violation("uniform", &format!("cell {i} at time {t:e}: {x:?} with {levels} levels, {y:?} with that many small steps"), what);
                    return;
                }
            }
        }
    }
}

/// Without light, every cell evolves by itself for the time that has passed.
fn dark(c: &Check, k: u64) {
    if c.stopped() {
        return;
    }
    let d = digits(k, 4, 3);
    let mut s = setup(3, 1, false, vec![[1.0, 0.2, 0.1]]);
    let states = [(1e-24, 0.9, 1e5), (1e-21, 0.99, 2e4), (1e-23, 0.5, 1e5), (3e-22, 0.9, 5e4)];
    for i in 0..3 {
        let (density, fraction, temperature) = states[d[i] as usize];
        s.gas[i] = Gas { density, fraction, temperature, source: 0.0 };
    }
    s.levels = 3;
    s.max_timestep = 1e14;
    s.safety = 0.05;
    s.steps = 7;
    let mut f = s.clone();
    f.levels = 1;
    f.max_timestep = s.max_timestep / 8.0;
    f.steps = (times_of(&s).last().unwrap() / f.max_timestep).round() as usize;
    let what = json!({"case": "dark", "pattern": d});
    let (Some(a), Some(b)) = (serial(c, &s, &what), serial(c, &f, &what)) else { return };
    for (j, t) in times_of(&s).iter().enumerate() {
        let n = (t / f.max_timestep).round() as usize - 1;
        for i in 0..3 {
            let (x, y) = (&a.0[i][j], &b.0[i][n]);
            if !close(x.fraction, y.fraction, 0.03) || !close(x.temperature, y.temperature, 0.03) {
                c.violation("dark", &format!("cell {i} at time {t:e}: {x:?} with 3 levels, {y:?} with small steps for all"), what);
                return;
            }
        }
    }
}

static COUNTS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());

fn main() {
    let c = Check::new("C13");
    c.assume("MPI is the model of harness/mmpi; bevy, diman and hdf5 are the stand-ins of harness/shims");
    let mut cases: Vec<Case> = vec![];
    let chain = vec![[1.0, 0.1, 0.05], [-1.0, 0.1, 0.07]];
    let plane = vec![[1.0, 0.6, 0.05], [-0.7, 0.8, 0.07]];
    // An ionization front that passes through the cells.
    for k in 0..c.pick(24u64, 96) {
        let kind = k % 4;
        let (nx, ny, periodic, dirs) = match kind {
            0 | 1 => (4, 1, false, chain.clone()),
            2 => (2, 2, false, plane.clone()),
            _ => (3, 1, false, vec![[1.0, 0.1, 0.05]]),
        };
        let mut s = setup(nx, ny, periodic, dirs);
        let n = nx * ny;
        let at = (k / 4) as usize % n;
        s.gas[at].source = [1e48, 3e48][(k / 16) as usize % 2];
        s.gas[(at + 1) % n].density *= 0.5;
        if k / 4 % 3 == 2 {
            s.gas[(at + 2) % n].fraction = 0.99;
        }
        s.levels = 3 + (k / 8 % 2) as usize;
        s.max_timestep = 1e13;
        s.steps = c.pick(7, 10);
        s.check_deadlock = k % 2 == 1;
        s.tasks_before_send = [0, 10000][(k / 2 % 2) as usize];
        let mut ranks = distributions(n, 2);
        ranks.extend(distributions(n, 3));
        cases.push(Case { name: format!("front {k}"), setup: s, ranks, bounds: few(0, 100), steady: false });
    }
    // Schedules of some of them.
    for (k, rank) in [vec![0, 1, 0, 1], vec![0, 0, 1, 1], vec![1, 0, 2, 0], vec![0, 1, 2, 2]].into_iter().enumerate() {
        let mut s = setup(4, 1, false, chain.clone());
        s.gas[0].source = 1e48;
        s.levels = 3;
        s.max_timestep = 1e13;
        s.steps = 6;
        s.check_deadlock = k >= 2;
        let b = few(1, c.pick(3000, 100_000));
        cases.push(Case { name: format!("schedules {k}"), setup: s, ranks: vec![rank], bounds: b, steady: false });
    }
    // Until nothing changes any more.
    for k in 0..c.pick(12u64, 48) {
        let (nx, ny, dirs) = if k % 2 == 0 { (4, 1, chain.clone()) } else { (2, 2, plane.clone()) };
        let mut s = setup(nx, ny, false, dirs);
        let at = (k / 2 % 4) as usize;
        s.gas[at].source = [3e48, 1e49][(k / 8 % 2) as usize];
        s.gas[(at + 1) % 4].density *= 0.3;
        s.threshold = 1e44;
        s.levels = 2 + (k % 3) as usize;
        s.max_timestep = 2e13;
        s.steps = 40;
        let ranks = vec![vec![0, 1, 0, 1], vec![0, 0, 1, 1], vec![2, 1, 0, 0]];
        cases.push(Case { name: format!("steady {k}"), setup: s, ranks, bounds: one(), steady: true });
    }
    // The same with periodic boundaries, through which light comes with a delay.
    for k in 0..c.pick(8u64, 32) {
        let (nx, ny, dirs) = if k % 2 == 0 { (4, 1, chain.clone()) } else { (2, 2, plane.clone()) };
        let mut s = setup(nx, ny, true, dirs);
        for g in &mut s.gas {
            g.density *= 10.0;
        }
        s.gas[(k / 2 % 4) as usize].source = [1e48, 5e47][(k / 8 % 2) as usize];
        s.threshold = 1e44;
        s.levels = 2 + (k % 3) as usize;
        s.max_timestep = 1e14;
        s.steps = 60;
        s.check_deadlock = k % 4 == 0;
        let mut ranks = vec![vec![0, 1, 0, 1], vec![0, 0, 1, 1], vec![2, 1, 0, 0]];
        if c.thorough {
            ranks = distributions(4, 2);
        }
        cases.push(Case { name: format!("periodic {k}"), setup: s, ranks, bounds: one(), steady: true });
    }
    // How often sweeps started at which level with how many cells, for the record.
    struct Log;
    impl log::Log for Log {
        fn enabled(&self, _: &log::Metadata) -> bool {
            true
        }
        fn log(&self, r: &log::Record) {
            let t = r.args().to_string();
            if let Some(t) = t.strip_prefix("Sweep:") {
                let t = t.split('(').next().unwrap().split_whitespace().collect::<Vec<_>>().join(" ");
                *COUNTS.lock().unwrap().entry(t).or_default() += 1;
            }
        }
        fn flush(&self) {}
    }
    let _ = log::set_logger(&Log);
    log::set_max_level(log::LevelFilter::Info);
    c.info("cases", json!(cases.len()));
    par(cases.len(), |i| check(c, &cases[i]));
    par(27, |i| uniform(c, i as u64));
    par(64, |i| dark(c, i as u64));
    c.info("active_cells_by_level", json!(*COUNTS.lock().unwrap()));
    c.sample(describe(&cases[1]));
    c.info("bounds", json!("chains and squares of 4 cells, periodic and not, 2-4 levels; all distributions over 2 and 3 ranks; 7 steps; schedules with one deviation for 4 of them"));
    c.finish()
}
