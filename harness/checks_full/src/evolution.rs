//! What is written about a state that evolves: every snapshot and every entry of the series.
use std::path::PathBuf;

use subsweep::simulation_plugin::SimulationTime;

#[path = "chem.rs"]
mod chem;
use super::super::sweepsim::reference;
use super::*;

const RATES: [&str; 4] = ["photoionization_rate", "recombination_rate", "collisional_ionization_rate", "heating_rate"];

struct State {
    time: f64,
    x: Vec<f64>,
    t: Vec<f64>,
    light: Vec<f64>,
    photo: Vec<f64>,
}

pub fn wanted(case: &Case, name: &str) -> bool {
    case.fields.as_ref().map(|f| f.contains(&name)).unwrap_or(true)
}

fn time(files: &[PathBuf]) -> Result<f64, String> {
    let mut all = vec![];
    for f in files {
        let t: SimulationTime = hdf5::model::attr(f, None, "time").ok_or(format!("no time in {f:?}"))?;
        all.push(t.value_unchecked());
    }
    if all.iter().any(|t| *t != all[0]) {
        return Err(format!("the files of a snapshot have the times {all:?}"));
    }
    all.first().copied().ok_or("a snapshot without files".into())
}

/// Whether this is the scale factor and redshift after that time.
fn epoch(a0: f64, h: f64, time: f64, a: f64, z: f64) -> Result<(), String> {
    let (got, want) = (years(a0, a, h), time / chem::YEAR);
    if (got - want).abs() > 1e-3 * want + 100.0 {
        return Err(format!("the scale factor is {a}, that of {got} years after {a0} instead of {want}"));
    }
    if !close(1.0 + z, 1.0 / a, 1e-9) {
        return Err(format!("the redshift is {z} at a scale factor of {a}"));
    }
    Ok(())
}

pub fn verdict(case: &Case, e: &Expected) -> Result<(), String> {
    chem::BUDGET.store(10_000_000, std::sync::atomic::Ordering::Relaxed);
    let n = case.points.len();
    let ev = case.evolution.as_ref().unwrap();
    let (all, which) = snapshots(case)?;
    let cells: Vec<chem::Setup> = (0..n)
        .map(|i| chem::Setup {
            n: particle(case, i).density * 1e-3 / chem::M_P,
            length: e.setup.cells[i].size * 100.0,
            volume: e.volume[i] * 1e6,
            a: case.cosmology.map(|x| x.0).unwrap_or(1.0),
            safety: ev.safety,
            hold: ev.hold,
        })
        .collect();
    let mut states: Vec<State> = vec![];
    let mut ionized = vec![f64::INFINITY; n];
    for (k, files) in all.iter().enumerate() {
        let get = |name: &str| -> Result<Vec<f64>, String> {
            let v = column(files, name)?;
            if v.len() != n {
                return Err(format!("{} values of {name} in snapshot {k}", v.len()));
            }
            let mut sorted = vec![0.0; n];
            for row in 0..n {
                sorted[which[row]] = v[row];
            }
            Ok(sorted)
        };
        for name in RATES.into_iter().chain(["timestep", "ionization_time"]) {
            if !wanted(case, name) && files.iter().any(|f| hdf5::model::datasets(f).iter().any(|d| d == name)) {
                return Err(format!("{name} was not asked for, but is in snapshot {k}"));
            }
        }
        let same = |name: &str, i: usize, got: f64, want: f64, tol: f64, floor: f64| {
            if (got - want).abs() <= tol * want.abs() + floor || got == want {
                return Ok(());
            }
            Err(format!("{name} of particle {i} is {got:e} in snapshot {k}, it should be {want:e}"))
        };
        let now = State { time: time(files)?, x: get("ionized_hydrogen_fraction")?, t: get("temperature")?, light: get("photon_rate")?, photo: vec![] };
        let mut step = vec![0.0; n];
        if k == 0 {
            if now.time != 0.0 {
                return Err(format!("the first snapshot is at {} s", now.time));
            }
            for i in 0..n {
                same("ionized_hydrogen_fraction", i, now.x[i], e.fraction[i], 1e-9, 0.0)?;
                same("temperature", i, now.t[i], e.temperature[i], 1e-4, 0.0)?;
                same("photon_rate", i, now.light[i], 0.0, 0.0, 0.0)?;
            }
        } else {
            let before = &states[k - 1];
            if !(now.time > before.time) {
                return Err(format!("snapshot {k} is at {} s, the one before at {} s", now.time, before.time));
            }
            if case.levels == 1 {
                if !close(now.time, case.dt * k as f64, 1e-9) {
                    return Err(format!("snapshot {k} is at {} s after steps of {} s", now.time, case.dt));
                }
                // the light is that in the gas before the step, the gas what becomes of it
                let mut s = e.setup.clone();
                for i in 0..n {
                    s.gas[i].fraction = before.x[i];
                    s.gas[i].temperature = before.t[i];
                }
                let (rate, _) = reference(&s);
                let brightest = rate.iter().cloned().fold(0.0, f64::max);
                let tol = 10.0 * ev.safety * ev.safety;
                for i in 0..n {
                    same("photon_rate", i, now.light[i], rate[i], 1e-4, 1e-7 * brightest)?;
                    let floor = (before.x[i], before.t[i]);
                    let mut state = floor;
                    let mut steps = 0;
                    let (scale, _) = cells[i].step(&mut state, floor, now.light[i] + e.source[i], case.dt, 0, &mut steps);
                    assert!(steps < 10_000_000, "too many steps");
                    same("ionized_hydrogen_fraction", i, now.x[i], state.0, tol, 0.0)?;
                    same("temperature", i, now.t[i], state.1, tol, 0.0)?;
                    step[i] = scale;
                }
            }
        }
        for i in 0..n {
            if k > 0 && now.x[i] > 0.5 && ionized[i] == f64::INFINITY {
                ionized[i] = now.time;
            }
        }
        // What follows from that
        let light: Vec<f64> = (0..n).map(|i| if k == 0 { e.source[i] } else { now.light[i] + e.source[i] }).collect();
        let photo: Vec<f64> =
            (0..n).map(|i| light[i] * cells[i].absorbed(now.x[i]) / (cells[i].n * (1.0 - now.x[i]) * cells[i].volume)).collect();
        let heat = |i: usize| {
            let c = &cells[i];
            let plus = light[i] * c.absorbed(now.x[i]) / c.volume * chem::EXCESS;
            let minus = chem::cooling(now.t[i], now.x[i], c.n, c.a);
            // 1 erg / cm^3 = 0.1 J / m^3
            (0.1 * (plus - minus), 0.1 * (plus + minus.abs()))
        };
        for name in RATES {
            if !wanted(case, name) {
                continue;
            }
            let got = get(name)?;
            for i in 0..n {
                let (c, x) = (&cells[i], now.x[i]);
                let (want, size) = match name {
                    "photoionization_rate" => (photo[i], photo[i]),
                    "recombination_rate" => (chem::recombination(now.t[i]) * c.n * x * x, 0.0),
                    "collisional_ionization_rate" => (chem::collisions(now.t[i]) * c.n * x * (1.0 - x), 0.0),
                    _ => heat(i),
                };
                // close to full ionization, the neutral part is only known to some digits
                let tol = 1e-4 + 1e-14 / (1.0 - x);
                same(name, i, got[i], want, tol, 1e-4 * size)?;
            }
        }
        if wanted(case, "timestep") {
            let got = get("timestep")?;
            for i in 0..n {
                if k == 0 {
                    same("timestep", i, got[i], 0.0, 0.0, 0.0)?;
                } else if case.levels == 1 {
                    same("timestep", i, got[i], step[i], 0.1, 0.0)?;
                } else if !(got[i] > 0.0) {
                    return Err(format!("timestep of particle {i} is {} in snapshot {k}", got[i]));
                }
            }
        }
        if wanted(case, "ionization_time") {
            let got = get("ionization_time")?;
            for i in 0..n {
                same("ionization_time", i, got[i], ionized[i], 1e-9, 0.0)?;
            }
        }
        if let (Some((a0, h)), true) = (case.cosmology, wanted(case, "scale_factor")) {
            for f in files {
                let number = |name: &str| -> Result<f64, String> {
                    let x: units::Dimensionless = hdf5::model::attr(f, None, name).ok_or(format!("no {name} in snapshot {k}"))?;
                    Ok(x.value_unchecked())
                };
                epoch(a0, h, now.time, number("scale_factor")?, number("redshift")?).map_err(|e| format!("snapshot {k}: {e}"))?;
                if number("little_h")? != h {
                    return Err(format!("little h is {} in snapshot {k}", number("little_h")?));
                }
            }
        }
        states.push(State { photo, ..now });
    }
    let ionized = states.last().unwrap().x.iter().filter(|x| **x > 0.5).count();
    if std::env::var_os("MC_LOUD").is_some() {
        eprintln!("{}: {} snapshots, {ionized} of {n} ionized", case.name, all.len());
    }
    // The series
    let mass: Vec<f64> = (0..n).map(|i| particle(case, i).density * e.volume[i]).collect();
    let average = |v: &[f64], w: &[f64]| v.iter().zip(w).map(|(a, b)| a * b).sum::<f64>() / w.iter().sum::<f64>();
    let entry_time = |x: &serde_yaml::Value| number(&x["time"]).or_else(|| number(&x["time"]["time_elapsed"]));
    let names = [
        "hydrogen_ionization_mass_average",
        "hydrogen_ionization_volume_average",
        "temperature_mass_average",
        "temperature_volume_average",
        "photoionization_rate_volume_average",
        "weighted_photoionization_rate_volume_average",
    ];
    for name in names {
        let got = series(name)?;
        if got.len() != states.len() {
            return Err(format!("{name} has {} entries for {} steps", got.len(), states.len()));
        }
        for (k, (x, s)) in got.iter().zip(&states).enumerate() {
            let weighted: Vec<f64> = s.x.iter().zip(&s.photo).map(|(a, b)| a * b).collect();
            let want = match name {
                "hydrogen_ionization_mass_average" => average(&s.x, &mass),
                "hydrogen_ionization_volume_average" => average(&s.x, &e.volume),
                "temperature_mass_average" => average(&s.t, &mass),
                "temperature_volume_average" => average(&s.t, &e.volume),
                "photoionization_rate_volume_average" => average(&s.photo, &e.volume),
                _ => average(&weighted, &e.volume),
            };
            match entry_time(x) {
                Some(t) if (t - s.time).abs() <= 1e-6 * s.time => {}
                t => return Err(format!("entry {k} of {name} is at {t:?}, that of the snapshot is {}", s.time)),
            }
            if let Some((a0, h)) = case.cosmology {
                let get = |key: &str| number(&x["time"][key]).ok_or(format!("no {key} in entry {k} of {name}"));
                epoch(a0, h, s.time, get("scale_factor")?, get("redshift")?).map_err(|e| format!("entry {k} of {name}: {e}"))?;
            }
            match number(&x["val"]) {
                Some(v) if close(v, want, 2e-4) || v == want => {}
                v => return Err(format!("entry {k} of {name} is {v:?}, it should be {want:e}")),
            }
        }
    }
    let got = series("num_particles_at_timestep_levels")?;
    if got.len() != states.len() {
        return Err(format!("the numbers of particles on levels have {} entries for {} steps", got.len(), states.len()));
    }
    for (x, s) in got.iter().zip(&states) {
        match entry_time(x) {
            Some(t) if (t - s.time).abs() <= 1e-6 * s.time => {}
            t => return Err(format!("an entry of the numbers of particles on levels is at {t:?} instead of {}", s.time)),
        }
        let levels = x["val"].as_sequence().ok_or("no list of levels")?;
        if levels.len() != case.levels {
            return Err(format!("{} levels are listed, there are {}", levels.len(), case.levels));
        }
        // those of a level and of the shorter ones
        let mut previous = n as f64;
        for (j, l) in levels.iter().enumerate() {
            let (level, num, step) = (number(&l["level"]), number(&l["num"]), number(&l["timestep"]));
            let (Some(level), Some(num), Some(step)) = (level, num, step) else { return Err(format!("a level is given as {l:?}")) };
            if level != j as f64 || !close(step, case.dt * 0.5f64.powi(j as i32), 1e-6) {
                return Err(format!("level {level} with a step of {step} s is listed as number {j} of {} s", case.dt));
            }
            if num > previous || j == 0 && num != n as f64 {
                return Err(format!("{num} of {n} particles are said to be on level {j}, and {previous} on the one before"));
            }
            previous = num;
        }
    }
    Ok(())
}
