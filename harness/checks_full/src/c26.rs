//! C26: photons that a cell absorbs ionize and heat it, and its state stays physical.
use mc::*;
use subsweep::sweep::verif::chemistry::Gas;

mod chem;
use chem::*;

/// One history of a cell: the same step with every rate in turn.
fn history(c: &Check, s: &Setup, x: f64, t: f64, rates: &[f64], dt: f64) -> Result<u64, String> {
    let mut gas = Gas::new(x, t, s.n * M_P, s.length, s.volume, s.a, s.safety, s.hold, 0.0);
    let mut want = (x, t);
    let mut steps = 0;
    // a different choice of substeps makes a difference of second order
    let tol = (10.0 * s.safety * s.safety).clamp(1e-5, 0.1);
    for (i, rate) in rates.iter().enumerate() {
        let floor = gas.state();
        want = floor;
        let mut r = (0.0, false);
        let before = steps;
        if s.safety < 1.0 {
            r = s.step(&mut want, floor, *rate, dt, 0, &mut steps);
            if steps > budget() {
                return Ok(steps);
            }
        } else {
            want = s.clamp(want, floor);
            let d = s.temperature_change(want.0, want.1, *rate, dt);
            if (d / want.1).abs() > 0.5 {
                return Ok(steps); // not a step that makes sense
            }
            want.1 += d;
            want.0 += s.fraction_change(want.0, want.1, *rate, dt);
            want = s.clamp(want, floor);
        }
        let (next, process) = gas.step(*rate, dt);
        let got = gas.state();
        let all = || format!("step {i} with rate {rate:e} from (ionized fraction, temperature) {floor:?}: {got:?}, expected {want:?}");
        if !(got.0 >= EPS * (1.0 - 1e-9) && got.0 <= 1.0 && got.1 > 0.0 && got.1.is_finite()) {
            return Err(format!("unphysical {}", all()));
        }
        if s.hold && (got.0 < floor.0.min(1.0 - EPS) || got.1 < floor.1) {
            return Err(format!("cooled {}", all()));
        }
        if !same(got.1, want.1, tol) || !(same(got.0, want.0, tol) || same(1.0 - got.0, 1.0 - want.0, tol) && got.0 > 0.5) {
            return Err(all());
        }
        if s.safety < 1.0 {
            if !(next > 0.0) {
                return Err(format!("a recommended timestep of {next} s after {}", all()));
            }
            // with a single step both are at the same place
            if steps == before + 1 && r.0 > dt * 1.0001 && s.absorbed(floor.0) > 1e-8 && floor.0 < 1.0 - 1e-6 {
                let name = if r.1 { "temperature" } else { "ionization fraction" };
                if !same(next, r.0, 1e-3) && !(next > 1e8 * dt && r.0 > 1e8 * dt) {
                    return Err(format!("a recommended timestep of {next:e} s instead of {:e} s after {}", r.0, all()));
                }
                if process != name && r.0 < 1e3 * dt {
                    return Err(format!("the timestep is limited by {process} instead of {name} after {}", all()));
                }
            }
        }
        // what goes out and what is absorbed are what comes in
        let out = gas.outgoing(*rate);
        if !same(out, rate * (-s.n * (1.0 - got.0) * SIGMA * s.length).exp(), 1e-9) && !(out < 1e-200 * rate) || out > *rate {
            return Err(format!("{out:e} of {rate:e} photons leave after {}", all()));
        }
    }
    let _ = c;
    Ok(steps)
}

fn main() {
    let c = Check::new("C26");
    c.assume("histories that need more substeps than stated are left out");
    c.assume("density, volume and temperature are positive");
    BUDGET.store(c.pick(5000, 50000), std::sync::atomic::Ordering::Relaxed);
    let ts = c.pick(vec![10.0, 3e2, 8e3, 1.6e4, 5e4, 1e6, 1e8], vec![3.0, 10.0, 1e2, 1e3, 8e3, 1.2e4, 1.6e4, 3e4, 1e5, 1e6, 1e7, 1e9]);
    let xs = [0.0, 1e-10, 1e-5, 0.1, 0.5, 0.9, 1.0 - 1e-5, 1.0 - 1e-10, 1.0];
    let ns = c.pick(vec![1e-7, 1e-4, 1e-1, 1e2], vec![1e-8, 1e-6, 1e-4, 1e-2, 1.0, 1e2, 1e4]);
    let fluxes = [0.0, 1e-3, 1e2, 1e6, 1e10];
    let dts = [1.0, 1e3, 1e6, 1e8];
    let shapes = [(PC, PC * PC * PC), (1e3 * PC, 2e9 * PC * PC * PC)];
    let mut setups = vec![];
    for n in &ns {
        for (length, volume) in shapes {
            for a in [1.0, 0.1] {
                for hold in [false, true] {
                    for safety in [1e18, 0.1, 0.01] {
                        setups.push(Setup { n: *n, length, volume, a, safety, hold });
                    }
                }
            }
        }
    }
    par(setups.len() * ts.len(), |i| {
        let s = setups[i % setups.len()];
        let t = ts[i / setups.len()];
        let (mut states, mut steps, mut long) = (0, 0, 0);
        for x in xs {
            for flux in fluxes {
                for dt in dts {
                    if c.stopped() {
                        return;
                    }
                    let rate = flux * s.volume / s.length;
                    let rates: Vec<f64> = if s.safety < 1.0 { vec![rate, 0.0, 3.0 * rate] } else { vec![rate] };
                    let case = || json!({"setup": format!("{s:?}"), "temperature": t, "fraction": x, "rates": rates, "years": dt});
                    match c.guard("chemistry", case, || history(c, &s, x, t, &rates, dt * YEAR)) {
                        Some(Ok(k)) => {
                            states += rates.len() as u64;
                            steps += k;
                            long += (k > budget()) as u64;
                        }
                        Some(Err(e)) => c.violation("chemistry", &e, case()),
                        None => return,
                    }
                }
            }
        }
        c.count(states, states + steps, states);
        c.add("left_out", long);
    });
    // Photons through a cell.
    let mut n = 0;
    for x in xs {
        for nh in [1e-8, 1e-3, 1.0, 1e3] {
            for length in [1e-3, 1.0, 1e3] {
                for rate in [0.0, 1.0, 1e10, 1e45] {
                    for threshold in [0.0, 1.0, 1e20] {
                        let case = || json!({"fraction": x, "density": nh, "parsecs": length, "rate": rate, "threshold": threshold});
                        let s = Setup { n: nh, length: length * PC, volume: PC.powi(3), a: 1.0, safety: 0.1, hold: false };
                        let got = c.guard("absorption", case, || Gas::new(x, 1e3, nh * M_P, s.length, s.volume, 1.0, 0.1, false, threshold).outgoing(rate));
                        n += 1;
                        let Some(got) = got else { continue };
                        let want = if rate < threshold { 0.0 } else { rate * (-nh * (1.0 - x) * SIGMA * s.length).exp() };
                        if !same(got, want, 1e-9) {
                            c.violation("absorption", &format!("{got:e} of {rate:e} photons per second pass, expected {want:e}"), case());
                        }
                    }
                }
            }
        }
    }
    c.count(n, n, n);
    c.sample(json!({"temperature": 1.6e4, "fraction": 0.1, "density": 0.1, "years": 1e6}));
    c.info("bounds", json!(format!("{} temperatures, 9 fractions with 0 and 1, {} densities, 2 cells, 2 scale factors, with and without prevented cooling, 5 fluxes that are switched off and on, 4 steps of 1 to 1e8 years; safety factors 0.1, 0.01 and single steps; histories of more than {} substeps left out", ts.len(), ns.len(), budget())));
    c.finish()
}
