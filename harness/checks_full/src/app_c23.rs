//! C23: what is read from Arepo's files: gas, stars, the grid and the results of an earlier run, in
//! any units, from any number of files, on any number of ranks.
#[path = "app.rs"]
mod app;
mod brute;
mod sweepsim;
use app::*;
use mc::close;

#[global_allocator]
static A: mc::mmpi::alloc::Tracking = mc::mmpi::alloc::Tracking;

fn point(seed: usize) -> [f64; 3] {
    [0, 1, 2].map(|d| 0.5 + 0.98 * noise(seed + d))
}

fn stars(n: usize, a: f64) -> Vec<Star> {
    (0..n)
        .map(|i| Star {
            pos: point(500 + 3 * i),
            // below, on, between and above the bins of the table
            metallicity: [0.0, 1e-5, 5e-5, 0.0031, 0.02, 0.039, 0.07][i % 7],
            // wind, old, young and just now
            formed: [-0.5, 0.3 * a, 0.0, 0.995 * a, 0.9999 * a, 0.8 * a, a, 0.97 * a][i % 8],
            mass: 1e4 * (1.0 + i as f64),
        })
        .collect()
}

fn old(n: usize, a: f64, folders: Vec<&'static str>, files: usize) -> Remap {
    Remap {
        a,
        points: (0..n)
            .map(|i| (point(900 + 3 * i), [0.9, 1e-6, 0.3][i % 3], [3e4, 7e3, 10.0, 1e5][i % 4] * (1.0 + 0.01 * i as f64)))
            .collect(),
        folders,
        files,
    }
}

/// The table of stellar luminosities, at, between and beyond all of its entries.
fn luminosities(c: &mc::Check) {
    use crate::arepo_postprocess::bpass::bpass_lookup;
    use subsweep::units::{Dimensionless, Mass, Time};
    let all = bpass_table();
    // (value, inside the table)
    let points = |bins: &[f64]| {
        let n = bins.len();
        let mut v = vec![(0.0, false), (bins[0] * 0.5, false), (bins[0], false), (bins[n - 1], false), (bins[n - 1] * 3.0, false)];
        for i in 0..n - 1 {
            v.extend([0.001, 0.3, 0.999].map(|f| (bins[i] + f * (bins[i + 1] - bins[i]), true)));
            if i > 0 {
                v.push((bins[i], true));
            }
        }
        v
    };
    let (ages, rest) = all.split_at(51);
    let (zs, table) = rest.split_at(13);
    let top = table.iter().cloned().fold(0.0, f64::max);
    for (age, a) in points(ages) {
        for (z, b) in points(zs) {
            for mass in [1.0, 3e5] {
                let got = bpass_lookup(Time::years(age), Dimensionless::dimensionless(z), Mass::solar(mass)).in_photons_per_second();
                let want = bpass(age, z, mass);
                // Outside, the value of the nearest entry; the code takes one slightly inside.
                let ok = close(got, want, 1e-9) || !(a && b) && (close(got, want, 1e-3) || (got - want).abs() < 1e-8 * top * mass);
                c.count(1, 1, 1);
                if !ok {
                    c.violation(
                        "luminosity",
                        &format!("{mass} solar masses of stars of metallicity {z} shine with {got:e} photons per second after {age} years, the table says {want:e}"),
                        mc::json!({"age": age, "metallicity": z, "mass": mass}),
                    );
                    return;
                }
            }
        }
    }
}

pub fn main() {
    run("C23", &luminosities, &|thorough| {
        let mut cases = vec![];
        let mut add = |read: bool, points: &[[f64; 3]], name: &str, ranks: usize, deviations: usize| {
            let number = cases.len();
            for electron in [false, true] {
                for (k, cosmology) in [None, Some((0.5, 0.7)), Some((1.0, 1.0)), Some((0.125, 0.6))].into_iter().enumerate() {
                    for files in 1..=3 {
                        for from_stars in [false, true] {
                            for remap in 0..4 {
                                if cosmology.is_none() && (from_stars || remap > 0) {
                                    continue;
                                }
                                if deviations > 0 && !thorough && (k != 1 || files != 2 || !electron) {
                                    continue;
                                }
                                if !read && !thorough && (files + k + remap + from_stars as usize) % 3 != ranks % 3 {
                                    continue;
                                }
                                let mut c = Case::new(name, points.to_vec());
                                c.read = read;
                                c.ranks = ranks;
                                c.deviations = deviations;
                                c.electron = electron;
                                c.cosmology = cosmology;
                                c.files = files;
                                c.out_files = 1 + (files + ranks) % 3;
                                c.directions = if (files + remap) % 2 == 0 { 1 } else { 16 };
                                c.light = if from_stars {
                                    Light::Stars(stars(8 + 3 * k, cosmology.unwrap().0), [1.0, 0.25][files % 2])
                                } else {
                                    Light::Explicit((0..1 + 3 * k).map(|i| (point(40 * number + 3 * i), 1e47 * (1 + i) as f64)).collect())
                                };
                                let (old_a, points) = cosmology.map(|x| (x.0 * 0.9, 60)).unwrap_or((1.0, 0));
                                c.remap = match remap {
                                    0 => None,
                                    1 => Some(old(points, old_a, vec!["000"], 1)),
                                    2 => Some(old(points, old_a * 0.5, vec!["000", "001", "002"], 2)),
                                    _ => Some(old(points, old_a, vec!["998", "999", "1000"], 3)),
                                };
                                cases.push(c);
                            }
                        }
                    }
                }
            }
        };
        let small = lattice([3; 3], 0.5, 77);
        for ranks in 1..=if thorough { 6 } else { 4 } {
            add(true, &small, "3^3 lattice with noise, grid read", ranks, 0);
        }
        let larger = lattice([5; 3], 0.6, 5000);
        for ranks in 1..=if thorough { 4 } else { 3 } {
            add(false, &larger, "5^3 lattice with noise, grid constructed", ranks, 0);
        }
        // other schedules
        let tiny = lattice([2; 3], 0.5, 77);
        add(true, &tiny, "2^3 lattice with noise, grid read", 2, 1);
        cases
    })
}
