//! C22: from initial conditions to photon rates: the application, on any number of ranks.
#[path = "app.rs"]
mod app;
mod brute;
mod sweepsim;
use app::*;

#[global_allocator]
static A: mc::mmpi::alloc::Tracking = mc::mmpi::alloc::Tracking;

pub fn main() {
    run("C22", &|_| {}, &|thorough| {
        let mut cases = vec![];
        for seed in [2000, 4000, 5000, 6000, 7000] {
            for periodic in [false, true] {
                for directions in [1, 16] {
                    for ranks in 1..=if thorough { 5 } else { 4 } {
                        let mut c = Case::new(&format!("5^3 lattice with noise, seed {seed}"), lattice([5; 3], 0.6, seed));
                        c.ranks = ranks;
                        c.periodic = periodic;
                        c.directions = directions;
                        c.files = 1 + ranks % 3;
                        c.out_files = 1 + (ranks + 1) % 3;
                        c.steps = if periodic { 12 } else { 1 };
                        c.light = Light::Explicit(
                            (0..8).map(|i| ([0, 1, 2].map(|d| 0.5 + 0.98 * noise(seed + 100 + 3 * i + d)), 1e48 * (1 + i) as f64)).collect(),
                        );
                        cases.push(c);
                    }
                }
            }
        }
        cases
    })
}
