//! C32: what is written about a run belongs to the state of its time.
#[path = "app.rs"]
mod app;
mod brute;
mod sweepsim;
use app::*;

#[global_allocator]
static A: mc::mmpi::alloc::Tracking = mc::mmpi::alloc::Tracking;

const KYR: f64 = 3.15576e10;


const BASE: [&str; 5] = ["position", "time", "ionized_hydrogen_fraction", "temperature", "photon_rate"];
const OPTIONAL: [&str; 6] =
    ["photoionization_rate", "recombination_rate", "collisional_ionization_rate", "heating_rate", "timestep", "ionization_time"];

pub fn main() {
    run("C32", &|_| {}, &|thorough| {
        let mut cases = vec![];
        let points = lattice([3; 3], 0.5, 77);
        let more = if thorough { 2 } else { 1 };
        // name, grid is read, points
        let grids = [
            ("3^3 lattice with noise, grid read", true, points.clone()),
            ("5^3 lattice with noise, grid constructed", false, lattice([5; 3], 0.6, 5000)),
        ];
        let case = |grid: usize, ranks: usize| {
            let (name, read, points) = &grids[grid];
            let mut c = Case::new(name, points.clone());
            c.read = *read;
            c.ranks = ranks;
            c.files = 1 + ranks % 2;
            c.out_files = 1 + (ranks + grid) % 3;
            c.directions = 16;
            c.steps = 6 * more;
            c.dt = 10.0 * KYR;
            c.evolution = Some(Evolution { safety: 0.02, hold: false });
            c.light = Light::Explicit((0..3).map(|i| ([0, 1, 2].map(|d| 0.5 + 0.98 * noise(40 + 3 * i + d)), 3e51 * (1 + i) as f64)).collect());
            c
        };
        // Ionization and heating, cooling and recombination; all numbers of levels
        for (grid, ranks) in [(0, 1), (0, 2), (0, 3), (0, 4), (1, 1), (1, 2), (1, 3)] {
            for cosmology in [None, Some((0.5, 0.7)), Some((0.1, 0.6))] {
                for electron in [false, true] {
                    for hold in [false, true] {
                        for (k, (dt, rate)) in [(10.0, 3e51), (1.0, 1e52), (3000.0, 1e47), (1000.0, 0.0)].into_iter().enumerate() {
                            for levels in 1..=4 {
                                let number = ranks + k + levels + hold as usize + 2 * electron as usize;
                                if !thorough && (grid == 1 || levels > 1) && number % 4 != 0 {
                                    continue;
                                }
                                let mut c = case(grid, ranks);
                                c.cosmology = cosmology;
                                c.electron = electron;
                                c.dt = dt * KYR;
                                c.levels = levels;
                                c.evolution = Some(Evolution { safety: if levels == 1 { 0.02 } else { 0.1 }, hold });
                                if let Light::Explicit(v) = &mut c.light {
                                    for (i, x) in v.iter_mut().enumerate() {
                                        x.1 = rate * (1 + i) as f64;
                                    }
                                }
                                cases.push(c);
                            }
                        }
                    }
                }
            }
        }
        // All sets of optional fields
        for set in 0..64usize {
            for ranks in 1..=2 {
                let mut c = case(0, ranks);
                c.directions = 1;
                c.steps = 3;
                c.fields = Some(BASE.into_iter().chain((0..6).filter(|i| set >> i & 1 == 1).map(|i| OPTIONAL[i])).collect());
                cases.push(c);
            }
        }
        // Other schedules
        for levels in 1..=2 {
            let mut c = case(0, 2);
            c.points = lattice([2; 3], 0.5, 77);
            c.name = "2^3 lattice with noise, grid read".into();
            c.directions = 1;
            c.steps = 1;
            c.levels = levels;
            c.deviations = 1;
            cases.push(c);
        }
        cases
    })
}
