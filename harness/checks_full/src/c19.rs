//! C19: the grid built in parallel is the periodic Voronoi grid of all particles, on any number of
//! ranks.
mod brute;
use std::collections::BTreeSet;

use bevy_ecs::prelude::*;
use brute::*;
use mc::mmpi::{explore::Base, Bounds, Mode};
use mc::*;
use subsweep::communication::BaseCommunicationPlugin;
use subsweep::components::*;
use subsweep::domain::{DomainPlugin, ExchangeDataPlugin};
use subsweep::parameters::{Cosmology, SimulationParameters, SweepParameters};
use subsweep::prelude::{HaloParticle, LocalParticle, ParticleId, Simulation, SimulationBox, StartupStages};
use subsweep::simulation_plugin::SimulationPlugin;
use subsweep::sweep::grid::{Cell as GridCell, ParticleType};
use subsweep::sweep::DirectionsSpecification;
use subsweep::units;
use subsweep::voronoi::constructor::ParallelVoronoiGridConstruction;

#[global_allocator]
static A: mmpi::alloc::Tracking = mmpi::alloc::Tracking;

#[derive(Clone, Debug)]
struct Case {
    name: String,
    min: P,
    max: P,
    points: Vec<P>,
    ranks: usize,
    periodic: bool,
    /// in parts of the box
    search_radius: Option<f64>,
}

impl Case {
    fn l(&self) -> P {
        sub(self.max, self.min)
    }
}

#[derive(Clone, Debug, PartialEq)]
enum To {
    /// particle and image
    Cell { local: bool, id: (i32, u32), wrap: [i32; 3] },
    Boundary,
}

struct Got {
    /// number, id, volume, size, faces
    cells: Vec<(usize, (i32, u32), f64, f64, Vec<(To, f64, P)>)>,
    missing: usize,
    haloes: Vec<(i32, (i32, u32))>,
}

fn v(p: P) -> units::VecLength {
    units::VecLength::meters(p[0], p[1], p[2])
}

fn body(case: &Case, r: usize) -> Got {
    let mut sim = Simulation::default();
    sim.read_initial_conditions(false).write_output(false);
    sim.add_plugin(BaseCommunicationPlugin::new(case.ranks, r as i32));
    let file = match case.search_radius {
        Some(f) => format!("{{grid: {{initial_search_radius: {:e} m}}}}", f * case.l()[0]),
        None => "{}".into(),
    };
    sim.add_parameter_file_contents(file);
    sim.add_parameters_explicitly(SimulationBox::new(subsweep::domain::Extent::from_min_max(v(case.min), v(case.max))))
        .add_parameters_explicitly(Cosmology::NonCosmological)
        .add_parameters_explicitly(SimulationParameters { final_time: None })
        .add_parameters_explicitly(SweepParameters {
            directions: DirectionsSpecification::Explicit(vec![units::VecDimensionless::new_unchecked(glam::DVec3::X)]),
            rotate_directions: false,
            num_timestep_levels: 1,
            significant_rate_threshold: units::PhotonRate::photons_per_second(0.0),
            timestep_safety_factor: 0.1.into(),
            chemistry_timestep_safety_factor: 0.1.into(),
            check_deadlock: false,
            periodic: case.periodic,
            max_timestep: units::Time::seconds(1.0),
            prevent_cooling: false,
            num_tasks_to_solve_before_send_receive: 1,
        });
    sim.add_plugin(SimulationPlugin)
        .add_plugin(DomainPlugin)
        .add_plugin(ExchangeDataPlugin::<Position>::default())
        .add_plugin(ExchangeDataPlugin::<Mass>::default())
        .add_plugin(ParallelVoronoiGridConstruction);
    let t = case.clone();
    sim.add_startup_system_to_stage(StartupStages::Initial, move |mut commands: Commands| {
        for (i, p) in t.points.iter().enumerate() {
            if i % t.ranks == r {
                commands.spawn((LocalParticle, Position(v(*p)), Mass(units::Mass::kilograms(i as f64))));
            }
        }
    });
    sim.update();
    let world = sim.world();
    let total = world.query_filtered::<Entity, With<LocalParticle>>().iter(world).count();
    let wrap = |w: &subsweep::dimension::ActiveWrapType| {
        let text = format!("{w:?}");
        let s: Vec<i32> = text.chars().map(|c| if c == '+' { 1 } else if c == '-' { -1 } else { 0 }).collect();
        [s[0], s[1], s[2]]
    };
    let cells: Vec<_> = world
        .query_filtered::<(&Mass, &ParticleId, &GridCell), With<LocalParticle>>()
        .iter(world)
        .map(|(m, id, c)| {
            let faces = c
                .neighbours
                .iter()
                .map(|(f, to)| {
                    let n = f.normal.value_unchecked();
                    let to = match to {
                        ParticleType::Boundary => To::Boundary,
                        ParticleType::Local(id) => To::Cell { local: true, id: (id.rank, id.index), wrap: [0; 3] },
                        ParticleType::Remote(x) => {
                            assert_eq!(x.rank, x.id.rank);
                            To::Cell { local: false, id: (x.id.rank, x.id.index), wrap: [0; 3] }
                        }
                        ParticleType::LocalPeriodic(x) => {
                            assert!(x.periodic_wrap_type.is_periodic());
                            To::Cell { local: true, id: (x.id.rank, x.id.index), wrap: wrap(&x.periodic_wrap_type) }
                        }
                        ParticleType::RemotePeriodic(x) => {
                            assert_eq!(x.rank, x.id.rank);
                            assert!(x.periodic_wrap_type.is_periodic());
                            To::Cell { local: false, id: (x.id.rank, x.id.index), wrap: wrap(&x.periodic_wrap_type) }
                        }
                    };
                    (to, f.area.value_unchecked(), [n.x, n.y, n.z])
                })
                .collect();
            (m.in_kilograms() as usize, (id.rank, id.index), c.volume.value_unchecked(), c.size.value_unchecked(), faces)
        })
        .collect();
    let haloes = world.query::<(&HaloParticle, &ParticleId)>().iter(world).map(|(h, id)| (h.rank, (id.rank, id.index))).collect();
    Got { missing: total - cells.len(), cells, haloes }
}

/// Cells by brute force; `to` is particle + number of particles * image.
fn exact(case: &Case) -> Vec<Cell> {
    let n = case.points.len();
    let l = case.l();
    let mut all = vec![];
    for image in images() {
        for p in &case.points {
            all.push([0, 1, 2].map(|k| p[k] + image[k] as f64 * l[k]));
        }
    }
    (0..n).map(|i| brute::cell(3, &all, i)).collect()
}

/// The first one is the box itself.
fn images() -> Vec<[i32; 3]> {
    let s = [0, -1, 1];
    (0..27).map(|i| [s[i / 9], s[i / 3 % 3], s[i % 3]]).collect()
}

fn verdict(case: &Case, exact: &[Cell], got: &[Got]) -> Result<(), String> {
    let n = case.points.len();
    let images = images();
    let mut id = vec![None; n];
    for g in got {
        for (i, pid, ..) in &g.cells {
            if id[*i].replace(*pid).is_some() {
                return Err(format!("particle {i} has two cells"));
            }
        }
        if g.missing > 0 {
            return Err(format!("{} particles have no cell", g.missing));
        }
    }
    if let Some(i) = id.iter().position(|x| x.is_none()) {
        return Err(format!("particle {i} has no cell"));
    }
    for (r, g) in got.iter().enumerate() {
        let mut remote: BTreeSet<(i32, u32)> = BTreeSet::new();
        for (i, _, volume, size, faces) in &g.cells {
            let e = &exact[*i];
            if !close(*volume, e.volume, 1e-7) {
                return Err(format!("cell {i} has volume {volume} instead of {}", e.volume));
            }
            if !close(4.0 / 3.0 * std::f64::consts::PI * size.powi(3), *volume, 1e-9) {
                return Err(format!("cell {i} has size {size} and volume {volume}"));
            }
            let scale = e.faces.iter().map(|f| f.area).fold(0.0, f64::max);
            let mut used = vec![false; faces.len()];
            for f in &e.faces {
                let (j, image) = (f.to % n, images[f.to / n]);
                let other = id[j].unwrap();
                let want = if !case.periodic && image != [0; 3] {
                    To::Boundary
                } else {
                    To::Cell { local: other.0 == r as i32, id: other, wrap: image }
                };
                let k = (0..faces.len()).find(|k| !used[*k] && faces[*k].0 == want && norm(sub(faces[*k].2, f.normal)) < 1e-7);
                match k {
                    None if f.area > 1e-7 * scale => {
                        return Err(format!("cell {i} has no face to {want:?} of area {} and normal {:?}: {faces:?}", f.area, f.normal))
                    }
                    None => {}
                    Some(k) => {
                        used[k] = true;
                        if (faces[k].1 - f.area).abs() > 1e-7 * scale {
                            return Err(format!("cell {i}: face to {want:?} has area {} instead of {}", faces[k].1, f.area));
                        }
                    }
                }
            }
            for (k, f) in faces.iter().enumerate() {
                if !used[k] && f.1 > 1e-7 * scale {
                    return Err(format!("cell {i} has a face too many: {f:?}"));
                }
                if let To::Cell { local: false, id, .. } = f.0 {
                    remote.insert(id);
                }
            }
        }
        // Haloes: the remote neighbours of the local cells.
        let haloes: BTreeSet<_> = g.haloes.iter().map(|h| h.1).collect();
        if haloes != remote {
            return Err(format!("rank {r} has haloes {haloes:?} but neighbours {remote:?}"));
        }
        if g.haloes.iter().any(|(rank, id)| *rank != id.0) {
            return Err(format!("rank {r} has haloes with wrong ranks {:?}", g.haloes));
        }
    }
    Ok(())
}

fn noise(i: usize) -> f64 {
    let mut x = (i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 32;
    (x >> 11) as f64 / (1u64 << 53) as f64 - 0.5
}

fn lattice(k: usize, delta: f64, seed: usize) -> Vec<P> {
    (0..k.pow(3))
        .map(|i| {
            let mut p = [0.0; 3];
            for d in 0..3 {
                p[d] = ((i / k.pow(d as u32) % k) as f64 + 0.5 + delta * noise(seed + 3 * i + d)) / k as f64;
            }
            p
        })
        .collect()
}

/// Every particle has images at exactly the same distance along an axis, so four points of a
/// tetra and its neighbours can be exactly coplanar; the code gives up then.
fn gave_up(what: &str) -> bool {
    what.contains("panicked: Degenerate case")
}

struct Set {
    name: String,
    min: P,
    max: P,
    points: Vec<P>,
}

fn main() {
    let c = Check::new("C19");
    c.assume("every rank has at least one particle; no search radius is so large that two images of a particle fall into it");
    let scaled = |k: usize, delta: f64, seed: usize, min: P, l: P| Set {
        name: format!("{k}^3 lattice with noise {delta} (seed {seed}), box {l:?} at {min:?}"),
        min,
        max: add(min, l),
        points: lattice(k, delta, seed).into_iter().map(|p| [0, 1, 2].map(|d| min[d] + p[d] * l[d])).collect(),
    };
    let unit = [0.7390851332151607; 3];
    let mut sets = vec![
        scaled(5, 0.9, 3000, [0.0; 3], unit),
        scaled(6, 0.8, 4000, [0.0; 3], unit),
        scaled(6, 0.99, 5000, [-1.0, 2.0, 3.0], [1.0; 3]),
        scaled(6, 0.6, 6000, [0.0; 3], [1e18; 3]),
        scaled(6, 0.8, 7000, [0.0; 3], [1.0, 0.8, 1.2]),
    ];
    // Denser in one corner.
    let mut dense = scaled(6, 0.8, 8000, [0.0; 3], unit);
    dense.name += ", denser towards the origin";
    for p in &mut dense.points {
        *p = p.map(|x| unit[0] * (x / unit[0]).powf(1.25));
    }
    sets.push(dense);
    if c.thorough {
        for seed in 0..24 {
            sets.push(scaled(5 + seed % 3, 0.5 + 0.02 * seed as f64, 10_000 * (seed + 1), [0.0; 3], unit));
        }
    }
    let cells: Vec<std::sync::OnceLock<Vec<Cell>>> = sets.iter().map(|_| Default::default()).collect();
    let mut cases = vec![];
    for (i, s) in sets.iter().enumerate() {
        for ranks in 1..=c.pick(4, 6) {
            for periodic in [true, false] {
                for search_radius in c.pick(vec![None, Some(0.2)], vec![None, Some(0.1), Some(0.2), Some(0.3)]) {
                    let case = Case {
                        name: s.name.clone(),
                        min: s.min,
                        max: s.max,
                        points: s.points.clone(),
                        ranks,
                        periodic,
                        search_radius,
                    };
                    cases.push((i, case));
                }
            }
        }
    }
    let gave = std::sync::atomic::AtomicU64::new(0);
    let run = |set: usize, case: &Case, b: &Bounds| {
        if c.stopped() {
            return;
        }
        let e = cells[set].get_or_init(|| exact(case));
        match mmpi::explore(case.ranks, b, &|r| body(case, r), &mut |got: &[Got]| verdict(case, e, got)) {
            Ok(s) => {
                c.count(s.states + s.complete, s.transitions, s.complete);
                if s.truncated {
                    c.not_exhaustive();
                }
            }
            Err(o) => {
                let what = json!({"set": case.name, "ranks": case.ranks, "periodic": case.periodic, "search_radius": case.search_radius,
                    "schedule": o.choices, "points": case.points});
                if gave_up(&o.what) {
                    gave.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    c.violation("degenerate-images", &o.what, what);
                } else {
                    c.violation("grid", &o.what, what);
                }
            }
        }
    };
    let one = Bounds { bases: vec![Base::PollsLast], modes: vec![Mode::Eager], horizon: 10_000_000, ..Bounds::new(0) };
    // One case of each set first, for the cells.
    par(sets.len(), |i| {
        cells[i].get_or_init(|| exact(&cases.iter().find(|x| x.0 == i).unwrap().1));
    });
    par(cases.len(), |i| run(cases[i].0, &cases[i].1, &one));
    let n = gave.load(std::sync::atomic::Ordering::Relaxed);
    c.info("cases", json!(cases.len()));
    c.info("cases in which the code gave up", json!(n));
    if 2 * n > cases.len() as u64 {
        c.violation("gives-up", &format!("no grid in {n} of {} cases", cases.len()), json!({}));
    }
    // All schedules within a bound.
    let b = Bounds { horizon: 10_000_000, ..Bounds::new(1) };
    let some: Vec<_> = cases.iter().filter(|(i, x)| *i < c.pick(1, 3) && x.periodic && x.search_radius == Some(0.2) && (x.ranks == 2 || x.ranks == 3)).collect();
    par(some.len(), |i| run(some[i].0, &some[i].1, &b));
    c.finish();
}
