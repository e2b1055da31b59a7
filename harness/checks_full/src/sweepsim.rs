//! A sweep over a grid that the harness makes, run through the public interface.
#![allow(dead_code)]
use bevy_ecs::prelude::*;
use subsweep::communication::BaseCommunicationPlugin;
use subsweep::components::*;
use subsweep::parameters::{Cosmology, SimulationParameters, SweepParameters};
use subsweep::prelude::{
    HaloParticle, LocalParticle, ParticleId, Simulation, SimulationBox, StartupStages, SweepPlugin,
};
use subsweep::simulation_plugin::{SimulationPlugin, SimulationTime};
use subsweep::sweep::grid::*;
use subsweep::sweep::DirectionsSpecification;
use subsweep::units;

#[derive(Clone, Debug, PartialEq)]
pub enum To {
    Cell(usize),
    /// through the periodic boundary
    Wrapped(usize),
    Boundary,
}

#[derive(Clone, Debug)]
pub struct FaceSpec {
    pub area: f64,
    pub normal: [f64; 3],
    pub to: To,
}

#[derive(Clone, Debug)]
pub struct CellSpec {
    pub pos: [f64; 3],
    pub size: f64,
    pub volume: f64,
    pub faces: Vec<FaceSpec>,
}

#[derive(Clone, Debug)]
pub struct Gas {
    pub density: f64,
    pub fraction: f64,
    pub temperature: f64,
    pub source: f64,
}

#[derive(Clone, Debug)]
pub struct Setup {
    pub cells: Vec<CellSpec>,
    pub gas: Vec<Gas>,
    pub rank: Vec<usize>,
    pub dirs: Vec<[f64; 3]>,
    pub levels: usize,
    pub max_timestep: f64,
    pub tasks_before_send: usize,
    pub threshold: f64,
    pub safety: f64,
    pub chemistry_safety: Option<f64>,
    pub check_deadlock: bool,
    pub rotate: bool,
    pub steps: usize,
    pub prevent_cooling: bool,
}

impl Setup {
    pub fn new(cells: Vec<CellSpec>, dirs: Vec<[f64; 3]>) -> Setup {
        let n = cells.len();
        Setup {
            cells,
            gas: vec![Gas { density: 0.0, fraction: 1e-5, temperature: 1000.0, source: 0.0 }; n],
            rank: vec![0; n],
            dirs,
            levels: 1,
            max_timestep: 1e-30,
            tasks_before_send: 10000,
            threshold: 0.0,
            safety: 0.1,
            chemistry_safety: None,
            check_deadlock: false,
            rotate: false,
            steps: 1,
            prevent_cooling: false,
        }
    }

    pub fn ranks(&self) -> usize {
        self.rank.iter().max().unwrap() + 1
    }

    pub fn id(&self, i: usize) -> ParticleId {
        ParticleId {
            rank: self.rank[i] as i32,
            index: self.rank[..i].iter().filter(|r| **r == self.rank[i]).count() as u32,
        }
    }
}

/// Boxes of size 1 (times `aspect`), numbered with x running slowest.
pub fn cartesian(nx: usize, ny: usize, nz: usize, periodic: bool, aspect: [f64; 3]) -> Vec<CellSpec> {
    let n = [nx, ny, nz];
    let index = |p: [usize; 3]| (p[0] * ny + p[1]) * nz + p[2];
    let mut cells = vec![];
    for x in 0..nx {
        for y in 0..ny {
            for z in 0..nz {
                let p = [x, y, z];
                let mut faces = vec![];
                for axis in 0..3 {
                    for up in [false, true] {
                        let mut normal = [0.0; 3];
                        normal[axis] = if up { 1.0 } else { -1.0 };
                        let mut q = p;
                        let edge = if up { p[axis] + 1 == n[axis] } else { p[axis] == 0 };
                        q[axis] = (p[axis] + if up { 1 } else { n[axis] - 1 }) % n[axis];
                        let to = match (edge, periodic) {
                            (false, _) => To::Cell(index(q)),
                            (true, false) => To::Boundary,
                            (true, true) => To::Wrapped(index(q)),
                        };
                        let area = aspect.iter().product::<f64>() / aspect[axis];
                        faces.push(FaceSpec { area, normal, to });
                    }
                }
                cells.push(CellSpec {
                    pos: [0, 1, 2].map(|i| (p[i] as f64 + 0.5) * aspect[i]),
                    size: aspect.iter().product::<f64>().cbrt(),
                    volume: aspect.iter().product(),
                    faces,
                });
            }
        }
    }
    cells
}

pub fn vec3(v: [f64; 3]) -> units::VecDimensionless {
    units::VecDimensionless::dimensionless(v[0], v[1], v[2])
}

#[derive(Clone, Debug, PartialEq)]
pub struct CellResult {
    pub rate: f64,
    pub fraction: f64,
    pub temperature: f64,
}

#[derive(Clone, Debug)]
pub struct Result_ {
    /// (global index, what the simulation says about it)
    pub cells: Vec<(usize, Vec<CellResult>)>,
    pub times: Vec<f64>,
    /// The directions of every sweep.
    pub dirs: Vec<Vec<[f64; 3]>>,
}

pub fn cell(s: &Setup, i: usize) -> Cell {
    let c = &s.cells[i];
    Cell {
        size: units::Length::meters(c.size),
        volume: units::Volume::cubic_meters(c.volume),
        neighbours: c
            .faces
            .iter()
            .map(|f| {
                let face = Face { area: units::Area::square_meters(f.area), normal: vec3(f.normal) };
                let to = match f.to {
                    To::Boundary => ParticleType::Boundary,
                    To::Cell(j) if s.rank[j] == s.rank[i] => ParticleType::Local(s.id(j)),
                    To::Cell(j) => {
                        ParticleType::Remote(RemoteNeighbour { id: s.id(j), rank: s.rank[j] as i32 })
                    }
                    To::Wrapped(j) => {
                        // The sweep does not look at it.
                        let periodic_wrap_type = subsweep::dimension::ActiveWrapType::no_wrap();
                        if s.rank[j] == s.rank[i] {
                            ParticleType::LocalPeriodic(PeriodicNeighbour { id: s.id(j), periodic_wrap_type })
                        } else {
                            ParticleType::RemotePeriodic(RemotePeriodicNeighbour {
                                id: s.id(j),
                                rank: s.rank[j] as i32,
                                periodic_wrap_type,
                            })
                        }
                    }
                };
                (face, to)
            })
            .collect(),
    }
}

/// Whether a cell of rank r has a face to cell i (which need not have one to it).
fn refers_to(s: &Setup, r: usize, i: usize) -> bool {
    let to = |f: &FaceSpec| matches!(f.to, To::Cell(j) | To::Wrapped(j) if j == i);
    (0..s.cells.len()).any(|k| s.rank[k] == r && s.cells[k].faces.iter().any(to))
}

#[cfg(feature = "c12")]
fn directions(sim: &Simulation) -> Vec<[f64; 3]> {
    subsweep::sweep::verif::current_directions(sim).unwrap_or_default()
}
#[cfg(not(feature = "c12"))]
fn directions(_: &Simulation) -> Vec<[f64; 3]> {
    vec![]
}

/// What one rank does.
pub fn run(s: &Setup, r: usize) -> Result_ {
    let n = s.ranks();
    let mut sim = Simulation::default();
    sim.read_initial_conditions(false).write_output(false);
    sim.add_plugin(BaseCommunicationPlugin::new(n, r as i32));
    sim.add_parameter_file_contents("{}".into());
    sim.add_parameters_explicitly(SimulationBox::cube_from_side_length(units::Length::meters(1000.0)))
        .add_parameters_explicitly(Cosmology::NonCosmological)
        .add_parameters_explicitly(SimulationParameters { final_time: None })
        .add_parameters_explicitly(SweepParameters {
            directions: DirectionsSpecification::Explicit(s.dirs.iter().map(|d| vec3(*d)).collect()),
            rotate_directions: s.rotate,
            num_timestep_levels: s.levels,
            significant_rate_threshold: units::PhotonRate::photons_per_second(s.threshold),
            timestep_safety_factor: s.safety.into(),
            chemistry_timestep_safety_factor: s.chemistry_safety.unwrap_or(s.safety).into(),
            check_deadlock: s.check_deadlock,
            periodic: false,
            max_timestep: units::Time::seconds(s.max_timestep),
            prevent_cooling: s.prevent_cooling,
            num_tasks_to_solve_before_send_receive: s.tasks_before_send,
        });
    sim.add_plugin(SimulationPlugin).add_plugin(SweepPlugin);
    let t = s.clone();
    sim.add_startup_system_to_stage(StartupStages::InsertGrid, move |mut commands: Commands| {
        let s = &t;
        for i in 0..s.cells.len() {
            if s.rank[i] == r {
                let g = &s.gas[i];
                let p = s.cells[i].pos;
                commands.spawn((
                    LocalParticle,
                    s.id(i),
                    Position(units::VecLength::meters(p[0], p[1], p[2])),
                    cell(s, i),
                    Density(units::Density::grams_per_cubic_centimeters(g.density * 1e-3)),
                    IonizedHydrogenFraction(g.fraction.into()),
                    Temperature(units::Temperature::kelvins(g.temperature)),
                    Source(units::SourceRate::photons_per_second(g.source)),
                    PhotonRate(units::PhotonRate::zero()),
                ));
            } else if s.cells[i].faces.iter().any(|f| match f.to {
                To::Boundary => false,
                To::Cell(j) | To::Wrapped(j) => s.rank[j] == r,
            }) || refers_to(s, r, i)
            {
                commands.spawn((HaloParticle { rank: s.rank[i] as i32 }, s.id(i), cell(s, i)));
            }
        }
    });
    // The first update only makes the sweep.
    sim.update();
    let mut out: Vec<(usize, Vec<CellResult>)> =
        (0..s.cells.len()).filter(|i| s.rank[*i] == r).map(|i| (i, vec![])).collect();
    let mut times = vec![];
    let mut dirs = vec![];
    for _ in 0..s.steps {
        dirs.push(directions(&sim));
        sim.update();
        times.push(sim.unwrap_resource::<SimulationTime>().in_seconds());
        let mut q = sim.world().query::<(&ParticleId, &PhotonRate, &IonizedHydrogenFraction, &Temperature)>();
        for (id, rate, fraction, temperature) in q.iter(sim.world()) {
            out[id.index as usize].1.push(CellResult {
                rate: rate.in_photons_per_second(),
                fraction: fraction.value_unchecked(),
                temperature: temperature.in_kelvins(),
            });
        }
    }
    Result_ { cells: out, times, dirs }
}

/// The ranks' results, by cell.
pub fn merge(s: &Setup, got: &[Result_]) -> Vec<Vec<CellResult>> {
    let mut all: Vec<Vec<CellResult>> = vec![vec![]; s.cells.len()];
    for g in got {
        for (i, v) in &g.cells {
            all[*i] = v.clone();
        }
    }
    all
}

/// The fraction of the photons that pass a cell.
pub fn transmission(s: &Setup, i: usize) -> f64 {
    let n = s.gas[i].density / units::PROTON_MASS.in_kilograms() * (1.0 - s.gas[i].fraction);
    let sigma = units::NUMBER_WEIGHTED_AVERAGE_CROSS_SECTION.in_centimeters_squared() * 1e-4;
    (-n * sigma * s.cells[i].size).exp()
}

/// The mass density at which a cell of this size has optical depth `tau` when neutral.
pub fn density_for(tau: f64, size: f64) -> f64 {
    let sigma = units::NUMBER_WEIGHTED_AVERAGE_CROSS_SECTION.in_centimeters_squared() * 1e-4;
    tau / (sigma * size) * units::PROTON_MASS.in_kilograms()
}

/// The steady solution of the transport equation on the grid: what comes into each cell, summed
/// over all directions (without what comes through periodic boundaries, which is returned
/// separately).
pub fn reference(s: &Setup) -> (Vec<f64>, Vec<f64>) {
    let n = s.cells.len();
    let mut total = vec![0.0; n];
    let mut total_wrapped = vec![0.0; n];
    for d in &s.dirs {
        let len = d.iter().map(|x| x * x).sum::<f64>().sqrt();
        let d = d.map(|x| x / len);
        let dot = |f: &FaceSpec| f.normal.iter().zip(&d).map(|(a, b)| a * b).sum::<f64>();
        let mut wrapped = vec![0.0; n];
        let mut incoming = vec![0.0; n];
        for round in 0..1000 {
            // In upwind order, by repetition.
            incoming = vec![0.0; n];
            let mut new_wrapped = vec![0.0; n];
            let mut done = vec![false; n];
            loop {
                let next = (0..n).find(|i| {
                    !done[*i]
                        && s.cells[*i].faces.iter().all(|f| match f.to {
                            To::Cell(j) => dot(f) >= 0.0 || done[j],
                            _ => true,
                        })
                });
                let Some(i) = next else { break };
                done[i] = true;
                let rate = incoming[i] + wrapped[i] + s.gas[i].source / s.dirs.len() as f64;
                let out = if rate < s.threshold { 0.0 } else { rate * transmission(s, i) };
                let sum: f64 = s.cells[i].faces.iter().map(|f| f.area * dot(f).max(0.0)).sum();
                for f in &s.cells[i].faces {
                    if dot(f) > 0.0 {
                        let part = out * f.area * dot(f) / sum;
                        match f.to {
                            To::Cell(j) => incoming[j] += part,
                            To::Wrapped(j) => new_wrapped[j] += part,
                            To::Boundary => {}
                        }
                    }
                }
            }
            assert!(done.iter().all(|x| *x), "the grid has a cycle");
            let same = wrapped.iter().zip(&new_wrapped).all(|(a, b)| (a - b).abs() <= 1e-14 * b.abs());
            wrapped = new_wrapped;
            if same {
                break;
            }
            assert!(round < 999, "no steady state");
        }
        for i in 0..n {
            total[i] += incoming[i];
            total_wrapped[i] += wrapped[i];
        }
    }
    (total, total_wrapped)
}
