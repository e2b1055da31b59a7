//! C16: the exchange at startup moves every particle, with all its data, to the rank that owns its
//! position.
mod order;
use std::collections::BTreeMap;

use bevy_ecs::prelude::*;
use mc::mmpi::{explore::Base, Bounds, Mode};
use mc::*;
use order::*;
use subsweep::communication::BaseCommunicationPlugin;
use subsweep::components::*;
use subsweep::domain::{DecompositionState, DomainPlugin, ExchangeDataPlugin, IdEntityMap, IntoKey, QuadTree};
use subsweep::parameters::{Cosmology, SimulationParameters};
use subsweep::prelude::{LocalParticle, ParticleId, Simulation, SimulationBox, StartupStages};
use subsweep::simulation_plugin::SimulationPlugin;
use subsweep::units;

#[global_allocator]
static A: mmpi::alloc::Tracking = mmpi::alloc::Tracking;

const SIZE: f64 = 4.0;

#[derive(Clone, Debug)]
struct Case {
    points: Vec<[f64; 3]>,
    /// the rank of each particle at the start
    rank: Vec<usize>,
    ranks: usize,
}

#[derive(Clone, Debug, PartialEq)]
struct Particle {
    number: usize,
    position: [f64; 3],
    density: f64,
    temperature: f64,
    source: f64,
    id: (i32, u32),
    owner: i32,
}

struct Got {
    particles: Vec<Particle>,
    bad: Option<String>,
}

fn data(i: usize) -> (f64, f64, f64) {
    (1.0 + i as f64, 1000.0 + i as f64, 0.125 * (i + 1) as f64)
}

fn body(case: &Case, r: usize) -> Got {
    let mut sim = Simulation::default();
    sim.read_initial_conditions(false).write_output(false);
    sim.add_plugin(BaseCommunicationPlugin::new(case.ranks, r as i32));
    sim.add_parameter_file_contents("{}".into());
    sim.add_parameters_explicitly(SimulationBox::cube_from_side_length(units::Length::meters(SIZE)))
        .add_parameters_explicitly(Cosmology::NonCosmological)
        .add_parameters_explicitly(SimulationParameters { final_time: None });
    sim.add_plugin(SimulationPlugin)
        .add_plugin(DomainPlugin)
        .add_plugin(ExchangeDataPlugin::<Position>::default())
        .add_plugin(ExchangeDataPlugin::<Density>::default())
        .add_plugin(ExchangeDataPlugin::<Temperature>::default())
        .add_plugin(ExchangeDataPlugin::<Source>::default())
        .add_plugin(ExchangeDataPlugin::<Mass>::default());
    let t = case.clone();
    sim.add_startup_system_to_stage(StartupStages::Initial, move |mut commands: Commands| {
        for (i, p) in t.points.iter().enumerate() {
            if t.rank[i] == r {
                let (d, temp, s) = data(i);
                commands.spawn((
                    LocalParticle,
                    Position(units::VecLength::meters(p[0], p[1], p[2])),
                    Density(units::Density::grams_per_cubic_centimeters(d)),
                    Temperature(units::Temperature::kelvins(temp)),
                    Source(units::SourceRate::photons_per_second(s)),
                    Mass(units::Mass::kilograms(i as f64)),
                ));
            }
        }
    });
    sim.update();
    let mut bad = None;
    let mut particles = vec![];
    let world = sim.world();
    let count = world.query_filtered::<Entity, With<LocalParticle>>().iter(world).count();
    let mut q = world.query_filtered::<(Entity, &Position, &Density, &Temperature, &Source, &Mass, &ParticleId), With<LocalParticle>>();
    let found: Vec<_> = q
        .iter(world)
        .map(|(e, p, d, t, s, m, id)| {
            (
                e,
                Particle {
                    number: m.in_kilograms() as usize,
                    position: [p.x().in_meters(), p.y().in_meters(), p.z().in_meters()],
                    density: d.in_grams_per_cubic_centimeters(),
                    temperature: t.in_kelvins(),
                    source: s.in_photons_per_second(),
                    id: (id.rank, id.index),
                    owner: 0,
                },
            )
        })
        .collect();
    if found.len() != count {
        bad = Some(format!("rank {r} has {count} particles, only {} of them with all their data", found.len()));
    }
    let box_ = SimulationBox::cube_from_side_length(units::Length::meters(SIZE));
    let decomposition = sim.unwrap_resource::<DecompositionState>();
    let map = sim.unwrap_resource::<IdEntityMap>();
    for (e, mut p) in found {
        let pos = units::VecLength::meters(p.position[0], p.position[1], p.position[2]);
        p.owner = decomposition.get_owning_rank(pos.into_key(&*box_));
        let id = ParticleId { rank: p.id.0, index: p.id.1 };
        if map.get_by_left(&id) != Some(&e) || map.get_by_right(&e) != Some(&id) {
            bad = Some(format!("the map of ids on rank {r} does not lead from {id:?} to its particle and back"));
        }
        particles.push(p);
    }
    if map.len() != count {
        bad = Some(format!("the map of ids on rank {r} has {} entries for {count} particles", map.len()));
    }
    // The tree that is made afterwards has the same particles.
    let tree = sim.unwrap_resource::<QuadTree>();
    let mut in_tree = vec![];
    tree.depth_first_map_leaf(&mut |_, leaves| in_tree.extend(leaves.iter().map(|l| (l.id.rank, l.id.index))));
    in_tree.sort();
    let mut ids: Vec<_> = particles.iter().map(|p| p.id).collect();
    ids.sort();
    if in_tree != ids {
        bad = Some(format!("rank {r} has particles {ids:?} but its tree has {in_tree:?}"));
    }
    Got { particles, bad }
}

fn verdict(case: &Case, got: &[Got]) -> Result<(), String> {
    let mut seen = BTreeMap::new();
    for (r, g) in got.iter().enumerate() {
        if let Some(b) = &g.bad {
            return Err(b.clone());
        }
        let mut ids: Vec<_> = g.particles.iter().map(|p| p.id).collect();
        ids.sort();
        if ids != (0..g.particles.len()).map(|i| (r as i32, i as u32)).collect::<Vec<_>>() {
            return Err(format!("the ids on rank {r} are {ids:?}"));
        }
        for p in &g.particles {
            if p.owner != r as i32 {
                return Err(format!("rank {r} has particle {} of rank {}", p.number, p.owner));
            }
            if p.number >= case.points.len() {
                return Err(format!("rank {r} has {p:?}"));
            }
            let (d, t, s) = data(p.number);
            if p.position != case.points[p.number] || !close(p.density, d, 1e-14) || p.temperature != t || p.source != s {
                return Err(format!("particle {} has the data of another: {p:?}", p.number));
            }
            if let Some(other) = seen.insert(p.number, r) {
                return Err(format!("particle {} is on ranks {other} and {r}", p.number));
            }
        }
    }
    for i in 0..case.points.len() {
        if !seen.contains_key(&i) {
            return Err(format!("particle {i} is gone"));
        }
    }
    Ok(())
}

fn check(c: &Check, case: &Case, b: &Bounds, plan: &Plan) -> Log {
    if c.stopped() {
        return Log::new();
    }
    let what = json!({"points": case.points, "rank": case.rank, "orders": format!("{plan:?}")});
    let (_, log) = with_plan(plan, || {
        c.explore("exchange", what, case.ranks, b, &|r| body(case, r), &mut |got: &[Got]| verdict(case, got))
    });
    log
}

fn points() -> Vec<[f64; 3]> {
    vec![
        [0.5, 0.5, 0.5],
        [3.5, 0.5, 0.5],
        [3.5, 3.5, 0.5],
        [1.5, 2.5, 3.5],
        [0.25, 0.5, 0.5],
        [0.5, 3.5, 0.5],
        [3.5, 3.75, 3.75],
    ]
}

fn main() {
    let c = Check::new("C16");
    c.assume("every rank has at least one particle before the decomposition");
    let one = Bounds { bases: vec![Base::PollsLast], modes: vec![Mode::Eager], horizon: 200_000, ..Bounds::new(0) };
    let none = Plan::new();
    // All distributions of some of the particles at the start.
    let mut cases = vec![];
    for ranks in 1..=c.pick(3usize, 4) {
        let num = c.pick(6, 7);
        for i in 0..(ranks as u64 + 1).pow(num as u32) {
            let d = digits(i, ranks as u64 + 1, num);
            let keep: Vec<usize> = (0..num).filter(|p| (d[*p] as usize) < ranks).collect();
            let rank: Vec<usize> = keep.iter().map(|p| d[*p] as usize).collect();
            if (0..ranks).all(|r| rank.contains(&r)) {
                cases.push(Case { points: keep.iter().map(|p| points()[*p]).collect(), rank, ranks });
            }
        }
    }
    par(cases.len(), |i| {
        check(c, &cases[i], &one, &none);
    });
    c.info("distributions", json!(cases.len()));
    // All schedules within a bound.
    let ranks_of = |ranks: usize, shift: usize| Case {
        points: points(),
        rank: (0..7).map(|i| (i * 5 / 2 + shift) % ranks).collect(),
        ranks,
    };
    let b = Bounds { horizon: 200_000, ..Bounds::new(c.pick(1, 2)) };
    par(4, |i| {
        check(c, &ranks_of(2 + i / 2, i % 2), &b, &none);
    });
    // All orders of the systems within a bound.
    for ranks in [2, 3] {
        let case = ranks_of(ranks, 1);
        let log = check(c, &case, &one, &none);
        if c.stopped() {
            break;
        }
        let plans = more(&none, &log, ranks);
        c.add("orders_1", plans.len() as u64);
        par(plans.len(), |i| {
            let log = check(c, &case, &one, &plans[i]);
            if (c.thorough || ranks == 2) && !c.stopped() {
                let next = more(&plans[i], &log, ranks);
                c.add("orders_2", next.len() as u64);
                for p in next {
                    check(c, &case, &one, &p);
                }
            }
        });
    }
    c.sample(json!({"points": points(), "rank": [0, 1, 0, 1, 0, 1, 1]}));
    c.finish()
}
