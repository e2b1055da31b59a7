//! C29: a cartesian grid is the regular grid of the box, on any number of ranks.
use bevy_ecs::prelude::*;
use mc::*;
use std::collections::HashMap;
use subsweep::communication::BaseCommunicationPlugin;
use subsweep::components::Position;
use subsweep::parameters::{Cosmology, SimulationParameters};
use subsweep::prelude::*;
use subsweep::simulation_plugin::SimulationPlugin;
use subsweep::sweep::grid::{init_cartesian_grid_system, Cell, NumCellsSpec, ParticleType};
use subsweep::units::*;

#[global_allocator]
static A: mmpi::alloc::Tracking = mmpi::alloc::Tracking;

type Id = (i32, u32);

#[derive(Clone, Debug)]
struct Got {
    id: Id,
    halo: Option<i32>,
    pos: [f64; 3],
    size: f64,
    volume: f64,
    faces: Vec<([f64; 3], f64, ParticleType)>,
}

fn build(ranks: usize, r: usize, sides: [f64; 3], size: f64, periodic: bool) -> Vec<Got> {
    let mut sim = Simulation::default();
    sim.read_initial_conditions(false).write_output(false);
    sim.add_plugin(BaseCommunicationPlugin::new(ranks, r as i32));
    let b = SimulationBox::new(subsweep::domain::Extent::from_min_max(VecLength::meters(0.0, 0.0, 0.0), VecLength::meters(sides[0], sides[1], sides[2])));
    sim.add_parameter_file_contents("{}".into());
    sim.add_parameters_explicitly(b)
        .add_parameters_explicitly(Cosmology::NonCosmological)
        .add_parameters_explicitly(SimulationParameters { final_time: None });
    sim.add_plugin(SimulationPlugin);
    sim.add_startup_system(move |commands: Commands, b: Res<SimulationBox>, n: Res<WorldSize>, r: Res<WorldRank>| {
        init_cartesian_grid_system(commands, b, NumCellsSpec::CellSize(Length::meters(size)), n, r, periodic)
    });
    sim.update();
    let world = sim.world();
    let mut q = world.query::<(Entity, &Position, &Cell, &ParticleId)>();
    let found: Vec<_> = q
        .iter(world)
        .map(|(e, p, c, id)| {
            (
                e,
                Got {
                    id: (id.rank, id.index),
                    halo: None,
                    pos: p.value_unchecked().to_array(),
                    size: c.size.in_meters(),
                    volume: c.volume.value_unchecked(),
                    faces: c.neighbours.iter().map(|(f, n)| (f.normal.value_unchecked().to_array(), f.area.value_unchecked(), *n)).collect(),
                },
            )
        })
        .collect();
    found
        .into_iter()
        .map(|(e, mut g)| {
            let local = world.entity(e).contains::<LocalParticle>();
            g.halo = world.entity(e).get::<HaloParticle>().map(|h| h.rank);
            assert_eq!(local, g.halo.is_none(), "a cell is local or halo");
            g
        })
        .collect()
}

/// sides as a user would write them: decimal numbers
fn sides(n: [usize; 3], size: f64) -> [f64; 3] {
    n.map(|x| format!("{:.6}", x as f64 * size).parse::<f64>().unwrap())
}

fn check(ranks: usize, n: [usize; 3], size: f64, periodic: bool, got: &[Vec<Got>]) -> Result<u64, String> {
    let sides = sides(n, size);
    let mut cells: HashMap<Id, ([usize; 3], &Got)> = HashMap::new();
    let mut at: HashMap<[usize; 3], Id> = HashMap::new();
    let place = |p: &[f64; 3]| -> Result<[usize; 3], String> {
        let mut x = [0; 3];
        for k in 0..3 {
            // the corner or the centre of a cell
            let f = p[k] / sides[k] * n[k] as f64;
            let i = (f + 1e-9).floor();
            if !(i >= 0.0 && i < n[k] as f64) || (f - i).abs() > 1e-6 && (f - i - 0.5).abs() > 1e-6 {
                return Err(format!("there is a cell at {p:?} in a box of {sides:?} with {n:?} cells"));
            }
            x[k] = i as usize;
        }
        Ok(x)
    };
    for (r, g) in got.iter().enumerate() {
        for x in g.iter().filter(|x| x.halo.is_none()) {
            if x.id.0 != r as i32 {
                return Err(format!("rank {r} has {:?} as a cell of its own", x.id));
            }
            let p = place(&x.pos)?;
            if cells.insert(x.id, (p, x)).is_some() {
                return Err(format!("{:?} is there twice", x.id));
            }
            if at.insert(p, x.id).is_some() {
                return Err(format!("there are two cells at {p:?}"));
            }
        }
        let own = g.iter().filter(|x| x.halo.is_none()).count();
        if (0..own as u32).any(|i| !cells.contains_key(&(r as i32, i))) {
            return Err(format!("the indices of the {own} cells of rank {r} are not 0..{own}"));
        }
        let ideal = n.iter().product::<usize>() as f64 / ranks as f64;
        if (own as f64 - ideal).abs() > (n[1] * n[2]) as f64 + 1e-9 {
            return Err(format!("rank {r} has {own} of {:?} cells on {ranks} ranks", n));
        }
    }
    if at.len() != n.iter().product::<usize>() {
        return Err(format!("there are {} cells, not {n:?}, in a box of {sides:?} with cells of {size}", at.len()));
    }
    for (id, (p, g)) in &cells {
        if !close(g.size, size, 1e-9) || !close(g.volume, size.powi(3), 1e-9) {
            return Err(format!("cell {id:?} has size {} and volume {}, not those of a cube of {size}", g.size, g.volume));
        }
        if g.faces.len() != 6 {
            return Err(format!("cell {id:?} has {} faces", g.faces.len()));
        }
        let mut seen = vec![];
        for (normal, area, to) in &g.faces {
            let k = (0..3).find(|k| normal[*k].abs() > 0.5).ok_or("no normal")?;
            let up = normal[k] > 0.0;
            if (0..3).any(|j| (normal[j].abs() - (j == k) as u8 as f64).abs() > 1e-9) || !close(*area, size * size, 1e-9) {
                return Err(format!("a face of cell {id:?} has normal {normal:?} and area {area}"));
            }
            seen.push((k, up));
            let mut q = *p;
            let out = if up { p[k] + 1 == n[k] } else { p[k] == 0 };
            q[k] = (p[k] + n[k] + 1 - 2 * !up as usize) % n[k];
            let want = at[&q];
            let wrap = |w: &dyn std::fmt::Debug| format!("{w:?}");
            let (kind, other, far) = match to {
                ParticleType::Boundary => ("boundary", want, None),
                ParticleType::Local(i) => ("local", (i.rank, i.index), None),
                ParticleType::Remote(x) => ("remote", (x.id.rank, x.id.index), Some(x.rank)),
                ParticleType::LocalPeriodic(x) => ("local periodic", (x.id.rank, x.id.index), None),
                ParticleType::RemotePeriodic(x) => ("remote periodic", (x.id.rank, x.id.index), Some(x.rank)),
            };
            let right = match (out, periodic, want.0 == id.0) {
                (false, _, true) => "local",
                (false, _, false) => "remote",
                (true, false, _) => "boundary",
                (true, true, true) => "local periodic",
                (true, true, false) => "remote periodic",
            };
            if kind != right || other != want || far.is_some_and(|f| f != want.0) {
                return Err(format!("beyond the face {normal:?} of {id:?} is {to:?}, the cell there is {want:?} ({right})"));
            }
            // The image on the other side is seen with the opposite wrap.
            let w = match to {
                ParticleType::LocalPeriodic(x) => Some(x.periodic_wrap_type),
                ParticleType::RemotePeriodic(x) => Some(x.periodic_wrap_type),
                _ => None,
            };
            if let Some(w) = w {
                let t = wrap(&w);
                let fits = w.is_periodic() && (0..3).all(|j| {
                    let x = [w.x, w.y, w.z][j];
                    let x = format!("{x:?}");
                    let base = format!("{:?}", subsweep::dimension::ActiveWrapType::no_wrap().x);
                    (x == base) == (j != k)
                });
                if !fits {
                    return Err(format!("the face {normal:?} of {id:?} has wrap type {t}"));
                }
                let back = cells[&want].1.faces.iter().find(|f| f.0[k] * normal[k] < 0.0).ok_or("no opposite face")?;
                let b = match back.2 {
                    ParticleType::LocalPeriodic(x) => Some(x.periodic_wrap_type),
                    ParticleType::RemotePeriodic(x) => Some(x.periodic_wrap_type),
                    _ => None,
                };
                if b.is_none() || b == Some(w) {
                    return Err(format!("the faces of {id:?} and {want:?} have wrap types {t} and {b:?}"));
                }
            }
        }
        seen.sort();
        seen.dedup();
        if seen.len() != 6 {
            return Err(format!("cell {id:?} has the faces {seen:?}"));
        }
    }
    // halo cells: all that touch a cell of the rank
    for (r, g) in got.iter().enumerate() {
        let mut have: Vec<Id> = vec![];
        for x in g.iter().filter(|x| x.halo.is_some()) {
            if x.halo != Some(x.id.0) || cells.get(&x.id).map(|c| c.0) != place(&x.pos).ok() {
                return Err(format!("rank {r} has a halo cell {:?} of rank {:?} at {:?}", x.id, x.halo, x.pos));
            }
            have.push(x.id);
        }
        let mut want: Vec<Id> = cells
            .iter()
            .filter(|(id, (_, g))| {
                id.0 != r as i32
                    && g.faces.iter().any(|f| match f.2 {
                        ParticleType::Remote(x) => x.rank == r as i32,
                        ParticleType::RemotePeriodic(x) => x.rank == r as i32,
                        _ => false,
                    })
            })
            .map(|x| *x.0)
            .collect();
        have.sort();
        want.sort();
        if have != want {
            return Err(format!("rank {r} has the halo cells {have:?}, its cells touch {want:?}"));
        }
    }
    Ok(cells.len() as u64)
}

fn main() {
    let c = Check::new("C29");
    c.assume("bevy and diman are the stand-ins of harness/shims");
    let top = c.pick(6, 8);
    let mut cases = vec![];
    for i in 0..top * top * top {
        let n = [i % top + 1, i / top % top + 1, i / top / top + 1];
        for ranks in 1..=c.pick(6, 9) {
            for periodic in [false, true] {
                for size in [1.0, 0.1] {
                    cases.push((ranks, n, size, periodic));
                }
            }
        }
    }
    // long ones with all kinds of sizes
    for nx in 1..=c.pick(60, 300) {
        for size in [0.1, 0.2, 0.3, 0.7, 1e-3, 12.5, 0.035] {
            cases.push((1 + nx % 5, [nx, 1, 2], size, nx % 2 == 0));
        }
    }
    par(cases.len(), |i| {
        let (ranks, n, size, periodic) = cases[i];
        let case = || json!({"ranks": ranks, "cells": n, "size": size, "periodic": periodic});
        let b = mmpi::Bounds { bases: vec![mmpi::explore::Base::PollsLast], modes: vec![mmpi::Mode::Eager], ..mmpi::Bounds::new(0) };
        c.explore("grid", case(), ranks, &b, &|r| build(ranks, r, sides(n, size), size, periodic), &mut |got| {
            check(ranks, n, size, periodic, got).map(|k| c.count(0, k, 0))
        });
    });
    c.info("bounds", json!("all grids of up to 6x6x6 (8x8x8) cells on 1 to 6 (9) ranks, periodic or not, 2 cell sizes; grids of 1 to 60 (300) cells in a row with 7 cell sizes"));
    c.finish()
}
