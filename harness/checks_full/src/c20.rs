//! C20: from the initial conditions to the snapshots: every particle is read once, written once per
//! snapshot with all its fields, and snapshots are written when they are due.
mod order;
use std::cell::RefCell;
use std::path::{Path, PathBuf};

use bevy_ecs::prelude::*;
use mc::mmpi::{explore::Base, Bounds, Mode};
use mc::*;
use order::*;
use subsweep::communication::{MpiWorld, SizedCommunicator};
use subsweep::components::*;
use subsweep::io::input::{ComponentInput, DatasetInputPlugin, Reader};
use subsweep::io::{DatasetDescriptor, DatasetShape, InputDatasetDescriptor};
use subsweep::prelude::{LocalParticle, Particles, SimulationBuilder, Stages, StartupStages};
use subsweep::simulation_plugin::SimulationTime;
use subsweep::units;

#[global_allocator]
static A: mmpi::alloc::Tracking = mmpi::alloc::Tracking;

const SIZE: f64 = 4.0;

#[derive(Clone, Debug)]
struct Case {
    ranks: usize,
    /// the number of particles in each input file, and whether the files are given as a folder
    files: Vec<usize>,
    folder: bool,
    two_d: bool,
    out_files: usize,
    steps: Vec<f64>,
    first: Option<f64>,
    between: f64,
    last: f64,
    fields: Option<Vec<&'static str>>,
    cosmology: bool,
}

impl Case {
    fn new(ranks: usize, files: &[usize], out_files: usize) -> Self {
        Self {
            ranks,
            files: files.to_vec(),
            folder: false,
            two_d: false,
            out_files,
            steps: vec![1.0],
            first: None,
            between: 0.0,
            last: 1.5,
            fields: None,
            cosmology: false,
        }
    }
    fn json(&self) -> Value {
        json!({"case": format!("{self:?}")})
    }
    fn step(&self, i: usize) -> f64 {
        self.steps[i % self.steps.len()]
    }
}

/// position, density, temperature of particle i, SI
fn particle(i: usize) -> ([f64; 3], f64, f64) {
    // distinct positions all over the box
    let f = |k: f64| ((i as f64 + 1.0) * k).fract() * SIZE;
    ([f(0.618033988), f(0.414213562), f(0.732050807)], 1.0 + i as f64, 100.0 * (i + 1) as f64)
}
/// the temperature after some steps
fn temperature(i: usize, steps: usize) -> f64 {
    particle(i).2 + 10_000.0 * steps as f64
}
fn scale(file: usize, field: usize) -> f64 {
    [[1.0, 2.0, 0.5, 4.0], [1.0, 8.0, 2.0, 0.25], [1.0, 0.5, 16.0, 2.0]][field][file % 4]
}

thread_local! {
    static DIR: RefCell<PathBuf> = RefCell::new(PathBuf::new());
}
fn dir() -> PathBuf {
    DIR.with(|d| d.borrow().clone())
}
fn process() -> usize {
    MpiWorld::<usize>::new().rank() as usize
}
fn outside() -> usize {
    0
}

fn write<T: hdf5::H5Type>(f: &hdf5::File, name: &str, dims: [i32; 4], scale: f64, data: &[T], cols: usize) {
    let set = if cols == 1 {
        f.new_dataset::<T>().shape([data.len()]).create(name).unwrap()
    } else {
        f.new_dataset::<T>().shape([data.len() / cols, cols]).create(name).unwrap()
    };
    set.write(data).unwrap();
    set.new_attr::<f64>().shape(()).create("scale_factor_si").unwrap().write_scalar(&scale).unwrap();
    for (n, d) in ["scaling_length", "scaling_time", "scaling_mass", "scaling_temperature"].iter().zip(dims) {
        set.new_attr::<i32>().shape(()).create(*n).unwrap().write_scalar(&d).unwrap();
    }
    for n in ["scaling_h", "scaling_a"] {
        set.new_attr::<i32>().shape(()).create(n).unwrap().write_scalar(&0i32).unwrap();
    }
}

fn fresh() {
    let d = dir();
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(d.join("ics")).unwrap();
    hdf5::model::reset();
    hdf5::model::set_process(outside);
}

fn prepare(case: &Case) {
    fresh();
    let d = dir();
    let mut n = 0;
    let mut paths = vec![];
    for (k, num) in case.files.iter().enumerate() {
        let path = d.join("ics").join(format!("{k}.hdf5"));
        let f = hdf5::File::create(&path).unwrap();
        let all: Vec<_> = (n..n + num).map(particle).collect();
        n += num;
        if case.two_d {
            let s = scale(k, 0);
            let v: Vec<f64> = all.iter().flat_map(|p| p.0.map(|x| x / s)).collect();
            write(&f, "position", [1, 0, 0, 0], s, &v, 3);
        } else {
            let s = scale(k, 0);
            let v: Vec<Position> =
                all.iter().map(|p| Position(units::VecLength::meters(p.0[0] / s, p.0[1] / s, p.0[2] / s))).collect();
            write(&f, "position", [1, 0, 0, 0], s, &v, 1);
        }
        let s = scale(k, 1);
        let v: Vec<f64> = all.iter().map(|p| p.1 / s).collect();
        write(&f, "density", [-3, 0, 1, 0], s, &v, 1);
        let s = scale(k, 2);
        let v: Vec<f64> = all.iter().map(|p| p.2 / s).collect();
        write(&f, "temperature", [0, 0, 0, 1], s, &v, 1);
        paths.push(path);
    }
    let paths = if case.folder {
        format!("[{:?}]", d.join("ics"))
    } else {
        format!("{paths:?}")
    };
    let first = case.first.map(|t| format!("\n  time_first_snapshot: {t:?} Myr")).unwrap_or_default();
    let fields = case.fields.as_ref().map(|f| format!("\n  fields: {f:?}")).unwrap_or_default();
    let cosmology = if case.cosmology {
        "\ncosmology: {a: 0.5, h: 0.7, params: {omega_0: 0.3, omega_lambda: 0.7}}"
    } else {
        ""
    };
    let text = format!(
        "box_size: 4.0 m
simulation:
  final_time: {:?} Myr
input:
  paths: {paths}{cosmology}
output:
  output_dir: {:?}
  time_between_snapshots: {:?} Myr
  num_output_files: {}{first}{fields}
",
        case.last,
        d.join("out"),
        case.between,
        case.out_files
    );
    std::fs::write(d.join("params.yml"), text).unwrap();
    hdf5::model::set_process(process);
}

fn vec(row: &[f64]) -> Position {
    Position(units::VecLength::meters(row[0], row[1], row[2]))
}

fn body(case: &Case) {
    let mut builder = SimulationBuilder::new();
    builder
        .read_initial_conditions(true)
        .write_output(true)
        .log(false)
        .require_parameter_file(true)
        .parameter_file_path(&dir().join("params.yml"));
    let mut sim = builder.build();
    if case.two_d {
        sim.add_plugin(DatasetInputPlugin::<Position>::from_descriptor(InputDatasetDescriptor::new(
            DatasetDescriptor::default_for::<Position>(),
            DatasetShape::TwoDimensional(vec),
        )));
    }
    sim.add_required_component::<Density>()
        .add_required_component::<Temperature>()
        .add_component::<Mass>(ComponentInput::Derived, DatasetDescriptor::default_for::<Mass>())
        .add_derived_component::<IonizedHydrogenFraction>();
    sim.add_startup_system_to_stage(
        StartupStages::InsertDerivedComponents,
        |mut commands: Commands, particles: Particles<(Entity, &Density)>| {
            for (e, d) in particles.iter() {
                let d = d.value_unchecked();
                commands.entity(e).insert((
                    Mass(units::Mass::kilograms(2.0 * d)),
                    IonizedHydrogenFraction(units::Dimensionless::dimensionless(d / 64.0)),
                ));
            }
        },
    );
    let steps = case.steps.clone();
    let mut step = 0;
    sim.add_system_to_stage(
        Stages::Sweep,
        move |mut time: ResMut<SimulationTime>, mut particles: Query<&mut Temperature, With<LocalParticle>>| {
            **time += units::Time::megayears(steps[step % steps.len()]);
            step += 1;
            for mut t in particles.iter_mut() {
                **t += units::Temperature::kelvins(10_000.0);
            }
        },
    );
    sim.run_without_finalize();
}

/// The snapshots that are due: for each the number of steps taken.
fn due(case: &Case) -> Vec<usize> {
    let mut out = vec![];
    let mut time = 0.0;
    let myr = 3.15576e13;
    let mut next = case.first.unwrap_or(0.0) * myr;
    for i in 0.. {
        let stop = time >= case.last * myr;
        time += case.step(i) * myr;
        if stop || time >= next {
            out.push(i + 1);
            next += case.between * myr;
        }
        if stop {
            break;
        }
    }
    out
}

fn near(a: f64, b: f64) -> bool {
    close(a, b, 1e-14)
}

fn verdict(case: &Case) -> Result<(), String> {
    hdf5::model::set_process(outside);
    let snapshots = dir().join("out/snapshots");
    let expected = due(case);
    let mut names: Vec<String> = std::fs::read_dir(&snapshots)
        .map_err(|e| format!("no folder of snapshots: {e}"))?
        .map(|e| e.unwrap().file_name().to_string_lossy().into_owned())
        .collect();
    names.sort();
    let want: Vec<String> = (0..expected.len()).map(|i| format!("{i:03}")).collect();
    if names != want {
        return Err(format!("snapshots {names:?} instead of {want:?} (after steps {expected:?})"));
    }
    let num: usize = case.files.iter().sum();
    let width = case.out_files.to_string().len();
    let desired = |f: &str| case.fields.as_ref().map(|s| s.contains(&f)).unwrap_or(true);
    for (s, steps) in expected.iter().enumerate() {
        let folder = snapshots.join(&want[s]);
        let mut files: Vec<PathBuf> = std::fs::read_dir(&folder).unwrap().map(|e| e.unwrap().path()).collect();
        files.sort();
        for f in &files {
            let name = f.file_stem().unwrap().to_string_lossy().into_owned();
            if f.extension().map(|e| e != "hdf5").unwrap_or(true)
                || name.len() != width
                || name.parse::<usize>().map(|i| i >= case.out_files).unwrap_or(true)
            {
                return Err(format!("unexpected file {f:?}"));
            }
        }
        if files.is_empty() || (files.len() < case.out_files && num >= case.out_files) {
            return Err(format!("snapshot {s} has {} files", files.len()));
        }
        let time: f64 = (0..*steps).map(|i| case.step(i)).sum::<f64>() * 3.15576e13;
        let mut sets: Vec<&str> = vec![];
        for (f, fixed) in
            [("density", true), ("ionized_hydrogen_fraction", false), ("mass", true), ("position", true), ("temperature", false)]
        {
            if desired(f) && (!fixed || s == 0) {
                sets.push(f);
            }
        }
        // the data of all files one after the other
        let mut all: Vec<Vec<[f64; 3]>> = vec![vec![]; sets.len()];
        for f in &files {
            let t: Option<f64> = hdf5::model::attr(f, None, "time").map(|t: units::Time| t.value_unchecked());
            if !t.map(|t| near(t, time)).unwrap_or(false) {
                return Err(format!("snapshot {s} has time {t:?}, not {time}"));
            }
            if case.cosmology {
                let a: Option<units::Dimensionless> = hdf5::model::attr(f, None, "scale_factor");
                let z: Option<units::Dimensionless> = hdf5::model::attr(f, None, "redshift");
                let h: Option<units::Dimensionless> = hdf5::model::attr(f, None, "little_h");
                let (a, z, h) = match (a, z, h) {
                    (Some(a), Some(z), Some(h)) => (a.value_unchecked(), z.value_unchecked(), h.value_unchecked()),
                    _ => return Err(format!("no cosmological attributes in snapshot {s}")),
                };
                if h != 0.7 || !close(1.0 + z, 1.0 / a, 1e-12) {
                    return Err(format!("cosmological attributes h = {h}, a = {a}, z = {z} in snapshot {s}"));
                }
                let exact = scale_factor(time);
                // the search stops within 100 years
                if (a - exact).abs() > 1e-6 {
                    return Err(format!("the scale factor at the time of snapshot {s} is {exact}, in the file it is {a}"));
                }
            }
            if hdf5::model::datasets(f) != sets {
                return Err(format!("snapshot {s} has {:?}, not {sets:?}", hdf5::model::datasets(f)));
            }
            let mut lengths = vec![];
            for (k, name) in sets.iter().enumerate() {
                let si: Option<f64> = hdf5::model::attr(f, Some(*name), "scale_factor_si");
                let dims: Vec<Option<i32>> =
                    ["scaling_length", "scaling_time", "scaling_mass", "scaling_temperature", "scaling_h", "scaling_a"]
                        .iter()
                        .map(|a| hdf5::model::attr(f, Some(*name), a))
                        .collect();
                let want = match *name {
                    "density" => [-3, 0, 1, 0],
                    "position" => [1, 0, 0, 0],
                    "mass" => [0, 0, 1, 0],
                    "temperature" => [0, 0, 0, 1],
                    _ => [0; 4],
                };
                if si.is_none() || dims[..4] != want.map(Some) || dims[4..] != [Some(0); 2] {
                    return Err(format!("{name} has scale factor {si:?} and dimensions {dims:?} in snapshot {s}"));
                }
                let si = si.unwrap();
                let (shape, values, written) = if *name == "position" {
                    let (a, b, c) = hdf5::model::dataset::<Position>(f, name).ok_or("unreadable positions")?;
                    let v = |p: &Position| [p.x().value_unchecked(), p.y().value_unchecked(), p.z().value_unchecked()];
                    (a, b.iter().map(|p| v(p).map(|x| x * si)).collect::<Vec<_>>(), c)
                } else {
                    let v = match *name {
                        "density" => hdf5::model::dataset::<Density>(f, name)
                            .map(|(a, b, c)| (a, b.iter().map(|x| x.value_unchecked()).collect::<Vec<f64>>(), c)),
                        "mass" => hdf5::model::dataset::<Mass>(f, name)
                            .map(|(a, b, c)| (a, b.iter().map(|x| x.value_unchecked()).collect(), c)),
                        "temperature" => hdf5::model::dataset::<Temperature>(f, name)
                            .map(|(a, b, c)| (a, b.iter().map(|x| x.value_unchecked()).collect(), c)),
                        _ => hdf5::model::dataset::<IonizedHydrogenFraction>(f, name)
                            .map(|(a, b, c)| (a, b.iter().map(|x| x.value_unchecked()).collect(), c)),
                    };
                    let (a, b, c) = v.ok_or(format!("unreadable {name}"))?;
                    (a, b.iter().map(|x| [x * si, 0.0, 0.0]).collect::<Vec<_>>(), c)
                };
                if written.iter().any(|w| !w) {
                    return Err(format!("parts of {name} in snapshot {s} were never written"));
                }
                lengths.push(shape);
                all[k].extend(values);
            }
            if lengths.windows(2).any(|w| w[0] != w[1]) {
                return Err(format!("fields of different lengths in {f:?}: {lengths:?}"));
            }
        }
        let mut seen = vec![false; num];
        for row in 0..all.first().map(|a| a.len()).unwrap_or(0) {
            let same = |i: usize| {
                let p = particle(i);
                sets.iter().enumerate().all(|(k, name)| {
                    let v = all[k][row];
                    match *name {
                        "position" => (0..3).all(|d| near(v[d], p.0[d])),
                        "density" => near(v[0], p.1),
                        "mass" => near(v[0], 2.0 * p.1),
                        "temperature" => near(v[0], temperature(i, *steps)),
                        _ => near(v[0], p.1 / 64.0),
                    }
                })
            };
            match (0..num).find(|i| same(*i)) {
                None => {
                    let r: Vec<_> = all.iter().map(|a| a[row]).collect();
                    return Err(format!("row {row} of snapshot {s} is no particle: {sets:?} = {r:?}"));
                }
                Some(i) if seen[i] => return Err(format!("particle {i} is in snapshot {s} twice")),
                Some(i) => seen[i] = true,
            }
        }
        if let Some(i) = seen.iter().position(|x| !x).filter(|_| !sets.is_empty()) {
            return Err(format!("particle {i} is missing from snapshot {s}"));
        }
    }
    if !dir().join("out/parameters.yml").is_file() {
        return Err("the parameters used were not written".into());
    }
    Ok(())
}

/// a(t) of a flat universe with omega_0 = 0.3, h = 0.7 that starts at 0.5
fn scale_factor(t: f64) -> f64 {
    let (om, ol) = (0.3f64, 0.7f64);
    let hubble = 3.2407789e-18 * 0.7;
    // sinh solution of the Friedmann equation
    let t0 = (2.0 / (3.0 * ol.sqrt() * hubble)) * ((ol / om * 0.125f64).sqrt()).asinh();
    ((om / ol) * (1.5 * ol.sqrt() * hubble * (t0 + t)).sinh().powi(2)).powf(1.0 / 3.0)
}

fn run(c: &Check, key: &str, case: &Case, b: &Bounds, plan: &Plan) -> Log {
    if c.stopped() {
        return Log::new();
    }
    let mut what = case.json();
    what["orders"] = json!(format!("{plan:?}"));
    prepare(case);
    let (_, log) = with_plan(plan, || {
        c.explore(key, what, case.ranks, b, &|_| body(case), &mut |_: &[()]| {
            let v = verdict(case);
            prepare(case);
            v
        })
    });
    log
}

/// Reading the files of a snapshot again, on any number of ranks, in chunks of any size.
fn reread(c: &Check, key: &str, case: &Case) {
    if c.stopped() {
        return;
    }
    prepare(case);
    let b = one();
    let mut json = case.json();
    json["reread"] = json!(true);
    let num: usize = case.files.iter().sum();
    let _ = c.explore(key, json.clone(), case.ranks, &b, &|_| body(case), &mut |_: &[()]| Ok(()));
    if c.stopped() {
        return;
    }
    let mut paths: Vec<PathBuf> =
        std::fs::read_dir(dir().join("out/snapshots/000")).unwrap().map(|e| e.unwrap().path()).collect();
    paths.sort();
    let d = || InputDatasetDescriptor::<Density>::default();
    let p = || InputDatasetDescriptor::<Position>::default();
    for ranks in 1..=4 {
        for chunk in 0..=num {
            let read = |_| {
                let r = Reader::split_between_ranks(paths.iter());
                let x: Vec<f64> = if chunk == 0 {
                    r.read_dataset(d()).map(|x| x.value_unchecked()).collect()
                } else {
                    r.read_dataset_chunked(d(), chunk).map(|x| x.value_unchecked()).collect()
                };
                let y: Vec<[f64; 3]> = if chunk == 0 {
                    r.read_dataset(p()).map(|x| [x.x().in_meters(), x.y().in_meters(), x.z().in_meters()]).collect()
                } else {
                    r.read_dataset_chunked(p(), chunk)
                        .map(|x| [x.x().in_meters(), x.y().in_meters(), x.z().in_meters()])
                        .collect()
                };
                let n = r.get_num_entities("density");
                (x, y, n)
            };
            json["readers"] = json!([ranks, chunk]);
            hdf5::model::set_process(process);
            let _ = c.explore(key, json.clone(), ranks, &b, &read, &mut |got: &[(Vec<f64>, Vec<[f64; 3]>, usize)]| {
                let mut seen = vec![false; num];
                for (r, (x, y, n)) in got.iter().enumerate() {
                    if x.len() != *n || y.len() != *n {
                        return Err(format!("rank {r} reads {} and {} of {n}", x.len(), y.len()));
                    }
                    for (x, y) in x.iter().zip(y) {
                        match (0..num).find(|i| near(particle(*i).1, *x)) {
                            Some(i) if !seen[i] && (0..3).all(|k| near(particle(i).0[k], y[k])) => seen[i] = true,
                            other => return Err(format!("rank {r} reads density {x} at {y:?} (particle {other:?})")),
                        }
                    }
                }
                match seen.iter().position(|x| !x) {
                    Some(i) => Err(format!("no rank reads particle {i}")),
                    None => Ok(()),
                }
            });
        }
    }
}

/// What happens to a folder that is there already.
fn existing(c: &Check, case: &Case, mode: &str) {
    if c.stopped() {
        return;
    }
    let mut json = case.json();
    json["existing"] = json!(mode);
    let out = dir().join("out");
    let set_up = || {
        prepare(case);
        let p = dir().join("params.yml");
        let mut t = std::fs::read_to_string(&p).unwrap();
        if mode != "default" {
            t.push_str(&format!("  handle_existing_output: {mode}\n"));
        }
        std::fs::write(&p, t).unwrap();
        std::fs::create_dir_all(out.join("snapshots/007")).unwrap();
        std::fs::write(out.join("snapshots/007/old"), "old").unwrap();
        std::fs::write(out.join("parameters.yml"), "old").unwrap();
    };
    set_up();
    let old = || std::fs::read_to_string(out.join("snapshots/007/old")).ok();
    let used = || std::fs::read_to_string(out.join("parameters.yml")).ok();
    if matches!(mode, "default" | "panic") {
        match mmpi::explore(case.ranks, &one(), &|_| body(case), &mut |_: &[()]| Ok(())) {
            Ok(_) => c.violation("existing", "a run into an existing folder did not stop", json),
            Err(o) => {
                c.count(1, 1, 1);
                if !o.what.contains("already exists") {
                    c.violation("existing", &format!("a run into an existing folder ends with: {}", o.what), json);
                } else if old() != Some("old".into()) || used() != Some("old".into()) {
                    c.violation("existing", "a refused run changed the existing output", json);
                }
            }
        }
        return;
    }
    let _ = c.explore("existing", json, case.ranks, &Bounds { horizon: 400_000, ..Bounds::new(1) }, &|_| body(case), &mut |_: &[()]| {
        let v = if old().is_some() != (mode == "overwrite") {
            Err(format!("{mode}: the file of an earlier run is {}", if old().is_some() { "still there" } else { "gone" }))
        } else if used() == Some("old".into()) || used().is_none() {
            Err(format!("{mode}: the parameters of an earlier run are still there"))
        } else {
            let _ = std::fs::remove_dir_all(out.join("snapshots/007"));
            verdict(case)
        };
        set_up();
        v
    });
}

fn one() -> Bounds {
    Bounds { bases: vec![Base::PollsLast], modes: vec![Mode::Eager], horizon: 400_000, ..Bounds::new(0) }
}

fn in_scratch(i: usize, base: &Path, f: impl FnOnce()) {
    let d = base.join(format!("{i}-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    DIR.with(|x| *x.borrow_mut() = d.clone());
    f();
    hdf5::model::reset();
    let _ = std::fs::remove_dir_all(&d);
}

fn main() {
    let c = Check::new("C20");
    c.assume("there are at least as many particles as ranks, at distinct positions inside the box");
    let scratch = std::env::temp_dir().join(format!("subsweep-c20-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let none = Plan::new();
    let mut cases = vec![];
    // Distributions over files, for reading and for writing.
    let most = c.pick(4usize, 6);
    for ranks in 1..=c.pick(3usize, 4) {
        for nfiles in 1..=3usize {
            for i in 0..(most as u64 + 1).pow(nfiles as u32) {
                let files: Vec<usize> = digits(i, most as u64 + 1, nfiles).iter().map(|x| *x as usize).collect();
                if files.iter().sum::<usize>() < ranks.max(1) {
                    continue;
                }
                for out in 1..=c.pick(3usize, 4) {
                    let mut case = Case::new(ranks, &files, out);
                    case.folder = i % 2 == 1;
                    case.two_d = (i + out as u64) % 3 == 0;
                    case.cosmology = (i + out as u64) % 5 == 0;
                    cases.push(case);
                }
            }
        }
    }
    // When snapshots are due.
    let mut timing = vec![];
    for steps in [vec![1.0], vec![0.25], vec![3.0], vec![0.5, 0.25, 2.0], vec![4.0, 0.125]] {
        for first in [None, Some(0.0), Some(1.0), Some(1.1), Some(7.0)] {
            for between in [0.0, 0.5, 1.0, 1.7, 100.0] {
                for last in [0.0, 0.5, 2.0, 4.25] {
                    for ranks in [1, 2] {
                        timing.push(Case {
                            steps: steps.clone(),
                            first,
                            between,
                            last,
                            cosmology: timing.len() % 4 == 1,
                            ..Case::new(ranks, &[2, 1], 2)
                        });
                    }
                }
            }
        }
    }
    // What is in them.
    let names = ["position", "density", "temperature", "mass", "ionized_hydrogen_fraction"];
    for set in 0..32u32 {
        let f: Vec<&'static str> = (0..5).filter(|k| set >> k & 1 == 1).map(|k| names[k]).collect();
        timing.push(Case { fields: Some(f), last: 2.5, ..Case::new(1 + set as usize % 3, &[3, 1], 1 + set as usize % 2) });
    }
    c.info("distributions", json!(cases.len()));
    c.info("timings_and_fields", json!(timing.len()));
    cases.extend(timing);
    par(cases.len(), |i| {
        in_scratch(i, &scratch, || {
            run(c, "pipeline", &cases[i], &one(), &none);
            if i % 7 == 0 && cases[i].fields.is_none() {
                reread(c, "read", &cases[i]);
            }
        })
    });
    par(12, |i| {
        in_scratch(i, &scratch, || {
            existing(c, &Case::new(1 + i % 3, &[2, 1], 1 + i % 2), ["default", "panic", "overwrite", "delete"][i / 3]);
        })
    });
    // Schedules and orders of the systems.
    let b = Bounds { horizon: 400_000, ..Bounds::new(1) };
    let sched = [Case::new(2, &[2, 1], 2), Case::new(2, &[3], 1), Case::new(3, &[2, 2], 2)];
    let num = 3;
    par(num, |i| in_scratch(i, &scratch, || {
        run(c, "schedules", &sched[i], &b, &none);
    }));
    for (k, case) in sched.iter().enumerate().take(num) {
        let mut plans = vec![];
        in_scratch(k, &scratch, || {
            let log = run(c, "orders", case, &one(), &none);
            if !c.stopped() {
                plans = more(&none, &log, case.ranks);
            }
        });
        c.add("orders", plans.len() as u64);
        par(plans.len(), |i| in_scratch(i, &scratch, || {
            let log = run(c, "orders", case, &one(), &plans[i]);
            if k == 0 && c.thorough && !c.stopped() {
                let next = more(&plans[i], &log, case.ranks);
                c.add("orders_2", next.len() as u64);
                for p in next {
                    run(c, "orders", case, &one(), &p);
                }
            }
        }));
    }
    let _ = std::fs::remove_dir_all(&scratch);
    c.sample(cases[0].json());
    c.finish()
}
