//! The whole application (main.rs) on Arepo snapshots, against a reference for what it has to
//! compute. Each case runs in a process of its own, because the application reads the command line.
#![allow(dead_code)]
use std::path::{Path, PathBuf};

use mc::mmpi::{explore::Base, Bounds, Mode};
use mc::*;
use subsweep::communication::{MpiWorld, SizedCommunicator};
use subsweep::components::{
    CollisionalIonizationRate, Density, HeatingRate, IonizationTime, IonizedHydrogenFraction, Mass, PhotoionizationRate, PhotonRate, Position,
    RecombinationRate, Source, Temperature, Timestep,
};
use subsweep::units;

#[path = "evolution.rs"]
mod evolution;
use super::brute::{self, P};
use super::sweepsim::{density_for, reference, CellSpec, FaceSpec, Gas, Setup, To};

pub const OMEGA_0: f64 = 0.3;
pub const OMEGA_LAMBDA: f64 = 0.7;
const KPC: f64 = 3.0856775814913673e19;

#[derive(Clone, Debug)]
pub struct Star {
    /// in parts of the box
    pub pos: P,
    pub metallicity: f64,
    /// scale factor at formation; what is not positive is wind
    pub formed: f64,
    /// solar masses
    pub mass: f64,
}

#[derive(Clone, Debug)]
pub enum Light {
    /// position in parts of the box and rate
    Explicit(Vec<(P, f64)>),
    Stars(Vec<Star>, f64),
}

#[derive(Clone, Debug)]
pub struct Remap {
    pub a: f64,
    /// positions in parts of the (present) box, fraction, temperature
    pub points: Vec<(P, f64, f64)>,
    pub folders: Vec<&'static str>,
    pub files: usize,
}

#[derive(Clone, Debug)]
pub struct Case {
    pub name: String,
    pub ranks: usize,
    /// in parts of the box
    pub points: Vec<P>,
    pub length: f64,
    pub periodic: bool,
    pub read: bool,
    /// scale factor and little h
    pub cosmology: Option<(f64, f64)>,
    pub files: usize,
    pub electron: bool,
    pub light: Light,
    pub remap: Option<Remap>,
    pub steps: usize,
    pub directions: usize,
    pub out_files: usize,
    pub deviations: usize,
    /// seconds
    pub dt: f64,
    pub levels: usize,
    /// None: all
    pub fields: Option<Vec<&'static str>>,
    pub evolution: Option<Evolution>,
}

#[derive(Clone, Debug)]
pub struct Evolution {
    pub safety: f64,
    pub hold: bool,
}

impl Case {
    pub fn new(name: &str, points: Vec<P>) -> Self {
        Case {
            name: name.into(),
            ranks: 1,
            points,
            length: 10.0 * KPC,
            periodic: false,
            read: false,
            cosmology: None,
            files: 1,
            electron: false,
            light: Light::Explicit(vec![]),
            remap: None,
            steps: 1,
            directions: 1,
            out_files: 1,
            deviations: 0,
            dt: 1e-30,
            levels: 1,
            fields: None,
            evolution: None,
        }
    }
    fn bounds(&self) -> Bounds {
        if self.deviations == 0 {
            Bounds { bases: vec![Base::PollsLast], modes: vec![Mode::Eager], horizon: 100_000_000, ..Bounds::new(0) }
        } else {
            Bounds { horizon: 100_000_000, max_executions: 20_000, prune: false, before: Some(again), ..Bounds::new(self.deviations) }
        }
    }
    fn at(&self, p: P) -> P {
        p.map(|x| x * self.length)
    }
}

pub fn noise(i: usize) -> f64 {
    let mut x = (i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 32;
    (x >> 11) as f64 / (1u64 << 53) as f64 - 0.5
}

pub fn lattice(k: [usize; 3], delta: f64, seed: usize) -> Vec<P> {
    (0..k[0] * k[1] * k[2])
        .map(|i| {
            let n = [i % k[0], i / k[0] % k[1], i / k[0] / k[1]];
            [0, 1, 2].map(|d| (n[d] as f64 + 0.5 + delta * noise(seed + 3 * i + d)) / k[d] as f64)
        })
        .collect()
}

fn images() -> Vec<[i32; 3]> {
    let s = [0, -1, 1];
    (0..27).map(|i| [s[i / 9], s[i / 3 % 3], s[i % 3]]).collect()
}

const BINS_16: [[f64; 3]; 16] = [
    [-0.887773, 0.0580969, -0.456601],
    [-0.674667, -0.714656, -0.18464],
    [-0.00927613, 0.998084, 0.0611669],
    [-0.175597, -0.21699, -0.960251],
    [-0.175636, -0.797369, 0.577368],
    [-0.763412, 0.626161, 0.158509],
    [0.567715, 0.614688, 0.547594],
    [-0.807106, -0.195955, 0.55694],
    [0.661621, -0.224206, -0.715535],
    [0.65646, -0.726129, 0.204444],
    [-0.254572, 0.395254, 0.882591],
    [-0.231413, 0.626322, -0.744425],
    [0.994725, 0.0418712, 0.0936475],
    [0.116228, -0.898117, -0.42412],
    [0.605804, 0.619106, -0.499709],
    [0.376898, -0.20616, 0.90302],
];

/// The ages, the metallicities, and the photon rates of solar masses for all pairs of them.
pub fn bpass_table() -> Vec<f64> {
    include_str!("../data/bpass.txt").lines().map(|x| x.parse().unwrap()).collect()
}

/// Photons per second of a stellar population.
pub fn bpass(age: f64, metallicity: f64, mass: f64) -> f64 {
    let all = bpass_table();
    let (ages, rest) = all.split_at(51);
    let (zs, table) = rest.split_at(13);
    let at = |bins: &[f64], x: f64| {
        let x = x.clamp(bins[0], bins[bins.len() - 1]);
        let i = (0..bins.len() - 1).find(|i| x <= bins[i + 1]).unwrap();
        (i, (x - bins[i]) / (bins[i + 1] - bins[i]))
    };
    let (i, f) = at(ages, age);
    let (j, g) = at(zs, metallicity);
    let t = |i: usize, j: usize| table[i * 13 + j];
    mass * ((1.0 - f) * ((1.0 - g) * t(i, j) + g * t(i, j + 1)) + f * ((1.0 - g) * t(i + 1, j) + g * t(i + 1, j + 1)))
}

/// Years between two scale factors.
pub fn years(a0: f64, a1: f64, h: f64) -> f64 {
    // integral of da / (a H), by Simpson's rule in ln a
    let n = 20_000;
    let (l0, l1) = (a0.ln(), a1.ln());
    let step = (l1 - l0) / n as f64;
    let f = |i: usize| 1.0 / (OMEGA_0 * (-3.0 * (l0 + i as f64 * step)).exp() + OMEGA_LAMBDA).sqrt();
    let sum: f64 = (0..=n).map(|i| f(i) * if i == 0 || i == n { 1.0 } else if i % 2 == 1 { 4.0 } else { 2.0 }).sum();
    sum * step / 3.0 / (3.2407789e-18 * h) / 3.15576e7
}

pub struct Particle {
    pub pos: P,
    pub density: f64,
    pub energy: f64,
    pub electrons: f64,
    pub id: u64,
}

const SET_FRACTION: f64 = 3e-4;

pub fn particle(case: &Case, i: usize) -> Particle {
    let n = case.points.len() as f64;
    let size = case.length / n.cbrt();
    let tau = [2.5, 1.5, 3.0, 2.0, 1.0][i % 5];
    Particle {
        pos: case.at(case.points[i]),
        density: density_for(tau, size),
        energy: 1e8 * (1.0 + 0.37 * (i % 7) as f64 + 0.001 * i as f64),
        electrons: [0.0, 1e-3, 0.02, 1.1, 1.4][(i * 3) % 5],
        id: 1000 + 17 * ((i as u64 * 7919) % 10_007),
    }
}

/// What the application has to find.
pub struct Expected {
    pub volume: Vec<f64>,
    pub fraction: Vec<f64>,
    pub temperature: Vec<f64>,
    pub source: Vec<f64>,
    pub rate: Vec<f64>,
    pub luminosity: f64,
    pub setup: Setup,
}

fn distance(a: P, b: P) -> f64 {
    brute::norm(brute::sub(a, b))
}

fn nearest(points: &[P], p: P) -> usize {
    (0..points.len()).min_by(|i, j| distance(points[*i], p).total_cmp(&distance(points[*j], p))).unwrap()
}

pub fn cells(case: &Case) -> Vec<brute::Cell> {
    let mut all = vec![];
    for image in images() {
        for p in &case.points {
            all.push(case.at([0, 1, 2].map(|k| p[k] + image[k] as f64)));
        }
    }
    (0..case.points.len()).map(|i| brute::cell(3, &all, i)).collect()
}

pub fn expected(case: &Case) -> Expected {
    let n = case.points.len();
    let cells = cells(case);
    let images = images();
    let specs: Vec<CellSpec> = cells
        .iter()
        .enumerate()
        .map(|(i, c)| CellSpec {
            pos: case.at(case.points[i]),
            size: if case.read { c.volume.cbrt() } else { (3.0 * c.volume / (4.0 * std::f64::consts::PI)).cbrt() },
            volume: c.volume,
            faces: c
                .faces
                .iter()
                .map(|f| FaceSpec {
                    area: f.area,
                    normal: f.normal,
                    to: match (images[f.to / n] == [0; 3], case.periodic) {
                        (true, _) => To::Cell(f.to % n),
                        (false, true) => To::Wrapped(f.to % n),
                        (false, false) => To::Boundary,
                    },
                })
                .collect(),
        })
        .collect();
    let particles: Vec<_> = (0..n).map(|i| particle(case, i)).collect();
    let mut fraction: Vec<f64> = particles
        .iter()
        .map(|p| if case.electron { (0.76 * p.electrons).clamp(1e-10, 1.0 - 1e-10) } else { SET_FRACTION })
        .collect();
    let mut temperature: Vec<f64> = particles
        .iter()
        .zip(&fraction)
        .map(|(p, x)| {
            let m = units::PROTON_MASS.in_kilograms();
            let k = 1.380649e-23;
            p.energy * (2.0 / 3.0) * m / k / (1.0 + x)
        })
        .collect();
    if let Some(r) = &case.remap {
        let old: Vec<P> = r.points.iter().map(|x| x.0).collect();
        for i in 0..n {
            let j = nearest(&old, case.points[i]);
            fraction[i] = fraction[i].max(r.points[j].1);
            temperature[i] = temperature[i].max(r.points[j].2);
        }
    }
    let lights: Vec<(P, f64)> = match &case.light {
        Light::Explicit(v) => v.clone(),
        Light::Stars(stars, escape) => {
            let (a, h) = case.cosmology.unwrap();
            stars
                .iter()
                .filter(|s| s.formed > 0.0)
                .map(|s| (s.pos, escape * bpass(years(s.formed, a, h), s.metallicity, s.mass)))
                .collect()
        }
    };
    let mut source = vec![0.0; n];
    for (p, rate) in &lights {
        source[nearest(&case.points, *p)] += rate;
    }
    let dirs = if case.directions == 1 { vec![[1.0, 0.0, 0.0]] } else { BINS_16.to_vec() };
    let mut s = Setup::new(specs, dirs);
    for i in 0..n {
        s.gas[i] = Gas { density: particles[i].density, fraction: fraction[i], temperature: temperature[i], source: source[i] };
    }
    let (rate, _) = reference(&s);
    Expected {
        volume: cells.iter().map(|c| c.volume).collect(),
        fraction,
        temperature,
        source,
        rate,
        luminosity: lights.iter().map(|x| x.1).sum(),
        setup: s,
    }
}

/// Unit of an Arepo dataset.
struct Unit {
    cgs: f64,
    length: i32,
    mass: i32,
    velocity: i32,
    a: i32,
    h: i32,
}

impl Unit {
    fn si(&self, case: &Case) -> f64 {
        let c = match case.cosmology {
            Some((a, h)) => a.powi(self.a) * h.powi(self.h),
            None => 1.0,
        };
        let cgs = if self.cgs == 0.0 { 1.0 } else { self.cgs };
        cgs * 0.01f64.powi(self.length + self.velocity) * 0.001f64.powi(self.mass) * c
    }
}

fn attrs(set: &hdf5::Dataset, floats: &[(&str, f64)], ints: &[(&str, i32)]) {
    for (n, v) in floats {
        set.new_attr::<f64>().shape(()).create(*n).unwrap().write_scalar(v).unwrap();
    }
    for (n, v) in ints {
        set.new_attr::<i32>().shape(()).create(*n).unwrap().write_scalar(v).unwrap();
    }
}

fn create<T: hdf5::H5Type>(f: &hdf5::File, name: &str, data: &[T], cols: usize) -> hdf5::Dataset {
    let set = if cols == 1 {
        f.new_dataset::<T>().shape([data.len()]).create(name).unwrap()
    } else {
        f.new_dataset::<T>().shape([data.len() / cols, cols]).create(name).unwrap()
    };
    set.write(data).unwrap();
    set
}

/// Values in SI units.
fn write(case: &Case, f: &hdf5::File, name: &str, data: &[f64], cols: usize, u: &Unit) {
    let si = u.si(case);
    let set = create(f, name, &data.iter().map(|x| x / si).collect::<Vec<f64>>(), cols);
    let (a, h) = if case.cosmology.is_some() { (u.a, u.h) } else { (0, 0) };
    attrs(
        &set,
        &[("to_cgs", u.cgs)],
        &[("length_scaling", u.length), ("mass_scaling", u.mass), ("velocity_scaling", u.velocity), ("a_scaling", a), ("h_scaling", h)],
    );
}

thread_local! {
    static CASE: std::cell::RefCell<Option<Case>> = Default::default();
    static DIR: std::cell::RefCell<PathBuf> = Default::default();
}
fn dir() -> PathBuf {
    DIR.with(|d| d.borrow().clone())
}
fn again() {
    CASE.with(|c| prepare(c.borrow().as_ref().unwrap()))
}
fn process() -> usize {
    MpiWorld::<usize>::new().rank() as usize
}
fn outside() -> usize {
    0
}

const DIMLESS: Unit = Unit { cgs: 0.0, length: 0, mass: 0, velocity: 0, a: 0, h: 0 };

fn length_unit(k: usize) -> Unit {
    Unit { cgs: [3.085678e21, 1e18, 3.085678e24][k % 3], length: 1, mass: 0, velocity: 0, a: 1, h: -1 }
}
fn mass_unit(k: usize) -> Unit {
    Unit { cgs: [1.989e43, 1.989e33][k % 2], length: 0, mass: 1, velocity: 0, a: 0, h: -1 }
}

fn write_grid(case: &Case, path: &Path) {
    let n = case.points.len();
    let images = images();
    let id = |i: usize| particle(case, i).id;
    // first, second, type, area, normal towards the first
    let mut all: Vec<(u64, u64, i32, f64, P)> = vec![];
    for (i, c) in cells(case).iter().enumerate() {
        for (k, f) in c.faces.iter().enumerate() {
            let j = f.to % n;
            let back = f.normal.map(|x| -x);
            if images[f.to / n] == [0; 3] {
                if i < j {
                    if (i + j) % 2 == 0 {
                        all.push((id(i), id(j), 0, f.area, back));
                    } else {
                        all.push((id(j), id(i), 0, f.area, f.normal));
                    }
                }
            } else if (i + k) % 2 == 0 {
                all.push((id(i), id(j), 4, f.area, back));
            } else {
                all.push((id(j), id(i), 1, f.area, f.normal));
            }
        }
        // these do not count
        for (k, t) in [-1, 2, 8, 10, 5].into_iter().enumerate() {
            if (i + k) % 3 == 0 {
                all.push((id(i), if k % 2 == 0 { 999_999_999 } else { id((i + 1) % n) }, t, 7.0 * c.faces[0].area, c.faces[0].normal));
            }
        }
    }
    // in some order
    let m = all.len();
    let order: Vec<usize> = (0..m).map(|i| (i * 7919) % m).collect();
    let all: Vec<_> = if m % 7919 != 0 { order.iter().map(|i| all[*i]).collect() } else { all };
    let f = hdf5::File::create(path).unwrap();
    create(&f, "Id1", &all.iter().map(|x| x.0).collect::<Vec<u64>>(), 1);
    create(&f, "Id2", &all.iter().map(|x| x.1).collect::<Vec<u64>>(), 1);
    create(&f, "ConnectionType", &all.iter().map(|x| x.2).collect::<Vec<i32>>(), 1);
    let area = Unit { cgs: 3.085678e21 * 3.085678e21, length: 2, mass: 0, velocity: 0, a: 2, h: -2 };
    write(case, &f, "Area", &all.iter().map(|x| x.3).collect::<Vec<f64>>(), 1, &area);
    write(case, &f, "Normal", &all.iter().flat_map(|x| x.4).collect::<Vec<f64>>(), 3, &DIMLESS);
}

/// Snapshots of an earlier run; what is not to be used is wrong.
fn write_remap(case: &Case, r: &Remap) {
    let (now, h) = case.cosmology.unwrap();
    let number = |s: &&str| s.parse::<usize>().unwrap();
    let first = *r.folders.iter().min_by_key(|s| number(s)).unwrap();
    let last = *r.folders.iter().max_by_key(|s| number(s)).unwrap();
    for folder in &r.folders {
        let d = dir().join("old").join(folder);
        std::fs::create_dir_all(&d).unwrap();
        for k in 0..r.files {
            let f = hdf5::File::create(d.join(format!("{k}.hdf5"))).unwrap();
            let num = |x: f64| units::Dimensionless::dimensionless(x);
            let attr = |name: &str, x: f64| {
                f.new_attr::<units::Dimensionless>().shape(()).create(name).unwrap().write_scalar(&num(x)).unwrap()
            };
            attr("scale_factor", if *folder == first { r.a } else { r.a * 0.9 });
            attr("little_h", h);
            let mine: Vec<_> = r
                .points
                .iter()
                .enumerate()
                .filter(|(i, _)| i * r.files / r.points.len() == k)
                .map(|(_, x)| x)
                .collect();
            let put = |set: hdf5::Dataset, dims: [i32; 4]| {
                let names = ["scaling_length", "scaling_time", "scaling_mass", "scaling_temperature"];
                let mut ints: Vec<_> = names.into_iter().zip(dims).collect();
                ints.extend([("scaling_h", 0), ("scaling_a", 0)]);
                attrs(&set, &[("scale_factor_si", 1.0)], &ints);
            };
            // positions were written when the universe was smaller
            if *folder == first {
                let p: Vec<Position> = mine
                    .iter()
                    .map(|x| case.at(x.0).map(|x| x * r.a / now))
                    .map(|p| Position(units::VecLength::meters(p[0], p[1], p[2])))
                    .collect();
                put(create(&f, "position", &p, 1), [1, 0, 0, 0]);
            }
            let w = if *folder == last { 1.0 } else { 1e3 };
            put(create(&f, "temperature", &mine.iter().map(|x| x.2 * w).collect::<Vec<f64>>(), 1), [0, 0, 0, 1]);
            let x = |x: f64| if *folder == last { x } else { 0.987 };
            put(create(&f, "ionized_hydrogen_fraction", &mine.iter().map(|y| x(y.1)).collect::<Vec<f64>>(), 1), [0; 4]);
        }
    }
}

fn prepare(case: &Case) {
    let d = dir();
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(d.join("ics")).unwrap();
    hdf5::model::reset();
    hdf5::model::set_process(outside);
    let n = case.points.len();
    let mut paths = vec![];
    for k in 0..case.files {
        let path = d.join("ics").join(format!("{k}.hdf5"));
        let f = hdf5::File::create(&path).unwrap();
        let p: Vec<Particle> = (0..n).filter(|i| i * case.files / n == k).map(|i| particle(case, i)).collect();
        let col = |g: &dyn Fn(&Particle) -> f64| p.iter().map(g).collect::<Vec<f64>>();
        write(case, &f, "PartType0/Coordinates", &p.iter().flat_map(|p| p.pos).collect::<Vec<f64>>(), 3, &length_unit(k));
        let u = Unit { cgs: [6.77e-22, 1e-24][k % 2], length: -3, mass: 1, velocity: 0, a: -3, h: 2 };
        write(case, &f, "PartType0/Density", &col(&|p| p.density), 1, &u);
        let u = Unit { cgs: [1e10, 1.0][k % 2], length: 0, mass: 0, velocity: 2, a: 0, h: 0 };
        write(case, &f, "PartType0/InternalEnergy", &col(&|p| p.energy), 1, &u);
        write(case, &f, "PartType0/ElectronAbundance", &col(&|p| p.electrons), 1, &DIMLESS);
        create(&f, "PartType0/ParticleIDs", &p.iter().map(|p| p.id).collect::<Vec<u64>>(), 1);
        if case.read {
            let c = cells(case);
            let m: Vec<f64> =
                (0..n).filter(|i| i * case.files / n == k).map(|i| particle(case, i).density * c[i].volume).collect();
            write(case, &f, "PartType0/Masses", &m, 1, &mass_unit(k));
        }
        if let Light::Stars(stars, _) = &case.light {
            let s: Vec<&Star> = stars.iter().enumerate().filter(|(i, _)| i % case.files == k).map(|x| x.1).collect();
            write(case, &f, "PartType4/Coordinates", &s.iter().flat_map(|s| case.at(s.pos)).collect::<Vec<f64>>(), 3, &length_unit(k + 1));
            write(case, &f, "PartType4/GFM_Metallicity", &s.iter().map(|s| s.metallicity).collect::<Vec<f64>>(), 1, &DIMLESS);
            write(case, &f, "PartType4/GFM_StellarFormationTime", &s.iter().map(|s| s.formed).collect::<Vec<f64>>(), 1, &DIMLESS);
            let solar = 1.98847e30;
            write(case, &f, "PartType4/Masses", &s.iter().map(|s| s.mass * solar).collect::<Vec<f64>>(), 1, &mass_unit(k + 1));
        }
        paths.push(path);
    }
    let light = match &case.light {
        Light::Explicit(v) => {
            let v: Vec<String> = v
                .iter()
                .map(|(p, rate)| {
                    let p = case.at(*p);
                    format!("{{pos: \"({:e} {:e} {:e}) m\", rate: {rate:e} s^-1}}", p[0], p[1], p[2])
                })
                .collect();
            format!("!explicit [{}]", v.join(", "))
        }
        Light::Stars(_, escape) => format!("!from_ics {{escape_fraction: {escape:?}}}"),
    };
    let grid = if case.read {
        let path = d.join("grid.hdf5");
        write_grid(case, &path);
        format!("!read {path:?}")
    } else {
        "!construct".into()
    };
    let remap = case
        .remap
        .as_ref()
        .map(|r| {
            write_remap(case, r);
            format!("\n  remap_from: {:?}", d.join("old"))
        })
        .unwrap_or_default();
    let initial = if case.electron { String::new() } else { format!("\n  initial_fraction_ionized_hydrogen: {SET_FRACTION:?}") };
    let cosmology = case
        .cosmology
        .map(|(a, h)| format!("\ncosmology: {{a: {a:?}, h: {h:?}, params: {{omega_0: {OMEGA_0:?}, omega_lambda: {OMEGA_LAMBDA:?}}}}}"))
        .unwrap_or_default();
    let evolution = case
        .evolution
        .as_ref()
        .map(|e| format!("\n  chemistry_timestep_safety_factor: {:?}\n  prevent_cooling: {}", e.safety, e.hold))
        .unwrap_or_default();
    let fields = case.fields.as_ref().map(|f| format!("\n  fields: {f:?}")).unwrap_or_default();
    let text = format!(
        "box_size: {:e} m
simulation:
  final_time: {:e} s
postprocess:
  sources: {light}
  grid: {grid}{initial}{remap}
sweep:
  directions: {}
  num_timestep_levels: {}
  periodic: {}
  max_timestep: {:e} s{evolution}
input:
  paths: {paths:?}{cosmology}
output:
  output_dir: {:?}
  time_between_snapshots: {}
  num_output_files: {}{fields}
",
        case.length,
        case.dt * (case.steps as f64 - 0.5),
        case.directions,
        case.levels,
        case.periodic,
        case.dt,
        d.join("out"),
        if case.evolution.is_some() { "0 s" } else { "1 s" },
        case.out_files
    );
    std::fs::write(d.join("params.yml"), text).unwrap();
    hdf5::model::set_process(process);
}

fn column(files: &[PathBuf], name: &str) -> Result<Vec<f64>, String> {
    let mut all = vec![];
    for f in files {
        macro_rules! get {
            ($t: ty) => {
                hdf5::model::dataset::<$t>(f, name).map(|x| (x.1.iter().map(|x| x.value_unchecked()).collect::<Vec<f64>>(), x.2))
            };
        }
        let x = match name {
            "density" => get!(Density),
            "mass" => get!(Mass),
            "source" => get!(Source),
            "photon_rate" => get!(PhotonRate),
            "temperature" => get!(Temperature),
            "photoionization_rate" => get!(PhotoionizationRate),
            "recombination_rate" => get!(RecombinationRate),
            "collisional_ionization_rate" => get!(CollisionalIonizationRate),
            "heating_rate" => get!(HeatingRate),
            "timestep" => get!(Timestep),
            "ionization_time" => get!(IonizationTime),
            _ => get!(IonizedHydrogenFraction),
        };
        let si: f64 = hdf5::model::attr(f, Some(name), "scale_factor_si").ok_or(format!("no unit of {name}"))?;
        let (x, written) = x.ok_or(format!("no {name} in {f:?}"))?;
        if written.iter().any(|w| !w) {
            return Err(format!("parts of {name} were never written"));
        }
        all.extend(x.iter().map(|x| x * si));
    }
    Ok(all)
}

fn series(name: &str) -> Result<Vec<serde_yaml::Value>, String> {
    let path = dir().join("out/time_series").join(format!("{name}.yml"));
    let text = std::fs::read_to_string(&path).map_err(|e| format!("no {path:?}: {e}"))?;
    let v: serde_yaml::Value = serde_yaml::from_str(&text).map_err(|e| format!("{path:?}: {e}"))?;
    Ok(v.as_sequence().ok_or(format!("{path:?} is no list"))?.clone())
}

fn number(v: &serde_yaml::Value) -> Option<f64> {
    match v {
        serde_yaml::Value::String(s) => s.split_whitespace().next()?.parse().ok(),
        v => v.as_f64(),
    }
}

/// The files of all snapshots, and which row is which particle.
fn snapshots(case: &Case) -> Result<(Vec<Vec<PathBuf>>, Vec<usize>), String> {
    let n = case.points.len();
    let d = dir().join("out/snapshots");
    let list = |d: &Path| -> Result<Vec<PathBuf>, String> {
        let mut v: Vec<PathBuf> =
            std::fs::read_dir(d).map_err(|e| format!("no snapshots: {e}"))?.map(|e| e.unwrap().path()).collect();
        v.sort();
        Ok(v)
    };
    let all = list(&d)?.iter().map(|d| list(d)).collect::<Result<Vec<_>, _>>()?;
    let first = all.first().ok_or("there is no snapshot")?;
    let mut pos: Vec<P> = vec![];
    for f in first {
        let (_, p, _) = hdf5::model::dataset::<Position>(f, "position").ok_or("no positions")?;
        let si: f64 = hdf5::model::attr(f, Some("position"), "scale_factor_si").ok_or("no unit")?;
        pos.extend(p.iter().map(|p| [p.x(), p.y(), p.z()].map(|x| x.value_unchecked() * si)));
    }
    if pos.len() != n {
        return Err(format!("{} particles instead of {n}", pos.len()));
    }
    let mut which = vec![usize::MAX; n];
    for (row, p) in pos.iter().enumerate() {
        let i = nearest(&(0..n).map(|i| case.at(case.points[i])).collect::<Vec<_>>(), *p);
        if distance(*p, case.at(case.points[i])) > 1e-9 * case.length {
            return Err(format!("row {row} is at {p:?}, the nearest particle {i} at {:?}", case.at(case.points[i])));
        }
        if which.contains(&i) {
            return Err(format!("particle {i} is there twice"));
        }
        which[row] = i;
    }
    Ok((all, which))
}

fn verdict(case: &Case, e: &Expected) -> Result<(), String> {
    hdf5::model::set_process(outside);
    if case.evolution.is_some() {
        return evolution::verdict(case, e);
    }
    let n = case.points.len();
    let (all, which) = snapshots(case)?;
    let [first, last] = &all[..] else { return Err(format!("there are {} snapshots, not 2", all.len())) };
    let scale = |v: &[f64]| v.iter().cloned().fold(0.0, f64::max);
    let check = |snapshot: &str, files: &[PathBuf], name: &str, want: &dyn Fn(usize) -> f64, tol: f64| -> Result<(), String> {
        let got = column(files, name)?;
        if got.len() != n {
            return Err(format!("{} values of {name} in the {snapshot} snapshot", got.len()));
        }
        let all: Vec<f64> = (0..n).map(want).collect();
        for row in 0..n {
            let w = all[which[row]];
            if !((got[row] - w).abs() <= tol * w.abs() + tol * 1e-3 * scale(&all)) {
                return Err(format!("{name} of particle {} is {:e} in the {snapshot} snapshot, it should be {w:e}", which[row], got[row]));
            }
        }
        Ok(())
    };
    check("first", first, "density", &|i| particle(case, i).density, 1e-9)?;
    check("first", first, "mass", &|i| particle(case, i).density * e.volume[i], 1e-6)?;
    check("first", first, "source", &|i| e.source[i], 1e-4)?;
    check("first", first, "ionized_hydrogen_fraction", &|i| e.fraction[i], 1e-9)?;
    check("first", first, "temperature", &|i| e.temperature[i], 1e-4)?;
    check("first", first, "photon_rate", &|_| 0.0, 1e-9)?;
    check("last", last, "ionized_hydrogen_fraction", &|i| e.fraction[i], 1e-6)?;
    check("last", last, "temperature", &|i| e.temperature[i], 1e-4)?;
    check("last", last, "photon_rate", &|i| e.rate[i], 1e-4)?;
    // Averages over all ranks
    let l = series("total_luminosity")?;
    match l.iter().map(|x| number(&x["val"])).collect::<Vec<_>>()[..] {
        [Some(x)] if close(x, e.luminosity, 1e-4) || x == e.luminosity => {}
        ref x => return Err(format!("the total luminosity is given as {x:?}, it is {:e}", e.luminosity)),
    }
    let mass: Vec<f64> = (0..n).map(|i| particle(case, i).density * e.volume[i]).collect();
    for (name, of, weight) in [
        ("hydrogen_ionization_mass_average", &e.fraction, &mass),
        ("hydrogen_ionization_volume_average", &e.fraction, &e.volume),
        ("temperature_mass_average", &e.temperature, &mass),
        ("temperature_volume_average", &e.temperature, &e.volume),
    ] {
        let want = of.iter().zip(weight).map(|(a, b)| a * b).sum::<f64>() / weight.iter().sum::<f64>();
        let got = series(name)?;
        if got.len() < 2 {
            return Err(format!("{name} has {} entries", got.len()));
        }
        for x in &got {
            if !number(&x["val"]).map(|x| close(x, want, 1e-4)).unwrap_or(false) {
                return Err(format!("{name} is given as {x:?}, it is {want}"));
            }
        }
    }
    for x in &series("num_particles_at_timestep_levels")? {
        let sum: f64 = x["val"].as_sequence().map(|v| v.iter().filter_map(|x| number(&x["num"])).sum()).unwrap_or(-1.0);
        if sum != n as f64 {
            return Err(format!("there are {sum} particles on all levels, not {n}"));
        }
    }
    Ok(())
}

/// Runs one case in this process, whose command line is that of the application.
fn worker(case: &Case) -> ! {
    DIR.with(|d| *d.borrow_mut() = std::env::var_os("MC_DIR").unwrap().into());
    let e = expected(case);
    CASE.with(|c| *c.borrow_mut() = Some(case.clone()));
    prepare(case);
    let r = mmpi::explore(case.ranks, &case.bounds(), &|_| crate::subsweep_main(), &mut |_: &[()]| {
        verdict(case, &e)
    });
    let out = match r {
        Ok(s) => json!({"states": s.states + s.complete, "transitions": s.transitions, "complete": s.complete, "truncated": s.truncated}),
        Err(o) => json!({"what": o.what, "schedule": o.choices}),
    };
    println!("RESULT {out}");
    std::process::exit(0)
}

/// All cases, each in a process.
pub fn run(id: &str, before: &dyn Fn(&Check), cases: &dyn Fn(bool) -> Vec<Case>) -> ! {
    if let Ok(i) = std::env::var("MC_CASE") {
        let all = cases(std::env::var("MC_THOROUGH").is_ok());
        worker(&all[i.parse::<usize>().unwrap()])
    }
    let c = Check::new(id);
    c.assume("MPI, bevy, diman, hdf5 and simplelog are the models of harness/mmpi and harness/shims; every rank has at least one particle (and one old particle when remapping); MPI is not finalized");
    before(c);
    let all = cases(c.thorough);
    let exe = std::env::current_exe().unwrap();
    let top = std::env::temp_dir().join(format!("subsweep-{id}-{}", std::process::id()));
    let given_up = std::sync::Mutex::new(vec![]);
    par(all.len(), |i| {
        if c.stopped() {
            return;
        }
        let case = &all[i];
        let d = top.join(format!("{i}"));
        let mut cmd = std::process::Command::new(&exe);
        cmd.arg(d.join("params.yml")).env("MC_CASE", i.to_string()).env("MC_DIR", &d).env_remove("MC_THOROUGH");
        if c.thorough {
            cmd.env("MC_THOROUGH", "1");
        }
        let out = cmd.output().unwrap();
        let _ = std::fs::remove_dir_all(&d);
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let result: Option<Value> =
            text.lines().find_map(|l| l.strip_prefix("RESULT ")).and_then(|l| l.parse().ok());
        let what = json!({"case": format!("{case:?}"), "number": i});
        match result {
            None => {
                let err = String::from_utf8_lossy(&out.stderr).into_owned();
                let end: String = err.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
                c.violation("application", &format!("the application ended with {}: {end}", out.status), what)
            }
            Some(r) => match r["what"].as_str() {
                Some(w) => {
                    let mut what = what;
                    what["schedule"] = r["schedule"].clone();
                    let gave_up = w.contains("panicked: Degenerate case");
                    if gave_up {
                        given_up.lock().unwrap().push(format!("{} on {} ranks", case.name, case.ranks));
                    }
                    let key = if gave_up { "degenerate-images" } else { "application" };
                    c.violation(key, &format!("{}: {w}", case.name), what)
                }
                None => {
                    let n = |k: &str| r[k].as_u64().unwrap();
                    c.count(n("states"), n("transitions"), n("complete"));
                    if r["truncated"].as_bool().unwrap() {
                        c.not_exhaustive();
                    }
                }
            },
        }
    });
    let _ = std::fs::remove_dir_all(&top);
    c.info("cases", json!(all.len()));
    let given_up = given_up.into_inner().unwrap();
    c.info("gave up", json!(given_up));
    if 2 * given_up.len() > all.len() {
        c.violation("gives-up", &format!("no grid can be constructed in {} of {} cases", given_up.len(), all.len()), json!(given_up));
    }
    c.sample(json!({"case": format!("{:?}", all[all.len() / 2])}));
    c.finish()
}
