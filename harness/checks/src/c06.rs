//! C06: the space-filling curve visits every cell once, and neighbours in order are neighbours in
//! space, at every depth.
use glam::{DVec2, DVec3};
use mc::*;
use subsweep::verif::{PeanoKey2d, PeanoKey3d, NUM_BITS_PER_DIMENSION_2D as B2, NUM_BITS_PER_DIMENSION_3D as B3};

const PAD: f64 = 0.001;

#[derive(Clone, Copy, Debug)]
struct Bx {
    min: [f64; 3],
    len: [f64; 3],
}

/// The coordinate of a fraction of the padded box.
fn at(b: &Bx, d: usize, f: f64) -> f64 {
    b.min[d] + b.len[d] * (f * (1.0 + 2.0 * PAD) - PAD)
}

fn key(dim: usize, b: &Bx, f: &[f64]) -> u128 {
    let (mn, ln) = (b.min, b.len);
    if dim == 2 {
        let min = DVec2::new(mn[0], mn[1]);
        let max = min + DVec2::new(ln[0], ln[1]);
        PeanoKey2d::from_point_and_min_max(DVec2::new(at(b, 0, f[0]), at(b, 1, f[1])), min, max).0 as u128
    } else {
        let min = DVec3::from(mn);
        let max = min + DVec3::from(ln);
        let p = DVec3::new(at(b, 0, f[0]), at(b, 1, f[1]), at(b, 2, f[2]));
        PeanoKey3d::from_point_and_min_max(p, min, max).0
    }
}

fn bits(dim: usize) -> u32 {
    if dim == 2 {
        B2
    } else {
        B3
    }
}

/// All cells of the block of 2^m cells per side at level `level` whose corner is `base` (in cells).
/// Their keys must be one contiguous range, in which neighbours share a face.
fn block(c: &Check, dim: usize, b: &Bx, level: u32, base: [u64; 3], m: u32, inner: bool) -> bool {
    let side = 1u64 << m;
    let n = side.pow(dim as u32);
    let cells = (1u64 << level) as f64;
    let shift = dim as u32 * (bits(dim) - level);
    let case = |x: &[u64]| json!({"dimensions": dim, "level": level, "block": base, "bits": m, "cell": x, "box": format!("{b:?}")});
    let mut order: Vec<u32> = vec![u32::MAX; n as usize];
    let mut first = None;
    for i in 0..n {
        let x: Vec<u64> = (0..dim).map(|d| base[d] + ((i >> (m * d as u32)) & (side - 1))).collect();
        let f: Vec<f64> = x.iter().map(|v| (*v as f64 + 0.5) / cells).collect();
        let Some(full) = c.guard("curve", || case(&x), || key(dim, b, &f)) else { return false };
        let k = full >> shift;
        if dim as u32 * bits(dim) < 128 && full >> (dim as u32 * bits(dim)) != 0 {
            c.violation("curve", &format!("the key {full} of {x:?} has too many bits"), case(&x));
            return false;
        }
        let start = *first.get_or_insert(k & !(n as u128 - 1));
        let o = k.wrapping_sub(start);
        if o >= n as u128 {
            c.violation("curve", &format!("{x:?} at level {level} has key {k}, outside of its block's range {start}+{n}"), case(&x));
            return false;
        }
        if order[o as usize] != u32::MAX {
            c.violation("curve", &format!("two cells of level {level} have the key {k}, one is {x:?}"), case(&x));
            return false;
        }
        order[o as usize] = i as u32;
        if inner {
            // Other points of the cell agree on the leading bits.
            for corner in 0..1u32 << dim {
                let g: Vec<f64> = (0..dim)
                    .map(|d| (x[d] as f64 + if corner >> d & 1 == 0 { 0.05 } else { 0.95 }) / cells)
                    .collect();
                let Some(k2) = c.guard("curve", || case(&x), || key(dim, b, &g) >> shift) else { return false };
                if k2 != k {
                    c.violation("curve", &format!("two points of the cell {x:?} of level {level} have the keys {k} and {k2}"), case(&x));
                    return false;
                }
            }
        }
    }
    for w in order.windows(2) {
        let dist: u64 = (0..dim)
            .map(|d| {
                let g = |i: u32| (i as u64 >> (m * d as u32)) & (side - 1);
                g(w[0]).abs_diff(g(w[1]))
            })
            .sum();
        if dist != 1 {
            c.violation("curve", &format!("cells {} and {} of block {base:?} at level {level} follow each other but do not touch", w[0], w[1]), case(&[]));
            return false;
        }
    }
    c.count(n, n * if inner { 1 + (1 << dim) } else { 1 }, n);
    true
}

fn main() {
    let c = Check::new("C06");
    let unit = Bx { min: [0.0; 3], len: [1.0; 3] };
    let boxes = [
        unit,
        Bx { min: [-3.0, 10.0, 0.25], len: [7.0, 0.5, 100.0] },
        Bx { min: [1e5, -1e5, 3e4], len: [1e6, 1e6, 1e5] },
        // a box of some megaparsecs, in metres
        Bx { min: [0.0; 3], len: [3.0856775814913673e23; 3] },
        Bx { min: [-1e22, 2e22, 0.0], len: [3e23, 1e22, 7e22] },
        Bx { min: [1e-30, 0.0, -2e-28], len: [1e-28, 3e-30, 4e-28] },
        Bx { min: [1e8, 0.0, -1e9], len: [1.0, 1e-3, 1e12] },
    ];
    let mut jobs: Vec<Box<dyn Fn() + Sync>> = vec![];
    // Whole grids, level by level.
    for (dim, top) in [(2, c.pick(12, 13)), (3, c.pick(8, 9))] {
        for level in (0..=top).rev() {
            jobs.push(Box::new(move || {
                block(c, dim, &unit, level, [0; 3], level, level + 1 < top);
            }));
        }
        for b in &boxes[1..] {
            let b = *b;
            jobs.push(Box::new(move || {
                block(c, dim, &b, c.pick(5, 6), [0; 3], c.pick(5, 6), true);
            }));
        }
    }
    // Blocks at all depths below paths of one or two octants, repeated.
    for dim in [2usize, 3] {
        let oct = 1u64 << dim;
        let m = if dim == 2 { 4 } else { 3 };
        for path in 0..oct * oct * c.pick(1, oct) {
            jobs.push(Box::new(move || {
                let steps = [path % oct, path / oct % oct, path / oct / oct];
                let period = if c.thorough { 3 } else { 2 };
                let mut base = [0u64; 3];
                for level in 0..=bits(dim) - m {
                    if c.stopped() {
                        return;
                    }
                    let corner = [base[0] << m, base[1] << m, base[2] << m];
                    if !block(c, dim, &unit, level + m, corner, m, level + m + 6 < bits(dim)) {
                        return;
                    }
                    let s = steps[level as usize % period];
                    for d in 0..dim {
                        base[d] = base[d] * 2 + (s >> d & 1);
                    }
                }
            }));
        }
    }
    // Points that are only 2^-30 (2D) or 2^-40 (3D) of the box apart are told apart.
    jobs.push(Box::new(move || {
        for dim in [2usize, 3] {
            let fine = 2f64.powi(if dim == 2 { 30 } else { 40 });
            for i in 0..5u64.pow(dim as u32) {
                let start: Vec<f64> = digits(i, 5, dim).iter().map(|k| [0.01, 0.3, 0.5, 0.77, 0.99][*k as usize]).collect();
                for d in 0..dim {
                    let mut last = None;
                    for k in 0..64 {
                        let mut f = start.clone();
                        f[d] = ((f[d] * fine).floor() + k as f64 + 0.5) / fine;
                        let case = || json!({"dimensions": dim, "fractions": f});
                        let Some(x) = c.guard("resolution", case, || key(dim, &unit, &f)) else { return };
                        if last == Some(x) {
                            c.violation("resolution", &format!("points {} of the box apart have the same key {x}", 1.0 / fine), case());
                            return;
                        }
                        last = Some(x);
                    }
                    c.count(64, 64, 64);
                }
            }
        }
    }));
    // Points on the border of the box and boxes without extent in some dimensions.
    jobs.push(Box::new(move || {
        for flat in 0..8u32 {
            for which in 0..27u64 {
                let len: Vec<f64> = (0..3).map(|d| if flat >> d & 1 == 1 { 0.0 } else { 2.0 }).collect();
                let b = Bx { min: [1.0, -1.0, 4.0], len: [len[0], len[1], len[2]] };
                let p: Vec<f64> = digits(which, 3, 3).iter().enumerate().map(|(d, f)| b.min[d] + len[d] * *f as f64 / 2.0).collect();
                for dim in [2usize, 3] {
                    let case = || json!({"dimensions": dim, "box": format!("{b:?}"), "point": p});
                    let mn = DVec3::from(b.min);
                    let mx = mn + DVec3::from(b.len);
                    let q = DVec3::new(p[0], p[1], p[2]);
                    c.guard("border", case, || {
                        if dim == 2 {
                            PeanoKey2d::from_point_and_min_max(q.truncate(), mn.truncate(), mx.truncate()).0 as u128
                        } else {
                            PeanoKey3d::from_point_and_min_max(q, mn, mx).0
                        }
                    });
                    c.count(1, 1, 1);
                }
            }
        }
    }));
    par(jobs.len(), |j| {
        if !c.stopped() {
            jobs[j]()
        }
    });
    c.sample(json!({"dimensions": 3, "level": 5, "cells": "all 32768"}));
    c.sample(json!({"dimensions": 2, "blocks": "16x16 cells at all 29 depths below 16 paths"}));
    c.info("bounds", json!("all cells of levels 0..12 (2D) and 0..8 (3D), thorough 13 and 9; blocks of 16^2 and 8^3 cells at every depth down to the last bit below all periodic octant paths; seven boxes"));
    c.finish()
}
