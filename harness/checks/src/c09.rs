//! C09: the extent of a set of points is its bounding box.
use glam::{DVec2, DVec3};
use mc::*;
use subsweep::verif::{get_extent_from_min_and_max_reduce, Extent};

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-14 * a.abs().max(b.abs())
}

fn verify(c: &Check, points: &[Vec<f64>], got: Option<[Vec<f64>; 3]>, images: Option<[Vec<f64>; 3]>, sides: Option<(Vec<f64>, f64)>) {
    let case = || json!({"points": points});
    let key = "extent";
    let Some(got) = got else {
        if !points.is_empty() {
            c.violation(key, &format!("{points:?} has no extent"), case());
        }
        return;
    };
    if points.is_empty() {
        c.violation(key, "no points have an extent", case());
        return;
    }
    let dim = points[0].len();
    let [imin, imax, icenter] = images.unwrap();
    let (side, longest) = sides.unwrap();
    let mut most = 0f64;
    for d in 0..dim {
        let min = points.iter().map(|p| p[d]).fold(f64::INFINITY, f64::min);
        let max = points.iter().map(|p| p[d]).fold(f64::NEG_INFINITY, f64::max);
        most = most.max(max - min);
        if got[0][d] != min || got[1][d] != max || !near(got[2][d], (min + max) / 2.0) {
            c.violation(key, &format!("{points:?} has the extent {got:?}"), case());
        }
        let l = max - min;
        if !near(imin[d], min - l) || !near(imax[d], max + l) || !near(icenter[d], (min + max) / 2.0) {
            c.violation(key, &format!("{points:?}: extent with periodic images {imin:?} {imax:?} {icenter:?}"), case());
        }
        if !near(side[d], l) {
            c.violation(key, &format!("{points:?}: side lengths {side:?}"), case());
        }
    }
    if !near(longest, most) {
        c.violation(key, &format!("{points:?}: longest side {longest}"), case());
    }
}

macro_rules! check {
    ($c: expr, $points: expr, $t: ty, $make: expr, $split: expr) => {{
        let ps: Vec<$t> = $points.iter().map($make).collect();
        let flat = |e: &Extent<$t>| [$split(e.min), $split(e.max), $split(e.center())];
        let case = || json!({"points": $points});
        for e in [
            $c.guard("extent", case, || Extent::from_points(ps.iter().copied())),
            $c.guard("extent", case, || get_extent_from_min_and_max_reduce(ps.iter().copied(), <$t>::min, <$t>::max)),
        ]
        .into_iter()
        .flatten()
        {
            verify(
                $c,
                &$points,
                e.as_ref().map(flat),
                e.as_ref().map(|e| flat(&e.including_periodic_images())),
                e.as_ref().map(|e| ($split(e.side_lengths()), e.max_side_length())),
            );
            $c.count(1, 1, 1);
        }
    }};
}

/// Long lists with the extremes anywhere, and values of any size.
fn long(c: &Check) {
    let sizes = [1.0, 1e-300, 1e150, -1.0, -1e-300, -1e150];
    for dim in 1..=3usize {
        for len in [5usize, 17, 64, 200] {
            par(len, |low| {
                for high in 0..len {
                    for (k, size) in sizes.iter().enumerate() {
                        if c.stopped() {
                            return;
                        }
                        // all on one side of 0, the extremes at other places in every direction
                        let points: Vec<Vec<f64>> = (0..len)
                            .map(|i| {
                                (0..dim)
                                    .map(|d| {
                                        let j = (i + d * (1 + len / 3)) % len;
                                        let x = if j == low { 2.0 } else if j == high { 8.0 } else { 3.0 + ((j * 7 + k) % 16) as f64 / 4.0 };
                                        x * size
                                    })
                                    .collect()
                            })
                            .collect();
                        match dim {
                            1 => check!(c, points, f64, |p: &Vec<f64>| p[0], |x: f64| vec![x]),
                            2 => check!(c, points, DVec2, |p: &Vec<f64>| DVec2::new(p[0], p[1]), |x: DVec2| x.to_array().to_vec()),
                            _ => check!(c, points, DVec3, |p: &Vec<f64>| DVec3::new(p[0], p[1], p[2]), |x: DVec3| x.to_array().to_vec()),
                        }
                    }
                }
            });
        }
    }
}

fn main() {
    let c = Check::new("C09");
    long(c);
    let vals = [-1.0, 0.0, 2.0, 2.5];
    for dim in 1..=3usize {
        let k = (if dim == 3 { 3u64 } else { 4 }).pow(dim as u32);
        let top = [0, 6, c.pick(4, 5), c.pick(4, 4)][dim];
        for len in 0..=top {
            let total = k.pow(len as u32);
            let jobs = 64.min(total);
            par(jobs as usize, |j| {
                for i in (j as u64..total).step_by(jobs as usize) {
                    if c.stopped() {
                        return;
                    }
                    let b = if dim == 3 { 3 } else { 4 };
                    let points: Vec<Vec<f64>> = digits(i, k, len)
                        .iter()
                        .map(|p| digits(*p, b, dim).iter().map(|d| vals[*d as usize]).collect())
                        .collect();
                    match dim {
                        1 => check!(c, points, f64, |p: &Vec<f64>| p[0], |x: f64| vec![x]),
                        2 => check!(c, points, DVec2, |p: &Vec<f64>| DVec2::new(p[0], p[1]), |x: DVec2| x.to_array().to_vec()),
                        _ => check!(c, points, DVec3, |p: &Vec<f64>| DVec3::new(p[0], p[1], p[2]), |x: DVec3| x.to_array().to_vec()),
                    }
                    if i % 50021 == 3 {
                        c.sample(json!({"points": points}));
                    }
                }
            });
        }
    }
    c.info("bounds", json!("all lists of up to 6 points over 4 coordinates (1D), 4 points (5 thorough) over 4x4 (2D), 4 points over 3x3x3 (3D); lists of up to 200 points with the extremes at all pairs of places, from 1e-300 to 1e150"));
    c.finish()
}
