//! Voronoi cells by brute force: every face is a large square (or line) in the bisecting plane,
//! clipped by all other bisecting planes.
#![allow(dead_code)]

pub type P = [f64; 3];

pub fn sub(a: P, b: P) -> P {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn add(a: P, b: P) -> P {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn mul(a: P, f: f64) -> P {
    [a[0] * f, a[1] * f, a[2] * f]
}
pub fn dot(a: P, b: P) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: P, b: P) -> P {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn norm(a: P) -> f64 {
    dot(a, a).sqrt()
}

#[derive(Clone, Debug)]
pub struct Face {
    /// Index of the neighbour in the list of points.
    pub to: usize,
    pub area: f64,
    pub normal: P,
}

#[derive(Clone, Debug)]
pub struct Cell {
    pub faces: Vec<Face>,
    pub volume: f64,
}

fn clip(poly: &[P], n: P, c: f64) -> Vec<P> {
    let mut res = vec![];
    for i in 0..poly.len() {
        let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
        let (da, db) = (dot(n, a) - c, dot(n, b) - c);
        if da <= 0.0 {
            res.push(a);
        }
        if (da < 0.0 && db > 0.0) || (da > 0.0 && db < 0.0) {
            res.push(add(a, mul(sub(b, a), da / (da - db))));
        }
    }
    res
}

/// The cell of point `i`, which has to be bounded. Coordinates are taken relative to the point.
pub fn cell(dim: usize, points: &[P], i: usize) -> Cell {
    let rel: Vec<P> = points.iter().map(|p| sub(*p, points[i])).collect();
    let huge = 30.0 * rel.iter().map(|p| norm(*p)).fold(0.0, f64::max);
    let mut order: Vec<usize> = (0..rel.len()).filter(|j| *j != i).collect();
    order.sort_by(|a, b| dot(rel[*a], rel[*a]).partial_cmp(&dot(rel[*b], rel[*b])).unwrap());
    let mut faces = vec![];
    let mut volume = 0.0;
    for &j in &order {
        let n = mul(rel[j], 1.0 / norm(rel[j]));
        let m = mul(rel[j], 0.5);
        let (area, _) = if dim == 2 {
            let t = [-n[1], n[0], 0.0];
            let (mut lo, mut hi) = (-huge, huge);
            for &k in &order {
                if k == j {
                    continue;
                }
                // dot(rel_k, m + s t) <= |rel_k|^2 / 2
                let a = dot(rel[k], t);
                let b = 0.5 * dot(rel[k], rel[k]) - dot(rel[k], m);
                if a > 0.0 {
                    hi = hi.min(b / a);
                } else if a < 0.0 {
                    lo = lo.max(b / a);
                } else if b < 0.0 {
                    hi = lo;
                }
            }
            ((hi - lo).max(0.0), ())
        } else {
            let u = if n[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
            let e1 = cross(n, u);
            let e1 = mul(e1, 1.0 / norm(e1));
            let e2 = cross(n, e1);
            let mut poly: Vec<P> = [(1.0, 1.0), (-1.0, 1.0), (-1.0, -1.0), (1.0, -1.0)]
                .iter()
                .map(|(a, b)| add(m, add(mul(e1, a * huge), mul(e2, b * huge))))
                .collect();
            for &k in &order {
                if k == j {
                    continue;
                }
                poly = clip(&poly, rel[k], 0.5 * dot(rel[k], rel[k]));
                if poly.len() < 3 {
                    break;
                }
            }
            let mut a = [0.0; 3];
            for k in 1..poly.len().saturating_sub(1) {
                a = add(a, cross(sub(poly[k], poly[0]), sub(poly[k + 1], poly[0])));
            }
            (0.5 * norm(a), ())
        };
        if area > 0.0 {
            volume += area * norm(m) / dim as f64;
            faces.push(Face { to: j, area, normal: n });
        }
    }
    Cell { faces, volume }
}
