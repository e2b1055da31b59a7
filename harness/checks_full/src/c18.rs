//! C18: after every sequence of insertions the triangulation is a Delaunay triangulation, and the
//! grid derived from it is the Voronoi grid of the points.
mod brute;
use brute::*;
use mc::*;
use std::collections::HashMap;
use subsweep::dimension::{Point, ThreeD, TwoD};
use subsweep::prelude::ParticleId;
use subsweep::sweep::grid::ParticleType;
use subsweep::voronoi::delaunay::Delaunay;
use subsweep::voronoi::verif::*;
use subsweep::voronoi::{Cell as VCell, Constructor, DCell, DDimension, Point2d, Point3d, Triangulation};

trait Dim: DDimension + Sized {
    const N: usize;
    fn pt(p: P) -> Point<Self>;
    fn arr(p: Point<Self>) -> P;
}
impl Dim for TwoD {
    const N: usize = 2;
    fn pt(p: P) -> Point2d {
        Point2d::new(p[0], p[1])
    }
    fn arr(p: Point2d) -> P {
        [p.x, p.y, 0.0]
    }
}
impl Dim for ThreeD {
    const N: usize = 3;
    fn pt(p: P) -> Point3d {
        Point3d::new(p[0], p[1], p[2])
    }
    fn arr(p: Point3d) -> P {
        [p.x, p.y, p.z]
    }
}

/// Volume (area) of a tetra, with sign.
fn vol(n: usize, c: &[P]) -> f64 {
    let (a, b) = (sub(c[1], c[0]), sub(c[2], c[0]));
    if n == 2 {
        (a[0] * b[1] - a[1] * b[0]) / 2.0
    } else {
        dot(cross(a, b), sub(c[3], c[0])) / 6.0
    }
}

/// How far the point is outside of the circumsphere (squared distance to the centre minus squared
/// radius) and the error of this number.
fn power(n: usize, c: &[P], p: P) -> (f64, f64) {
    let rows: Vec<P> = c[1..].iter().map(|q| sub(*q, c[0])).collect();
    let e = sub(p, c[0]);
    // Centre relative to the first corner: rows . x = |rows|^2 / 2.
    let h: Vec<f64> = rows.iter().map(|r| dot(*r, *r) / 2.0).collect();
    let (det, x, size) = if n == 2 {
        let (a, b) = (rows[0], rows[1]);
        let det = a[0] * b[1] - a[1] * b[0];
        (det, [(h[0] * b[1] - a[1] * h[1]) / det, (a[0] * h[1] - h[0] * b[0]) / det, 0.0], norm(a) * norm(b))
    } else {
        let (a, b, d) = (rows[0], rows[1], rows[2]);
        let det = dot(a, cross(b, d));
        let x = mul(add(mul(cross(b, d), h[0]), add(mul(cross(d, a), h[1]), mul(cross(a, b), h[2]))), 1.0 / det);
        (det, x, norm(a) * norm(b) * norm(d))
    };
    let power = dot(e, e) - 2.0 * dot(e, x);
    let longest = rows.iter().map(|r| norm(*r)).fold(norm(e), f64::max);
    (power, 1e-13 * (1.0 + size / det.abs()) * (dot(e, e) + norm(e) * norm(x) + longest * longest))
}

fn check_triangulation(n: usize, points: &[P], t: &Plain, total: f64) -> Result<(), String> {
    if t.dangling {
        return Err("a tetra is connected to a removed one".into());
    }
    let mut by_face: HashMap<&str, Vec<(usize, usize)>> = HashMap::new();
    let mut sum = 0.0;
    for (i, (corners, faces)) in t.tetras.iter().enumerate() {
        let c: Vec<P> = corners.iter().map(|p| points[*p]).collect();
        sum += vol(n, &c).abs();
        for k in 0..=n {
            let (key, fp, opp) = &faces[k];
            let mut a = fp.clone();
            let mut b: Vec<usize> = (0..=n).filter(|j| *j != k).map(|j| corners[j]).collect();
            a.sort();
            b.sort();
            if a != b {
                return Err(format!("face {a:?} is registered opposite to point {} of tetra {corners:?}", corners[k]));
            }
            by_face.entry(key).or_default().push((i, k));
            match opp {
                None if fp.iter().all(|p| t.outer[*p]) => {}
                None => return Err(format!("face {fp:?} of tetra {corners:?} has nothing on the other side")),
                Some((j, p)) => {
                    let (oc, of) = &t.tetras[*j];
                    let Some(l) = (0..=n).find(|l| of[*l].0 == *key) else {
                        return Err(format!("tetra {corners:?} is connected to {oc:?} which does not have the face {fp:?}"));
                    };
                    if oc[l] != *p || of[l].2 != Some((i, corners[k])) {
                        return Err(format!("connection between {corners:?} and {oc:?} is not mutual"));
                    }
                    // Both on different sides.
                    let mut d = c.clone();
                    d[k] = points[*p];
                    if vol(n, &c) * vol(n, &d) > 0.0 && (vol(n, &d) / total).abs() > 1e-12 && (vol(n, &c) / total).abs() > 1e-12 {
                        return Err(format!("tetras {corners:?} and {oc:?} overlap"));
                    }
                }
            }
        }
        for (j, p) in points.iter().enumerate() {
            if !corners.contains(&j) {
                let (pw, err) = power(n, &c, *p);
                if pw < -err {
                    return Err(format!("point {j} is in the circumsphere of {corners:?} ({pw:e}, error {err:e})"));
                }
            }
        }
    }
    if !close(sum, total, 1e-9) {
        return Err(format!("tetras cover {sum} of {total}"));
    }
    if t.num_faces != by_face.len() {
        return Err(format!("{} faces are stored, {} used", t.num_faces, by_face.len()));
    }
    if by_face.values().any(|u| u.len() > 2) {
        return Err("a face belongs to more than two tetras".into());
    }
    for p in 0..points.len() {
        if !t.tetras.iter().any(|(c, _)| c.contains(&p)) {
            return Err(format!("point {p} is in no tetra"));
        }
    }
    Ok(())
}

#[derive(Debug)]
struct Flat {
    faces: Vec<(Option<usize>, f64, P)>,
    volume: f64,
    size: f64,
}

/// Compares a cell of the code with the one found by brute force. `name(j)` is the neighbour that
/// the code should report for point j (None: boundary).
fn check_cell(n: usize, cell: &Flat, exact: &Cell, name: &dyn Fn(usize) -> Option<usize>, tol: f64) -> Result<(), String> {
    let scale = exact.volume.powf((n as f64 - 1.0) / n as f64).max(exact.faces.iter().map(|f| f.area).fold(0.0, f64::max));
    let mut used = vec![false; cell.faces.len()];
    for f in &exact.faces {
        let m = (0..cell.faces.len()).find(|k| {
            let (c, _, normal) = &cell.faces[*k];
            !used[*k] && *c == name(f.to) && norm(sub(*normal, f.normal)) < 1e-9
        });
        match m {
            None if f.area > tol * scale => return Err(format!("the face towards point {} of area {} is missing", f.to, f.area)),
            None => {}
            Some(k) => {
                used[k] = true;
                if (cell.faces[k].1 - f.area).abs() > tol * scale {
                    return Err(format!("the face towards point {} has area {} instead of {}", f.to, cell.faces[k].1, f.area));
                }
            }
        }
    }
    for k in 0..cell.faces.len() {
        if !used[k] && cell.faces[k].1 > tol * scale {
            return Err(format!("there is an additional face {:?}", cell.faces[k]));
        }
    }
    if !close(cell.volume, exact.volume, 10.0 * tol) {
        return Err(format!("volume {} instead of {}", cell.volume, exact.volume));
    }
    let ball = |r: f64| if n == 2 { std::f64::consts::PI * r * r } else { 4.0 / 3.0 * std::f64::consts::PI * r.powi(3) };
    if !close(ball(cell.size), cell.volume, 1e-9) {
        return Err(format!("size {} for volume {}", cell.size, cell.volume));
    }
    Ok(())
}

struct Setup {
    name: String,
    sites: Vec<P>,
    min: P,
    max: P,
    tol: f64,
}

fn check_state<D: Dim>(s: &Setup, t: &Triangulation<D>, total: f64, all: bool) -> Result<(), String>
where
    Triangulation<D>: Delaunay<D> + Clone,
    VCell<D>: DCell<Dimension = D>,
{
    let pts: Vec<P> = points(t).into_iter().map(D::arr).collect();
    let p = plain(t);
    check_triangulation(D::N, &pts, &p, total)?;
    if !all {
        return Ok(());
    }
    let grid = voronoi(t);
    let inner = p.outer.iter().filter(|o| !**o).count();
    if grid.cells.len() != inner {
        return Err(format!("{} cells for {inner} points", grid.cells.len()));
    }
    let mut seen = vec![false; pts.len()];
    for cell in &grid.cells {
        let i = point_index(cell.delaunay_point);
        if p.outer[i] || seen[i] {
            return Err(format!("wrong or repeated cell for point {i}"));
        }
        seen[i] = true;
        let exact = brute::cell(D::N, &pts, i);
        let flat = Flat {
            faces: cell
                .faces
                .iter()
                .map(|f| {
                    let c = match f.connection {
                        ParticleType::Local(id) => Some(id.index as usize),
                        _ => None,
                    };
                    (c, f.area, D::arr(f.normal))
                })
                .collect(),
            volume: cell.volume(),
            size: cell.size(),
        };
        let outer = |j: usize| if p.outer[j] { None } else { Some(j) };
        check_cell(D::N, &flat, &exact, &outer, s.tol).map_err(|e| format!("cell {i}: {e}"))?;
        // The cell touches the boundary exactly if one of its tetras does.
        let infinite = p.tetras.iter().any(|(c, _)| c.contains(&i) && c.iter().any(|q| p.outer[*q]));
        if cell.is_infinite != infinite {
            return Err(format!("cell {i}: is_infinite is {}", cell.is_infinite));
        }
        if (s.tol < 1e-5 && !cell.contains(cell.center)) || D::arr(cell.center) != pts[i] {
            return Err(format!("cell {i} does not contain its centre"));
        }
        if s.tol < 1e-5 {
            for other in &grid.cells {
                let j = point_index(other.delaunay_point);
                if j != i && cell.contains(other.center) {
                    return Err(format!("cell {i} contains the centre of cell {j}"));
                }
            }
        }
    }
    Ok(())
}

/// All sequences of insertions.
fn sequences<D: Dim>(c: &Check, s: &Setup, depth: usize)
where
    Triangulation<D>: Delaunay<D> + Clone,
    VCell<D>: DCell<Dimension = D>,
    Point<D>: Send + Sync,
{
    fn rec<D: Dim>(c: &Check, s: &Setup, t: &Triangulation<D>, total: f64, order: &mut Vec<usize>, depth: usize)
    where
        Triangulation<D>: Delaunay<D> + Clone,
        VCell<D>: DCell<Dimension = D>,
    {
        if c.stopped() {
            return;
        }
        let case = |order: &[usize]| json!({"setup": s.name, "points": order.iter().map(|i| s.sites[*i]).collect::<Vec<_>>()});
        c.count(1, 1, (order.len() == depth) as u64);
        let r = c.guard("panic", || case(order), || check_state(s, t, total, order.len() >= 1));
        match r {
            Some(Err(e)) => c.violation("triangulation", &e, case(order)),
            _ => {}
        }
        if order.len() == depth {
            return;
        }
        for i in 0..s.sites.len() {
            if order.contains(&i) {
                continue;
            }
            order.push(i);
            let next = c.guard("insert", || case(order), || {
                let mut t = t.clone();
                insert(&mut t, D::pt(s.sites[i]));
                t
            });
            if let Some(next) = next {
                rec(c, s, &next, total, order, depth);
            }
            order.pop();
        }
    }
    let m = s.sites.len();
    par(m * m, |ij| {
        let (i, j) = (ij / m, ij % m);
        if i == j {
            return;
        }
        let case = || json!({"setup": s.name, "points": [s.sites[i], s.sites[j]]});
        let t = c.guard("insert", case, || {
            let mut t = start::<D>(D::pt(s.min), D::pt(s.max), D::pt(s.sites[i]));
            insert(&mut t, D::pt(s.sites[j]));
            t
        });
        if let Some(t) = t {
            let outer = plain(&t).outer;
            let corners: Vec<P> = points(&t).into_iter().map(D::arr).zip(outer).filter(|(_, o)| *o).map(|(p, _)| p).collect();
            let total = vol(D::N, &corners).abs();
            rec(c, s, &t, total, &mut vec![i, j], depth);
        }
    });
}

/// The interface that the simulation uses.
///
/// Where the grid ends at its own boundary is up to the code: only cells that do not touch it are
/// compared, and `complete` must be such a cell.
fn constructor(c: &Check, name: &str, pts: &[P], tol: f64, complete: Option<usize>) {
    let case = || json!({"setup": name, "points": pts});
    if c.stopped() {
        return;
    }
    c.count(1, pts.len() as u64, 1);
    let id = |i: usize| ParticleId { index: i as u32, rank: 0 };
    let got = c.guard("constructor", case, || {
        let cons = Constructor::<ThreeD>::new(pts.iter().enumerate().map(|(i, p)| (id(i), ThreeD::pt(*p))));
        cons.sweep_grid(true)
    });
    let Some(grid) = got else { return };
    let mut seen = vec![false; pts.len()];
    for (ptype, cell) in &grid {
        let ParticleType::Local(pid) = ptype else {
            c.violation("constructor", &format!("a cell of type {ptype:?}"), case());
            return;
        };
        let i = pid.index as usize;
        seen[i] = true;
        if cell.neighbours.iter().any(|(_, p)| p.is_boundary()) {
            if Some(i) == complete {
                c.violation("constructor", &format!("cell {i} in the middle touches the boundary"), case());
            }
            continue;
        }
        let exact = brute::cell(3, pts, i);
        let flat = Flat {
            faces: cell
                .neighbours
                .iter()
                .map(|(f, p)| {
                    let to = match p {
                        ParticleType::Local(id) => Some(id.index as usize),
                        _ => None,
                    };
                    (to, f.area.value_unchecked(), ThreeD::arr(f.normal.value_unchecked()))
                })
                .collect(),
            volume: cell.volume.value_unchecked(),
            size: cell.size.value_unchecked(),
        };
        if let Err(e) = check_cell(3, &flat, &exact, &|j| Some(j), tol) {
            c.violation("constructor", &format!("cell {i}: {e}"), case());
        }
    }
    // Neighbours are mutual, with the same area and opposite normals.
    let faces = |i: usize| grid.iter().find(|(p, _)| *p == ParticleType::Local(id(i))).map(|(_, c)| &c.neighbours);
    for i in 0..pts.len() {
        for (f, p) in faces(i).into_iter().flatten() {
            if let ParticleType::Local(j) = p {
                let back = faces(j.index as usize)
                    .into_iter()
                    .flatten()
                    .filter(|(g, q)| {
                        *q == ParticleType::Local(id(i))
                            && close(g.area.value_unchecked(), f.area.value_unchecked(), 1e-6)
                            && norm(add(ThreeD::arr(g.normal.value_unchecked()), ThreeD::arr(f.normal.value_unchecked()))) < 1e-12
                    })
                    .count();
                if back != 1 {
                    c.violation("mutual", &format!("{back} faces from {} to {i} for the one from {i}", j.index), case());
                }
            }
        }
    }
    if grid.len() != pts.len() || seen.contains(&false) {
        c.violation("constructor", &format!("{} cells for {} points", grid.len(), pts.len()), case());
    }
}

fn noise(i: usize) -> f64 {
    let mut x = (i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 32;
    (x >> 11) as f64 / (1u64 << 53) as f64 - 0.5
}

/// A lattice with every coordinate moved by up to `delta`/2.
fn lattice(dim: usize, k: usize, delta: f64, seed: usize) -> Vec<P> {
    let n = k.pow(dim as u32);
    (0..n)
        .map(|i| {
            let mut p = [0.0; 3];
            for d in 0..dim {
                p[d] = (i / k.pow(d as u32) % k) as f64 + delta * noise(seed + 3 * i + d);
            }
            p
        })
        .collect()
}

fn main() {
    let c = Check::new("C18");
    c.assume("points in general position: exactly degenerate configurations are rejected by design");
    let deltas = [0.4, 1e-3, 1e-7, 1e-11];
    let boxes: [(P, f64); 3] = [([0.0; 3], 1.0), ([-3.0, 5.0, 7.0], 1e-3), ([0.0; 3], 1e20)];
    for (bi, (offset, scale)) in boxes.iter().enumerate() {
        for (di, delta) in deltas.iter().enumerate() {
            if bi > 0 && di > 0 {
                continue;
            }
            for stretch in [[1.0, 1.0, 1.0], [1.0, 0.5, 0.25]] {
                let map = |p: P, dim: usize| {
                    let mut q = [0.0; 3];
                    for d in 0..dim {
                        q[d] = (p[d] * stretch[d] + offset[d]) * scale;
                    }
                    q
                };
                let tol = if *delta < 0.1 { 1e-4 } else { 1e-6 };
                for dim in [2, 3] {
                    let sites: Vec<P> = if dim == 2 {
                        lattice(2, 3, *delta, 7).into_iter().map(|p| map(p, 2)).collect()
                    } else {
                        let mut s = lattice(3, 2, *delta, 11);
                        s.push([0.513, 0.487, 0.531]);
                        s.into_iter().map(|p| map(p, 3)).collect()
                    };
                    let pad = 0.3;
                    let k = if dim == 2 { 2.0 } else { 1.0 };
                    let s = Setup {
                        name: format!("{dim}D offset {offset:?} scale {scale} perturbation {delta} stretch {stretch:?}"),
                        sites,
                        min: map([-pad; 3], dim),
                        max: map([k + pad; 3], dim),
                        tol,
                    };
                    let first = bi == 0 && di == 0;
                    if dim == 2 {
                        sequences::<TwoD>(c, &s, if first { c.pick(5, 7) } else { c.pick(4, 6) });
                    } else {
                        sequences::<ThreeD>(c, &s, if first { c.pick(5, 7) } else { c.pick(4, 6) });
                    }
                }
            }
        }
    }
    // Larger sets: a lattice of 27 with up to two (three) points left out.
    for (name, delta, tol) in [("27 points", 0.4, 1e-6), ("27 points, nearly regular", 1e-5, 1e-4)] {
        let all = lattice(3, 3, delta, 101);
        let mut sets = vec![vec![]];
        for a in 0..27 {
            sets.push(vec![a]);
            for b in 0..a {
                sets.push(vec![a, b]);
                if c.pick(false, true) {
                    for d in 0..b {
                        sets.push(vec![a, b, d]);
                    }
                }
            }
        }
        par(sets.len(), |i| {
            let pts: Vec<P> = (0..27).filter(|j| !sets[i].contains(j)).map(|j| all[j]).collect();
            // Point 13 is in the middle; 4, 10, 12, 14, 16 and 22 are its nearest neighbours.
            let keep = [4, 10, 12, 13, 14, 16, 22];
            let complete = sets[i].iter().all(|j| !keep.contains(j)).then(|| 13 - sets[i].iter().filter(|j| **j < 13).count());
            constructor(c, name, &pts, tol, complete);
        });
    }
    // Small sets, all subsets of at least four points.
    let mut nine = lattice(3, 2, 0.4, 11);
    nine.push([0.513, 0.487, 0.531]);
    par(512, |m| {
        let pts: Vec<P> = (0..9).filter(|j| m >> j & 1 == 1).map(|j| nine[j]).collect();
        if pts.len() >= 4 {
            constructor(c, "subset of 9", &pts, 1e-6, None);
        }
    });
    c.info("oracle", json!("Voronoi cells by clipping of half-spaces; empty circumspheres; tetra volumes; mutual connections"));
    c.finish();
}
