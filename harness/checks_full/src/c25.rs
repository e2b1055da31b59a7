//! C25: the predicates that the triangulation rests on give the exact answer, however close to
//! degenerate the points are.
use glam::{DVec2, DVec3};
use mc::*;
use num::{BigInt, BigRational, Signed, ToPrimitive, Zero};
use subsweep::voronoi::verif::{DTetraData, EdgeIdentifier, Extent, IntersectionType, Polygon3d, TetrahedronData, TriangleData};

/// Points of the triangulation lie between 1 and 2 in every direction, on multiples of 2^-52.
const ONE: i64 = 1 << 52;
type K = [i64; 3];

fn f(k: i64) -> f64 {
    1.0 + k as f64 / ONE as f64
}
fn p3(k: K) -> DVec3 {
    DVec3::new(f(k[0]), f(k[1]), f(k[2]))
}
fn p2(k: K) -> DVec2 {
    DVec2::new(f(k[0]), f(k[1]))
}
fn diff(a: K, b: K) -> [BigInt; 3] {
    [0, 1, 2].map(|i| BigInt::from(a[i]) - BigInt::from(b[i]))
}
fn det2(a: &[BigInt; 3], b: &[BigInt; 3]) -> BigInt {
    &a[0] * &b[1] - &a[1] * &b[0]
}
fn det3(a: &[BigInt; 3], b: &[BigInt; 3], c: &[BigInt; 3]) -> BigInt {
    &a[0] * (&b[1] * &c[2] - &b[2] * &c[1]) - &a[1] * (&b[0] * &c[2] - &b[2] * &c[0]) + &a[2] * (&b[0] * &c[1] - &b[1] * &c[0])
}
fn sq(a: &[BigInt; 3]) -> BigInt {
    &a[0] * &a[0] + &a[1] * &a[1] + &a[2] * &a[2]
}
fn sign(x: &BigInt) -> i32 {
    if x.is_positive() {
        1
    } else if x.is_negative() {
        -1
    } else {
        0
    }
}
fn orient3(a: K, b: K, c: K, d: K) -> i32 {
    sign(&det3(&diff(b, a), &diff(c, a), &diff(d, a)))
}
fn orient2(a: K, b: K, c: K) -> i32 {
    sign(&det2(&diff(b, a), &diff(c, a)))
}
/// Is the last point inside of (1), on (0), outside of (-1) the sphere?
fn insphere(t: [K; 4], q: K) -> i32 {
    let v = t.map(|p| diff(p, q));
    let mut s = BigInt::zero();
    for i in 0..4 {
        let o: Vec<&[BigInt; 3]> = (0..4).filter(|j| *j != i).map(|j| &v[j]).collect();
        let m = sq(&v[i]) * det3(o[0], o[1], o[2]);
        s = if i % 2 == 0 { s + m } else { s - m };
    }
    // positive for a point far outside of a positive tetra?
    sign(&s) * orient3(t[0], t[1], t[2], t[3])
}
fn incircle(t: [K; 3], q: K) -> i32 {
    let v = t.map(|p| {
        let mut d = diff(p, q);
        d[2] = BigInt::zero();
        d
    });
    let mut s = BigInt::zero();
    for i in 0..3 {
        let (a, b) = (&v[(i + 1) % 3], &v[(i + 2) % 3]);
        s += sq(&v[i]) * det2(a, b);
    }
    sign(&s) * orient2(t[0], t[1], t[2])
}

fn answer<T>(g: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("a panic".into())
    })
}

fn expect<T: PartialEq + std::fmt::Debug>(name: &str, got: Result<T, String>, want: T) -> Result<(), String> {
    match got {
        Ok(x) if x == want => Ok(()),
        Ok(x) => Err(format!("{name}: {x:?} instead of {want:?}")),
        Err(e) => Err(format!("{name}: {e:?} instead of {want:?}")),
    }
}

/// Both orientations are given to predicates that do not depend on it.
fn solid(t: [K; 4], q: K, positive: i32) -> Result<(), String> {
    let o = orient3(t[0], t[1], t[2], t[3]);
    if o == 0 {
        return Ok(());
    }
    let mut sides = [0; 4];
    for i in 0..4 {
        let mut s = t;
        s[i] = q;
        sides[i] = orient3(s[0], s[1], s[2], s[3]) * o;
    }
    let data = |t: [K; 4]| TetrahedronData { p1: p3(t[0]), p2: p3(t[1]), p3: p3(t[2]), p4: p3(t[3]) };
    if !sides.contains(&0) {
        expect("the tetrahedron contains the point", answer(|| data(t).contains(p3(q))), sides.iter().all(|s| *s > 0))?;
    }
    let s = insphere(t, q);
    if o == positive && s != 0 {
        expect("the circumsphere contains the point", answer(|| data(t).circumcircle_contains(p3(q))), s > 0)?;
    }
    // the line from the fourth point to q and the triangle of the others
    if sides[3] != 0 && sides[3] < 0 {
        let tri = TriangleData { p1: p3(t[0]), p2: p3(t[1]), p3: p3(t[2]) };
        // on which side of the planes through the line and the edges does the triangle lie?
        let e = |a: K, b: K| -orient3(a, b, t[3], q) * o;
        let out = [e(t[1], t[2]), e(t[2], t[0]), e(t[0], t[1])];
        if !out.contains(&0) {
            let ids: Vec<usize> = (0..3).filter(|i| out[*i] < 0).collect();
            let got = answer(|| tri.get_line_intersection_type(p3(t[3]), p3(q))).map(|x| {
                let n = |e: EdgeIdentifier| match e {
                    EdgeIdentifier::One => 0,
                    EdgeIdentifier::Two => 1,
                    EdgeIdentifier::Three => 2,
                };
                let mut v = match x {
                    IntersectionType::Inside => vec![],
                    IntersectionType::OutsideOneEdge(a) => vec![n(a)],
                    IntersectionType::OutsideTwoEdges(a, b) => vec![n(a), n(b)],
                };
                v.sort();
                v
            });
            expect("edges outside of which a line meets the triangle's plane", got, ids)?;
        }
    }
    Ok(())
}

fn flat(t: [K; 3], q: K, positive: i32) -> Result<(), String> {
    let o = orient2(t[0], t[1], t[2]);
    if o == 0 {
        return Ok(());
    }
    let sides = [orient2(q, t[1], t[2]) * o, orient2(t[0], q, t[2]) * o, orient2(t[0], t[1], q) * o];
    let data = TriangleData { p1: p2(t[0]), p2: p2(t[1]), p3: p2(t[2]) };
    if !sides.contains(&0) {
        expect("the triangle contains the point", answer(|| data.contains(p2(q))), sides.iter().all(|s| *s > 0))?;
    }
    let s = incircle(t, q);
    if o == positive && s != 0 {
        expect("the circumcircle contains the point", answer(|| data.circumcircle_contains(p2(q))), s > 0)?;
    }
    Ok(())
}

fn rational(x: &BigInt, y: &BigInt) -> f64 {
    BigRational::new(x.clone(), y.clone()).to_f64().unwrap()
}

/// Circumcentres, relative to the first point.
fn centres(t: [K; 4]) -> Result<(), String> {
    let v = [diff(t[1], t[0]), diff(t[2], t[0]), diff(t[3], t[0])];
    let d = det3(&v[0], &v[1], &v[2]);
    if !d.is_zero() {
        let r = [0, 1, 2].map(|i| sq(&v[i]));
        let mut c = [0.0; 3];
        for k in 0..3 {
            let mut m = v.clone();
            for i in 0..3 {
                m[i][k] = r[i].clone();
            }
            c[k] = f(t[0][k]) + rational(&det3(&m[0], &m[1], &m[2]), &(&d * 2)) / ONE as f64;
        }
        let radius = c.iter().zip(t[0]).map(|(c, k)| (c - f(k)).powi(2)).sum::<f64>().sqrt();
        // how sharp the tetra is
        let edge = (0..3).map(|i| v[i].iter().map(|x| x.to_f64().unwrap().powi(2)).sum::<f64>().sqrt() / ONE as f64).fold(0.0, f64::max);
        let flatness = d.to_f64().unwrap().abs() / (ONE as f64).powi(3) / edge.powi(3);
        let got = TetrahedronData { p1: p3(t[0]), p2: p3(t[1]), p3: p3(t[2]), p4: p3(t[3]) }.get_center_of_circumcircle();
        let off = (got - DVec3::from(c)).length();
        let tol = 1e-14 * (1.0 + radius) / flatness.min(1.0);
        if !(off <= tol.min(1e-5 * (1.0 + radius))) {
            return Err(format!("the centre of the circumsphere of {t:?} is {got}, off by {off:e} (radius {radius}, flatness {flatness:e})"));
        }
    }
    let w = [0, 1].map(|i| {
        let mut d = diff(t[i + 1], t[0]);
        d[2] = BigInt::zero();
        d
    });
    let d = det2(&w[0], &w[1]);
    let flatness = d.to_f64().unwrap().abs() / (ONE as f64).powi(2);
    if flatness > 1e-3 {
        let r = [sq(&w[0]), sq(&w[1])];
        let c = [
            f(t[0][0]) + rational(&(&r[0] * &w[1][1] - &r[1] * &w[0][1]), &(&d * 2)) / ONE as f64,
            f(t[0][1]) + rational(&(&w[0][0] * &r[1] - &w[1][0] * &r[0]), &(&d * 2)) / ONE as f64,
        ];
        let got = TriangleData { p1: p2(t[0]), p2: p2(t[1]), p3: p2(t[2]) }.get_center_of_circumcircle();
        let off = (got - DVec2::from(c)).length();
        if !(off <= 1e-13 / flatness.powi(2)) {
            return Err(format!("the centre of the circumcircle of {:?} is {got}, off by {off:e}", &t[..3]));
        }
    }
    Ok(())
}

/// Area of polygons that are seen from all their corners.
fn polygons() -> Result<u64, String> {
    let mut n = 0;
    for m in 3..=9 {
        for (u, v) in [(DVec3::X, DVec3::Y), (DVec3::new(0.0, 0.6, 0.8), DVec3::X), (DVec3::new(1.0, 1.0, 1.0) / 3f64.sqrt(), DVec3::new(1.0, -1.0, 0.0) / 2f64.sqrt())] {
            for (a, b) in [(1.0, 1.0), (3.0, 0.25)] {
                for shift in [DVec3::ZERO, DVec3::new(5.0, -7.0, 2.0)] {
                    for first in 0..m {
                        for back in [false, true] {
                            let at = |i: usize| {
                                let w = 2.0 * std::f64::consts::PI * i as f64 / m as f64;
                                (a * w.cos(), b * w.sin())
                            };
                            let mut pts: Vec<DVec3> = (0..m).map(|i| { let (x, y) = at((i + first) % m); shift + u * x + v * y }).collect();
                            if back {
                                pts.reverse();
                            }
                            let want: f64 = 0.5 * (0..m).map(|i| { let ((x, y), (z, w)) = (at(i), at((i + 1) % m)); x * w - y * z }).sum::<f64>();
                            let got = Polygon3d { points: pts.clone() }.area();
                            n += 1;
                            if !close(got, want, 1e-12) {
                                return Err(format!("the area of {pts:?} is {got}, not {want}"));
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(n)
}

/// The first tetra contains everything, with room for images.
fn first() -> Result<(u64, i32, i32), String> {
    let mut n = 0;
    let (mut o2, mut o3) = (0, 0);
    let corners: [f64; 4] = [-3.0, 0.0, 0.5, 10.0];
    for code in 0..4u64.pow(6) {
        let d: Vec<f64> = digits(code, 4, 6).iter().map(|i| corners[*i as usize]).collect();
        let (a, b) = (DVec3::new(d[0], d[1], d[2]), DVec3::new(d[3], d[4], d[5]));
        if a.cmpge(b).any() {
            continue;
        }
        n += 1;
        let e = Extent::from_min_max(a, b);
        let t = TetrahedronData::all_encompassing(&e);
        let s = (t.p2 - t.p1).cross(t.p3 - t.p1).dot(t.p4 - t.p1).signum() as i32;
        if o3 != 0 && s != o3 {
            return Err("orientation of the first tetrahedron differs".into());
        }
        o3 = s;
        let q = TriangleData::all_encompassing(&Extent::from_min_max(DVec2::new(a.x, a.y), DVec2::new(b.x, b.y)));
        let s = (q.p2 - q.p1).perp_dot(q.p3 - q.p1).signum() as i32;
        if o2 != 0 && s != o2 {
            return Err("orientation of the first triangle differs".into());
        }
        o2 = s;
        for k in 0..125 {
            let w = [k % 5, k / 5 % 5, k / 25].map(|i| [0.003, 0.25, 0.501, 0.75, 0.997][i]);
            let p = a + (b - a) * DVec3::from(w);
            if !answer(|| t.contains(p)).unwrap_or(false) {
                return Err(format!("the first tetrahedron of {a} to {b} does not contain {p}"));
            }
            let p = DVec2::new(p.x, p.y);
            if !answer(|| q.contains(p)).unwrap_or(false) {
                return Err(format!("the first triangle of {a} to {b} does not contain {p}"));
            }
        }
    }
    Ok((n, o2, o3))
}

fn main() {
    let c = Check::new("C25");
    c.assume("points between 1 and 2 in every direction, as the triangulation remaps them; in exactly degenerate cases any answer or a refusal is accepted");
    let (o2, o3) = match c.guard("first", || json!("first tetra"), first) {
        Some(Ok((n, a, b))) => {
            c.count(n, 250 * n, n);
            (a, b)
        }
        Some(Err(e)) => {
            c.violation("first", &e, json!("first tetra"));
            c.finish()
        }
        None => c.finish(),
    };
    match c.guard("area", || json!("polygons"), polygons) {
        Some(Ok(n)) => c.count(n, n, n),
        Some(Err(e)) => c.violation("area", &e, json!("polygons")),
        None => {}
    }
    // corners of a cube and points within it
    let h = ONE / 2;
    let mut base: Vec<K> = (0..8).map(|i| [(i & 1) * ONE, (i >> 1 & 1) * ONE, (i >> 2) * ONE]).collect();
    base.extend([[h, h, h], [h / 2, h, 3 * h / 2], [ONE / 3, ONE / 5, ONE / 7]]);
    let n = base.len();
    let mut tetras = vec![];
    for a in 0..n {
        for b in a + 1..n {
            for e in b + 1..n {
                for d in e + 1..n {
                    for t in [[a, b, e, d], [b, a, e, d]] {
                        tetras.push(t.map(|i| base[i]));
                    }
                }
            }
        }
    }
    let steps: Vec<i64> = if c.thorough { vec![0, 1, -1, 2, -2, 3] } else { vec![0, 1, -1] };
    let scales: Vec<u32> = (0..52).step_by(c.pick(3, 1)).collect();
    let run = |key: &str, t: [K; 4], q: K, states: &mut u64| -> bool {
        if q.iter().chain(t.iter().flatten()).any(|x| *x < 0 || *x > ONE) {
            return true;
        }
        *states += 1;
        let case = || json!({"corners": t, "point": q, "unit": "1 + k 2^-52"});
        match c.guard(key, case, || solid(t, q, o3).and_then(|_| flat([t[0], t[1], t[2]], q, o2))) {
            Some(Ok(())) => true,
            Some(Err(e)) => {
                c.violation(key, &e, case());
                false
            }
            None => false,
        }
    };
    par(tetras.len(), |i| {
        if c.stopped() {
            return;
        }
        let t = tetras[i];
        let mut states = 0;
        if let Some(Err(e)) = c.guard("centre", || json!({"corners": t}), || centres(t)) {
            c.violation("centre", &e, json!({"corners": t}));
            return;
        }
        // points on faces, edges, their extensions, on the sphere and elsewhere
        let mut qs = base.clone();
        for a in 0..4 {
            for b in 0..4 {
                for e in 0..4 {
                    qs.push([0, 1, 2].map(|k| (t[a][k] + t[b][k]) / 2 + (t[e][k] - t[b][k]) / 4));
                    qs.push([0, 1, 2].map(|k| t[a][k] + t[b][k] - t[e][k]));
                }
            }
        }
        qs.sort();
        qs.dedup();
        for q in qs {
            for x in &steps {
                for y in &steps {
                    for z in &steps {
                        let p = [q[0] + x, q[1] + y, q[2] + z];
                        if !run("predicates", t, p, &mut states) {
                            return;
                        }
                        // inwards, for those on the border of the cube
                        let p = [0, 1, 2].map(|k| if q[k] == 0 { [x, y, z][k].abs() } else if q[k] == ONE { ONE - [x, y, z][k].abs() } else { p[k] });
                        let mut s = t;
                        for k in 0..3 {
                            s[0][k] += if s[0][k] >= h { -1 } else { 1 };
                        }
                        if !run("predicates", s, p, &mut states) {
                            return;
                        }
                    }
                }
            }
            for k in 0..3 {
                for b in &scales {
                    for s in [-1, 1] {
                        let mut p = q;
                        p[k] += s * (1 << b);
                        if !run("predicates", t, p, &mut states) {
                            return;
                        }
                    }
                }
            }
        }
        c.count(states, 5 * states, states);
        if i == 100 {
            c.sample(json!({"corners": t, "point": base[0]}));
        }
    });
    c.info("bounds", json!(format!("all tetrahedra and triangles of {n} points of the unit cube, both orientations; points at all corners, on edges, faces, their extensions and the circumsphere, displaced by up to {} units in the last place in all directions and by all powers of two from 2^-52 to 1/2", steps.len() / 2)));
    c.finish()
}
