//! C07: the determinants that decide geometric predicates have the right sign.
use mc::*;
use num::{BigRational, FromPrimitive, Signed, Zero};
use subsweep::voronoi::math::utils::*;

fn exact<const N: usize>(m: &[[f64; N]; N]) -> Sign {
    let mut a: Vec<Vec<BigRational>> =
        m.iter().map(|r| r.iter().map(|x| BigRational::from_f64(*x).unwrap()).collect()).collect();
    let mut neg = false;
    for k in 0..N {
        let Some(p) = (k..N).find(|i| !a[*i][k].is_zero()) else { return Sign::Zero };
        if p != k {
            a.swap(p, k);
            neg = !neg;
        }
        if a[k][k].is_negative() {
            neg = !neg;
        }
        for i in k + 1..N {
            let f = &a[i][k] / &a[k][k];
            for j in k..N {
                let d = &f * &a[k][j];
                a[i][j] = &a[i][j] - d;
            }
        }
    }
    if neg {
        Sign::Negative
    } else {
        Sign::Positive
    }
}

/// By cofactors, along the last row.
fn int<const N: usize>(m: &[[i64; N]; N], rows: usize, cols: u32) -> i64 {
    if rows == 0 {
        return 1;
    }
    let mut sum = 0;
    let mut sign = if rows % 2 == 1 { 1 } else { -1 };
    for c in 0..N {
        if cols >> c & 1 == 1 {
            if m[rows - 1][c] != 0 {
                sum += sign * m[rows - 1][c] * int(m, rows - 1, cols & !(1 << c));
            }
            sign = -sign;
        }
    }
    sum
}

fn sign(x: i64) -> Sign {
    match x.signum() {
        1 => Sign::Positive,
        -1 => Sign::Negative,
        _ => Sign::Zero,
    }
}

fn integers<const N: usize>(
    c: &Check,
    m: &[[i64; N]; N],
    float: fn([[f64; N]; N]) -> f64,
    by_sign: fn([[f64; N]; N]) -> Sign,
    precise: Option<fn([[f64; N]; N]) -> Sign>,
    scale: f64,
) {
    let want = int(m, N, (1 << N) - 1);
    let f = m.map(|r| r.map(|x| x as f64 * scale));
    let case = || json!({"matrix": f.iter().map(|r| r.to_vec()).collect::<Vec<_>>()});
    let key = "integers";
    let Some((v, s, p)) = c.guard(key, case, || (float(f), by_sign(f), precise.map(|p| p(f)))) else { return };
    if v != want as f64 * scale.powi(N as i32) {
        c.violation(key, &format!("the determinant of {f:?} is {want} x {scale}^{N}, not {v}"), case());
    }
    if s != sign(want) || p.is_some_and(|p| p != sign(want)) {
        c.violation(key, &format!("the sign of the determinant of {f:?} is that of {want}, not {s:?} ({p:?})"), case());
    }
}

fn near<const N: usize>(c: &Check, m: [[f64; N]; N], by_sign: &dyn Fn([[f64; N]; N]) -> Sign) {
    let case = || json!({"matrix": m.iter().map(|r| r.to_vec()).collect::<Vec<_>>()});
    let Some(s) = c.guard("degenerate", case, || by_sign(m)) else { return };
    let want = exact(&m);
    if s != want {
        c.violation("degenerate", &format!("the sign of the determinant of {m:?} is {want:?}, not {s:?}"), case());
    }
}

fn p3(m: [[f64; 3]; 3]) -> Sign {
    Sign::of(determinant3x3(lift_matrix(m)))
}
fn p4(m: [[f64; 4]; 4]) -> Sign {
    Sign::of(determinant4x4(lift_matrix(m)))
}
fn p5(m: [[f64; 5]; 5]) -> Sign {
    Sign::of(determinant5x5(lift_matrix(m)))
}

fn main() {
    let c = Check::new("C07");
    // All small integer matrices.
    let top = c.pick(2i64, 3);
    let base = (2 * top + 1) as u64;
    par(base.pow(4) as usize, |j| {
        if c.stopped() {
            return;
        }
        let head = digits(j as u64, base, 4);
        let n = base.pow(5);
        for i in 0..n {
            let mut d = head.clone();
            d.extend(digits(i, base, 5));
            let m: [[i64; 3]; 3] = std::array::from_fn(|r| std::array::from_fn(|k| d[r * 3 + k] as i64 - top));
            let scale = if i % 2 == 0 { 1.0 } else { 2f64.powi(30) };
            integers(c, &m, determinant3x3::<f64>, determinant3x3_sign, if i % 11 == 0 { Some(p3) } else { None }, scale);
        }
        c.count(n, n, n);
    });
    let base = c.pick(2u64, 3);
    par(base.pow(8) as usize, |j| {
        if c.stopped() {
            return;
        }
        let head = digits(j as u64, base, 8);
        let n = base.pow(8);
        for i in 0..n {
            let mut d = head.clone();
            d.extend(digits(i, base, 8));
            let m: [[i64; 4]; 4] = std::array::from_fn(|r| std::array::from_fn(|k| d[r * 4 + k] as i64 - base as i64 / 2));
            integers(c, &m, determinant4x4::<f64>, determinant4x4_sign, if base == 2 { Some(p4) } else { None }, 1.0);
        }
        c.count(n, n, n);
    });
    // 5x5: a border of ones, as in the predicates, and any zeros and ones inside.
    par(c.pick(256, 1 << 13), |j| {
        if c.stopped() {
            return;
        }
        let n = 256;
        for i in 0..n {
            let bit = |k: usize| ((if k < 8 { i >> k } else { j >> (k - 8) }) & 1) as i64;
            let m: [[i64; 5]; 5] = std::array::from_fn(|r| {
                std::array::from_fn(|k| match (r, k) {
                    (_, 0) => 1,
                    (0, _) => if k % 2 == 0 { bit(16 + k) } else { bit(16 + k) + 1 },
                    _ => bit((r - 1) * 4 + k - 1) * 3 - (r as i64 + k as i64) % 2,
                })
            });
            integers(c, &m, determinant5x5::<f64>, determinant5x5_sign, if i % 3 == 0 || c.thorough { Some(p5) } else { None }, 1.0);
        }
        c.count(n as u64, n as u64, n as u64);
    });
    // Nearly degenerate: three points on a line or four on a circle, one of them moved by ulps.
    let n = c.pick(24i64, 48);
    let lines = [(12.0, 24.0), (0.3, 0.7), (-7.0, 1.7), (1e5, 3e5), (1e-3, 2e-3), (3.0, 1e10)];
    let circles: [([f64; 2], [f64; 2]); 4] = [([0.1, 0.1], [0.7, 0.3]), ([0.0, 0.0], [1.0, 2.0]), ([-5.5, 3.25], [4.0, 11.0]), ([1000.1, 0.3], [1000.7, 0.9])];
    let scales = [1.0, 1.0 / 3.0, 100.0, 1e5, 1e-4];
    par(lines.len() * scales.len(), |j| {
        let (q, r) = lines[j / scales.len()];
        let s = scales[j % scales.len()];
        let u = 2f64.powi(-53);
        for a in -n..n {
            for b in -n..n {
                if c.stopped() {
                    return;
                }
                let p = [(0.5 + a as f64 * u) * s, (0.5 + b as f64 * u) * s];
                let rows = [[p[0], p[1], 1.0], [q * s, q * s, 1.0], [r * s, r * s, 1.0]];
                for turn in 0..3 {
                    near(c, [rows[turn], rows[(turn + 1) % 3], rows[(turn + 2) % 3]], &determinant3x3_sign);
                }
                // Four points in a plane.
                let z = |x: f64, y: f64| x * 0.5 + y * 0.25;
                let m = [
                    [p[0], p[1], z(p[0], p[1]), 1.0],
                    [q * s, q * s, z(q * s, q * s), 1.0],
                    [r * s, 2.0 * r * s, z(r * s, 2.0 * r * s), 1.0],
                    [-s, 3.0 * s, z(-s, 3.0 * s), 1.0],
                ];
                if (a + b) % 4 == 0 {
                    near(c, m, &determinant4x4_sign);
                    near(c, m, &p4);
                }
                c.count(1, 5, 5);
            }
        }
    });
    par(circles.len() * scales.len(), |j| {
        let (lo, hi) = circles[j / scales.len()];
        let s = scales[j % scales.len()];
        let ulp = |x: f64, k: i64| f64::from_bits((x.to_bits() as i64 + k) as u64);
        for a in -n..n {
            for b in -n..n {
                if c.stopped() {
                    return;
                }
                let move_by = |x: f64, k: i64| if x == 0.0 { k as f64 * 1e-17 } else { ulp(x, k) };
                let p0 = [lo[0] * s, lo[1] * s];
                let p1 = [hi[0] * s, lo[1] * s];
                let p2 = [hi[0] * s, hi[1] * s];
                let p3 = [move_by(lo[0] * s, a), move_by(hi[1] * s, b)];
                let row = |p: [f64; 2]| {
                    let (x, y): (f64, f64) = (p[0] - p0[0], p[1] - p0[1]);
                    [x, y, x * x + y * y]
                };
                near(c, [row(p1), row(p2), row(p3)], &determinant3x3_sign);
                // The corners of a box and one more.
                if (a * 3 + b) % 8 == 0 {
                    let row5 = |x: f64, y: f64, z: f64| [1.0, x, y, z, x * x + y * y + z * z];
                    let m = [row5(p0[0], p0[1], s), row5(p1[0], p1[1], s), row5(p2[0], p2[1], s), row5(p0[0], p0[1], 2.0 * s), row5(p3[0], p3[1], 2.0 * s)];
                    near(c, m, &p5); if s <= 1.0 && j / scales.len() < 2 { near(c, m, &determinant5x5_sign); }
                }
                c.count(1, 2, 2);
            }
        }
    });
    // Products of vectors, rounded: the determinant is far below the rounding error of its evaluation,
    // and all of its terms are of the same size.
    let k = c.pick(22usize, 34);
    let value = |i: usize, q: f64| 1.0 + (i as f64 * q + 0.1).fract();
    let triples: Vec<[usize; 3]> = (0..k).flat_map(|x| (x + 1..k).flat_map(move |y| (y + 1..k).map(move |z| [x, y, z]))).collect();
    par(triples.len(), |j| {
        let rows = triples[j];
        let mut hard = 0;
        for cols in &triples {
            if c.stopped() {
                return;
            }
            for turned in [false, true] {
                // of any size, and of about the same, just below that at which rounding gets coarser
                let v = |i: usize, q: f64| if turned { 1.1224 * (1.0 - 1e-3 * value(i, q).fract()) } else { value(i, q) };
                let m: [[f64; 3]; 3] = std::array::from_fn(|r| std::array::from_fn(|l| v(rows[r], 0.6180339887498949) * v(cols[l], 0.7548776662466927)));
                let f = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
                let g = m[0][0] * m[1][1] * m[2][2] + m[0][1] * m[1][2] * m[2][0] + m[0][2] * m[1][0] * m[2][1] - m[0][2] * m[1][1] * m[2][0] - m[0][1] * m[1][0] * m[2][2] - m[0][0] * m[1][2] * m[2][1];
                let size: f64 = m.iter().map(|r| r.iter().fold(0f64, |a, x| a.max(x.abs()))).product();
                // The evaluation in floating point has a wrong value of considerable size.
                if f.abs().max(g.abs()) > 0.8e-15 * size {
                    near(c, m, &determinant3x3_sign);
                    hard += 1;
                }
            }
        }
        c.count(hard, 2 * triples.len() as u64, hard);
        c.add("rounded_products", hard);
    });
    let k = c.pick(9usize, 12);
    let quadruples: Vec<[usize; 4]> = (0..k).flat_map(|x| (x + 1..k).flat_map(move |y| (y + 1..k).flat_map(move |z| (z + 1..k).map(move |w| [x, y, z, w])))).collect();
    par(quadruples.len(), |j| {
        let rows = quadruples[j];
        for cols in &quadruples {
            if c.stopped() {
                return;
            }
            for second in [0.0, 1.0, -1.0] {
                let m: [[f64; 4]; 4] = std::array::from_fn(|r| {
                    std::array::from_fn(|l| value(rows[r], 0.6180339887498949) * value(cols[l], 0.7548776662466927) + second * value(rows[r], 0.41421356237) * value(cols[l], 0.3027756377))
                });
                near(c, m, &determinant4x4_sign);
            }
        }
        c.count(3 * quadruples.len() as u64, 3 * quadruples.len() as u64, 3 * quadruples.len() as u64);
    });
    // The rules of signs.
    let all = [(Sign::Positive, 1i64), (Sign::Negative, -1), (Sign::Zero, 0)];
    for (a, x) in all {
        for (b, y) in all {
            if a * b != sign(x * y) {
                c.violation("rules", &format!("{a:?} times {b:?} is {:?}", a * b), json!({}));
            }
        }
        let ok = Sign::of(x as f64 * 0.25) == a && a.is_positive() == (x > 0) && a.is_negative() == (x < 0);
        if !ok || catch(|| a.panic_if_zero(|| "zero").is_positive()).is_err() != (x == 0) {
            c.violation("rules", &format!("{a:?} is not the sign of {x}"), json!({}));
        }
        c.count(4, 6, 4);
    }
    c.sample(json!({"integers": "all 3x3 matrices over -2..2"}));
    c.sample(json!({"degenerate": "0.5 + k ulp, 0.5 + l ulp, against the line through 12 and 24"}));
    c.info("bounds", json!(format!("all 3x3 matrices over -{top}..{top}, all 4x4 over {base} values, 5x5 with a border of ones; {n} ulp steps in both coordinates around 30 degenerate lines and planes and 20 degenerate circles and spheres, at scales 1e-4 to 1e5; all rounded products of vectors of 22 (34) values (3x3, where the floating point evaluation is wrong) and sums of two of them of 9 (12) values (4x4)")));
    c.finish()
}
