//! C24: the vectors, exact numbers and signs below the geometric predicates.
use mc::*;
use num::{BigRational, FromPrimitive, One, Zero};
use subsweep::voronoi::math::precision_types::*;
use subsweep::voronoi::math::traits::*;
use subsweep::voronoi::math::utils::{lift_matrix, Sign};

type Q = BigRational;
fn q(x: f64) -> Q {
    Q::from_f64(x).unwrap()
}

/// Values of different size, whose sums and products are rounded.
const ODD: [f64; 9] = [0.0, 0.1, -0.3, 1.0 + f64::EPSILON, -1.0 / 3.0, 1e-160, -7e150, 1e16, -1.0];
const SMALL: [f64; 6] = [-2.0, -1.0, 0.0, 1.0, 2.0, 5.0];

fn near(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 16.0 * f64::EPSILON * scale
}

fn floats<V>(name: &str, a: V, b: V, xs: &[f64], ys: &[f64], get: fn(V, usize) -> f64) -> Result<(), String>
where
    V: DVector<Float = f64> + Copy,
{
    let n = xs.len();
    let pair = || format!("{name}s {xs:?} and {ys:?}");
    let dot: f64 = (0..n).map(|k| xs[k] * ys[k]).sum();
    let size: f64 = (0..n).map(|k| (xs[k] * ys[k]).abs()).sum();
    let got = Dot::dot(a, b);
    if !near(got, dot, size) {
        return Err(format!("the dot product of the {} is {got}, not {dot}", pair()));
    }
    let d2: f64 = (0..n).map(|k| (xs[k] - ys[k]).powi(2)).sum();
    let got = DVector::distance_squared(&a, b);
    if !near(got, d2, d2) {
        return Err(format!("the squared distance of the {} is {got}, not {d2}", pair()));
    }
    let got = DVector::distance(&a, b);
    if !near(got, d2.sqrt(), d2.sqrt()) {
        return Err(format!("the distance of the {} is {got}, not {}", pair(), d2.sqrt()));
    }
    let (lo, hi) = (MinMax::min(a, b), MinMax::max(a, b));
    for k in 0..n {
        if get(lo, k) != xs[k].min(ys[k]) || get(hi, k) != xs[k].max(ys[k]) {
            return Err(format!("smallest and largest coordinates of the {} are wrong", pair()));
        }
    }
    let most = xs.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    if DVector::max_element(a) != most {
        return Err(format!("the largest element of {xs:?} is given as {}", DVector::max_element(a)));
    }
    let len = xs.iter().map(|x| x * x).sum::<f64>().sqrt();
    if len > 1e-100 && len < 1e100 {
        let u = DVector::normalize(&a);
        for k in 0..n {
            if !near(get(u, k), xs[k] / len, 1.0) {
                return Err(format!("{xs:?} of length {len} is normalized to {} in direction {k}", get(u, k)));
            }
        }
    }
    Ok(())
}

fn vectors(x: [f64; 3], y: [f64; 3], small: bool) -> Result<(), String> {
    let two = |v: [f64; 3]| glam::DVec2::new(v[0], v[1]);
    let three = |v: [f64; 3]| glam::DVec3::new(v[0], v[1], v[2]);
    if x.iter().chain(&y).all(|x| x.abs() < 1e100 && (*x == 0.0 || x.abs() > 1e-100)) {
        floats("number", x[0], y[0], &x[..1], &y[..1], |v, _| v)?;
        floats("point", two(x), two(y), &x[..2], &y[..2], |v, k| v[k])?;
        floats("point", three(x), three(y), &x, &y, |v, k| v[k])?;
    }
    if [Vector2d::x(&two(x)), Vector2d::y(&two(x))] != x[..2]
        || [Vector3d::x(&three(x)), Vector3d::y(&three(x)), Vector3d::z(&three(x))] != x
    {
        return Err(format!("wrong coordinates of {x:?}"));
    }
    // exact numbers
    let (a, b) = (PrecisionPoint3d::new(three(x)), PrecisionPoint3d::new(three(y)));
    let (u, v) = (x.map(q), y.map(q));
    if [Vector3d::x(&a), Vector3d::y(&a), Vector3d::z(&a)] != u {
        return Err(format!("{x:?} is not exact as {a:?}"));
    }
    let p = PrecisionPoint2d::new(two(x));
    if [Vector2d::x(&p), Vector2d::y(&p)] != u[..2] {
        return Err(format!("{x:?} is not exact as {p:?}"));
    }
    let dot = (0..3).fold(Q::zero(), |s, k| s + &u[k] * &v[k]);
    if Dot::dot(a.clone(), b.clone()) != dot {
        return Err(format!("the exact dot product of {x:?} and {y:?} is wrong"));
    }
    let c = Cross3d::cross(&a, &b);
    let f = Cross3d::cross(&three(x), &three(y));
    for k in 0..3 {
        let (i, j) = ((k + 1) % 3, (k + 2) % 3);
        let want = &u[i] * &v[j] - &u[j] * &v[i];
        if [&c.x, &c.y, &c.z][k] != &want {
            return Err(format!("component {k} of the exact cross product of {x:?} and {y:?} is wrong"));
        }
        if small && q(f[k]) != want {
            return Err(format!("component {k} of the cross product of {x:?} and {y:?} is {}", f[k]));
        }
    }
    let (s, d) = (a.clone() + b.clone(), a - b);
    for k in 0..3 {
        if [&s.x, &s.y, &s.z][k] != &(&u[k] + &v[k]) || [&d.x, &d.y, &d.z][k] != &(&u[k] - &v[k]) {
            return Err(format!("the exact sum or difference of {x:?} and {y:?} is wrong"));
        }
    }
    let (p, r) = (PrecisionPoint2d::new(two(x)), PrecisionPoint2d::new(two(y)));
    let (s, d) = (p.clone() + r.clone(), p - r);
    for k in 0..2 {
        if [&s.x, &s.y][k] != &(&u[k] + &v[k]) || [&d.x, &d.y][k] != &(&u[k] - &v[k]) {
            return Err(format!("the exact sum or difference of {:?} and {:?} is wrong", &x[..2], &y[..2]));
        }
    }
    Ok(())
}

fn signs() -> Result<u64, String> {
    let of = |x: i32| if x > 0 { Sign::Positive } else if x < 0 { Sign::Negative } else { Sign::Zero };
    let mut n = 0;
    for a in -1..=1 {
        for b in -1..=1 {
            n += 1;
            if of(a) * of(b) != of(a * b) {
                return Err(format!("{:?} times {:?} is {:?}", of(a), of(b), of(a) * of(b)));
            }
        }
        let s = of(a);
        if s.is_positive() != (a > 0) || s.is_negative() != (a < 0) {
            return Err(format!("{s:?}: positive {}, negative {}", s.is_positive(), s.is_negative()));
        }
        let panics = quietly(|| {
            s.panic_if_zero(|| "zero");
        });
        if panics != (a == 0) {
            return Err(format!("{s:?} {} refused as zero", if panics { "is" } else { "is not" }));
        }
    }
    for x in [0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, 1e-16, -1e-16, 1e-15, -1e-15, 2.0, -2.0, 1.9999999999999998, 2.0000000000000004] {
        n += 1;
        let want = of(if x > 0.0 { 1 } else if x < 0.0 { -1 } else { 0 });
        if Sign::of(x) != want || (x.is_finite() && Sign::of(q(x)) != want) {
            return Err(format!("the sign of {x} is given as {:?}", Sign::of(x)));
        }
        for eps in [0.0, 1e-15, 1e-320, 2.0] {
            let r = Sign::try_from_val(&x, eps);
            if (x.abs() < eps && r.is_ok()) || (x.abs() >= eps && r != Ok(want)) {
                return Err(format!("the sign of {x} to within {eps} is given as {r:?}"));
            }
            if x.is_finite() && Sign::try_from_val(&q(x), eps) != Ok(want) {
                return Err(format!("the sign of the exact number {x} is given as {:?}", Sign::try_from_val(&q(x), eps)));
            }
        }
    }
    for x in ODD {
        for y in ODD {
            n += 1;
            let m = lift_matrix([[x, y], [y, 1.0]]);
            if m != [[q(x), q(y)], [q(y), Q::one()]] {
                return Err(format!("the matrix [[{x}, {y}], [{y}, 1]] becomes {m:?}"));
            }
        }
    }
    Ok(n)
}

fn quietly(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

fn main() {
    let c = Check::new("C24");
    match c.guard("signs", || json!("signs"), signs) {
        Some(Ok(n)) => c.count(n, n, n),
        Some(Err(e)) => c.violation("signs", &e, json!("signs")),
        None => {}
    }
    for (small, set) in [(true, &SMALL[..]), (false, &ODD[..])] {
        let set = if c.thorough || small { set } else { &set[..7] };
        let n = set.len();
        let one = n * n * n;
        par(one, |i| {
            if c.stopped() {
                return;
            }
            let at = |i: usize| [set[i % n], set[i / n % n], set[i / n / n]];
            for j in 0..one {
                let case = || json!({"a": at(i), "b": at(j)});
                if let Some(Err(e)) = c.guard("vectors", case, || vectors(at(i), at(j), small)) {
                    c.violation("vectors", &e, case());
                    return;
                }
            }
            c.count(one as u64, 20 * one as u64, one as u64);
            if i == one / 2 {
                c.sample(json!({"a": at(i), "b": at(1)}));
            }
        });
    }
    c.info("bounds", json!(format!("all pairs of vectors over {SMALL:?} and over {ODD:?}, in 1, 2 and 3 dimensions, in floating point and exact numbers; all signs")));
    c.finish()
}
