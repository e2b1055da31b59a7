//! C08: the linear solvers behind circumcentres and point location return the solution.

#![feature(generic_const_exprs)]
#![allow(incomplete_features)]
use mc::*;
use num::{BigRational, FromPrimitive};
use subsweep::voronoi::math::utils::*;

fn det3(m: &[[i64; 3]; 3]) -> i64 {
    m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
}

fn cramer(m: &[[i64; 3]; 3], rhs: [i64; 3], k: usize) -> i64 {
    let mut a = *m;
    for r in 0..3 {
        a[r][k] = rhs[r];
    }
    det3(&a)
}

fn ok(x: f64, num: i64, den: i64) -> bool {
    let want = num as f64 / den as f64;
    (x - want).abs() <= 1e-10 * (1.0 + want.abs())
}

fn three(c: &Check, m: &[[i64; 3]; 3], rhs: [i64; 3], scale: f64, rational: bool) {
    let det = det3(m);
    let a: [[f64; 4]; 3] =
        std::array::from_fn(|r| std::array::from_fn(|k| scale * if k < 3 { m[r][k] } else { rhs[r] } as f64));
    let case = || json!({"system": a.iter().map(|r| r.to_vec()).collect::<Vec<_>>()});
    let Some(guarded) = c.guard("3x3", case, || solve_3x4_system_of_equations_error(a)) else { return };
    if det == 0 {
        // The tolerance of the solver is absolute, so that with large entries that do not divide each
        // other the rounding of the elimination may exceed it.
        if scale > 1e6 && m.iter().flatten().any(|x| x.abs() > 2) {
            return;
        }
        if let Ok(x) = guarded {
            c.violation("3x3", &format!("{a:?} is singular, but is solved by {x:?}"), case());
        }
        return;
    }
    let want: [i64; 3] = std::array::from_fn(|k| cramer(m, rhs, k));
    match guarded {
        Err(_) => c.violation("3x3", &format!("{a:?} is well conditioned but not solved"), case()),
        Ok(x) => {
            if (0..3).any(|k| !ok(x[k], want[k], det)) {
                c.violation("3x3", &format!("{a:?} is solved by {want:?}/{det}, not {x:?}"), case());
            }
        }
    }
    let Some(x) = c.guard("3x3", case, || solve_system_of_equations::<3, f64>(a)) else { return };
    if (0..3).any(|k| !ok(x[k], want[k], det)) {
        c.violation("3x3", &format!("{a:?} is solved by {want:?}/{det}, not {x:?}"), case());
    }
    if rational {
        let q = a.map(|r| r.map(|x| BigRational::from_f64(x).unwrap()));
        let Some(x) = c.guard("3x3", case, || solve_system_of_equations::<3, BigRational>(q)) else { return };
        if (0..3).any(|k| x[k] != BigRational::new(want[k].into(), det.into())) {
            c.violation("3x3", &format!("{a:?} is solved by {want:?}/{det}, not {x:?}"), case());
        }
    }
}

/// The solution satisfies the system up to rounding, however different in size the entries are.
fn graded(c: &Check, m: &[[f64; 3]; 3], rhs: [f64; 3]) {
    let a: [[f64; 4]; 3] = std::array::from_fn(|r| std::array::from_fn(|k| if k < 3 { m[r][k] } else { rhs[r] }));
    let case = || json!({"system": a});
    let big = m.iter().flatten().fold(0.0, |x: f64, y| x.max(y.abs()));
    let check = |name: &str, x: [f64; 3]| {
        let size = x.iter().fold(0.0, |x: f64, y| x.max(y.abs()));
        for r in 0..3 {
            let off: f64 = (0..3).map(|k| m[r][k] * x[k]).sum::<f64>() - rhs[r];
            if !(off.abs() <= 1e-14 * (1.0 + big * size)) {
                c.violation("graded", &format!("{name}: {x:?} does not solve {a:?}: row {r} is off by {off:e}"), case());
                return;
            }
        }
    };
    match c.guard("graded", case, || solve_3x4_system_of_equations_error(a)) {
        Some(Ok(x)) => check("fixed size", x),
        _ => return,
    }
    if let Some(x) = c.guard("graded", case, || solve_system_of_equations::<3, f64>(a)) {
        check("any size", x);
    }
}

fn main() {
    let c = Check::new("C08");
    let top = c.pick(2i64, 3);
    let base = (2 * top + 1) as u64;
    let rhs = [[1, 0, 0], [1, -2, 3], [0, 0, 0], [5, 7, -1]];
    let scales = [1.0, 2f64.powi(-8), 2f64.powi(40), 3.0];
    par(base.pow(4) as usize, |j| {
        let head = digits(j as u64, base, 4);
        let n = base.pow(5);
        for i in 0..n {
            if c.stopped() {
                return;
            }
            let mut d = head.clone();
            d.extend(digits(i, base, 5));
            let m: [[i64; 3]; 3] = std::array::from_fn(|r| std::array::from_fn(|k| d[r * 3 + k] as i64 - top));
            let small = m.iter().flatten().all(|x| x.abs() <= 1);
            for (k, r) in rhs.iter().enumerate() {
                three(c, &m, *r, scales[(k + i as usize) % 4], small || c.thorough && i % 17 == 0);
            }
            if i == 1234 && j % 100 == 11 {
                c.sample(json!({"matrix": m}));
            }
        }
        c.count(4 * n, 8 * n, 4 * n);
    });
    // Entries of different size, for which the order of elimination matters.
    let small = 2f64.powi(-20);
    let values: Vec<f64> = c.pick(vec![0.0, 1.0, -1.5, small, -3.0 * small], vec![0.0, 1.0, -1.5, small, -3.0 * small, 2f64.powi(12)]);
    let base = values.len() as u64;
    par(base.pow(4) as usize, |j| {
        let head = digits(j as u64, base, 4);
        for i in 0..base.pow(5) {
            if c.stopped() {
                return;
            }
            let mut d = head.clone();
            d.extend(digits(i, base, 5));
            let m: [[f64; 3]; 3] = std::array::from_fn(|r| std::array::from_fn(|k| values[d[r * 3 + k] as usize]));
            graded(c, &m, [1.0, -2.0, 0.7]);
        }
        c.count(base.pow(5), 2 * base.pow(5), base.pow(5));
    });
    // Two unknowns.
    let top = c.pick(5i64, 8);
    let base = (2 * top + 1) as u64;
    par(base.pow(2) as usize, |j| {
        let mut d = digits(j as u64, base, 2);
        d.extend([0; 4]);
        for i in 0..base.pow(4) {
            if c.stopped() {
                return;
            }
            for (k, x) in digits(i, base, 4).iter().enumerate() {
                d[2 + k] = *x;
            }
            let v: Vec<i64> = d.iter().map(|x| *x as i64 - top).collect();
            let det = v[0] * v[3] - v[1] * v[2];
            if det == 0 {
                continue;
            }
            let want = [v[4] * v[3] - v[1] * v[5], v[0] * v[5] - v[4] * v[2]];
            let a = [[v[0] as f64, v[1] as f64, v[4] as f64], [v[2] as f64, v[3] as f64, v[5] as f64]];
            let case = || json!({"system": a});
            let Some(x) = c.guard("2x2", case, || solve_system_of_equations::<2, f64>(a)) else { return };
            if (0..2).any(|k| !ok(x[k], want[k], det)) {
                c.violation("2x2", &format!("{a:?} is solved by {want:?}/{det}, not {x:?}"), case());
            }
            if i % 41 == 0 {
                let q = a.map(|r| r.map(|x| BigRational::from_f64(x).unwrap()));
                let Some(x) = c.guard("2x2", case, || solve_system_of_equations::<2, BigRational>(q)) else { return };
                if (0..2).any(|k| x[k] != BigRational::new(want[k].into(), det.into())) {
                    c.violation("2x2", &format!("{a:?} is solved by {want:?}/{det}, not {x:?}"), case());
                }
            }
        }
        c.count(base.pow(4), base.pow(4), base.pow(4));
    });
    c.info("bounds", json!("all 3x3 systems over -2..2 (3 thorough), 4 right-hand sides, 4 scales; all 3x3 systems over 5 (6) values of size 1 and 2^-20; all 2x2 systems over -5..5 (8 thorough); floats and rationals"));
    c.finish()
}
