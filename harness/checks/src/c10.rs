//! C10: directions stay unit vectors with the same angles between them under rotation; the number
//! of missing upwind neighbours is counted per direction.
use mc::*;
use rand::{rngs::StdRng, SeedableRng};
use subsweep::sweep::verif::{direction, CountByDir, DirectionIndex};
use subsweep::units::MVec;

fn dot(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}

fn rotations(c: &Check, seed: u64, num: usize) {
    let mut rng = StdRng::seed_from_u64(seed);
    let sets = direction::direction_bins();
    let mut dirs: Vec<Vec<[f64; 3]>> = sets.iter().map(|s| s.1.clone()).collect();
    let angles: Vec<Vec<f64>> = dirs.iter().map(|d| d.iter().map(|x| dot(x, &d[(x[0] * 1e6) as usize % d.len()])).collect()).collect();
    let idx: Vec<Vec<usize>> = dirs.iter().map(|d| d.iter().map(|x| (x[0] * 1e6) as usize % d.len()).collect()).collect();
    let mut mean = [[0.0; 3]; 3];
    let mut square = [[0.0; 3]; 3];
    for step in 0..num {
        if c.stopped() {
            return;
        }
        let case = || json!({"seed": seed, "rotation": step});
        let Some(m) = c.guard("rotation", case, || direction::get_random_rotation_matrix(&mut rng)) else { return };
        // Orthonormal rows and columns, and no reflection.
        for i in 0..3 {
            for j in 0..3 {
                let want = if i == j { 1.0 } else { 0.0 };
                let row = dot(&m[i], &m[j]);
                let col: f64 = (0..3).map(|k| m[k][i] * m[k][j]).sum();
                if (row - want).abs() > 1e-12 || (col - want).abs() > 1e-12 {
                    c.violation("rotation", &format!("rotation {step} of seed {seed}: {m:?} is not orthogonal"), case());
                    return;
                }
            }
        }
        let det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
        if (det - 1.0).abs() > 1e-12 {
            c.violation("rotation", &format!("rotation {step} of seed {seed} has the determinant {det}"), case());
            return;
        }
        for i in 0..3 {
            for j in 0..3 {
                mean[i][j] += m[i][j] / num as f64;
                square[i][j] += m[i][j] * m[i][j] / num as f64;
            }
        }
        // The directions of a run, rotated again and again; one of the sets per step, from the start.
        let s = step % dirs.len();
        for (k, v) in dirs[s].iter_mut().enumerate() {
            let mut x = MVec::new(v[0], v[1], v[2]);
            direction::multiply_by_matrix(&mut x, &m);
            for r in 0..3 {
                if (x.to_array()[r] - dot(&m[r], v)).abs() > 1e-12 {
                    c.violation("rotation", &format!("{v:?} rotated by {m:?} gives {x:?}"), json!({"direction": k}));
                    return;
                }
            }
            *v = x.to_array();
        }
        if step % 50 == 49 {
            for s in 0..dirs.len() {
                for (k, v) in dirs[s].iter().enumerate() {
                    if (dot(v, v) - dot(&sets[s].1[k], &sets[s].1[k])).abs() > 1e-9
                        || (dot(v, &dirs[s][idx[s][k]]) - angles[s][k]).abs() > 1e-9
                    {
                        c.violation("drift", &format!("after {step} rotations, direction {k} of {} is {v:?}", dirs[s].len()), case());
                        return;
                    }
                }
            }
        }
        c.count(1, 1 + dirs[s].len() as u64, 1);
    }
    // No axis of space is special: the averages are those of an isotropic matrix.
    for (k, m) in [&mean, &square].into_iter().enumerate() {
        let diagonal = (m[0][0] + m[1][1] + m[2][2]) / 3.0;
        let others = (0..3).flat_map(|i| (0..3).filter(move |j| *j != i).map(move |j| (i, j)));
        let rest = if k == 0 { 0.0 } else { others.map(|(i, j)| m[i][j]).sum::<f64>() / 6.0 };
        for i in 0..3 {
            for j in 0..3 {
                let want = if i == j { diagonal } else { rest };
                if (m[i][j] - want).abs() > 0.03 {
                    let what = ["matrix", "squares"][k];
                    c.violation("isotropy", &format!("the rotations prefer an axis: their mean {what} of {num} is {m:?}"), json!({"seed": seed}));
                    return;
                }
            }
        }
    }
    if seed == 1337 {
        c.info("mean_rotation", json!(mean));
        c.info("mean_of_squares", json!(square));
    }
}

fn counts(c: &Check, depth: usize) {
    // Operations: reduce, add one by index, read total, on 3 directions.
    for init in 0..4usize {
        par(7usize.pow(2), |j| {
            for i in 0..7u64.pow(depth as u32 - 2) {
                let mut ops = vec![(j % 7) as u64, (j / 7) as u64];
                ops.extend(digits(i, 7, depth - 2));
                let case = || json!({"initial": init, "ops": ops});
                let r = c.guard("count", case, || {
                    let mut x = CountByDir::new(3, init);
                    let mut m = vec![init; 3];
                    for op in &ops {
                        let d = DirectionIndex((op % 3) as usize);
                        match op / 3 {
                            0 if m[d.0] > 0 => {
                                m[d.0] -= 1;
                                if x.reduce(d) != m[d.0] {
                                    return false;
                                }
                            }
                            1 => {
                                x[d] += 2;
                                m[d.0] += 2;
                            }
                            _ => {
                                if x.total() != m.iter().sum::<usize>() {
                                    return false;
                                }
                            }
                        }
                    }
                    x.total() == m.iter().sum::<usize>() && (0..3).all(|k| x[DirectionIndex(k)] == m[k])
                });
                if r == Some(false) {
                    c.violation("count", &format!("counts from {init} after {ops:?} differ from the reference"), case());
                    return;
                }
                c.count(1, depth as u64, 1);
            }
        });
    }
    for n in [1usize, 2, 16, 21, 32, 64, 84, 256, 1000] {
        for init in [0usize, 1, 6, 40, 1 << 33] {
            let case = || json!({"directions": n, "initial": init});
            let ok = c.guard("count", case, || {
                let mut x = CountByDir::new(n, init);
                let mut total = n * init;
                for k in 0..n {
                    let d = DirectionIndex((k * 7 + 3) % n);
                    x[d] += k + 1;
                    total += k + 1;
                    let before = x[d];
                    if x.reduce(d) + 1 != before || x[d] + 1 != before {
                        return false;
                    }
                    total -= 1;
                    if x.total() != total {
                        return false;
                    }
                }
                (0..n).map(|k| x[DirectionIndex(k)]).sum::<usize>() == total
            });
            if ok == Some(false) {
                c.violation("count", &format!("counts of {n} directions from {init} are wrong"), case());
            }
            c.count(1, 3 * n as u64, 1);
        }
    }
    if CountByDir::empty().total() != 0 {
        c.violation("count", "the empty count is not 0", json!({}));
    }
}

fn main() {
    let c = Check::new("C10");
    for (n, bins) in direction::direction_bins() {
        let case = || json!({"bins": n});
        if bins.len() != n {
            c.violation("bins", &format!("{n} directions are {}", bins.len()), case());
        }
        let mut sum = [0.0; 3];
        for (i, v) in bins.iter().enumerate() {
            for k in 0..3 {
                sum[k] += v[k] / n as f64;
            }
            if (dot(v, v) - 1.0).abs() > 1e-5 {
                c.violation("bins", &format!("direction {i} of {n} is not a unit vector: {v:?}"), case());
            }
            for (j, w) in bins[..i].iter().enumerate() {
                if dot(v, w) > 0.999 {
                    c.violation("bins", &format!("directions {j} and {i} of {n} are the same"), case());
                }
            }
        }
        if dot(&sum, &sum).sqrt() > 0.02 {
            c.violation("bins", &format!("the {n} directions have a preferred direction {sum:?}"), case());
        }
        c.info(&format!("mean_of_{n}_directions"), json!(dot(&sum, &sum).sqrt()));
        c.count(n as u64, n as u64, 1);
    }
    // Seed 1337 is what every simulation uses: these are the first rotations of every run.
    let num = c.pick(20_000, 200_000);
    par(8, |j| rotations(c, if j == 0 { 1337 } else { j as u64 }, num));
    counts(c, c.pick(6, 7));
    c.sample(json!({"seed": 1337, "rotations": num}));
    c.sample(json!({"counts": "reduce, add, total over 3 directions"}));
    c.info("bounds", json!(format!("the first {num} rotations of every simulation (its random seed is fixed) and of 7 other seeds, all direction tables; all sequences of counting operations")));
    c.finish()
}
