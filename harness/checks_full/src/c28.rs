//! C28: boxes: what they contain, their parts, distances, and what is read for them.
use mc::*;
use subsweep::verif::boxes::*;

fn bbox(d: usize, points: &[[f64; 3]]) -> Option<Corners> {
    let mut min = *points.first()?;
    let mut max = min;
    for p in points {
        for k in 0..d {
            min[k] = min[k].min(p[k]);
            max[k] = max[k].max(p[k]);
        }
    }
    for k in d..3 {
        (min[k], max[k]) = (0.0, 0.0);
    }
    Some((min, max, [0, 1, 2].map(|k| (min[k] + max[k]) / 2.0)))
}

fn same(d: usize, a: &Corners, b: &Corners) -> bool {
    (0..d).all(|k| a.0[k] == b.0[k] && a.1[k] == b.1[k] && (a.2[k] - b.2[k]).abs() <= 4.0 * f64::EPSILON * (a.0[k].abs() + a.1[k].abs()))
}

fn main() {
    let c = Check::new("C28");
    c.assume("quantities are those of the stand-in for diman in harness/shims");
    for three in [false, true] {
        let d = if three { 3 } else { 2 };
        let coords = [-2.0, 0.0, 0.5, 3.0];
        let n = 4u64.pow(d as u32);
        let at = |i: u64| {
            let v = digits(i, 4, d);
            let mut p = [0.0; 3];
            for k in 0..d {
                p[k] = coords[v[k] as usize];
            }
            p
        };
        // bounding boxes of all lists of points and of all pairs of boxes
        let len = c.pick(if three { 2 } else { 3 }, if three { 3 } else { 5 });
        for l in 0..=len {
            let total = n.pow(l as u32);
            par(total as usize, |i| {
                let p: Vec<_> = digits(i as u64, n, l).into_iter().map(|x| at(x as u64)).collect();
                let got = around(three, &p);
                let want = bbox(d, &p);
                let ok = match (&got, &want) {
                    (None, None) => true,
                    (Some(a), Some(b)) => same(d, a, b),
                    _ => false,
                };
                if !ok {
                    c.violation("bounding-box", &format!("the bounding box of {p:?} is {got:?}, not {want:?}"), json!({"points": p}));
                }
                if l % 2 == 0 {
                    let boxes: Vec<_> = p.chunks(2).map(|q| bbox(d, q).map(|b| (b.0, b.1)).unwrap()).collect();
                    let got = around_all(three, &boxes);
                    let ok = match (&got, &want) {
                        (None, None) => true,
                        (Some(a), Some(b)) => same(d, a, b),
                        _ => false,
                    };
                    if !ok {
                        c.violation("bounding-box", &format!("the boxes {boxes:?} are in {got:?}, not in {want:?}"), json!({"boxes": boxes}));
                    }
                }
                c.count(1, 1, 1);
            });
        }
        // all boxes with corners on this lattice and all points on a finer one around it
        let sides = [(-2.0, 3.0), (0.0, 0.5), (-2.0, -1.0), (0.5, 0.5), (1e-3, 3e5)];
        let nb = 5usize.pow(d as u32);
        par(nb, |i| {
            let v = digits(i as u64, 5, d);
            let (mut min, mut max) = ([0.0; 3], [0.0; 3]);
            for k in 0..d {
                (min[k], max[k]) = sides[v[k] as usize];
            }
            let case = || json!({"min": min, "max": max, "dimensions": d});
            let (b, volume, longest, parts) = facts(three, min, max);
            let len: Vec<f64> = (0..d).map(|k| max[k] - min[k]).collect();
            let want = bbox(d, &[min, max]).unwrap();
            if !same(d, &b, &want) {
                c.violation("box", &format!("the box from {min:?} to {max:?} is {b:?}"), case());
            }
            if !close(volume, len.iter().product(), 1e-12) {
                c.violation("volume", &format!("the box from {min:?} to {max:?} has volume {volume}"), case());
            }
            if longest != len.iter().cloned().fold(0.0, f64::max) {
                c.violation("side", &format!("the longest side of the box from {min:?} to {max:?} is {longest}"), case());
            }
            // part i has the upper half in dimension k iff bit k of i is set
            if parts.len() != 1 << d {
                c.violation("parts", &format!("a box has {} parts in {d} dimensions", parts.len()), case());
                return;
            }
            for (j, p) in parts.iter().enumerate() {
                let mut w = (min, max);
                for k in 0..d {
                    if j >> k & 1 == 1 {
                        w.0[k] = b.2[k];
                    } else {
                        w.1[k] = b.2[k];
                    }
                }
                if !same(d, p, &bbox(d, &[w.0, w.1]).unwrap()) {
                    c.violation("parts", &format!("part {j} of the box from {min:?} to {max:?} is {p:?}, not {w:?}"), case());
                }
            }
            c.count(1, 4 + parts.len() as u64, 1);
            // points: below, at the faces, at the centre, one ulp to each side of these, above
            let at = |k: usize, j: usize| {
                let (a, b, m) = (min[k], max[k], b.2[k]);
                [a - 1.0, a.next_down(), a, a.next_up(), m.next_down(), m, m.next_up(), b.next_down(), b, b.next_up(), b + 2.0][j]
            };
            for i in 0..11u64.pow(d as u32) {
                let v = digits(i, 11, d);
                let mut p = [0.0; 3];
                for k in 0..d {
                    p[k] = at(k, v[k] as usize);
                }
                let (inside, part, d2) = point(three, min, max, p);
                let want = (0..d).all(|k| min[k] <= p[k] && p[k] <= max[k]);
                if inside != want {
                    c.violation("contains", &format!("the box from {min:?} to {max:?} contains {p:?}: {inside}"), case());
                }
                if let Some(j) = part {
                    let want: usize = (0..d).map(|k| ((p[k] >= b.2[k]) as usize) << k).sum();
                    if j != want {
                        c.violation("part", &format!("{p:?} is in part {j} of the box from {min:?} to {max:?}, not in part {want}"), case());
                    }
                }
                if let Some(x) = d2 {
                    let want: f64 = (0..d).map(|k| (p[k] - p[k].clamp(min[k], max[k])).powi(2)).sum();
                    if (x - want).abs() > 1e-12 * want {
                        c.violation("distance", &format!("the squared distance of {p:?} from the box from {min:?} to {max:?} is {x}, not {want}"), case());
                    }
                }
                // The other box: from the point to the upper corner or its mirror image.
                let mut q = max;
                for k in 0..d {
                    if i >> k & 1 == 1 {
                        q[k] = p[k] + 0.25 * (max[k] - min[k]);
                    }
                }
                let (a, o, corners, mapped) = plain(three, min, max, p, (p, q));
                let q_in = (0..d).all(|k| min[k] <= q[k] && q[k] <= max[k]);
                if a != want || o != (want && q_in) {
                    c.violation("contains", &format!("the box from {min:?} to {max:?} contains {p:?}: {a}; the box from there to {q:?}: {o}"), case());
                }
                if i == 0 {
                    let mut got = corners.clone();
                    let mut all: Vec<[f64; 3]> = (0..1 << d).map(|j| {
                        let mut x = [0.0; 3];
                        for k in 0..d {
                            x[k] = if j >> k & 1 == 1 { max[k] } else { min[k] };
                        }
                        x
                    }).collect();
                    got.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    all.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    if got != all {
                        c.violation("corners", &format!("the corners of the box from {min:?} to {max:?} are {corners:?}"), case());
                    }
                }
                if let Some(m) = mapped {
                    if longest > 0.0 {
                        for k in 0..d {
                            let want = 1.0 + (p[k] - min[k]) / longest;
                            if (m[k] - want).abs() > 1e-15 * 4.0 || !(1.0..=2.0 + 1e-15).contains(&m[k]) {
                                c.violation("remap", &format!("{p:?} in the box from {min:?} to {max:?} becomes {m:?}"), case());
                            }
                        }
                    }
                }
                c.count(1, 4, 1);
            }
        });
        for r in [0.0, 0.5, 1e-3, 1e10] {
            for i in 0..n {
                let p = at(i);
                let got = sphere(three, p, r);
                let want = bbox(d, &[p.map(|x| x - r), p.map(|x| x + r)]).unwrap();
                if !(0..d).all(|k| got.0[k] == want.0[k] && got.1[k] == want.1[k] && got.2[k] == p[k]) {
                    c.violation("sphere", &format!("the box around {p:?} with radius {r} is {got:?}"), json!({"center": p, "radius": r}));
                }
                c.count(1, 1, 1);
            }
        }
        // cubes and what is read
        for side in [1.0, 0.1, 5.0, 3e22] {
            for centered in [false, true] {
                let lo = if centered { -side / 2.0 } else { 0.0 };
                let want = bbox(d, &[[lo; 3], [lo + side; 3]]).unwrap();
                let got = cube(three, centered, side);
                if !same(d, &got, &want) {
                    c.violation("cube", &format!("the cube of {side} m (centered: {centered}) is {got:?}"), json!({"side": side}));
                }
                c.count(1, 1, 1);
            }
            for (unit, si) in [("m", 1.0), ("km", 1000.0), ("kpc", 3.0857e19)] {
                let vec = |x: [f64; 3]| if three { format!("({:?} {:?} {:?}) {unit}", x[0], x[1], x[2]) } else { format!("({:?} {:?}) {unit}", x[0], x[1]) };
                let (p, q) = ([-side, 0.5 * side, 0.0], [side, 2.0 * side, 3.0 * side]);
                for (text, lo, hi) in [
                    (format!("{side:?} {unit}"), [0.0; 3], [side; 3]),
                    (vec(q), [0.0; 3], q),
                    (format!("min: {}\nmax: {}", vec(p), vec(q)), p, q),
                    (format!("{{max: {}, min: {}}}", vec(q), vec(p)), p, q),
                ] {
                    let want = bbox(d, &[lo.map(|x| x * si), hi.map(|x| x * si)]).unwrap();
                    let ok = match read(three, &text) {
                        Ok(got) => (0..d).all(|k| close(got.0[k], want.0[k], 1e-4) && close(got.1[k], want.1[k], 1e-4) && (got.2[k] - want.2[k]).abs() <= 1e-4 * (want.1[k] - want.0[k])),
                        Err(_) => false,
                    };
                    if !ok {
                        c.violation("read", &format!("{text:?} is read as {:?}, not as {want:?}", read(three, &text)), json!({"text": text}));
                    }
                    c.count(1, 1, 1);
                }
                for text in [format!("min: {}", vec(p)), format!("{side:?} s"), format!("{side:?}"), format!("max: {}", vec(p)), "true".into(), "[]".into()] {
                    if let Ok(x) = read(three, &text) {
                        c.violation("read", &format!("{text:?} is no box but read as {x:?}"), json!({"text": text}));
                    }
                    c.count(1, 1, 1);
                }
            }
            if three {
                let (p, q) = ([-side, 0.5 * side, 0.0], [side, 2.0 * side, 3.0 * side]);
                let text = write(p, q);
                let got = read(true, &text);
                let ok = matches!(&got, Ok(b) if b.0 == p && b.1 == q);
                if !ok {
                    c.violation("read", &format!("the box from {p:?} to {q:?} is written as {text:?} and read as {got:?}"), json!({"text": text}));
                }
                c.count(1, 1, 1);
            }
        }
    }
    c.info("bounds", json!("2 and 3 dimensions: all lists of up to 3 (5) and 2 (3) points over 4 coordinates, all boxes over 5 sides, thin ones included, with all points below, at, one unit in the last place beside and above each face and the centre"));
    c.finish()
}
