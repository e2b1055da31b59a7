//! C17: distances and images in the periodic box, and searches in the tree, are those of a brute
//! force computation over all images.
use mc::*;
use subsweep::domain::{Extent, LeafData, QuadTree};
use subsweep::prelude::{ParticleId, SimulationBox};
use subsweep::units::{Length, VecLength};
use subsweep::verif::{bounding_boxes_overlap_periodic, iter_periodic_images, Node, QuadTreeConfig};

type P = [f64; 3];

fn v(p: P) -> VecLength {
    VecLength::meters(p[0], p[1], p[2])
}
fn arr(p: &VecLength) -> P {
    [p.x().in_meters(), p.y().in_meters(), p.z().in_meters()]
}

#[derive(Clone, Copy, Debug)]
struct Box_ {
    min: P,
    max: P,
}

impl Box_ {
    fn real(&self) -> SimulationBox {
        SimulationBox::new(Extent::from_min_max(v(self.min), v(self.max)))
    }
    fn l(&self, i: usize) -> f64 {
        self.max[i] - self.min[i]
    }
    fn at(&self, f: P) -> P {
        [0, 1, 2].map(|i| self.min[i] + f[i] * self.l(i))
    }
}

const BOXES: [Box_; 4] = [
    Box_ { min: [0.0, 0.0, 0.0], max: [4.0, 4.0, 4.0] },
    Box_ { min: [-1.0, -2.0, -3.0], max: [1.0, 2.0, 3.0] },
    Box_ { min: [1e6, -1e6, 0.0], max: [1e6 + 8.0, -1e6 + 2.0, 1.0] },
    Box_ { min: [-0.5, -0.5, -0.5], max: [0.5, 0.5, 0.5] },
];

/// The shortest distance between any two images.
fn distance(b: &Box_, p: P, q: P) -> f64 {
    let mut sum = 0.0;
    for i in 0..3 {
        let d = (-3..=3).map(|k| (p[i] - q[i] + k as f64 * b.l(i)).abs()).fold(f64::INFINITY, f64::min);
        sum += d * d;
    }
    sum.sqrt()
}

fn geometry(c: &Check) {
    // Fractions of the box, also outside of it.
    let f = [-1.25, -1.0, -0.75, -0.5, -0.25, -1e-18, 0.0, 1e-12, 0.25, 0.5, 0.625, 0.75, 1.0, 1.25, 1.5, 1.75];
    let n = f.len();
    let inside = [0.0, 0.125, 0.25, 0.5, 0.625, 0.875, 1.0];
    for b in BOXES {
        par(n * n * n, |i| {
            if c.stopped() {
                return;
            }
            let box_ = b.real();
            let p = b.at([f[i % n], f[i / n % n], f[i / n / n]]);
            let case = || json!({"box": format!("{b:?}"), "point": p});
            let w = arr(&box_.periodic_wrap(v(p)));
            let eps = 1e-9;
            for k in 0..3 {
                let turns = (p[k] - w[k]) / b.l(k);
                if w[k] < b.min[k] || w[k] > b.max[k] || (turns - turns.round()).abs() > eps {
                    c.violation("wrap", &format!("{p:?} is wrapped to {w:?}"), case());
                }
            }
            // Images.
            let images: Vec<_> = iter_periodic_images(&box_, v(p)).collect();
            let mut seen = vec![];
            for (wrap, q) in &images {
                let q = arr(q);
                let turns = [0, 1, 2].map(|k| ((q[k] - p[k]) / b.l(k)).round() as i32);
                let exact = (0..3).all(|k| (p[k] + turns[k] as f64 * b.l(k) - q[k]).abs() <= 1e-9 * b.l(k));
                let names = format!("{wrap:?}");
                let want: String = turns.iter().map(|t| match t { -1 => '-', 0 => '=', 1 => '+', _ => '?' }).collect();
                if !exact || names != want || wrap.is_periodic() != (turns != [0, 0, 0]) || seen.contains(&turns) {
                    c.violation("images", &format!("image {wrap:?} of {p:?} is at {q:?}"), case());
                }
                seen.push(turns);
            }
            if images.len() != 27 {
                c.violation("images", &format!("{} images", images.len()), case());
            }
            c.count(1, 28, 1);
        });
        let m = inside.len();
        let all: Vec<P> = (0..m * m * m).map(|i| b.at([inside[i % m], inside[i / m % m], inside[i / m / m]])).collect();
        par(all.len(), |i| {
            if c.stopped() {
                return;
            }
            let box_ = b.real();
            for q in &all {
                let p = all[i];
                let want = distance(&b, p, *q);
                let d = box_.periodic_distance(&v(p), &v(*q)).in_meters();
                let vec = arr(&box_.periodic_distance_vec(&v(p), &v(*q)));
                let len = vec.iter().map(|x| x * x).sum::<f64>().sqrt();
                // p - vec must be an image of q.
                let image = (0..3).all(|k| {
                    let t = (p[k] - vec[k] - q[k]) / b.l(k);
                    (t - t.round()).abs() < 1e-8
                });
                if !close(d, want, 1e-9) || !close(len, want, 1e-9) || !image {
                    c.violation(
                        "distance",
                        &format!("the distance of {p:?} and {q:?} is {d} ({vec:?}), not {want}"),
                        json!({"box": format!("{b:?}"), "p": p, "q": q}),
                    );
                    return;
                }
            }
            c.count(1, all.len() as u64, 1);
        });
        // Boxes that overlap must be found to do so.
        let sizes = [0.125, 0.25, 0.5, 1.0];
        par(all.len(), |i| {
            if c.stopped() || i % c.pick(3, 1) != 0 {
                return;
            }
            let box_ = b.real();
            for q in &all {
                for s in sizes {
                    for t in [[s, s, s], [0.0, s, 1.0], [s, 0.0, 0.0]] {
                        let s1 = [0, 1, 2].map(|k| t[k] * b.l(k));
                        let s2 = [0, 1, 2].map(|k| 0.25 * t[(k + 1) % 3] * b.l(k));
                        let overlap = (0..3).all(|k| {
                            let d = (-2..=2).map(|n| (all[i][k] - q[k] + n as f64 * b.l(k)).abs()).fold(f64::INFINITY, f64::min);
                            d < 0.999 * (s1[k] + s2[k]) / 2.0 || d == 0.0
                        });
                        let got = bounding_boxes_overlap_periodic(&box_, &v(all[i]), &v(s1), &v(*q), &v(s2));
                        if overlap && !got {
                            c.violation(
                                "overlap",
                                &format!("boxes at {:?} and {q:?} with sizes {s1:?} and {s2:?} overlap", all[i]),
                                json!({"box": format!("{b:?}")}),
                            );
                            return;
                        }
                    }
                }
            }
            c.count(1, all.len() as u64 * 12, 1);
        });
    }
}

fn count_and_check(t: &QuadTree, depth: usize, config: &QuadTreeConfig, bad: &mut Option<String>) -> u64 {
    let n = match &t.node {
        Node::Leaf(l) => {
            for p in l {
                if !t.extent.contains(&p.pos) {
                    *bad = Some(format!("particle {} is in a leaf that does not contain it", p.id.index));
                }
            }
            if depth < config.max_depth && l.len() > config.max_num_particles_per_leaf + 1 {
                *bad = Some(format!("a leaf at depth {depth} has {} particles", l.len()));
            }
            l.len() as u64
        }
        Node::Tree(children) => {
            let mut volume = 0.0;
            for ch in children.iter() {
                let e = &ch.extent;
                let (a, b) = (arr(&e.min), arr(&e.max));
                volume += (0..3).map(|i| b[i] - a[i]).product::<f64>();
                if !t.extent.contains(&e.min) || !t.extent.contains(&e.max) {
                    *bad = Some("a child extends beyond its parent".into());
                }
            }
            let (a, b) = (arr(&t.extent.min), arr(&t.extent.max));
            if !close(volume, (0..3).map(|i| b[i] - a[i]).product::<f64>(), 1e-9) {
                *bad = Some("the children do not fill their parent".into());
            }
            children.iter().map(|ch| count_and_check(ch, depth + 1, config, bad)).sum()
        }
    };
    if t.data.work != n {
        *bad = Some(format!("a node at depth {depth} counts {} of {n} particles", t.data.work));
    }
    if depth > config.max_depth {
        *bad = Some(format!("a node at depth {depth}"));
    }
    n
}

fn trees(c: &Check) {
    let palette: Vec<P> = vec![
        [0.0, 0.0, 0.0],
        [0.5, 0.5, 0.5],
        [0.25, 0.25, 0.25],
        [0.25, 0.25, 0.3],
        [0.75, 0.25, 0.5],
        [0.125, 0.875, 0.125],
        [1.0, 1.0, 1.0],
        [0.9375, 0.0625, 0.9375],
        [0.5, 0.0, 1.0],
        [0.625, 0.5, 0.375],
    ];
    let queries: Vec<P> = palette.iter().copied().chain([[0.03125, 0.5, 0.96875], [0.4, 0.6, 0.1]]).collect();
    let radii = [0.01, 0.1, 0.13, 0.26, 0.4, 0.51, 2.0];
    let len = c.pick(5u32, 6);
    let configs: Vec<QuadTreeConfig> = [(0, 0), (1, 0), (2, 0), (4, 0), (3, 1), (20, 1), (20, 2), (20, 30)]
        .iter()
        .map(|(d, n)| QuadTreeConfig { max_depth: *d, max_num_particles_per_leaf: *n })
        .collect();
    let boxes = c.pick(&BOXES[1..3], &BOXES[..]);
    for size in 0..=len {
        // Sequences in all orders for small sizes, sorted ones with repetition for larger.
        let total = (palette.len() as u64).pow(size);
        par(total as usize, |i| {
            if c.stopped() {
                return;
            }
            let d = digits(i as u64, palette.len() as u64, size as usize);
            if size > 3 && d.windows(2).any(|w| w[0] > w[1]) {
                return;
            }
            for b in boxes {
                let box_ = b.real();
                let points: Vec<P> = d.iter().map(|k| b.at(palette[*k as usize])).collect();
                let case = |more: Value| json!({"box": format!("{b:?}"), "points": points, "more": more});
                for config in &configs {
                    let leaves: Vec<LeafData> = points
                        .iter()
                        .enumerate()
                        .map(|(i, p)| LeafData { id: ParticleId { rank: 0, index: i as u32 }, pos: v(*p) })
                        .collect();
                    let what = || case(json!({"max_depth": config.max_depth, "per_leaf": config.max_num_particles_per_leaf}));
                    let Some(tree) = c.guard("tree", what, || QuadTree::new(config, leaves, &box_)) else { return };
                    let mut bad = None;
                    count_and_check(&tree, 0, config, &mut bad);
                    let mut all: Vec<u32> = tree.iter().map(|l| l.id.index).collect();
                    all.sort();
                    if all != (0..points.len() as u32).collect::<Vec<_>>() {
                        bad = Some(format!("the tree yields {all:?} of {} particles", points.len()));
                    }
                    for q in &queries {
                        let q = b.at(*q);
                        for r in radii {
                            let r = r * b.l(0).min(b.l(1)).min(b.l(2));
                            let mut got: Vec<u32> =
                                tree.iter_particles_in_radius(&box_, v(q), Length::meters(r)).map(|l| l.id.index).collect();
                            got.sort();
                            let near = |k: f64| -> Vec<u32> {
                                (0..points.len()).filter(|i| distance(b, points[*i], q) < r * k).map(|i| i as u32).collect()
                            };
                            // Rounding decides about those at just this distance.
                            let (least, most) = (near(1.0 - 1e-9), near(1.0 + 1e-9));
                            let unique = got.windows(2).all(|w| w[0] != w[1]);
                            if !unique || !least.iter().all(|x| got.contains(x)) || !got.iter().all(|x| most.contains(x)) {
                                bad = Some(format!("within {r} of {q:?} the tree finds {got:?}, there are {least:?}"));
                            }
                        }
                    }
                    if let Some(bad) = bad {
                        c.violation("tree", &bad, what());
                        return;
                    }
                    c.count(1, (queries.len() * radii.len()) as u64, 1);
                }
            }
        });
    }
}

fn main() {
    let c = Check::new("C17");
    geometry(c);
    trees(c);
    c.sample(json!({"box": format!("{:?}", BOXES[1]), "points": [[-1.0, -2.0, -3.0], [0.0, 0.0, 0.0]]}));
    c.finish()
}
