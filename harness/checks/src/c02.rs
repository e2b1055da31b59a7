//! C02: the per-rank store behaves like a map from ranks to values, for all operation sequences.
use mc::*;
use std::collections::BTreeMap;
use subsweep::communication::{DataByRank, SizedCommunicator};

struct Size(usize, i32);
impl SizedCommunicator for Size {
    fn size(&self) -> usize {
        self.0
    }
    fn rank(&self) -> i32 {
        self.1
    }
}

type V = Vec<u32>;
const RANKS: i32 = 4;
const OPS: usize = 18;

#[derive(Clone)]
struct Model {
    map: BTreeMap<i32, V>,
    // Ranks below this may be asked for.
    len: i32,
    next: u32,
}

fn observe(d: &DataByRank<V>, m: &Model) -> Result<(), String> {
    let want: Vec<(i32, V)> = m.map.iter().map(|(k, v)| (*k, v.clone())).collect();
    let got: Vec<(i32, V)> = d.iter().map(|(k, v)| (k, v.clone())).collect();
    if got != want {
        return Err(format!("iter gives {got:?}, expected {want:?}"));
    }
    let got: Vec<(i32, V)> = d.clone().into_iter().collect();
    if got != want {
        return Err(format!("into_iter gives {got:?}, expected {want:?}"));
    }
    let size: usize = m.map.values().map(|v| v.len()).sum();
    if d.size() != size {
        return Err(format!("size is {}, expected {size}", d.size()));
    }
    for r in 0..m.len {
        if d.get(&r) != m.map.get(&r) {
            return Err(format!("get({r}) gives {:?}, expected {:?}", d.get(&r), m.map.get(&r)));
        }
        if let Some(v) = m.map.get(&r) {
            if d[r] != *v {
                return Err(format!("[{r}] gives {:?}, expected {v:?}", d[r]));
            }
        }
    }
    Ok(())
}

fn step(op: usize, d: &mut DataByRank<V>, m: &mut Model) -> Result<(), String> {
    let r = (op % 4) as i32;
    m.next += 1;
    let v = vec![m.next; (m.next % 3) as usize];
    match op {
        0..=3 => {
            d.insert(r, v.clone());
            m.map.insert(r, v);
            m.len = m.len.max(r + 1);
        }
        4..=7 if r < m.len => {
            let got = d.remove(&r);
            let want = m.map.remove(&r);
            if got != want {
                return Err(format!("remove({r}) gives {got:?}, expected {want:?}"));
            }
        }
        8..=11 if r < m.len => {
            let got = d.get_mut(&r);
            match (got, m.map.get_mut(&r)) {
                (None, None) => {}
                (Some(a), Some(b)) => {
                    a.push(m.next);
                    b.push(m.next);
                }
                (a, b) => return Err(format!("get_mut({r}) gives {a:?}, expected {b:?}")),
            }
        }
        12 => {
            for (k, x) in d.iter_mut() {
                x.push(k as u32);
            }
            for (k, x) in m.map.iter_mut() {
                x.push(*k as u32);
            }
        }
        13 => {
            let got: Vec<(i32, V)> = d.drain_all().collect();
            let want: Vec<(i32, V)> = std::mem::take(&mut m.map).into_iter().collect();
            m.len = 0;
            if got != want {
                return Err(format!("drain_all gives {got:?}, expected {want:?}"));
            }
        }
        14 => {
            *d = std::mem::take(d).into_iter().collect();
            m.len = m.map.keys().max().map(|x| x + 1).unwrap_or(0);
        }
        15 => {
            // Rebuilt from pairs in descending order.
            let mut all: Vec<_> = std::mem::take(d).into_iter().collect();
            all.reverse();
            *d = all.into_iter().collect();
            m.len = m.map.keys().max().map(|x| x + 1).unwrap_or(0);
        }
        16 => {
            if let Some((k, x)) = m.map.iter_mut().next() {
                d[*k] = vec![9];
                *x = vec![9];
            }
        }
        17 => {
            // A copy is independent of the original.
            let copy = d.clone();
            for (_, x) in d.iter_mut() {
                x.clear();
            }
            d.drain_all().for_each(drop);
            *d = copy;
        }
        _ => {}
    }
    Ok(())
}

fn start(which: usize) -> (DataByRank<V>, Model) {
    let mut m = Model { map: BTreeMap::new(), len: 0, next: 0 };
    let (size, rank) = [(1, 0), (3, 1), (4, 0), (4, 3)][(which / 5) % 4];
    let comm = Size(size, rank);
    let others: Vec<i32> = (0..size as i32).filter(|r| *r != rank).collect();
    let d = match which % 5 {
        0 => DataByRank::empty(),
        1 => DataByRank::default(),
        2 => {
            m.map.extend(others.iter().map(|r| (*r, vec![])));
            m.len = size as i32;
            DataByRank::from_communicator(&comm)
        }
        3 => {
            m.map.extend(others.iter().map(|r| (*r, vec![7, 8])));
            m.len = size as i32;
            DataByRank::same_for_other_ranks_in_communicator(vec![7, 8], &comm)
        }
        _ => {
            m.map.extend((0..size as i32).map(|r| (r, vec![5])));
            m.len = size as i32;
            DataByRank::same_for_all_ranks_in_communicator(vec![5], &comm)
        }
    };
    if comm.other_ranks() != others || comm.all_ranks() != (0..size as i32).collect::<Vec<_>>() {
        panic!("other_ranks or all_ranks is wrong for {size} ranks on rank {rank}");
    }
    (d, m)
}

/// Many ranks, in all orders of a few of them.
fn many(c: &Check) {
    let ranks = [0i32, 1, 7, 8, 15, 31, 32, 63, 100, 255, 256, 1000];
    let k = ranks.len() as u64;
    par(k.pow(2) as usize, |j| {
        for i in 0..k.pow(2) {
            if c.stopped() {
                return;
            }
            let order: Vec<i32> = digits(j as u64 + i * k * k, k, 4).iter().map(|d| ranks[*d as usize]).collect();
            let case = || json!({"inserted": order});
            let r = c.guard("many", case, || {
                let mut d: DataByRank<V> = DataByRank::empty();
                let mut m = Model { map: BTreeMap::new(), len: 0, next: 0 };
                for (x, r) in order.iter().enumerate() {
                    d.insert(*r, vec![x as u32; x + 1]);
                    m.map.insert(*r, vec![x as u32; x + 1]);
                    m.len = m.len.max(r + 1);
                    observe(&d, &m)?;
                }
                // what is left of a consumed store
                for n in 0..m.map.len() {
                    let got: Vec<i32> = d.clone().into_iter().skip(n).map(|x| x.0).collect();
                    if got != m.map.keys().skip(n).copied().collect::<Vec<_>>() {
                        return Err(format!("after {n} others into_iter gives {got:?}"));
                    }
                }
                for (x, r) in order.iter().enumerate().rev().take(2) {
                    if d.remove(r) != m.map.remove(r) {
                        return Err(format!("removing the {x}th failed"));
                    }
                    observe(&d, &m)?;
                }
                Ok::<(), String>(())
            });
            if let Some(Err(e)) = r {
                c.violation("many", &format!("inserted for ranks {order:?}: {e}"), case());
                return;
            }
            c.count(1, 6, 1);
        }
    });
    let top = c.pick(70, 200);
    let mut sizes: Vec<usize> = (0..top).collect();
    sizes.extend([127, 128, 129, 130, 255, 256, 257, 258, 300, 1025]);
    par(sizes.len(), |j| {
        let size = sizes[j];
        let some = [0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 299, 1024];
        for rank in (0..size as i32).filter(|r| size < top || some.contains(r)) {
            if c.stopped() {
                return;
            }
            let comm = Size(size, rank);
            let case = || json!({"ranks": size, "rank": rank});
            let ok = c.guard("communicator", case, || {
                let others: Vec<i32> = (0..size as i32).filter(|r| *r != rank).collect();
                let all: Vec<i32> = (0..size as i32).collect();
                let a: DataByRank<V> = DataByRank::from_communicator(&comm);
                let b = DataByRank::same_for_other_ranks_in_communicator(vec![7, 8], &comm);
                let e = DataByRank::same_for_all_ranks_in_communicator(vec![5], &comm);
                let f: DataByRank<V> = DataByRank::from_size_and_rank(size, rank);
                comm.other_ranks() == others
                    && comm.all_ranks() == all
                    && a.iter().map(|(r, v)| (r, v.len())).collect::<Vec<_>>() == others.iter().map(|r| (*r, 0)).collect::<Vec<_>>()
                    && f.iter().map(|(r, v)| (r, v.len())).collect::<Vec<_>>() == others.iter().map(|r| (*r, 0)).collect::<Vec<_>>()
                    && b.iter().map(|(r, v)| (r, v.clone())).collect::<Vec<_>>() == others.iter().map(|r| (*r, vec![7, 8])).collect::<Vec<_>>()
                    && e.iter().map(|(r, v)| (r, v.clone())).collect::<Vec<_>>() == all.iter().map(|r| (*r, vec![5])).collect::<Vec<_>>()
                    && b.size() == 2 * others.len()
                    && b.clone().drain_all().map(|(r, v)| (r, v.len())).collect::<Vec<_>>() == others.iter().map(|r| (*r, 2)).collect::<Vec<_>>()
                    && e.clone().into_iter().map(|(r, v)| (r, v.len())).collect::<Vec<_>>() == all.iter().map(|r| (*r, 1)).collect::<Vec<_>>()
                    && e.clone().iter_mut().map(|(r, v)| (r, v.len())).collect::<Vec<_>>() == all.iter().map(|r| (*r, 1)).collect::<Vec<_>>()
                    && others.iter().all(|r| b[*r] == [7, 8])
            });
            if ok == Some(false) {
                c.violation("communicator", &format!("ranks or stores of a communicator with {size} ranks on rank {rank} are wrong"), case());
            }
            c.count(1, 1, 1);
        }
    });
}

fn main() {
    let c = Check::new("C02");
    many(c);
    let depth = c.pick(5, 6);
    let _ = RANKS;
    let jobs = 20 * OPS * OPS;
    par(jobs, |j| {
        let (which, first, second) = (j / OPS / OPS, j / OPS % OPS, j % OPS);
        let (mut traces, mut trans) = (0, 0);
        // From the constructors of ranks that make a difference only: the first two give the same.
        if which % 5 < 2 && which >= 5 {
            return;
        }
        for i in 0..(OPS as u64).pow(depth - 2) {
            if c.stopped() {
                return;
            }
            let mut ops = vec![first, second];
            ops.extend(digits(i, OPS as u64, depth as usize - 2).iter().map(|x| *x as usize));
            let case = || json!({"start": which, "ops": ops});
            let r = c.guard("ops", case, || {
                let (mut d, mut m) = start(which);
                observe(&d, &m)?;
                for (at, op) in ops.iter().enumerate() {
                    step(*op, &mut d, &mut m)?;
                    // Shorter prefixes are observed in the run where the rest is all zero.
                    if at + 1 == ops.len() || ops[at + 1..].iter().all(|x| *x == 0) {
                        observe(&d, &m)?;
                    }
                }
                Ok::<(), String>(())
            });
            if let Some(Err(e)) = r {
                c.violation("ops", &format!("start {which}, operations {ops:?}: {e}"), case());
                return;
            }
            traces += 1;
            trans += depth as u64;
            if i == 77 && j % 500 == 3 {
                c.sample(case());
            }
        }
        c.count(traces, trans, traces);
    });
    c.info("bounds", json!(format!("all sequences of {depth} out of {OPS} operations on ranks 0..4, from every constructor; insertions for 4 of 12 ranks up to 1000; communicators of up to 70 (200) ranks and some of up to 1025")));
    c.finish()
}
