//! C14: the sweep's communicator delivers every rate correction exactly once and in order, and
//! never touches a buffer that MPI may still read.
use mc::mmpi::{explore::Base, Bounds};
use mc::*;
use subsweep::communication::DataByRank;
use subsweep::prelude::ParticleId;
use subsweep::sweep::verif::*;
use subsweep::sweep::{DirectionIndex, RateData};
use subsweep::units::PhotonRate;

#[global_allocator]
static A: mmpi::alloc::Tracking = mmpi::alloc::Tracking;

#[derive(Clone, Copy, Debug)]
enum Op {
    /// (rank, how many)
    Push(usize, usize),
    Send,
    Recv(usize),
}

#[derive(Clone, Debug)]
struct Case {
    scripts: Vec<Vec<Op>>,
    /// The rank drops its communicator as soon as it has sent and received all.
    drop_early: Vec<bool>,
}

/// (sender, number)
type Item = (usize, usize);

struct Got {
    items: Vec<Vec<Item>>,
    bad: Option<String>,
}

fn item(from: usize, to: usize, k: usize) -> RateData<HydrogenOnly> {
    RateData {
        id: ParticleId { rank: to as i32, index: (1000 * from + k) as u32 },
        dir: DirectionIndex(k % 7),
        rate: PhotonRate::photons_per_second(1.5 + k as f64 + 100.0 * from as f64),
        periodic: k % 3 == 1,
    }
}

fn body(case: &Case, me: usize) -> Got {
    let n = case.scripts.len();
    let mut comm = SweepCommunicator::<HydrogenOnly>::new();
    let mut to_send: DataByRank<Vec<RateData<HydrogenOnly>>> = DataByRank::from_communicator(&comm);
    let mut pushed = vec![0; n];
    let mut got = Got { items: vec![vec![]; n], bad: None };
    let expected: Vec<usize> = (0..n)
        .map(|r| {
            case.scripts[r].iter().map(|o| if let Op::Push(to, k) = o { if *to == me { *k } else { 0 } } else { 0 }).sum()
        })
        .collect();
    let recv = |comm: &mut SweepCommunicator<HydrogenOnly>, got: &mut Got, from: usize| {
        if let Some(v) = comm.try_recv(from as i32) {
            for x in v {
                let k = x.id.index as usize % 1000;
                let sender = x.id.index as usize / 1000;
                let want = item(from, me, k);
                if sender != from || x.id != want.id || x.dir != want.dir || x.rate != want.rate || x.periodic != want.periodic {
                    got.bad = Some(format!("rank {me} got {x:?} from rank {from}"));
                }
                got.items[from].push((sender, k));
            }
        }
    };
    for op in &case.scripts[me] {
        match *op {
            Op::Push(to, k) => {
                for _ in 0..k {
                    to_send[to as i32].push(item(me, to, pushed[to]));
                    pushed[to] += 1;
                }
            }
            Op::Send => comm.try_send_all(&mut to_send),
            Op::Recv(from) => recv(&mut comm, &mut got, from),
        }
    }
    // The rest, as the sweep does it.
    loop {
        for from in 0..n {
            if from != me && got.items[from].len() < expected[from] {
                recv(&mut comm, &mut got, from);
            }
        }
        comm.try_send_all(&mut to_send);
        let left: usize = to_send.iter().map(|(_, v)| v.len()).sum();
        let received = (0..n).all(|r| got.items[r].len() >= expected[r]);
        if left == 0 && received && (case.drop_early[me] || comm.count_remaining_to_send() == 0) {
            break;
        }
    }
    drop(comm);
    got
}

fn check(c: &Check, case: &Case, b: &Bounds) {
    if c.stopped() {
        return;
    }
    let n = case.scripts.len();
    let what = json!({"scripts": case.scripts.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>(), "drop_early": case.drop_early});
    c.explore("communicator", what, n, b, &|r| body(case, r), &mut |got: &[Got]| {
        for (me, g) in got.iter().enumerate() {
            if let Some(b) = &g.bad {
                return Err(b.clone());
            }
            for from in 0..n {
                let want: usize = case.scripts[from]
                    .iter()
                    .map(|o| if let Op::Push(to, k) = o { if *to == me { *k } else { 0 } } else { 0 })
                    .sum();
                let want: Vec<Item> = (0..want).map(|k| (from, k)).collect();
                if g.items[from] != want {
                    return Err(format!("rank {me} got {:?} from rank {from}, not {want:?}", g.items[from]));
                }
            }
        }
        Ok(())
    });
}

fn scripts(ops: &[Op], len: usize) -> Vec<Vec<Op>> {
    let mut out = vec![];
    for l in 0..=len {
        for i in 0..(ops.len() as u64).pow(l as u32) {
            out.push(digits(i, ops.len() as u64, l).iter().map(|d| ops[*d as usize]).collect());
        }
    }
    out
}

fn main() {
    let c = Check::new("C14");
    c.assume("MPI is the model of harness/mmpi; bevy, diman and hdf5 are the stand-ins of harness/shims");
    let mut cases = vec![];
    let light = Bounds { bases: vec![Base::PollsLast, Base::SelfFirst], ..Bounds::new(c.pick(1, 2)) };
    let deep = Bounds::new(c.pick(2, 3));
    // Two ranks: every pair of scripts.
    let a = scripts(&[Op::Push(1, 1), Op::Push(1, 2), Op::Send, Op::Recv(1)], 3);
    let b = scripts(&[Op::Push(0, 1), Op::Send, Op::Recv(0)], c.pick(2, 3));
    for x in &a {
        for y in &b {
            for early in [false, true] {
                cases.push((Case { scripts: vec![x.clone(), y.clone()], drop_early: vec![early, !early] }, light.clone()));
            }
        }
    }
    // Longer ones on one side: sends while the previous one is under way.
    for x in scripts(&[Op::Push(1, 1), Op::Send], 6).into_iter().filter(|x| x.len() >= 5) {
        cases.push((Case { scripts: vec![x, vec![Op::Recv(0)]], drop_early: vec![true, true] }, light.clone()));
    }
    // Three ranks: who sends to whom, and who leaves early.
    for k in 0..c.pick(4u64.pow(3), 4u64.pow(3)) {
        let d = digits(k, 4, 3);
        let scripts: Vec<Vec<Op>> = (0..3)
            .map(|r| {
                let (p, q) = ((r + 1) % 3, (r + 2) % 3);
                match d[r] {
                    0 => vec![],
                    1 => vec![Op::Push(p, 1), Op::Push(q, 2), Op::Send],
                    2 => vec![Op::Push(q, 1), Op::Send, Op::Push(p, 1), Op::Send],
                    _ => vec![Op::Push(p, 2), Op::Send, Op::Recv(q), Op::Push(p, 1), Op::Send],
                }
            })
            .collect();
        for e in 0..8u64 {
            let e = digits(e, 2, 3);
            cases.push((Case { scripts: scripts.clone(), drop_early: e.iter().map(|x| *x == 1).collect() }, light.clone()));
        }
    }
    let two = vec![Op::Push(1, 1), Op::Send, Op::Push(1, 2), Op::Send, Op::Recv(1)];
    let back = vec![Op::Push(0, 1), Op::Send, Op::Recv(0), Op::Push(0, 1), Op::Send];
    for early in [false, true] {
        cases.push((Case { scripts: vec![two.clone(), back.clone()], drop_early: vec![early; 2] }, deep.clone()));
    }
    let n = cases.len();
    c.info("cases", json!(n));
    par(n, |i| check(c, &cases[i].0, &cases[i].1));
    c.sample(json!(format!("{:?}", cases[n / 2].0)));
    c.info("bounds", json!("all pairs of scripts of up to 3 and 2 operations on 2 ranks; 64 patterns on 3 ranks with every choice of who drops early; up to 2 deviations from the base schedules; eager and rendezvous"));
    c.finish()
}
