use mpi::collective::SystemOperation;
use mpi::request::scope;
use mpi::traits::*;
use subsweep::communication::communicator::Communicator as World;
use subsweep::communication::exchange_communicator::divide_into_chunks_with_same_num_globally;
use subsweep::communication::{DataByRank, ExchangeCommunicator, MPI_UNIVERSE};

#[derive(Clone, Copy, PartialEq, Debug, Equivalence, Default)]
struct Hole {
    small: u8,
    big: f64,
    flag: bool,
    three: [u16; 3],
}

#[derive(Clone, Copy, PartialEq, Debug, Equivalence, Default)]
struct Nested {
    a: Hole,
    n: i32,
}

fn hole(x: usize) -> Hole {
    Hole { small: x as u8, big: x as f64 / 3.0, flag: x % 2 == 1, three: [x as u16, 7, 1000 + x as u16] }
}

/// All ranks but 0 send two messages to 0, which takes them as they come.
fn any_source(r: usize, n: usize) -> String {
    let w = MPI_UNIVERSE.world();
    let mut out = vec![];
    if r > 0 {
        w.process_at_rank(0).send(&[r as u64][..]);
        w.process_at_rank(0).send(&[r as u64, 10 * r as u64][..]);
    } else {
        for _ in 0..2 * (n - 1) {
            let (m, s) = w.any_process().receive_vec::<u64>();
            out.push(format!("{}:{m:?}", s.source_rank()));
        }
    }
    out.join(" ")
}

/// Messages with two tags, received in the other order; nonblocking sends.
fn tags(r: usize, _n: usize) -> String {
    let w = MPI_UNIVERSE.world();
    let x = [1u32 + r as u32, 2];
    let y = [3u32; 5];
    if r == 1 {
        scope(|s| {
            let a = w.process_at_rank(0).immediate_send_with_tag(s, &x[..], 5);
            let b = w.process_at_rank(0).immediate_send_with_tag(s, &y[..], 9);
            a.wait();
            b.wait();
        });
    } else if r == 0 {
        let (b, sb) = w.process_at_rank(1).receive_vec_with_tag::<u32>(9);
        let (a, sa) = w.process_at_rank(1).receive_vec_with_tag::<u32>(5);
        return format!("{a:?} {} {b:?} {}", sa.tag(), sb.tag());
    }
    String::new()
}

/// Probing: how many items, from whom; empty messages; no message left.
fn probes(r: usize, n: usize) -> String {
    let w = MPI_UNIVERSE.world();
    let mut out = vec![];
    if r > 0 {
        let v: Vec<Hole> = (0..r - 1).map(hole).collect();
        w.process_at_rank(0).send(&v[..]);
    } else {
        for s in 1..n {
            let m = loop {
                if let Some(m) = w.process_at_rank(s as i32).immediate_matched_probe() {
                    break m;
                }
            };
            let (v, st) = m.matched_receive_vec::<Hole>();
            out.push(format!("{s}: {v:?} {} {}", st.source_rank(), st.count(Hole::equivalent_datatype())));
        }
        out.push(format!("{}", w.any_process().immediate_probe().is_none()));
    }
    out.join("; ")
}

/// To itself.
fn own(r: usize, _n: usize) -> String {
    let w = MPI_UNIVERSE.world();
    let x = [hole(r), hole(r + 1)];
    scope(|s| {
        let g = w.this_process().immediate_send(s, &x[..]);
        let (v, _) = w.this_process().receive_vec::<Hole>();
        g.wait();
        format!("{v:?}")
    })
}

fn structs(r: usize, n: usize) -> String {
    let w = MPI_UNIVERSE.world();
    let v: Vec<Nested> = (0..r + 2).map(|i| Nested { a: hole(i + r), n: -(i as i32) }).collect();
    let next = ((r + 1) % n) as i32;
    let prev = ((r + n - 1) % n) as i32;
    scope(|s| {
        let g = w.process_at_rank(next).immediate_send(s, &v[..]);
        let (v, _) = w.process_at_rank(prev).receive_vec::<Nested>();
        g.wait();
        format!("{v:?}")
    })
}

fn collectives(r: usize, n: usize) -> String {
    let w = MPI_UNIVERSE.world();
    let mut g = vec![0i64; n];
    w.all_gather_into(&(r as i64 * 3 - 2), &mut g[..]);
    let mut h = vec![Hole::default(); n];
    w.all_gather_into(&hole(r), &mut h[..]);
    let mut out = format!("{g:?} {h:?}");
    for op in [SystemOperation::sum(), SystemOperation::max(), SystemOperation::min()] {
        let mut a = 0u64;
        w.all_reduce_into(&(r as u64 + 4), &mut a, op);
        let mut b = 0f64;
        w.all_reduce_into(&(r as f64 * 0.5 - 1.0), &mut b, op);
        let mut c = [0i32; 2];
        w.all_reduce_into(&[r as i32, -(r as i32)][..], &mut c[..], op);
        out += &format!(" {a} {b} {c:?}");
    }
    let mut x = if r == n - 1 { 42u8 } else { 0 };
    w.process_at_rank(n as i32 - 1).broadcast_into(&mut x);
    w.barrier();
    out + &format!(" {x}")
}

/// The communicators of the crate.
fn world(r: usize, n: usize) -> String {
    let mut w: World<i64> = World::new();
    let mut p: World<Hole> = World::new();
    let mut f: World<f64> = World::new();
    let v = r as i64 * 2 - 3;
    let list: Vec<Hole> = (0..(r * 2) % 3).map(|i| hole(i + 10 * r)).collect();
    format!(
        "{:?} {} {:?} {:?} {} {:?} {} {} {:?}",
        w.all_gather(&v),
        w.all_gather_sum::<i64>(&v),
        w.all_gather_min::<i64>(&v),
        w.all_gather_max::<i64>(&v),
        w.all_reduce_sum(&(r as u64 + 1)),
        f.all_gather_min::<f64>(&(0.5 * v as f64)),
        w.all_ranks_have_same_value(&(n as i64)),
        w.all_ranks_have_same_value(&v),
        p.all_gather_varcount(&list),
    )
}

/// Two streams of messages from everybody, polled by rank 0.
fn streams(r: usize, n: usize) -> String {
    let mut a: World<u64> = World::new();
    let mut f: World<i64> = World::new();
    let mut out = vec![];
    if r > 0 {
        let u: Vec<Vec<u64>> = (0..3).map(|k| (0..k).map(|i| (r * 100 + k * 10 + i) as u64).collect()).collect();
        let i: Vec<Vec<i64>> = u.iter().map(|v| v.iter().map(|x| -(*x as i64)).collect()).collect();
        scope(|s| {
            let mut g = vec![];
            let mut h = vec![];
            for k in 0..3 {
                g.extend(a.immediate_send_vec_wait_guard(s, 0, &u[k]));
                h.extend(f.immediate_send_vec_wait_guard(s, 0, &i[k]));
            }
        });
    } else {
        for s in 1..n as i32 {
            let mut got = (vec![], vec![]);
            while got.0.len() < 3 || got.1.len() < 3 {
                got.0.extend(a.try_receive_vec(s));
                got.1.extend(f.try_receive_vec(s));
            }
            out.push(format!("{got:?}"));
        }
    }
    out.join(" ")
}

fn exchange(r: usize, n: usize) -> String {
    let mut out = vec![];
    let mut c: ExchangeCommunicator<Hole> = ExchangeCommunicator::new();
    for round in 0..3 {
        let mut data: DataByRank<Vec<Hole>> = DataByRank::empty();
        for d in 0..n {
            if d != r && (d + r + round) % 3 != 0 {
                data.insert(d as i32, (0..(d + 2 * r + round) % 4).map(|i| hole(100 * r + 10 * d + i)).collect());
            }
        }
        let got = c.exchange_all(data);
        let mut v: Vec<String> = got.iter().map(|(k, v)| format!("{k}: {v:?}")).collect();
        v.sort();
        out.push(v.join(", "));
    }
    let v: Vec<usize> = (0..5 * r).collect();
    let k = divide_into_chunks_with_same_num_globally(&v, 4).count();
    out.push(format!("{k} chunks"));
    out.join("; ")
}

/// Large messages are not buffered.
fn large(r: usize, n: usize) -> String {
    let mut c: ExchangeCommunicator<u64> = ExchangeCommunicator::new();
    let mut data: DataByRank<Vec<u64>> = DataByRank::empty();
    for d in 0..n {
        if d != r {
            data.insert(d as i32, (0..200_000).map(|i| (i * (r + 1) + d) as u64).collect());
        }
    }
    let got = c.exchange_all(data);
    got.iter().map(|(k, v)| format!("{k}: {} {}", v.len(), v.iter().sum::<u64>())).collect::<Vec<_>>().join(" ")
}

pub const ALL: [(&str, fn(usize, usize) -> String); 10] = [
    ("any_source", any_source),
    ("tags", tags),
    ("probes", probes),
    ("own", own),
    ("structs", structs),
    ("collectives", collectives),
    ("world", world),
    ("streams", streams),
    ("exchange", exchange),
    ("large", large),
];
