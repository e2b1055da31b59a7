//! C03: an all-to-all exchange delivers to every rank exactly what the others addressed to it.
use mc::mmpi::{explore::Base, Bounds, Mode};
use mc::*;
use mpi::traits::Equivalence;
use subsweep::communication::communicator::Communicator;
use subsweep::communication::exchange_communicator::divide_into_chunks_with_same_num_globally;
use subsweep::communication::{DataByRank, ExchangeCommunicator, SizedCommunicator};

#[global_allocator]
static A: mmpi::alloc::Tracking = mmpi::alloc::Tracking;

/// Not of a size that is a power of two, and with a hole.
#[derive(Clone, Copy, Debug, PartialEq, Equivalence)]
struct Item {
    small: u8,
    big: [u64; 2],
}

trait Make: Equivalence + Clone + PartialEq + std::fmt::Debug + 'static {
    fn make(x: u64) -> Self;
}
impl Make for u64 {
    fn make(x: u64) -> Self {
        x
    }
}
impl Make for Item {
    fn make(x: u64) -> Self {
        Item { small: x as u8, big: [x, !x] }
    }
}

/// What `src` sends to `dst` in a round; None: it has nothing for that rank.
type Matrix = Vec<Vec<Option<usize>>>;

fn items<T: Make>(round: usize, src: usize, dst: usize, len: usize) -> Vec<T> {
    (0..len).map(|i| T::make((((round * 10 + src) * 10 + dst) * 1000 + i) as u64)).collect()
}

fn matrix(n: usize, options: &[Option<usize>], mut i: u64) -> Matrix {
    (0..n)
        .map(|s| {
            (0..n)
                .map(|d| {
                    if s == d {
                        return None;
                    }
                    let o = options[(i % options.len() as u64) as usize];
                    i /= options.len() as u64;
                    o
                })
                .collect()
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    All,
    FromParts,
    Blocking,
}

fn exchange<T: Make>(c: &Check, rounds: &[Matrix], how: How, b: &Bounds) {
    let n = rounds[0].len();
    let body = |r: usize| {
        let mut comm: ExchangeCommunicator<T> = if how == How::FromParts {
            Communicator::new().into()
        } else {
            ExchangeCommunicator::new()
        };
        assert_eq!((comm.rank() as usize, comm.size()), (r, n));
        let mut got = vec![];
        for (k, m) in rounds.iter().enumerate() {
            let mut data: DataByRank<Vec<T>> = DataByRank::empty();
            for d in 0..n {
                if let Some(len) = m[r][d] {
                    data.insert(d as i32, items(k, r, d, len));
                }
            }
            let received = if how == How::Blocking {
                for (rank, data) in data.into_iter() {
                    comm.blocking_send_vec(rank, data);
                }
                comm.receive_vec()
            } else {
                comm.exchange_all(data)
            };
            got.push(received.into_iter().collect::<Vec<(i32, Vec<T>)>>());
        }
        got
    };
    let case = json!({"what": "exchange", "how": format!("{how:?}"), "item_bytes": std::mem::size_of::<T>(), "rounds": rounds});
    c.explore("exchange", case, n, b, &body, &mut |got| {
        for r in 0..n {
            for (k, m) in rounds.iter().enumerate() {
                for s in 0..n {
                    let want: Vec<T> = items(k, s, r, m[s][r].unwrap_or(0));
                    let have: Vec<&Vec<T>> =
                        got[r][k].iter().filter(|(x, _)| *x as usize == s).map(|(_, v)| v).collect();
                    let ok = if s == r { have.iter().all(|v| v.is_empty()) } else { have == vec![&want] };
                    if !ok {
                        return Err(format!("round {k}: rank {r} got {have:?} from rank {s}, expected {want:?}"));
                    }
                }
            }
        }
        Ok(())
    });
}

fn same_for_all(c: &Check, lens: &[Vec<usize>], b: &Bounds) {
    let n = lens[0].len();
    let body = |r: usize| {
        let mut comm: ExchangeCommunicator<Item> = ExchangeCommunicator::new();
        let mut got = vec![];
        for (k, l) in lens.iter().enumerate() {
            let mine: Vec<Item> = items(k, r, 0, l[r]);
            got.push(comm.exchange_same_for_all(&mine).into_iter().collect::<Vec<_>>());
        }
        got
    };
    let case = json!({"what": "exchange_same_for_all", "lengths": lens});
    c.explore("same_for_all", case, n, b, &body, &mut |got| {
        for r in 0..n {
            for (k, l) in lens.iter().enumerate() {
                let want: Vec<(i32, Vec<Item>)> =
                    (0..n).filter(|s| *s != r).map(|s| (s as i32, items(k, s, 0, l[s]))).collect();
                if got[r][k] != want {
                    return Err(format!("round {k}: rank {r} got {:?}, expected {want:?}", got[r][k]));
                }
            }
        }
        Ok(())
    });
}

/// Requests are sent around in chunks, as many exchanges on every rank.
fn chunks(c: &Check, lens: &[usize], chunk: usize, b: &Bounds) {
    let n = lens.len();
    let rounds = lens.iter().map(|l| (l + chunk - 1) / chunk).max().unwrap();
    let body = |r: usize| {
        let mine: Vec<u64> = items(0, r, 0, lens[r]);
        let mut comm: ExchangeCommunicator<u64> = ExchangeCommunicator::new();
        let mut got: Vec<Vec<u64>> = vec![vec![]; n];
        let mut pieces = vec![];
        for part in divide_into_chunks_with_same_num_globally(&mine, chunk) {
            pieces.push(part.to_vec());
            for (s, v) in comm.exchange_same_for_all(part).into_iter() {
                got[s as usize].extend(v);
            }
        }
        (pieces, got)
    };
    let case = json!({"what": "chunks", "lengths": lens, "chunk": chunk});
    c.explore("chunks", case, n, b, &body, &mut |res| {
        for r in 0..n {
            let (pieces, got) = &res[r];
            let mine: Vec<u64> = items(0, r, 0, lens[r]);
            if pieces.len() != res[0].0.len() || pieces.len() < rounds || pieces.iter().any(|p| p.len() > chunk) || pieces.concat() != mine {
                return Err(format!("rank {r} with {} items got the chunks {:?}, rank 0 got {} chunks; at least {rounds} of at most {chunk} are needed", mine.len(), pieces.iter().map(|p| p.len()).collect::<Vec<_>>(), res[0].0.len()));
            }
            for s in (0..n).filter(|s| *s != r) {
                if got[s] != items::<u64>(0, s, 0, lens[s]) {
                    return Err(format!("rank {r} got {} other items from rank {s}", got[s].len()));
                }
            }
        }
        Ok(())
    });
}

fn main() {
    let c = Check::new("C03");
    let all = [None, Some(0), Some(1), Some(3)];
    let two = [None, Some(2)];
    let mut jobs: Vec<Box<dyn Fn() + Sync>> = vec![];
    let one_base = |bases: Vec<Base>| Bounds { bases, ..Bounds::new(0) };
    let b1 = one_base(vec![Base::PollsLast, Base::Reverse]);
    let eager = Bounds { modes: vec![Mode::Eager], ..b1.clone() };
    // Single and double rounds of every matrix; the second round of n = 3 is derived.
    let spaces: Vec<(usize, Vec<Option<usize>>)> = vec![
        (1, all.to_vec()),
        (2, all.to_vec()),
        (3, all.to_vec()),
        (4, if c.thorough { vec![None, Some(0), Some(2)] } else { two.to_vec() }),
    ];
    for (n, opts) in spaces {
        let total = (opts.len() as u64).pow((n * (n - 1)) as u32);
        let mut i = 0;
        while i < total {
            let to = (i + 64).min(total);
            let (opts, b1, eager) = (opts.clone(), b1.clone(), eager.clone());
            jobs.push(Box::new(move || {
                for x in i..to {
                    if c.stopped() {
                        return;
                    }
                    let m = matrix(n, &opts, x);
                    let seconds = if n <= 2 {
                        (0..total).map(|y| matrix(n, &opts, y)).collect()
                    } else {
                        // Everything shifted by one option, and everybody silent.
                        vec![matrix(n, &opts, (x * 7 + 3) % total), vec![vec![None; n]; n]]
                    };
                    for s in seconds {
                        let rounds = [m.clone(), s, m.clone()];
                        exchange::<u64>(c, &rounds, How::All, &b1);
                        exchange::<Item>(c, &rounds, How::FromParts, &eager);
                        exchange::<Item>(c, &rounds, How::Blocking, &eager);
                    }
                    if x % 1021 == 5 {
                        c.sample(json!({"exchange": m}));
                    }
                }
            }));
            i = to;
        }
    }
    for n in 1..=c.pick(4usize, 5) {
        let total = 4u64.pow(n as u32);
        let (b1, b2) = (b1.clone(), b1.clone());
        jobs.push(Box::new(move || {
            for x in 0..total {
                let l: Vec<usize> = digits(x, 4, n).iter().map(|d| *d as usize).collect();
                let mut back = l.clone();
                back.reverse();
                same_for_all(c, &[l, back], &b1);
            }
        }));
        let top = if n <= 3 { 7 } else { c.pick(4, 7) };
        jobs.push(Box::new(move || {
            for x in 0..(top as u64).pow(n as u32) {
                let l: Vec<usize> = digits(x, top as u64, n).iter().map(|d| *d as usize).collect();
                for chunk in 1..=4 {
                    if c.stopped() {
                        return;
                    }
                    chunks(c, &l, chunk, &b2);
                }
            }
        }));
    }
    // Large payloads, more ranks and long lists.
    for len in [17usize, 100, 255, 256, 1000, 1024, 4097, 65537] {
        for n in 2..=3 {
            let (b1, eager) = (b1.clone(), eager.clone());
            jobs.push(Box::new(move || {
                let mut m = vec![vec![None; n]; n];
                for s in 0..n {
                    for d in 0..n {
                        if s != d {
                            m[s][d] = [Some(len), Some(1), None][(s + 2 * d) % 3];
                        }
                    }
                }
                let mut t = m.clone();
                t.reverse();
                t.iter_mut().for_each(|x| x.reverse());
                let rounds = [m, t];
                exchange::<u64>(c, &rounds, How::All, &b1);
                exchange::<Item>(c, &rounds, How::FromParts, &eager);
                let mut l = vec![len; n];
                l[0] = 3;
                same_for_all(c, &[l, vec![len - 1; n]], &b1);
            }));
        }
    }
    for n in 5..=c.pick(8usize, 10) {
        let b1 = b1.clone();
        jobs.push(Box::new(move || {
            for shift in 1..n {
                for step in 1..4 {
                    // to every `step`th rank from `shift` on
                    let m: Matrix = (0..n).map(|s| (0..n).map(|d| (s != d && (n + d - s) % n >= shift && (n + d - s - shift) % n % step == 0).then_some(shift)).collect()).collect();
                    exchange::<u64>(c, &[m.clone(), m], How::All, &b1);
                }
            }
            for x in 0..n {
                let l: Vec<usize> = (0..n).map(|r| if r == x { 5 } else { r % 2 }).collect();
                same_for_all(c, &[l.clone()], &b1);
                chunks(c, &l, 2, &b1);
            }
        }));
    }
    for lens in [vec![50usize, 0], vec![0, 99], vec![100, 100], vec![7, 64], vec![64, 63, 65], vec![0, 0, 200], vec![1000, 10], vec![66000, 3], vec![0, 65536, 65535]] {
        let b1 = b1.clone();
        jobs.push(Box::new(move || {
            let long = lens.iter().any(|l| *l > 1000);
            for chunk in [5usize, 7, 8, 10, 16, 32, 33, 50, 64, 65, 99, 100, 101, 5000, 32768, 65535, 65536, 70000] {
                if long && chunk < 5000 || !long && chunk > 5000 {
                    continue;
                }
                chunks(c, &lens, chunk, &b1);
            }
        }));
    }
    par(jobs.len(), |j| jobs[j]());
    c.info("bounds", json!("1 to 4 ranks (5 thorough), every matrix of absent/empty/short payloads, 3 rounds, eager and rendezvous sends, all chunk sizes 1..4 of lists up to 6; payloads of up to 65537 items on 2 and 3 ranks; regular patterns on 5 to 8 (10) ranks; chunks of lists of up to 66000 entries"));
    c.assume("messages between two ranks do not overtake each other; zero-byte sends complete without a receiver");
    c.finish()
}
