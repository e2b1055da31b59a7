//! C04: typed point-to-point messages and collectives.
use mc::mmpi::{Bounds, Mode};
use mc::*;
use mpi::request::scope;
use mpi::traits::Equivalence;
use subsweep::communication::communicator::Communicator;
use subsweep::communication::SizedCommunicator;

#[global_allocator]
static A: mmpi::alloc::Tracking = mmpi::alloc::Tracking;

/// With a hole.
#[derive(Clone, Copy, PartialEq, Debug, Equivalence)]
struct Pair {
    small: u8,
    big: f64,
}

#[derive(Clone, PartialEq, Debug)]
struct Gathered {
    all: Vec<i64>,
    sum: i64,
    min: Option<i64>,
    max: Option<i64>,
    fsum: u64,
    fmin: Option<f64>,
    fmax: Option<f64>,
    reduced: u64,
    same: bool,
}

fn collectives(c: &Check, v: &[i64], b: &Bounds) {
    let n = v.len();
    let body = |r: usize| {
        let mut w: Communicator<i64> = Communicator::new();
        let mut f: Communicator<f64> = Communicator::new();
        let mine = v[r];
        let x = mine as f64 / 8.0;
        Gathered {
            all: w.all_gather(&mine),
            sum: w.all_gather_sum(&mine),
            min: w.all_gather_min(&mine),
            max: w.all_gather_max(&mine),
            fsum: f.all_gather_sum::<f64>(&x).to_bits(),
            fmin: f.all_gather_min(&x),
            fmax: f.all_gather_max(&x),
            reduced: w.all_reduce_sum(&((mine + 10) as u64)),
            same: w.all_ranks_have_same_value(&mine),
        }
    };
    let want = Gathered {
        all: v.to_vec(),
        sum: v.iter().sum(),
        min: v.iter().min().copied(),
        max: v.iter().max().copied(),
        fsum: (v.iter().sum::<i64>() as f64 / 8.0).to_bits(),
        fmin: v.iter().min().map(|x| *x as f64 / 8.0),
        fmax: v.iter().max().map(|x| *x as f64 / 8.0),
        reduced: v.iter().map(|x| (x + 10) as u64).sum(),
        same: v.iter().all(|x| *x == v[0]),
    };
    c.explore("collectives", json!({"values": v}), n, b, &body, &mut |got| {
        for r in 0..n {
            if got[r] != want {
                return Err(format!("values {v:?}: rank {r} has {:?}, expected {want:?}", got[r]));
            }
        }
        Ok(())
    });
}

/// Without what could overflow.
fn gathered(c: &Check, v: &[i64], b: &Bounds) {
    let n = v.len();
    let body = |_r: usize| {
        let r = _r;
        let mut w: Communicator<i64> = Communicator::new();
        let mut f: Communicator<f64> = Communicator::new();
        let x = v[r] as f64 * 1e200;
        (w.all_gather(&v[r]), w.all_gather_sum::<i64>(&v[r]), w.all_gather_min::<i64>(&v[r]), w.all_gather_max::<i64>(&v[r]), f.all_gather_min::<f64>(&x), f.all_gather_max::<f64>(&x), w.all_ranks_have_same_value(&v[r]))
    };
    let (least, most) = (*v.iter().min().unwrap(), *v.iter().max().unwrap());
    let want = (v.to_vec(), v.iter().sum::<i64>(), Some(least), Some(most), Some(least as f64 * 1e200), Some(most as f64 * 1e200), least == most);
    c.explore("collectives", json!({"values": v}), n, b, &body, &mut |got| {
        for r in 0..n {
            if got[r] != want {
                return Err(format!("values {v:?}: rank {r} has {:?}, expected {want:?}", got[r]));
            }
        }
        Ok(())
    });
}

fn varcount(c: &Check, lens: &[usize], b: &Bounds) {
    let n = lens.len();
    let item = |r: usize, i: usize| Pair { small: r as u8 + 1, big: i as f64 * 0.25 };
    let body = |r: usize| {
        let mut w: Communicator<Pair> = Communicator::new();
        let mine: Vec<Pair> = (0..lens[r]).map(|i| item(r, i)).collect();
        let mut u: Communicator<u8> = Communicator::new();
        let small: Vec<u8> = (0..lens[n - 1 - r]).map(|i| (10 * r + i) as u8).collect();
        (w.all_gather_varcount(&mine), u.all_gather_varcount(&small))
    };
    let want: Vec<Pair> = (0..n).flat_map(|r| (0..lens[r]).map(move |i| item(r, i))).collect();
    let small: Vec<u8> = (0..n).flat_map(|r| (0..lens[n - 1 - r]).map(move |i| (10 * r + i) as u8)).collect();
    c.explore("varcount", json!({"lengths": lens}), n, b, &body, &mut |got| {
        for r in 0..n {
            if got[r].0 != want || got[r].1 != small {
                return Err(format!("lengths {lens:?}: rank {r} has {:?}", got[r]));
            }
        }
        Ok(())
    });
}

/// Ranks 1.. send `script[r-1]` (stream, length) to rank 0, which polls for all of them.
fn stream(c: &Check, n: usize, script: &[Vec<(usize, usize)>], polls: bool, b: &Bounds) {
    let payload = |r: usize, k: usize, len: usize| -> Vec<u64> { (0..len).map(|i| (r * 100 + k * 10 + i) as u64).collect() };
    let body = |r: usize| {
        // Two independent streams, kept apart by the type that is communicated.
        let mut a: Communicator<u64> = Communicator::new();
        let mut f: Communicator<i64> = Communicator::new();
        let mut got: Vec<Vec<Vec<u64>>> = vec![vec![]; 2 * n];
        if r > 0 {
            let us: Vec<Vec<u64>> = script[r - 1].iter().enumerate().map(|(k, (_, l))| payload(r, k, *l)).collect();
            let is: Vec<Vec<i64>> = us.iter().map(|v| v.iter().map(|x| *x as i64).collect()).collect();
            scope(|s| {
                let mut g1 = vec![];
                let mut g2 = vec![];
                for (k, (which, _)) in script[r - 1].iter().enumerate() {
                    match which {
                        0 => g1.extend(a.immediate_send_vec_wait_guard(s, 0, &us[k])),
                        _ => g2.extend(f.immediate_send_vec_wait_guard(s, 0, &is[k])),
                    }
                }
            });
        } else {
            let mut left: Vec<usize> = (0..2 * n)
                .map(|i| if i < 2 { 0 } else { script[i / 2 - 1].iter().filter(|x| x.0 == i % 2).count() })
                .collect();
            while left.iter().any(|x| *x > 0) {
                for i in 2..2 * n {
                    if left[i] == 0 {
                        continue;
                    }
                    let rank = (i / 2) as i32;
                    let m: Option<Vec<u64>> = match (i % 2, polls) {
                        (0, true) => a.try_receive_vec(rank),
                        (0, false) => Some(a.receive_vec(rank)),
                        (_, true) => f.try_receive_vec(rank).map(|v| v.iter().map(|x| *x as u64).collect()),
                        (_, false) => Some(f.receive_vec(rank).iter().map(|x| *x as u64).collect()),
                    };
                    if let Some(m) = m {
                        got[i].push(m);
                        left[i] -= 1;
                    }
                }
            }
            for i in 2..2 * n {
                let rank = (i / 2) as i32;
                let more = if i % 2 == 0 { a.try_receive_vec(rank).is_some() } else { f.try_receive_vec(rank).is_some() };
                assert!(!more, "a message arrived twice");
            }
        }
        assert_eq!((a.rank() as usize, a.size()), (r, n));
        got
    };
    c.explore("stream", json!({"ranks": n, "script": script, "polls": polls}), n, b, &body, &mut |got| {
        for i in 2..2 * n {
            let want: Vec<Vec<u64>> = script[i / 2 - 1]
                .iter()
                .enumerate()
                .filter(|(_, x)| x.0 == i % 2)
                .map(|(k, x)| payload(i / 2, k, x.1))
                .collect();
            if got[0][i] != want {
                return Err(format!("from rank {}, stream {}: received {:?}, sent {want:?}", i / 2, i % 2, got[0][i]));
            }
        }
        Ok(())
    });
}

#[derive(Clone, Copy, PartialEq, Debug, Equivalence)]
struct One(u64);
#[derive(Clone, Copy, PartialEq, Debug, Equivalence)]
struct Two(u64);
#[derive(Clone, Copy, PartialEq, Debug, Equivalence)]
struct Three {
    x: f64,
}

/// One message of each of two types: the receiver takes them in the other order, and whether there
/// is a message of a type depends on messages of that type only.
fn two_types<A: Equivalence + Clone + PartialEq + std::fmt::Debug + 'static, B: Equivalence + Clone + PartialEq + std::fmt::Debug + 'static>(c: &Check, a: A, b: B) {
    let body = |r: usize| {
        let mut ca: Communicator<A> = Communicator::new();
        let mut cb: Communicator<B> = Communicator::new();
        if r == 1 {
            let (va, vb) = (vec![a.clone(); 2], vec![b.clone(); 3]);
            scope(|s| {
                let mut g1 = vec![];
                let mut g2 = vec![];
                g1.extend(ca.immediate_send_vec_wait_guard(s, 0, &va));
                g2.extend(cb.immediate_send_vec_wait_guard(s, 0, &vb));
            });
            (true, vec![], vec![])
        } else {
            let x = cb.receive_vec(1);
            let early = cb.try_receive_vec(1).is_some();
            let y = ca.receive_vec(1);
            (!early, y, x)
        }
    };
    let (ta, tb) = (std::any::type_name::<A>(), std::any::type_name::<B>());
    c.explore("types", json!({"types": [ta, tb]}), 2, &Bounds { modes: vec![Mode::Eager], ..Bounds::new(1) }, &body, &mut |got| {
        if !got[0].0 || got[0].1 != vec![a.clone(); 2] || got[0].2 != vec![b.clone(); 3] {
            return Err(format!("messages of type {ta} are taken for messages of type {tb}: {:?}", got[0]));
        }
        Ok(())
    });
}

macro_rules! all_pairs {
    ($c:expr, [$($done:expr),*]) => {};
    ($c:expr, [$($done:expr),*] $x:expr $(, $rest:expr)*) => {
        $(two_types($c, $x, $done); two_types($c, $done, $x);)*
        all_pairs!($c, [$($done,)* $x] $($rest),*);
    };
}

/// One of many types of messages.
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(transparent)]
struct Kind<const A: usize, const B: usize>(u32);

unsafe impl<const A: usize, const B: usize> Equivalence for Kind<A, B> {
    type Out = <u32 as Equivalence>::Out;
    fn equivalent_datatype() -> Self::Out {
        u32::equivalent_datatype()
    }
}

macro_rules! kinds {
    ($out:ident, [$($a:literal)*], $b:tt) => {
        $(kinds!(@row $out, $a, $b);)*
    };
    (@row $out:ident, $a:literal, [$($b:literal)*]) => {
        $($out.push((kind_send::<$a, $b> as fn(u32), kind_receive::<$a, $b> as fn() -> Vec<u32>));)*
    };
}

fn kind_send<const A: usize, const B: usize>(x: u32) {
    let mut w: Communicator<Kind<A, B>> = Communicator::new();
    w.blocking_send_vec(0, &[Kind(x)]);
}

fn kind_receive<const A: usize, const B: usize>() -> Vec<u32> {
    let mut w: Communicator<Kind<A, B>> = Communicator::new();
    w.receive_vec(1).iter().map(|k| k.0).collect()
}

/// One message of each of 324 types, received type by type: they are told apart, but for the few
/// chance collisions that remain with 2^15 tags.
fn many_types(c: &Check) {
    let mut kinds: Vec<(fn(u32), fn() -> Vec<u32>)> = vec![];
    kinds!(kinds, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17], [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17]);
    let kinds = &kinds;
    let body = |r: usize| {
        let mut confused = 0;
        for (x, (send, receive)) in kinds.iter().enumerate() {
            match r {
                1 => send(x as u32),
                _ => confused += (receive() != [x as u32]) as usize,
            }
        }
        confused
    };
    c.explore("many-types", json!({"types": kinds.len()}), 2, &Bounds { modes: vec![Mode::Eager], ..Bounds::new(0) }, &body, &mut |got| {
        match got[0] > 16 {
            true => Err(format!("{} of {} types of messages are taken for another one", got[0], kinds.len())),
            false => Ok(()),
        }
    });
}

/// Messages of one type, kept apart by tags of the program's choice; sent by blocking and
/// immediate sends. The receiver takes the tags in a fixed order.
fn custom_tags(c: &Check, script: &[usize]) {
    let tags = [0, 7, 32767, 99123151];
    let body = |r: usize| {
        let mut w: Vec<Communicator<u32>> = tags.iter().map(|t| Communicator::new_custom_tag(*t)).collect();
        let mut got: Vec<Vec<Vec<u32>>> = vec![vec![]; tags.len()];
        if r == 1 {
            for (k, t) in script.iter().enumerate() {
                let data = vec![k as u32; k % 3];
                if k % 2 == 0 {
                    w[*t].blocking_send_vec(0, &data);
                } else {
                    scope(|s| {
                        if let Some(request) = w[*t].immediate_send_vec(s, 0, &data) {
                            request.wait();
                        }
                    });
                }
            }
        } else {
            for t in (0..tags.len()).rev() {
                for _ in script.iter().filter(|x| **x == t) {
                    got[t].push(w[t].receive_vec(1));
                }
                assert!(w[t].try_receive_vec(1).is_none(), "a message arrived twice");
            }
        }
        // Collectives do not depend on the tag.
        (got, w[3].all_gather(&(r as u32 + 5)), w[1].all_gather_sum::<u64>(&(u32::MAX - r as u32)))
    };
    c.explore("tags", json!({"tags": script}), 2, &Bounds { modes: vec![Mode::Eager], ..Bounds::new(1) }, &body, &mut |got| {
        for t in 0..tags.len() {
            let want: Vec<Vec<u32>> = (0..script.len()).filter(|k| script[*k] == t).map(|k| vec![k as u32; k % 3]).collect();
            if got[0].0[t] != want {
                return Err(format!("with tag {}: received {:?}, sent {want:?}", tags[t], got[0].0[t]));
            }
        }
        for r in 0..2 {
            if got[r].1 != [5, 6] || got[r].2 != 2 * u32::MAX as u64 - 1 {
                return Err(format!("rank {r} gathers {:?} and the sum {}", got[r].1, got[r].2));
            }
        }
        Ok(())
    });
}

fn main() {
    let c = Check::new("C04");
    let mut jobs: Vec<Box<dyn Fn() + Sync>> = vec![];
    jobs.push(Box::new(move || {
        all_pairs!(c, [] 1u8, 2u16, 3u32, 4u64, 5usize, 6i8, 7i16, 8i32, 9i64, 10isize, 11f32, 12f64, true, One(13), Two(14), Three { x: 15.0 }, Pair { small: 1, big: 16.0 });
    }));
    jobs.push(Box::new(move || many_types(c)));
    for len in 0..=c.pick(4usize, 6) {
        for x in 0..4u64.pow(len as u32) {
            jobs.push(Box::new(move || custom_tags(c, &digits(x, 4, len).iter().map(|d| *d as usize).collect::<Vec<_>>())));
        }
    }
    let b = Bounds::new(0);
    let values = [-3i64, 0, 1, 8];
    for n in 1..=c.pick(4usize, 5) {
        for x in 0..4u64.pow(n as u32) {
            let b = b.clone();
            jobs.push(Box::new(move || {
                let d = digits(x, 4, n);
                collectives(c, &d.iter().map(|i| values[*i as usize]).collect::<Vec<_>>(), &b);
                varcount(c, &d.iter().map(|i| *i as usize).collect::<Vec<_>>(), &b);
                if x % 97 == 3 {
                    c.sample(json!({"values": d}));
                }
            }));
        }
    }
    // One sender with every script of up to 4 messages over two streams and lengths 0..2.
    let depth = c.pick(3, 4);
    for len in 0..=depth {
        for x in 0..6u64.pow(len as u32) {
            let script: Vec<(usize, usize)> =
                digits(x, 6, len).iter().map(|d| ((d % 2) as usize, (d / 2) as usize)).collect();
            jobs.push(Box::new(move || {
                let b = Bounds::new(c.pick(3, 4));
                stream(c, 2, &[script.clone()], true, &b);
                stream(c, 2, &[script.clone()], false, &Bounds { modes: vec![Mode::Eager], ..b });
            }));
        }
    }
    // Two senders.
    let depth = c.pick(2, 3);
    let all = 4u64.pow(depth as u32);
    for x in 0..all {
        for y in 0..all {
            jobs.push(Box::new(move || {
                if c.stopped() {
                    return;
                }
                let s = |x| -> Vec<(usize, usize)> { digits(x, 4, depth).iter().map(|d| ((d % 2) as usize, (d / 2) as usize)).collect() };
                stream(c, 3, &[s(x), s(y)], true, &Bounds::new(2));
            }));
        }
    }
    // More ranks, large values and large payloads.
    for n in 5..=c.pick(9usize, 16) {
        for x in 0..n {
            for (usual, other) in [(0, 1), (1, 0), (5, -5), (-1 << 40, 1 << 41), (3, 1 << 50)] {
                let b = Bounds { bases: vec![mc::mmpi::Base::PollsLast], ..Bounds::new(0) };
                jobs.push(Box::new(move || {
                    let mut v = vec![usual; n];
                    v[x] = other;
                    if usual >= -10 && other >= -10 {
                        collectives(c, &v, &b);
                    } else {
                        gathered(c, &v, &b);
                    }
                    varcount(c, &v.iter().map(|x| (x.unsigned_abs() % 7) as usize).collect::<Vec<_>>(), &b);
                }));
            }
        }
    }
    for len in [17usize, 100, 256, 1000, 4096, 10_000, 65_537] {
        let b = b.clone();
        jobs.push(Box::new(move || {
            for l in [vec![len], vec![0, len], vec![len, 1, len], vec![2, len, 0, 1]] {
                varcount(c, &l, &b);
            }
            for polls in [true, false] {
                stream(c, 2, &[vec![(0, len), (1, 1), (0, 2), (1, len)]], polls, &Bounds { modes: vec![Mode::Eager], ..Bounds::new(1) });
            }
        }));
    }
    par(jobs.len(), |j| jobs[j]());
    c.info("bounds", json!("1 to 4 ranks (5 thorough; single outliers on up to 9 or 16); all pairs of 17 types and 324 types at once; all sequences of up to 4 (6) messages over 4 tags; payloads of up to 65537 items; all value and length vectors over 4 values; all message scripts of 3 (4) messages over 2 types and lengths 0..2 from one sender, of 2 (3) messages from two senders; all arrival orders within 3 (4) and 2 deviations from 4 base schedules, eager and rendezvous"));
    c.assume("tags of 16 bits are taken from a hash of the type: up to 16 of 324 types may collide by chance");
    c.assume("messages between two ranks do not overtake each other; zero-byte sends complete without a receiver");
    c.finish()
}
