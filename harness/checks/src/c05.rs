//! C05: what is sent through MPI arrives as the same values, alone and in arrays.
use mc::mmpi::Bounds;
use mc::*;
use mpi::traits::Equivalence;
use subsweep::communication::communicator::Communicator;
use subsweep::communication::{CommunicatedOption, ExchangeCommunicator};
use subsweep::verif::quadtree;
use subsweep::sweep::verif::DirectionIndex;
use subsweep::verif::{Extent, PeanoKey2d, PeanoKey3d};

#[global_allocator]
static A: mmpi::alloc::Tracking = mmpi::alloc::Tracking;

/// Comparable by value, whatever the type.
trait Wire: Equivalence + Clone + 'static {
    fn show(self) -> String;
}

macro_rules! by_debug {
    ($($t:ty),*) => { $(impl Wire for $t { fn show(self) -> String { format!("{self:?}") } })* };
}
by_debug!(u8, u16, i32, u64, bool, PeanoKey2d, PeanoKey3d, DirectionIndex, Point, Odd);

impl Wire for f64 {
    fn show(self) -> String {
        format!("{self:?} ({:x})", self.to_bits())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Equivalence, Default)]
struct Point {
    x: f64,
    y: f64,
    z: f64,
}

#[derive(Clone, Copy, Debug, PartialEq, Equivalence, Default)]
struct Odd {
    a: u8,
    b: [i32; 3],
    c: bool,
}

impl<T: Wire> Wire for CommunicatedOption<T> {
    fn show(self) -> String {
        match Option::<T>::from(self) {
            None => "None".into(),
            Some(x) => format!("Some({})", x.show()),
        }
    }
}

impl<T: Wire> Wire for Extent<T> {
    fn show(self) -> String {
        format!("[{} {} {}]", self.min.show(), self.max.show(), self.center.show())
    }
}

fn opt<T>(x: Option<T>) -> CommunicatedOption<T> {
    x.into()
}

fn show<T: Wire>(v: &[T]) -> Vec<String> {
    v.iter().map(|x| x.clone().show()).collect()
}

/// All sequences of up to `max` of the given values go from every rank to every other, by all the
/// ways there are.
fn transport<T: Wire>(c: &Check, name: &str, values: &[T], max: usize) {
    let k = values.len() as u64;
    // Long lists, and on more ranks.
    for (n, len) in [(2usize, 40usize), (3, 1000), (6, 5), (2, 5000)] {
        let list = |r: usize| -> Vec<T> { (0..len + r).map(|i| values[(i * (r + 1) + i / 7 + r) % k as usize].clone()).collect() };
        let body = |r: usize| {
            let mut w: Communicator<T> = Communicator::new();
            let mut e: ExchangeCommunicator<T> = ExchangeCommunicator::new();
            let got: Vec<(i32, Vec<String>)> = e.exchange_same_for_all(&list(r)).into_iter().map(|(k, v)| (k, show(&v))).collect();
            (got, show(&w.all_gather_varcount(&list(r))))
        };
        let want: Vec<Vec<String>> = (0..n).map(|r| show(&list(r))).collect();
        let b = Bounds { bases: vec![mmpi::Base::PollsLast], ..Bounds::new(0) };
        c.explore(name, json!({"type": name, "ranks": n, "length": len}), n, &b, &body, &mut |got| {
            for r in 0..n {
                for (s, v) in &got[r].0 {
                    if *v != want[*s as usize] {
                        return Err(format!("{name}: {len} values from rank {s} to rank {r} changed"));
                    }
                }
                if got[r].1 != want.concat() {
                    return Err(format!("{name}: {len} values from {n} ranks changed when gathered"));
                }
            }
            Ok(())
        });
    }
    for len in 0..=max {
        let total = k.pow(len as u32);
        for i in 0..total {
            if c.stopped() {
                return;
            }
            let lists: Vec<Vec<T>> = (0..3)
                .map(|r| digits((i + r * (3 + i / k)) % total, k, len).iter().map(|d| values[*d as usize].clone()).collect())
                .collect();
            let one: Vec<T> = (0..3).map(|r| values[((i + r) % k) as usize].clone()).collect();
            let (l, o) = (lists.clone(), one.clone());
            let body = move |r: usize| {
                let mut w: Communicator<T> = Communicator::new();
                let mut e: ExchangeCommunicator<T> = ExchangeCommunicator::new();
                let got = e.exchange_same_for_all(&l[r]);
                let single = w.all_gather(&o[r]);
                let all = w.all_gather_varcount(&l[r]);
                let got: Vec<(i32, Vec<String>)> = got.into_iter().map(|(k, v)| (k, show(&v))).collect();
                (got, show(&single), show(&all))
            };
            let want: Vec<Vec<String>> = lists.iter().map(|l| show(l)).collect();
            let wone = show(&one);
            let b = Bounds { bases: vec![mmpi::Base::PollsLast], ..Bounds::new(0) };
            let case = json!({"type": name, "lists": want, "single": wone});
            c.explore(name, case, 3, &b, &body, &mut |got| {
                for r in 0..3 {
                    for (s, v) in &got[r].0 {
                        if *v != want[*s as usize] {
                            return Err(format!("{name}: rank {s} sent {:?}, rank {r} received {v:?}", want[*s as usize]));
                        }
                    }
                    if got[r].1 != wone {
                        return Err(format!("{name}: gathered {:?}, expected {wone:?}", got[r].1));
                    }
                    if got[r].2 != want.concat() {
                        return Err(format!("{name}: gathered {:?}, expected {:?}", got[r].2, want.concat()));
                    }
                }
                Ok(())
            });
            // Through the options that are not sent anywhere.
            if i % 37 == 5 {
                c.sample(json!({"type": name, "values": want}));
            }
        }
    }
}

/// All numbers with one bit, and with all but one.
fn bits(n: usize) -> impl Iterator<Item = u128> {
    (0..n).flat_map(|b| [1u128 << b, !(1u128 << b)])
}

fn floats() -> impl Iterator<Item = f64> + Clone {
    [0.0, -0.0, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::MAX, f64::MIN, f64::EPSILON, f64::NEG_INFINITY, f64::from_bits(0x7ff8_0000_dead_beef)].into_iter()
}

fn main() {
    let c = Check::new("C05");
    let n = c.pick(3usize, 4);
    let p = |x: f64| Point { x, y: x + 0.5, z: -x };
    let odd = |i: i32| Odd { a: i as u8, b: [i, !i, i * 3], c: i % 2 == 1 };
    let ext = |a: f64, b: f64| Extent::from_min_max(a, b);
    let extp = |a: f64, b: f64| Extent { min: p(a), max: p(b), center: p(a * b + 1.0) };
    let jobs: Vec<Box<dyn Fn() + Sync>> = vec![
        Box::new(move || transport(c, "option-i32", &[opt(None), opt(Some(0i32)), opt(Some(-7)), opt(Some(i32::MAX))], n)),
        Box::new(move || transport(c, "option-u8", &[opt(None), opt(Some(0u8)), opt(Some(255))], n)),
        Box::new(move || transport(c, "option-bool", &[opt(None), opt(Some(false)), opt(Some(true))], n)),
        Box::new(move || transport(c, "option-f64", &[opt(None), opt(Some(0.0)), opt(Some(-1.5e300)), opt(Some(f64::INFINITY))], n)),
        Box::new(move || transport(c, "option-struct", &[opt(None), opt(Some(odd(1))), opt(Some(odd(-2))), opt(Some(odd(9)))], n)),
        Box::new(move || transport(c, "option-point", &[opt(None), opt(Some(p(1.0))), opt(Some(p(-3.25)))], n)),
        Box::new(move || transport(c, "option-extent", &[opt(None), opt(Some(ext(0.0, 1.0))), opt(Some(ext(-2.0, 7.0)))], n)),
        Box::new(move || transport(c, "option-extent-point", &[opt(None), opt(Some(extp(0.0, 1.0))), opt(Some(extp(-2.0, 7.0)))], n)),
        Box::new(move || transport(c, "extent", &[ext(0.0, 1.0), ext(-1.0, 3.0), ext(5.0, 5.0), ext(-1e300, 1e300)], n)),
        Box::new(move || transport(c, "extent-point", &[extp(0.0, 1.0), extp(2.0, -3.0), extp(1e-300, 0.0)], n)),
        Box::new(move || transport(c, "extent-odd", &[Extent { min: odd(1), max: odd(2), center: odd(3) }, Extent { min: odd(4), max: odd(5), center: odd(6) }], n)),
        Box::new(move || transport(c, "key-2d", &[PeanoKey2d(0), PeanoKey2d(1), PeanoKey2d(u64::MAX), PeanoKey2d(1 << 63)], n)),
        Box::new(move || {
            let k = [PeanoKey3d(0), PeanoKey3d(1), PeanoKey3d(u64::MAX as u128), PeanoKey3d(1 << 64), PeanoKey3d((5 << 100) + 77)];
            transport(c, "key-3d", &k, n)
        }),
        Box::new(move || transport(c, "direction", &[DirectionIndex(0), DirectionIndex(83), DirectionIndex(usize::MAX)], n)),
        // Every single bit of the wide types, and special floating point numbers.
        Box::new(move || transport(c, "key-2d", &bits(64).map(|b| PeanoKey2d(b as u64)).collect::<Vec<_>>(), n - 2)),
        Box::new(move || transport(c, "key-3d", &bits(128).map(PeanoKey3d).collect::<Vec<_>>(), n - 2)),
        Box::new(move || transport(c, "direction", &bits(64).map(|b| DirectionIndex(b as usize)).collect::<Vec<_>>(), n - 2)),
        Box::new(move || transport(c, "option-u64", &bits(64).map(|b| opt(Some(b as u64))).chain([opt(None)]).collect::<Vec<_>>(), n - 2)),
        Box::new(move || transport(c, "option-u16", &bits(16).map(|b| opt(Some(b as u16))).chain([opt(None)]).collect::<Vec<_>>(), n - 2)),
        Box::new(move || transport(c, "option-f64", &floats().map(|x| opt(Some(x))).chain([opt(None)]).collect::<Vec<_>>(), n - 1)),
        Box::new(move || transport(c, "extent", &floats().flat_map(|x| floats().map(move |y| Extent { min: x, max: y, center: -x })).collect::<Vec<_>>(), n - 2)),
        Box::new(move || {
            let inner = [None, Some(None), Some(Some(3i32)), Some(Some(-1))];
            transport(c, "option-option", &inner.map(|x| opt(x.map(opt))), n)
        }),
        Box::new(move || {
            // Every index of a node in its parent has a code of its own.
            let mut codes = std::collections::BTreeMap::new();
            let n = quadtree::NUM_CHILDREN as u8;
            for x in std::iter::once(None).chain((0..n).map(Some)) {
                let code = quadtree::encode(x);
                if quadtree::decode(code) != x {
                    c.violation("node", &format!("{x:?} has the code {code}, which means {:?}", quadtree::decode(code)), json!({"node": x}));
                }
                if let Some(y) = codes.insert(code, x) {
                    c.violation("node", &format!("{x:?} and {y:?} both have the code {code}"), json!({"node": x}));
                }
                c.count(1, 2, 1);
            }
        }),
        Box::new(move || {
            // Options that stay where they are: conversion and cloning.
            for x in [None, Some(String::from("a")), Some(String::new())] {
                let w: CommunicatedOption<String> = x.clone().into();
                let copy = w.clone();
                let back: Option<String> = w.into();
                let back2: Option<String> = copy.into();
                if back != x || back2 != x {
                    c.violation("clone", &format!("{x:?} became {back:?} and {back2:?}"), json!({"value": x}));
                }
                c.count(1, 3, 1);
            }
        }),
    ];
    par(jobs.len(), |j| jobs[j]());
    c.info("bounds", json!(format!("3 ranks, all sequences of up to {n} values of 17 types (every bit of the wide ones, special numbers; options, extents, keys, direction and node indices) through exchange, gather and gather with counts; eager and rendezvous")));
    c.assume("a compound datatype is padded to the alignment of its most aligned basic type, as Open MPI and MPICH do");
    c.finish()
}
