//! C11: the stores of the triangulation never confuse, lose or resurrect elements.
use generational_arena::Index;
use mc::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use subsweep::voronoi::verif::{IndexedArena, IndexedVec};

#[derive(Clone, Copy, PartialEq, Debug)]
struct Id(Index);
impl From<Index> for Id {
    fn from(i: Index) -> Self {
        Id(i)
    }
}
impl From<Id> for Index {
    fn from(i: Id) -> Self {
        i.0
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Pos(usize);
impl From<usize> for Pos {
    fn from(i: usize) -> Self {
        Pos(i)
    }
}
impl From<Pos> for usize {
    fn from(i: Pos) -> Self {
        i.0
    }
}

const OPS: u64 = 9;
/// Up to this length of a sequence, removed identifiers are also used for access at its end.
const STALE: usize = 5;

/// Operations: insert, remove the k-th id ever given (k = 0..4), reserve, overwrite, clone.
fn arena(ops: &[u64]) -> Result<(), String> {
    let mut a: IndexedArena<Id, u32> = IndexedArena::default();
    let mut ids: Vec<Id> = vec![];
    let mut live: BTreeMap<usize, u32> = BTreeMap::new();
    let mut next = 0;
    for op in ops {
        next += 1;
        match op {
            0 => {
                let id = a.insert(next);
                if ids.contains(&id) {
                    return Err(format!("the id {id:?} was given twice"));
                }
                live.insert(ids.len(), next);
                ids.push(id);
            }
            1..=5 => {
                let k = *op as usize - 1;
                if k < ids.len() {
                    let got = a.remove(ids[k]);
                    let want = live.remove(&k);
                    if got != want {
                        return Err(format!("remove gives {got:?}, expected {want:?}"));
                    }
                }
            }
            6 => a.reserve(3),
            7 => {
                if let Some((k, v)) = live.iter_mut().next_back() {
                    a[ids[*k]] = next;
                    *v = next;
                }
            }
            _ => a = a.clone(),
        }
        if a.len() != live.len() || a.size() < live.len() {
            return Err(format!("len is {}, expected {}", a.len(), live.len()));
        }
        for (k, id) in ids.iter().enumerate() {
            if a.get(*id) != live.get(&k) || a.contains(*id) != live.contains_key(&k) {
                return Err(format!("get gives {:?}, expected {:?}", a.get(*id), live.get(&k)));
            }
            if let Some(v) = live.get(&k) {
                if a[*id] != *v {
                    return Err(format!("[] gives {}, expected {v}", a[*id]));
                }
            }
        }
    }
    // A removed element cannot be reached by its identifier.
    if ops.len() <= STALE {
        for (k, id) in ids.iter().enumerate().filter(|x| !live.contains_key(&x.0)) {
            let read = catch_unwind(AssertUnwindSafe(|| a[*id]));
            let before: Vec<u32> = a.iter().map(|x| *x.1).collect();
            let written = catch_unwind(AssertUnwindSafe(|| a[*id] = 77)).is_ok();
            let after: Vec<u32> = a.iter().map(|x| *x.1).collect();
            if read.is_ok() || written || before != after {
                return Err(format!("the {k}th identifier, whose element was removed, gives {read:?}, can be written to: {written}"));
            }
            if a.remove(*id).is_some() {
                return Err(format!("the {k}th identifier, whose element was removed, removes another one"));
            }
        }
    }
    let mut seen = vec![];
    for (id, v) in a.iter() {
        let k = ids.iter().position(|x| *x == id);
        if k.and_then(|k| live.get(&k)) != Some(v) {
            return Err(format!("iter gives {v} at {id:?}"));
        }
        seen.push(*v);
    }
    let all: Vec<u32> = a.into_iter().collect();
    let (mut s, mut t) = (seen.clone(), all);
    s.sort();
    t.sort();
    let mut w: Vec<u32> = live.values().copied().collect();
    w.sort();
    if s != w || t != w {
        return Err(format!("iter gives {s:?}, into_iter {t:?}, expected {w:?}"));
    }
    Ok(())
}

fn vector(ops: &[u64]) -> Result<(), String> {
    let mut a: IndexedVec<Pos, u32> = IndexedVec::default();
    let mut ids: Vec<Pos> = vec![];
    let mut vals: Vec<u32> = vec![];
    for (next, op) in ops.iter().enumerate() {
        let next = next as u32 + 10;
        match op {
            0 | 4 | 5 => {
                let id = a.insert(next);
                if ids.contains(&id) {
                    return Err(format!("the id {id:?} was given twice"));
                }
                ids.push(id);
                vals.push(next);
            }
            1..=3 => {
                let k = *op as usize - 1;
                if k < ids.len() {
                    a[ids[k]] = next;
                    vals[k] = next;
                }
            }
            6 => a.reserve(2),
            _ => a = a.clone(),
        }
        for k in 0..ids.len() {
            if a[ids[k]] != vals[k] {
                return Err(format!("[] gives {}, expected {}", a[ids[k]], vals[k]));
            }
        }
    }
    let got: Vec<(Pos, u32)> = a.iter().map(|(i, v)| (i, *v)).collect();
    let want: Vec<(Pos, u32)> = ids.iter().copied().zip(vals.iter().copied()).collect();
    if got != want {
        return Err(format!("iter gives {got:?}, expected {want:?}"));
    }
    let got: Vec<u32> = a.into_iter().collect();
    if got != vals {
        return Err(format!("into_iter gives {got:?}, expected {vals:?}"));
    }
    Ok(())
}

/// Many elements: `n` inserted, every `step`th from `from` removed, `m` more, those removed again
/// in the other order.
fn large(n: usize, step: usize, from: usize, m: usize, rev: bool) -> Result<(), String> {
    let mut a: IndexedArena<Id, u32> = IndexedArena::default();
    let mut ids: Vec<(Id, Option<u32>)> = vec![];
    let verify = |a: &IndexedArena<Id, u32>, ids: &[(Id, Option<u32>)], when: &str| {
        let live = ids.iter().filter(|x| x.1.is_some()).count();
        if a.len() != live {
            return Err(format!("{when}: len is {}, expected {live}", a.len()));
        }
        for (id, v) in ids {
            if a.get(*id) != v.as_ref() || a.contains(*id) != v.is_some() {
                return Err(format!("{when}: {id:?} gives {:?}, expected {v:?}", a.get(*id)));
            }
        }
        let mut got: Vec<u32> = a.iter().map(|x| *x.1).collect();
        got.sort();
        let mut want: Vec<u32> = ids.iter().filter_map(|x| x.1).collect();
        want.sort();
        if got != want {
            return Err(format!("{when}: iter gives {got:?}, expected {want:?}"));
        }
        Ok(())
    };
    for i in 0..n {
        ids.push((a.insert(i as u32), Some(i as u32)));
    }
    verify(&a, &ids, "after the insertions")?;
    for round in 0..2 {
        let mut which: Vec<usize> = (from..ids.len()).step_by(step).collect();
        if rev != (round == 1) {
            which.reverse();
        }
        for i in which {
            let want = ids[i].1.take();
            let got = a.remove(ids[i].0);
            if got != want {
                return Err(format!("remove gives {got:?}, expected {want:?}"));
            }
        }
        verify(&a, &ids, "after the removals")?;
        for _ in 0..m {
            let v = ids.len() as u32;
            let id = a.insert(v);
            if ids.iter().any(|x| x.0 == id) {
                return Err(format!("the id {id:?} was given twice"));
            }
            ids.push((id, Some(v)));
        }
        verify(&a, &ids, "after inserting again")?;
    }
    Ok(())
}

/// One place that is used over and over, beside `others` that stay.
fn reused(others: usize, times: usize) -> Result<(), String> {
    let mut a: IndexedArena<Id, u32> = IndexedArena::default();
    let stay: Vec<Id> = (0..others).map(|i| a.insert(1_000_000 + i as u32)).collect();
    let mut ids: Vec<Id> = vec![];
    for i in 0..times {
        let id = a.insert(i as u32);
        let mut back = 1;
        while back <= ids.len() {
            let old = ids[ids.len() - back];
            if old == id || a.contains(old) || a.get(old).is_some() || a.remove(old).is_some() {
                return Err(format!("use {i} is confused with the one {back} uses before"));
            }
            // 1 to 4, then the neighbourhoods of powers of two
            back += if back < 4 || (back + 1).is_power_of_two() || back.is_power_of_two() { 1 } else { (back + 1).next_power_of_two() - 1 - back };
        }
        if a.get(id) != Some(&(i as u32)) || a.len() != others + 1 || a.remove(id) != Some(i as u32) {
            return Err(format!("use {i} of the same place is lost"));
        }
        ids.push(id);
    }
    for (i, id) in stay.iter().enumerate() {
        if a.get(*id) != Some(&(1_000_000 + i as u32)) {
            return Err(format!("another element is changed"));
        }
    }
    Ok(())
}

/// Very many elements in both stores.
fn many(n: usize) -> Result<(), String> {
    let mut a: IndexedArena<Id, u32> = IndexedArena::default();
    let mut v: IndexedVec<Pos, u32> = IndexedVec::default();
    let ids: Vec<(Id, Pos)> = (0..n as u32).map(|i| (a.insert(i), v.insert(i))).collect();
    for (i, (id, pos)) in ids.iter().enumerate() {
        if a.get(*id) != Some(&(i as u32)) || a[*id] != i as u32 || v[*pos] != i as u32 {
            return Err(format!("element {i} is confused with another"));
        }
    }
    if a.len() != n || a.iter().count() != n || !v.iter().map(|(p, x)| (p, *x)).eq(ids.iter().enumerate().map(|(i, x)| (x.1, i as u32))) {
        return Err(format!("elements are missing or out of order"));
    }
    for (i, (id, pos)) in ids.iter().enumerate() {
        if i % 3 != 1 {
            a[*id] += 1;
            v[*pos] += 1;
        }
    }
    let want: Vec<u32> = (0..n as u32).map(|i| i + (i % 3 != 1) as u32).collect();
    let mut got: Vec<u32> = a.into_iter().collect();
    let mut sorted = want.clone();
    got.sort();
    sorted.sort();
    if got != sorted || v.into_iter().collect::<Vec<_>>() != want {
        return Err(format!("elements are lost or out of order"));
    }
    Ok(())
}

fn main() {
    let c = Check::new("C11");
    let longest = c.pick(70_000, 1_100_000);
    let mut n = 1usize;
    while n < longest {
        for n in [n - 1, n, n + 1, longest.min(3 * n)] {
            let case = || json!({"many": n});
            if let Some(Err(e)) = c.guard("many", case, || many(n)) {
                c.violation("many", &format!("with {n} elements: {e}"), case());
            }
            c.count(1, n as u64, 1);
        }
        n *= 2;
    }
    par(4, |others| {
        let times = c.pick(70_000, 300_000);
        let case = || json!({"others": others, "times": times});
        if let Some(Err(e)) = c.guard("reused", case, || reused(others, times)) {
            c.violation("reused", &format!("one place, used {times} times beside {others} other elements: {e}"), case());
        }
        c.count(times as u64, 3 * times as u64, 1);
    });
    for len in 0..=STALE as u64 {
        par(OPS.pow(len as u32) as usize, |i| {
            if c.stopped() {
                return;
            }
            let ops = digits(i as u64, OPS, len as usize);
            let case = || json!({"what": "arena", "ops": ops});
            if let Some(Err(e)) = c.guard("stale", case, || arena(&ops)) {
                c.violation("stale", &format!("arena after {ops:?}: {e}"), case());
            }
            c.count(1, len, 1);
        });
    }
    let sizes = [1usize, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 100];
    par(sizes.len() * sizes.len(), |j| {
        let (n, m) = (sizes[j % sizes.len()], sizes[j / sizes.len()]);
        for step in [1, 2, 3, 5] {
            for from in 0..step {
                for rev in [false, true] {
                    let case = || json!({"inserted": n, "removed_every": step, "from": from, "inserted_again": m, "reversed": rev});
                    if let Some(Err(e)) = c.guard("large", case, || large(n, step, from, m, rev)) {
                        c.violation("large", &format!("{n} inserted, every {step}th from {from} removed, {m} inserted, twice: {e}"), case());
                        return;
                    }
                    c.count(1, (n + 2 * m) as u64, 1);
                }
            }
        }
    });
    let depth = c.pick(7, 8);
    par(OPS.pow(2) as usize, |j| {
        for i in 0..OPS.pow(depth - 2) {
            if c.stopped() {
                return;
            }
            let mut ops = digits(j as u64, OPS, 2);
            ops.extend(digits(i, OPS, depth as usize - 2));
            for (key, f) in [("arena", arena as fn(&[u64]) -> _), ("vector", vector)] {
                let case = || json!({"what": key, "ops": ops});
                if let Some(Err(e)) = c.guard(key, case, || f(&ops)) {
                    c.violation(key, &format!("{key} after {ops:?}: {e}"), case());
                    return;
                }
            }
            if i % 9973 == 5 && j % 20 == 0 {
                c.sample(json!({"ops": ops}));
            }
        }
        let n = OPS.pow(depth - 2);
        c.count(2 * n, 2 * n * depth as u64, 2 * n);
    });
    c.info("bounds", json!(format!("all sequences of {depth} operations out of {OPS} (insert, remove any of the first 5 ids, reserve, overwrite, clone); access to removed elements after all sequences of up to {STALE}; one place reused 70000 (300000) times; up to 70000 (1100000) elements at once")));
    c.finish()
}
