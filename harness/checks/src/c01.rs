//! C01: every entry of the input files is read by exactly one rank, every local entry is written
//! to exactly one place of the output files, in order, for all file and rank counts.
use mc::*;
use subsweep::io::verif::{
    get_rank_input_assignment_for_rank as input, get_rank_output_assignment_for_rank as output,
};

fn check_input(files: &[usize], ranks: usize) -> Result<(), String> {
    let total: usize = files.iter().sum();
    let (mut file, mut pos) = (0, 0);
    let mut least = usize::MAX;
    let mut most = 0;
    for r in 0..ranks {
        let mut mine = 0;
        for g in &input(files, ranks, r as i32).regions {
            if g.file_index >= files.len() || g.start > g.end || g.end > files[g.file_index] {
                return Err(format!("rank {r} is to read {g:?}, which is outside of the files"));
            }
            if g.start == g.end {
                return Err(format!("rank {r} is to read {g:?}, which is empty"));
            }
            while file < files.len() && pos == files[file] {
                file += 1;
                pos = 0;
            }
            if (g.file_index, g.start) != (file, pos) {
                return Err(format!("rank {r} reads {g:?}, but the next unread entry is {pos} of file {file}"));
            }
            pos = g.end;
            if g.size() != g.end - g.start {
                return Err(format!("{g:?} is taken to have {} entries", g.size()));
            }
            mine += g.end - g.start;
        }
        least = least.min(mine);
        most = most.max(mine);
    }
    while file < files.len() && pos == files[file] {
        file += 1;
        pos = 0;
    }
    if file != files.len() {
        return Err(format!("entry {pos} of file {file} and what follows is read by no rank"));
    }
    if least < total / ranks || most > total / ranks + ranks - 1 {
        return Err(format!("{total} entries on {ranks} ranks: one gets {least}, one gets {most}"));
    }
    Ok(())
}

fn check_output(counts: &[usize], num_files: usize) -> Result<(), String> {
    let total: usize = counts.iter().sum();
    let mut len = vec![0usize; num_files];
    let mut last = 0;
    for r in 0..counts.len() {
        let mut mine = 0;
        for g in &output(counts, num_files, r as i32).regions {
            if g.file_index >= num_files || g.start > g.end {
                return Err(format!("rank {r} is to write {g:?}"));
            }
            if g.start == g.end {
                return Err(format!("rank {r} is to write {g:?}, which is empty"));
            }
            if g.file_index < last {
                return Err(format!("rank {r} writes {g:?} after file {last}: not in order"));
            }
            if len[g.file_index] != g.start {
                return Err(format!("rank {r} writes {g:?} but the file ends at {}", len[g.file_index]));
            }
            last = g.file_index;
            len[g.file_index] = g.end;
            if g.size() != g.end - g.start {
                return Err(format!("{g:?} is taken to have {} entries", g.size()));
            }
            mine += g.end - g.start;
        }
        if mine != counts[r] {
            return Err(format!("rank {r} has {} entries and writes {mine}", counts[r]));
        }
    }
    let least = *len.iter().min().unwrap();
    let most = *len.iter().max().unwrap();
    if least < total / num_files || most > total / num_files + num_files - 1 {
        return Err(format!("{total} entries in {num_files} files: {len:?}"));
    }
    Ok(())
}

fn main() {
    let c = Check::new("C01");
    let max_n = c.pick(8, 12);
    // (alphabet, longest list)
    let spaces: Vec<(Vec<usize>, usize)> = vec![
        ((0..7).collect(), c.pick(5, 6)),
        (vec![0, 1, 3], c.pick(9, 12)),
        (vec![0, 1, 2, 3, 7, 1_000_000_007, 1 << 40], c.pick(5, 6)),
        (vec![0, 1, (1 << 53) + 1, (1 << 60) + 5], c.pick(4, 5)),
    ];
    let mut jobs = vec![];
    for (a, l) in &spaces {
        for len in 0..=*l {
            let all = (a.len() as u64).pow(len as u32);
            let mut i = 0;
            while i < all {
                jobs.push((a, len, i, (i + 500).min(all)));
                i += 500;
            }
        }
    }
    par(jobs.len(), |j| {
        let (a, len, from, to) = jobs[j];
        let (mut states, mut calls) = (0, 0);
        for i in from..to {
            if c.stopped() {
                return;
            }
            let list: Vec<usize> = digits(i, a.len() as u64, len).iter().map(|d| a[*d as usize]).collect();
            for n in 1..=max_n {
                for (kind, f) in [("input", check_input as fn(&[usize], usize) -> _), ("output", check_output)] {
                    let case = || json!({"kind": kind, "entries": list, "n": n});
                    if kind == "output" && list.is_empty() {
                        continue;
                    }
                    if let Some(Err(e)) = c.guard(kind, case, || f(&list, n)) {
                        c.violation(kind, &format!("{kind} of {list:?} with n = {n}: {e}"), case());
                        return;
                    }
                    states += 1;
                    calls += if kind == "input" { n as u64 } else { list.len() as u64 };
                }
            }
            if i == to - 1 && j % 40 == 7 {
                c.sample(json!({"entries": list, "n": "1.."}));
            }
        }
        c.count(states, calls, states);
    });
    // Many ranks or files, and long lists.
    let wide = c.pick(80usize, 300);
    let a = [0usize, 1, 2, 5, 17, 64, 1000, (1 << 33) + 1];
    let mut lists: Vec<Vec<usize>> = vec![];
    for len in 1..=3 {
        for i in 0..(a.len() as u64).pow(len as u32) {
            lists.push(digits(i, a.len() as u64, len).iter().map(|d| a[*d as usize]).collect());
        }
    }
    for len in [10usize, 33, 64] {
        for usual in [0usize, 1, 2, 7] {
            for odd in [0usize, 1, 50] {
                for at in 0..len {
                    let mut l = vec![usual; len];
                    l[at] = odd;
                    lists.push(l);
                }
            }
        }
    }
    par(lists.len(), |j| {
        let list = &lists[j];
        let mut states = 0;
        let mut n = 1;
        let few = list.len() < 3;
        while n <= wide || few && n <= 1030 {
            // Among many only those around powers of two.
            if n > wide && [n - 1, n, n + 1].iter().all(|n| !n.is_power_of_two()) {
                n += 1;
                continue;
            }
            for (kind, f) in [("input", check_input as fn(&[usize], usize) -> _), ("output", check_output)] {
                if c.stopped() {
                    return;
                }
                let case = || json!({"kind": kind, "entries": list, "n": n});
                if let Some(Err(e)) = c.guard(kind, case, || f(list, n)) {
                    c.violation(kind, &format!("{kind} of {list:?} with n = {n}: {e}"), case());
                    return;
                }
                states += 1;
            }
            n += if list.len() > 3 { 1 + n / 4 } else { 1 };
        }
        c.count(states, states, states);
    });
    c.info("many", json!(format!("{} lists of up to 64 files or ranks with up to {wide} ranks or files, 1 or 2 files or ranks with up to 1025", lists.len())));
    c.info("bounds", json!(format!("all lists of entry counts: {spaces:?} as (alphabet, max length); 1..={max_n} ranks (input) or files (output)")));
    c.finish()
}
