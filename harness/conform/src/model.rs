//! All outcomes of all scenarios in the model.
mod scenarios;
use mc::mmpi::{self, Bounds};
use std::collections::BTreeSet;

#[global_allocator]
static A: mmpi::alloc::Tracking = mmpi::alloc::Tracking;

fn main() {
    for n in 1..=4usize {
        for (name, f) in scenarios::ALL {
            if n == 1 && name == "tags" {
                continue;
            }
            // any_source is the only one whose outcome may depend on the schedule
            let d = if name == "any_source" { 2 * n } else { 1 };
            let mut all = BTreeSet::new();
            let s = mmpi::explore(n, &Bounds { prune: false, ..Bounds::new(d) }, &|r| f(r, n), &mut |got: &[String]| {
                all.insert(got.to_vec());
                Ok(())
            });
            match s {
                Ok(s) => eprintln!("{name} on {n} ranks: {} executions, {} outcomes", s.complete, all.len()),
                Err(o) => panic!("{name} on {n} ranks: {}", o.what),
            }
            for o in all {
                println!("{n}\t{name}\t{}", o.join("\t"));
            }
        }
    }
}
