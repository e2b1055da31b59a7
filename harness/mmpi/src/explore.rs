//! Stateless depth-first exploration of all executions within a deviation bound, with pruning of
//! states that were visited before with at least the same budget left.
use std::collections::HashMap;

use crate::world::{run, Mode, Settings};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Base {
    PollsFirst,
    PollsLast,
    SelfFirst,
    Reverse,
}

pub const BASES: [Base; 4] = [Base::PollsLast, Base::PollsFirst, Base::SelfFirst, Base::Reverse];

#[derive(Default)]
pub struct Chooser {
    pub prefix: Vec<u16>,
    /// (number of options, the chosen one)
    pub log: Vec<(u16, u16)>,
    pub devs: usize,
    pub bound: usize,
    pub visited: HashMap<u64, u8>,
    pub prune: bool,
    pub pruned: bool,
    pub prunes: u64,
}

impl Chooser {
    pub fn choose(&mut self, options: usize) -> usize {
        if options <= 1 || self.pruned {
            return 0;
        }
        let i = self.log.len();
        let c = self.prefix.get(i).copied().unwrap_or(0).min(options as u16 - 1);
        if c != 0 {
            self.devs += 1;
        }
        self.log.push((options as u16, c));
        c as usize
    }

    /// True if what follows from here was explored before.
    pub fn seen(&mut self, key: u64) -> bool {
        if !self.prune || self.pruned || self.log.len() < self.prefix.len() {
            return false;
        }
        let left = (self.bound - self.devs.min(self.bound)) as u8 + 1;
        match self.visited.get_mut(&key) {
            Some(l) if *l >= left => {
                self.pruned = true;
                self.prunes += 1;
                true
            }
            Some(l) => {
                *l = left;
                false
            }
            None => {
                self.visited.insert(key, left);
                false
            }
        }
    }

    /// The next choice sequence within `bound` deviations.
    fn advance(&mut self, bound: usize) -> bool {
        let mut devs = self.devs;
        while let Some((n, c)) = self.log.pop() {
            if c != 0 {
                devs -= 1;
            }
            if c + 1 < n && devs < bound {
                self.prefix = self.log.iter().map(|x| x.1).collect();
                self.prefix.push(c + 1);
                self.log.clear();
                self.devs = 0;
                return true;
            }
        }
        false
    }
}

#[derive(Clone, Debug)]
pub struct Bounds {
    pub deviations: usize,
    pub modes: Vec<Mode>,
    pub bases: Vec<Base>,
    pub max_executions: u64,
    pub horizon: usize,
    pub stack: usize,
    pub track_buffers: bool,
    pub allow_unreceived: bool,
    pub prune: bool,
    /// executions whose state was seen before are run to their end, on the base schedule, so that
    /// the memory of the ranks is given back
    pub finish: bool,
    /// called before every execution
    pub before: Option<fn()>,
}

impl Bounds {
    pub fn new(deviations: usize) -> Bounds {
        Bounds {
            deviations,
            modes: vec![Mode::Eager, Mode::Rendezvous],
            bases: BASES.to_vec(),
            max_executions: u64::MAX,
            horizon: 20_000,
            stack: 1 << 20,
            track_buffers: true,
            allow_unreceived: false,
            prune: true,
            finish: true,
            before: None,
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub executions: u64,
    pub complete: u64,
    pub transitions: u64,
    pub states: u64,
    pub max_choices: u64,
    pub truncated: bool,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.executions += o.executions;
        self.complete += o.complete;
        self.transitions += o.transitions;
        self.states += o.states;
        self.max_choices = self.max_choices.max(o.max_choices);
        self.truncated |= o.truncated;
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub what: String,
    pub ranks: usize,
    pub mode: Mode,
    pub base: Base,
    pub choices: Vec<u16>,
    pub trace: Vec<String>,
}

fn settings(b: &Bounds, mode: Mode, base: Base) -> Settings {
    Settings {
        mode,
        base,
        horizon: b.horizon,
        stack: b.stack,
        track_buffers: b.track_buffers,
        allow_unreceived: b.allow_unreceived,
        finish: b.finish,
    }
}

/// Runs `body` on `n` ranks in all executions within the bounds and checks what the ranks returned
/// in each.
pub fn explore<T: 'static>(
    n: usize,
    b: &Bounds,
    body: &dyn Fn(usize) -> T,
    check: &mut dyn FnMut(&[T]) -> Result<(), String>,
) -> Result<Stats, Outcome> {
    let mut stats = Stats::default();
    for mode in &b.modes {
        for base in &b.bases {
            let s = settings(b, *mode, *base);
            let mut chooser = Chooser { bound: b.deviations, prune: b.prune, ..Default::default() };
            let mut results: Vec<Option<T>> = vec![];
            let mut done = 0u64;
            loop {
                if let Some(f) = b.before {
                    f()
                }
                let r = run(n, &s, chooser, false, body, &mut results);
                chooser = r.chooser;
                stats.executions += 1;
                done += 1;
                stats.transitions += r.transitions;
                stats.max_choices = stats.max_choices.max(chooser.log.len() as u64);
                let pruned = std::mem::take(&mut chooser.pruned);
                let mut bad = r.violation.map(|v| v.what);
                if bad.is_none() && !pruned {
                    stats.complete += 1;
                    let vals: Vec<T> =
                        results.drain(..).map(|x| x.expect("a rank without a result")).collect();
                    bad = check(&vals).err();
                }
                if let Some(what) = bad {
                    let choices: Vec<u16> = chooser.log.iter().map(|x| x.1).collect();
                    let c = Chooser { prefix: choices.clone(), bound: b.deviations, ..Default::default() };
                    let r = run(n, &s, c, true, body, &mut results);
                    return Err(Outcome {
                        what,
                        ranks: n,
                        mode: *mode,
                        base: *base,
                        choices,
                        trace: r.trace.unwrap_or_default(),
                    });
                }
                if done >= b.max_executions {
                    stats.truncated = true;
                    break;
                }
                if !chooser.advance(b.deviations) {
                    break;
                }
            }
            stats.states += chooser.visited.len() as u64;
        }
    }
    Ok(stats)
}

/// Runs one recorded execution again.
pub fn replay<T: 'static>(
    n: usize,
    b: &Bounds,
    mode: Mode,
    base: Base,
    choices: Vec<u16>,
    body: &dyn Fn(usize) -> T,
) -> (Vec<Option<T>>, Option<String>, Vec<String>) {
    let s = settings(b, mode, base);
    let mut results = vec![];
    let c = Chooser { prefix: choices, bound: b.deviations, ..Default::default() };
    let r = run(n, &s, c, true, body, &mut results);
    (results, r.violation.map(|v| v.what), r.trace.unwrap_or_default())
}
