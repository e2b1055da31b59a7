//! Enumeration of the orders in which the systems of a simulation's stages may run.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

use bevy_ecs::schedule::set_order_chooser;
use subsweep::communication::{MpiWorld, SizedCommunicator};

/// For each rank, which decision is taken differently, and how: (decision, option).
pub type Plan = BTreeMap<usize, Vec<(usize, usize)>>;
/// For each rank, the number of options at each decision.
pub type Log = BTreeMap<usize, Vec<usize>>;

/// Runs something on this thread with the given decisions, and returns how many options there were.
pub fn with_plan<T>(plan: &Plan, f: impl FnOnce() -> T) -> (T, Log) {
    let log: Rc<RefCell<Log>> = Default::default();
    let (l, p) = (log.clone(), plan.clone());
    set_order_chooser(Some(Box::new(move |n| {
        let rank = MpiWorld::<usize>::new().rank() as usize;
        let mut l = l.borrow_mut();
        let mine = l.entry(rank).or_default();
        mine.push(n);
        let i = mine.len() - 1;
        let c = p.get(&rank).and_then(|d| d.iter().find(|x| x.0 == i)).map(|x| x.1).unwrap_or(0);
        c.min(n - 1)
    })));
    let r = f();
    set_order_chooser(None);
    let log = log.borrow().clone();
    (r, log)
}

/// All plans with one more deviation than `plan`, on one rank or on all.
pub fn more(plan: &Plan, log: &Log, ranks: usize) -> Vec<Plan> {
    let mut out = vec![];
    let mut who: Vec<Vec<usize>> = (0..ranks).map(|r| vec![r]).collect();
    if ranks > 1 {
        who.push((0..ranks).collect());
    }
    for w in who {
        let last = w.iter().filter_map(|r| plan.get(r)).flatten().map(|x| x.0 + 1).max().unwrap_or(0);
        for (i, n) in log[&w[0]].iter().enumerate().skip(last) {
            for c in 1..*n {
                let mut p = plan.clone();
                for r in &w {
                    p.entry(*r).or_default().push((i, c));
                }
                out.push(p);
            }
        }
    }
    out
}
