//! The state of one simulated MPI job and its scheduler.
use std::cell::Cell;
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};

use crate::explore::{Base, Chooser};
use crate::types::Type;

#[derive(Clone, Debug)]
pub struct Violation {
    pub what: String,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// Sends copy their data at once and complete.
    Eager,
    /// Sends read their buffer when the receiver takes the message, and complete then.
    Rendezvous,
}

pub struct Msg {
    pub id: u64,
    pub src: usize,
    pub tag: i32,
    pub comm: usize,
    pub bytes: usize,
    pub ty: Arc<Type>,
    pub count: usize,
    pub buf: *const u8,
    pub at_post: Vec<u8>,
    pub late: bool,
    pub req: Option<usize>,
    pub blocked_sender: Option<usize>,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Stat {
    pub source: i32,
    pub tag: i32,
    pub bytes: usize,
}

#[derive(PartialEq, Debug)]
pub enum ReqKind {
    Send { msg: u64, buf: usize, sum: u64, span_ty: usize },
    Recv,
}

pub struct Req {
    pub rank: usize,
    pub done: bool,
    pub freed: bool,
    pub stat: Stat,
    pub kind: ReqKind,
    pub recv: Option<PostedRecv>,
}

#[derive(Clone)]
pub struct PostedRecv {
    pub src: i32,
    pub tag: i32,
    pub comm: usize,
    pub buf: *mut u8,
    pub count: usize,
    pub ty: Arc<Type>,
}

#[derive(Clone, Debug)]
pub enum Status {
    /// May run at any time.
    Ready,
    /// Is about to make a call whose result depends on what the others have done so far.
    Poll,
    /// Needs a message.
    Message { src: i32, tag: i32, comm: usize },
    /// Needs one (any) or all of these requests.
    Requests { ids: Vec<usize>, all: bool },
    /// Needs its blocking send to be received.
    Sent { msg: u64 },
    /// Needs all ranks to arrive at its collective operation.
    Collective { comm: usize, seq: usize },
    Finished,
}

pub struct Coll {
    pub name: String,
    pub arrived: Vec<Option<Vec<u8>>>,
    pub num: usize,
}

pub struct RankState {
    pub status: Status,
    pub yielder: *const Yielder<(), ()>,
    pub colls: Vec<usize>,
    pub poisoned: bool,
    pub idle_polls: usize,
    /// Questions for the number of ranks since the rank last gave control away.
    pub questions: usize,
    /// A hash of everything this rank's MPI calls have returned so far: with deterministic code,
    /// this determines its state.
    pub hist: u64,
}

pub struct World {
    pub n: usize,
    pub cur: usize,
    pub mode: Mode,
    pub base: Base,
    pub ranks: Vec<RankState>,
    pub queues: Vec<VecDeque<Msg>>,
    pub reqs: Vec<Req>,
    pub matched: Vec<Option<(usize, Msg)>>,
    pub colls: Vec<Vec<Coll>>,
    pub next_msg: u64,
    pub chooser: Chooser,
    pub violation: Option<Violation>,
    pub trace: Option<Vec<String>>,
    pub transitions: u64,
    pub steps_since_progress: usize,
    pub horizon: usize,
    pub clock: u64,
    pub track_buffers: bool,
    pub allow_unreceived: bool,
    pub finish: bool,
    /// A hash of the order of the operations on state shared other than by MPI.
    pub shared: u64,
}

thread_local! {
    static WORLD: Cell<*mut World> = const { Cell::new(std::ptr::null_mut()) };
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn world() -> Option<&'static mut World> {
    let p = WORLD.with(|w| w.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

/// The rank that runs, 0 outside of a simulated job.
pub fn rank() -> usize {
    world().map(|w| w.cur).unwrap_or(0)
}

/// Without a call that others can see: so many of them in a row are a loop that never ends.
const MOST_QUESTIONS: usize = 5_000_000;

pub fn size() -> usize {
    let Some(w) = world() else { return 1 };
    let me = w.cur;
    w.ranks[me].questions += 1;
    if w.ranks[me].questions > MOST_QUESTIONS && !w.ranks[me].poisoned {
        w.fail(format!("rank {me} goes on forever without sending or receiving anything"));
        w.suspend(Status::Poll);
    }
    w.n
}

/// Records a violation found by the model itself.
pub fn fail(what: String) {
    match world() {
        Some(w) => {
            let r = w.cur;
            w.fail(format!("rank {r}: {what}"))
        }
        None => panic!("{what}"),
    }
}

pub fn note(text: impl FnOnce() -> String) {
    if let Some(w) = world() {
        let r = w.cur;
        if let Some(t) = w.trace.as_mut() {
            t.push(format!("rank {r}: {}", text()));
        }
    }
}

/// A point at which the code is about to touch state that it shares with other ranks other than
/// by MPI (a file): any rank may run before.
pub fn point(what: &'static str) {
    if let Some(w) = world() {
        note(|| what.to_string());
        w.progress();
        w.suspend(Status::Poll);
        w.returned(7);
        w.shared = mix(w.shared, mix(w.cur as u64, what.len() as u64));
    }
}

impl World {
    pub fn fail(&mut self, what: String) {
        if self.violation.is_none() {
            if let Some(t) = self.trace.as_mut() {
                t.push(format!("VIOLATION {what}"));
            }
            self.violation = Some(Violation { what });
        }
    }

    /// A call of this rank has returned `x`.
    pub fn returned(&mut self, x: u64) {
        self.transitions += 1;
        let r = &mut self.ranks[self.cur];
        r.hist = mix(r.hist, x);
    }

    pub fn progress(&mut self) {
        self.steps_since_progress = 0;
    }

    /// Called by a rank: gives control to the scheduler until the rank may go on.
    pub fn suspend(&mut self, status: Status) {
        let me = self.cur;
        if self.ranks[me].poisoned {
            return;
        }
        self.ranks[me].status = status;
        self.ranks[me].questions = 0;
        let y = self.ranks[me].yielder;
        unsafe { (*y).suspend(()) };
    }

    pub fn poisoned(&self) -> bool {
        self.ranks[self.cur].poisoned
    }

    pub fn find(&self, dst: usize, src: i32, tag: i32, comm: usize) -> Vec<(usize, usize)> {
        let any_source = unsafe { crate::ffi::any_source() };
        let any_tag = unsafe { crate::ffi::any_tag() };
        let mut out = vec![];
        for s in 0..self.n {
            if src != any_source && src as usize != s {
                continue;
            }
            let q = &self.queues[s * self.n + dst];
            if let Some(i) =
                q.iter().position(|m| m.comm == comm && (tag == any_tag || m.tag == tag))
            {
                out.push((s, i));
            }
        }
        out
    }

    fn enabled(&self, r: usize) -> bool {
        match &self.ranks[r].status {
            Status::Ready | Status::Poll => true,
            Status::Message { src, tag, comm } => !self.find(r, *src, *tag, *comm).is_empty(),
            Status::Requests { ids, all } => {
                let done = |i: &usize| self.reqs[*i].done || self.reqs[*i].freed;
                if *all {
                    ids.iter().all(done)
                } else {
                    ids.is_empty() || ids.iter().any(done)
                }
            }
            Status::Sent { msg } => {
                !self.queues.iter().any(|q| q.iter().any(|m| m.id == *msg))
                    && !self.matched.iter().flatten().any(|m| m.1.id == *msg)
            }
            Status::Collective { comm, seq } => self.colls[*comm][*seq].num == self.n,
            Status::Finished => false,
        }
    }

    /// Reads the data of a message as the receiver gets it.
    pub fn data(&mut self, m: &Msg) -> Vec<u8> {
        if m.late && m.count > 0 {
            let now = m.ty.pack(m.buf, m.count);
            if now != m.at_post {
                self.fail(format!(
                    "the buffer of a send from rank {} (tag {}) changed before the send was complete",
                    m.src, m.tag
                ));
            }
            m.at_post.clone()
        } else {
            m.at_post.clone()
        }
    }

    pub fn complete_send(&mut self, m: &Msg) {
        if let Some(r) = m.req {
            self.reqs[r].done = true;
        }
    }

    fn choose_next(&mut self, last: usize) -> Option<usize> {
        let enabled: Vec<usize> = (0..self.n).filter(|r| self.enabled(*r)).collect();
        if enabled.is_empty() {
            return None;
        }
        // Ranks at a poll are the only ones whose order against the others matters.
        let firm: Vec<usize> =
            enabled.iter().copied().filter(|r| !matches!(self.ranks[*r].status, Status::Poll)).collect();
        let polls: Vec<usize> =
            enabled.iter().copied().filter(|r| matches!(self.ranks[*r].status, Status::Poll)).collect();
        // The default order
        let rotate = |v: &Vec<usize>, from: usize| -> Vec<usize> {
            let mut v = v.clone();
            v.sort_by_key(|r| (r + self.n - from % self.n) % self.n);
            v
        };
        let order: Vec<usize> = match self.base {
            // whoever polls next goes on at once; the others only when it has to wait
            Base::PollsFirst => {
                let mut v = rotate(&polls, last + 1);
                let f = rotate(&firm, last);
                if self.steps_since_progress > polls.len() {
                    v.splice(0..0, f);
                } else {
                    v.extend(f);
                }
                v
            }
            // everything that can run before a poll does
            Base::PollsLast => {
                let mut v = rotate(&firm, last);
                v.extend(rotate(&polls, last + 1));
                v
            }
            // as PollsLast, but the rank that polled last polls again unless it found nothing
            Base::SelfFirst => {
                let mut v = rotate(&firm, last);
                let idle = self.ranks[last].idle_polls > 0;
                v.extend(rotate(&polls, if idle { last + 1 } else { last }));
                v
            }
            // highest rank first
            Base::Reverse => {
                let mut v = rotate(&polls, last);
                v.reverse();
                let mut f = firm.clone();
                f.reverse();
                f.extend(v);
                f
            }
        };
        if polls.is_empty() {
            // They commute: no choice.
            return Some(order[0]);
        }
        // Letting one of the firm ones run is one alternative for all of them.
        let mut options: Vec<usize> = vec![];
        let mut firm_seen = false;
        for r in order {
            let f = firm.contains(&r);
            if f && firm_seen {
                continue;
            }
            firm_seen |= f;
            options.push(r);
        }
        if options.len() > 1 {
            let mut key = mix(self.shared, last as u64);
            for (i, r) in self.ranks.iter().enumerate() {
                key = mix(key, r.hist);
                key = mix(key, (enabled.contains(&i) as u64) << 1 | matches!(r.status, Status::Poll) as u64);
            }
            key = mix(key, self.steps_since_progress as u64);
            if self.chooser.seen(key) && !self.finish {
                return None;
            }
        }
        let i = self.chooser.choose(options.len());
        Some(options[i])
    }
}

pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h.rotate_left(23) ^ x).wrapping_mul(0x9E3779B97F4A7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58476D1CE4E5B9);
    z ^ (z >> 32)
}

pub fn hash(data: &[u8]) -> u64 {
    let mut h = data.len() as u64;
    for c in data.chunks(8) {
        let mut b = [0; 8];
        b[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(b));
    }
    h
}

pub fn take_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

/// Installs a panic hook that keeps the message instead of printing it.
pub fn install_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let loud = std::env::var_os("MC_LOUD").is_some();
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {at}")));
            if let Some(w) = world() {
                let me = w.cur;
                w.ranks[me].poisoned = true;
            }
            if loud {
                old(info)
            }
        }));
    });
}

thread_local! {
    static STACKS: std::cell::RefCell<Vec<DefaultStack>> = const { std::cell::RefCell::new(vec![]) };
}

pub struct Run {
    pub chooser: Chooser,
    pub violation: Option<Violation>,
    pub trace: Option<Vec<String>>,
    pub transitions: u64,
}

pub struct Settings {
    pub mode: Mode,
    pub base: Base,
    pub horizon: usize,
    pub stack: usize,
    pub track_buffers: bool,
    pub allow_unreceived: bool,
    pub finish: bool,
}

/// Runs one execution of `body` on `n` ranks.
pub fn run<T: 'static>(
    n: usize,
    s: &Settings,
    chooser: Chooser,
    trace: bool,
    body: &dyn Fn(usize) -> T,
    results: &mut Vec<Option<T>>,
) -> Run {
    install_hook();
    crate::alloc::clear();
    results.clear();
    results.extend((0..n).map(|_| None));
    let mut owned = Box::new(World {
        n,
        cur: 0,
        mode: s.mode,
        base: s.base,
        ranks: (0..n)
            .map(|r| RankState {
                status: Status::Ready,
                yielder: std::ptr::null(),
                colls: vec![0; 4],
                poisoned: false,
                idle_polls: 0,
                questions: 0,
                hist: r as u64 + 1,
            })
            .collect(),
        queues: (0..n * n).map(|_| VecDeque::new()).collect(),
        reqs: vec![],
        matched: vec![],
        colls: (0..4).map(|_| vec![]).collect(),
        next_msg: 1,
        chooser,
        violation: None,
        trace: trace.then(Vec::new),
        transitions: 0,
        steps_since_progress: 0,
        horizon: s.horizon,
        clock: 0,
        track_buffers: s.track_buffers,
        allow_unreceived: s.allow_unreceived,
        finish: s.finish,
        shared: 0,
    });
    let wp: *mut World = &mut *owned;
    WORLD.with(|c| c.set(wp));
    let res: *mut Vec<Option<T>> = results;
    let mut coros: Vec<Option<Coroutine<(), (), (), DefaultStack>>> = (0..n)
        .map(|r| {
            let stack = STACKS
                .with(|s| s.borrow_mut().pop())
                .unwrap_or_else(|| DefaultStack::new(s.stack).expect("stack"));
            // SAFETY: all coroutines are finished or forgotten before this function returns.
            let body: &'static dyn Fn(usize) -> T = unsafe { std::mem::transmute(body) };
            let f = move |y: &Yielder<(), ()>, _: ()| {
                unsafe { (&mut (*wp).ranks)[r].yielder = y };
                let out = catch_unwind(AssertUnwindSafe(|| body(r)));
                let w = unsafe { &mut *wp };
                match out {
                    Ok(v) => unsafe { (&mut *res)[r] = Some(v) },
                    Err(_) => {
                        let m = take_panic().unwrap_or_else(|| "panic".into());
                        w.fail(format!("rank {r} panicked: {m}"));
                    }
                }
                w.ranks[r].status = Status::Finished;
            };
            Some(Coroutine::with_stack(stack, f))
        })
        .collect();
    let mut last = 0;
    loop {
        let w = unsafe { &mut *wp };
        if crate::alloc::freed() != 0 {
            let id = crate::alloc::freed();
            w.fail(format!("the buffer of a pending send (message {id}) was freed before the send was complete"));
        }
        if w.violation.is_some() {
            break;
        }
        if w.ranks.iter().all(|r| matches!(r.status, Status::Finished)) {
            break;
        }
        if w.steps_since_progress > w.horizon {
            w.fail(format!(
                "no progress: {} polls in a row found nothing while the ranks are {:?}",
                w.steps_since_progress,
                w.ranks.iter().map(|r| r.status.clone()).collect::<Vec<_>>()
            ));
            break;
        }
        let Some(r) = w.choose_next(last) else {
            if w.chooser.pruned && !w.finish {
                break;
            }
            w.fail(format!(
                "deadlock: no rank can go on: {:?}",
                w.ranks.iter().map(|r| r.status.clone()).collect::<Vec<_>>()
            ));
            break;
        };
        w.cur = r;
        w.ranks[r].status = Status::Ready;
        last = r;
        match coros[r].as_mut().unwrap().resume(()) {
            CoroutineResult::Yield(()) => {}
            CoroutineResult::Return(()) => {
                let s = coros[r].take().unwrap().into_stack();
                STACKS.with(|v| v.borrow_mut().push(s));
            }
        }
    }
    for c in coros.into_iter().flatten() {
        let mut c = c;
        if !c.done() {
            // A rank that did not finish: its frames are abandoned.
            unsafe { c.force_reset() };
        }
        let s = c.into_stack();
        STACKS.with(|v| v.borrow_mut().push(s));
    }
    let w = unsafe { &mut *wp };
    if w.violation.is_none() && !w.chooser.pruned {
        let left: Vec<String> = w
            .queues
            .iter()
            .enumerate()
            .flat_map(|(i, q)| {
                let n = w.n;
                q.iter().map(move |m| format!("rank {} -> {} tag {} ({} bytes)", i / n, i % n, m.tag, m.bytes))
            })
            .collect();
        if !left.is_empty() && !w.allow_unreceived {
            w.fail(format!("messages were sent and never received: {}", left.join(", ")));
        }
        let open = w.reqs.iter().filter(|r| !r.freed && !matches!(r.kind, ReqKind::Recv)).count();
        if open > 0 && w.track_buffers {
            w.fail(format!("{open} send requests were never completed"));
        }
    }
    WORLD.with(|c| c.set(std::ptr::null_mut()));
    crate::alloc::clear();
    let w = *owned;
    Run { chooser: w.chooser, violation: w.violation, trace: w.trace, transitions: w.transitions }
}
