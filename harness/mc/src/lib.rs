//! What all checks share: arguments, counting, evidence, violations, parallel enumeration.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub use mmpi;
pub use serde_json::{json, Value};

pub struct Known {
    pub key: String,
    pub text: String,
}

pub struct Check {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    out: PathBuf,
    replay_dir: PathBuf,
    known: Vec<Known>,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    samples: Mutex<Vec<Value>>,
    extra: Mutex<BTreeMap<String, Value>>,
    exhaustive: AtomicBool,
    violations: AtomicU64,
    first: Mutex<Option<(String, Value)>>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    assumptions: Mutex<Vec<String>>,
    stop: AtomicBool,
}

impl Check {
    pub fn new(id: &str) -> &'static Check {
        mmpi::link();
        mmpi::world::install_hook();
        let mut thorough = false;
        let mut out = PathBuf::from(format!("/verif/evidence/{id}.json"));
        let mut replay_dir = PathBuf::from("/verif/build/replay");
        let mut known_file = None;
        let mut args = std::env::args().skip(1);
        while let Some(a) = args.next() {
            let mut next = || args.next().expect("an argument");
            match a.as_str() {
                "--tier" => thorough = next() == "thorough",
                "--out" => out = next().into(),
                "--replay-dir" => replay_dir = next().into(),
                "--known" => known_file = Some(PathBuf::from(next())),
                _ => panic!("unknown argument {a}"),
            }
        }
        let mut known = vec![];
        if let Some(text) = known_file.and_then(|f| std::fs::read_to_string(f).ok()) {
            // known: property=<id> key=<key> <what fails>
            for line in text.lines() {
                if let Some(rest) = line.strip_prefix(&format!("known: property={id} key=")) {
                    let (key, text) = rest.split_once(' ').unwrap_or((rest, ""));
                    known.push(Known { key: key.into(), text: text.into() });
                }
            }
        }
        Box::leak(Box::new(Check {
            id: id.into(),
            thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(),
            out,
            replay_dir,
            known,
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            samples: Mutex::new(vec![]),
            extra: Mutex::new(BTreeMap::new()),
            exhaustive: true.into(),
            violations: 0.into(),
            first: Mutex::new(None),
            known_hit: Mutex::new(BTreeMap::new()),
            assumptions: Mutex::new(vec![]),
            stop: false.into(),
        }))
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    pub fn count(&self, states: u64, transitions: u64, traces: u64) {
        self.states.fetch_add(states, Ordering::Relaxed);
        self.transitions.fetch_add(transitions, Ordering::Relaxed);
        self.traces.fetch_add(traces, Ordering::Relaxed);
    }

    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 8 {
            s.push(v);
        }
    }

    pub fn info(&self, key: &str, v: Value) {
        self.extra.lock().unwrap().insert(key.into(), v);
    }

    pub fn add(&self, key: &str, n: u64) {
        let mut e = self.extra.lock().unwrap();
        let old = e.get(key).and_then(|x| x.as_u64()).unwrap_or(0);
        e.insert(key.into(), json!(old + n));
    }

    pub fn assume(&self, text: &str) {
        self.assumptions.lock().unwrap().push(text.into());
    }

    pub fn not_exhaustive(&self) {
        self.exhaustive.store(false, Ordering::Relaxed);
    }

    /// Records a violation. `key` names the specific failing input or history; if the known
    /// findings list it, it is only reported as such.
    pub fn violation(&self, key: &str, what: &str, case: Value) {
        if self.known.iter().any(|k| k.key == key) {
            *self.known_hit.lock().unwrap().entry(key.into()).or_default() += 1;
            return;
        }
        self.violations.fetch_add(1, Ordering::Relaxed);
        let mut f = self.first.lock().unwrap();
        if f.is_none() {
            *f = Some((what.into(), json!({"property": self.id, "key": key, "what": what, "case": case,
                "tier": if self.thorough {"thorough"} else {"quick"},
                "again": format!("/verif/check.sh {} {}", self.id, if self.thorough {"thorough"} else {"quick"})})));
        }
        self.stop.store(true, Ordering::Relaxed);
    }

    /// Runs code under test; a panic in it is a violation.
    pub fn guard<T>(&self, key: &str, case: impl Fn() -> Value, f: impl FnOnce() -> T) -> Option<T> {
        match catch(f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.violation(key, &format!("the code panicked: {m}"), case());
                None
            }
        }
    }

    /// Explores all executions of a job of `n` ranks; see mmpi.
    pub fn explore<T: 'static>(
        &self,
        key: &str,
        case: Value,
        n: usize,
        b: &mmpi::Bounds,
        body: &dyn Fn(usize) -> T,
        check: &mut dyn FnMut(&[T]) -> Result<(), String>,
    ) -> Option<mmpi::Stats> {
        match mmpi::explore(n, b, body, check) {
            Ok(s) => {
                // The states at choice points, and the final states.
                self.count(s.states + s.complete, s.transitions, s.complete);
                if s.truncated {
                    self.not_exhaustive();
                }
                Some(s)
            }
            Err(o) => {
                self.violation(
                    key,
                    &o.what,
                    json!({"case": case, "ranks": o.ranks, "mode": format!("{:?}", o.mode),
                        "base_schedule": format!("{:?}", o.base), "choices": o.choices, "trace": o.trace}),
                );
                None
            }
        }
    }

    pub fn finish(&self) -> ! {
        let n = self.violations.load(Ordering::Relaxed);
        let mut cov = serde_json::Map::new();
        cov.insert("states".into(), json!(self.states.load(Ordering::Relaxed)));
        cov.insert("transitions".into(), json!(self.transitions.load(Ordering::Relaxed)));
        cov.insert("traces_validated_against_impl".into(), json!(self.traces.load(Ordering::Relaxed)));
        cov.insert("samples".into(), json!(*self.samples.lock().unwrap()));
        cov.insert("exhaustive".into(), json!(self.exhaustive.load(Ordering::Relaxed) && n == 0));
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.elapsed(),
            "violations": n,
        });
        if let Some(d) = self.out.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&self.out, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        println!(
            "{} {}: states={} transitions={} traces={} in {:.1} s",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            self.states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
            self.traces.load(Ordering::Relaxed),
            self.elapsed()
        );
        for k in &self.known {
            if self.known_hit.lock().unwrap().contains_key(&k.key) {
                println!("KNOWN-FINDING: property={} {} {}", self.id, k.key, k.text);
            }
        }
        if let Some((what, case)) = self.first.lock().unwrap().take() {
            let _ = std::fs::create_dir_all(&self.replay_dir);
            let path = self.replay_dir.join(format!("{}.json", self.id));
            std::fs::write(&path, serde_json::to_string_pretty(&case).unwrap()).expect("replay");
            println!("{what}");
            println!("VIOLATION property={} replay={}", self.id, path.display());
            std::process::exit(1);
        }
        std::process::exit(0)
    }
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    mmpi::world::install_hook();
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| mmpi::world::take_panic().unwrap_or_else(|| "panic".into()))
}

/// Calls `f` with 0..n, on all cores.
pub fn par(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    f(i);
                })
                .unwrap();
        }
    });
}

/// All vectors of length `len` over 0..base, as mixed radix digits of an index.
pub fn digits(mut i: u64, base: u64, len: usize) -> Vec<u64> {
    (0..len)
        .map(|_| {
            let d = i % base;
            i /= base;
            d
        })
        .collect()
}

pub fn close(a: f64, b: f64, rel: f64) -> bool {
    a == b || (a - b).abs() <= rel * a.abs().max(b.abs())
}
