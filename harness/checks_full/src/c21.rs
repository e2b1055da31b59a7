//! C21: parameters are those of the file, with the overrides of the command line, and the defaults.
use mc::*;
use serde_yaml::{Mapping, Value as Yaml};
use subsweep::parameters::*;
use subsweep::prelude::*;
use subsweep::verif::{Override, ParameterFileContents};

#[derive(Debug, PartialEq)]
#[subsweep_parameters]
struct Inner {
    d: i64,
    #[serde(default)]
    e: Option<i64>,
}

fn seven() -> i64 {
    7
}

/// a required and an optional field and a nested section
#[derive(Debug, PartialEq)]
#[subsweep_parameters("s")]
struct S {
    a: i64,
    #[serde(default = "seven")]
    b: i64,
    #[serde(default)]
    c: Option<Inner>,
}

/// all optional
#[derive(Debug, PartialEq)]
#[subsweep_parameters("t")]
struct T {
    #[serde(default = "seven")]
    b: i64,
    #[serde(default)]
    c: Option<Inner>,
}

/// a section that is a mapping or nothing, like the cosmology
#[derive(Debug, PartialEq)]
#[subsweep_parameters("u")]
#[serde(untagged)]
enum U {
    Some { a: i64, b: i64 },
    None,
}

/// a section that is a single value, like the size of the box
#[derive(Debug, PartialEq)]
#[subsweep_parameters("v")]
struct V(i64);

/// What the text of a section means: `None` if it has to be refused. An integer, or null.
#[derive(Clone, Debug, PartialEq)]
enum Val {
    Null,
    Int(i64),
    Word,
    Map(Vec<(String, Val)>),
}

impl Val {
    fn yaml(&self) -> Yaml {
        match self {
            Val::Null => Yaml::Null,
            Val::Int(i) => Yaml::from(*i),
            Val::Word => Yaml::from("word"),
            Val::Map(m) => {
                let mut r = Mapping::new();
                for (k, v) in m {
                    r.insert(Yaml::from(k.as_str()), v.yaml());
                }
                Yaml::Mapping(r)
            }
        }
    }
    fn int(&self) -> Option<i64> {
        match self {
            Val::Int(i) => Some(*i),
            _ => None,
        }
    }
    /// the fields of a mapping, all of them known
    fn fields<'a>(&'a self, names: &[&str]) -> Option<Vec<Option<&'a Val>>> {
        let m = match self {
            Val::Map(m) => m,
            _ => return None,
        };
        if m.iter().any(|(k, _)| !names.contains(&k.as_str())) {
            return None;
        }
        Some(names.iter().map(|n| m.iter().find(|(k, _)| k == n).map(|(_, v)| v)).collect())
    }
    /// `None` if there is no way to follow the keys
    fn set(&mut self, keys: &[&str], v: &Val) -> Option<()> {
        match keys {
            [] => {
                *self = v.clone();
                Some(())
            }
            [k, rest @ ..] => match self {
                Val::Map(m) => {
                    if !m.iter().any(|(n, _)| n == k) {
                        m.push((k.to_string(), Val::Map(vec![])));
                    }
                    m.iter_mut().find(|(n, _)| n == k).unwrap().1.set(rest, v)
                }
                _ => None,
            },
        }
    }
}

fn optional(v: Option<&Val>, f: impl Fn(&Val) -> Option<Inner>) -> Option<Option<Inner>> {
    match v {
        None | Some(Val::Null) => Some(None),
        Some(v) => f(v).map(Some),
    }
}
fn inner(v: &Val) -> Option<Inner> {
    let f = v.fields(&["d", "e"])?;
    let e = match f[1] {
        None | Some(Val::Null) => None,
        Some(v) => Some(v.int()?),
    };
    Some(Inner { d: f[0]?.int()?, e })
}
fn b(v: Option<&Val>) -> Option<i64> {
    match v {
        None => Some(7),
        Some(v) => v.int(),
    }
}

trait Meaning: Sized + PartialEq + std::fmt::Debug + Clone {
    fn meaning(v: &Val) -> Option<Self>;
    /// without a section
    fn default() -> Option<Self>;
}
impl Meaning for S {
    fn meaning(v: &Val) -> Option<Self> {
        let f = v.fields(&["a", "b", "c"])?;
        Some(S { a: f[0]?.int()?, b: b(f[1])?, c: optional(f[2], inner)? })
    }
    fn default() -> Option<Self> {
        None
    }
}
impl Meaning for T {
    fn meaning(v: &Val) -> Option<Self> {
        let f = v.fields(&["b", "c"])?;
        Some(T { b: b(f[0])?, c: optional(f[1], inner)? })
    }
    fn default() -> Option<Self> {
        Some(T { b: 7, c: None })
    }
}
impl Meaning for U {
    fn meaning(v: &Val) -> Option<Self> {
        if *v == Val::Null {
            return Some(U::None);
        }
        let f = v.fields(&["a", "b"])?;
        Some(U::Some { a: f[0]?.int()?, b: f[1]?.int()? })
    }
    fn default() -> Option<Self> {
        Some(U::None)
    }
}
impl Meaning for V {
    fn meaning(v: &Val) -> Option<Self> {
        Some(V(v.int()?))
    }
    fn default() -> Option<Self> {
        None
    }
}

type Over<'a> = (&'a str, &'a [&'a str], Val);

fn reference<P: Meaning>(section: &str, file: &Option<Val>, overrides: &[Over]) -> Option<P> {
    let mine: Vec<_> = overrides.iter().filter(|o| o.0 == section).collect();
    if file.is_none() && mine.is_empty() {
        return P::default();
    }
    let mut v = file.clone().unwrap_or(Val::Map(vec![]));
    for o in mine {
        v.set(o.1, &o.2)?;
    }
    P::meaning(&v)
}

fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

fn sim(text: String, overrides: &[Over]) -> Simulation {
    let mut sim = Simulation::default();
    sim.add_parameter_file_contents(text);
    sim.with_parameter_overrides(
        overrides
            .iter()
            .map(|(s, k, v)| Override { section: s.to_string(), keys: k.iter().map(|k| k.to_string()).collect(), value: v.yaml() })
            .collect(),
    );
    sim
}

fn one<P: Meaning + derive_traits::SubsweepParameters>(c: &Check, section: &str, file: &Option<Val>, overrides: &[Over]) {
    let mut m = Mapping::new();
    m.insert(Yaml::from("other"), Yaml::from(1));
    if let Some(v) = file {
        m.insert(Yaml::from(section), v.yaml());
    }
    let text = serde_yaml::to_string(&m).unwrap();
    let expected = reference::<P>(section, file, overrides);
    let got = quiet(|| {
        let mut sim = sim(text.clone(), overrides);
        let p = sim.add_parameter_type_and_get_result::<P>().clone();
        (p, sim.unwrap_resource::<ParameterFileContents>().contents())
    });
    c.count(1, overrides.len() as u64 + 1, 1);
    let case = || json!({"section": section, "file": text, "overrides": format!("{overrides:?}")});
    match (&expected, &got) {
        (None, None) => {}
        (Some(e), Some((p, used))) => {
            if e != p {
                c.violation("values", &format!("parameters {p:?} instead of {e:?}"), case());
                return;
            }
            // The record of the parameters leads to the same ones.
            let again = quiet(|| sim(used.clone(), &[]).add_parameter_type_and_get_result::<P>().clone());
            if again.as_ref() != Some(e) {
                c.violation("record", &format!("parameters {e:?} are recorded as {used:?}, which is read as {again:?}"), case());
            }
        }
        (None, Some((p, _))) => c.violation("accepted", &format!("wrong parameters are accepted as {p:?}"), case()),
        (Some(e), None) => c.violation("refused", &format!("the parameters {e:?} are refused"), case()),
    }
}

fn m(v: &[(&str, Val)]) -> Val {
    Val::Map(v.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}

/// The record of the program's own parameters.
fn own<P: derive_traits::SubsweepParameters>(c: &Check, text: &str) {
    let read = |t: &str| {
        quiet(|| {
            let mut s = sim(t.into(), &[]);
            let p = serde_yaml::to_value(s.add_parameter_type_and_get_result::<P>()).unwrap();
            (p, s.unwrap_resource::<ParameterFileContents>().contents())
        })
    };
    c.count(1, 2, 1);
    match read(text) {
        None => c.violation("own", "parameters are refused", json!({ "file": text })),
        Some((p, used)) => match read(&used) {
            Some((q, _)) if q == p => {}
            other => c.violation("own", &format!("recorded as {used:?}, read as {:?}, not {p:?}", other.map(|x| x.0)), json!({ "file": text })),
        },
    }
}

fn main() {
    let c = Check::new("C21");
    use Val::*;
    let files = vec![
        None,
        Some(Null),
        Some(Int(4)),
        Some(m(&[])),
        Some(m(&[("a", Int(1))])),
        Some(m(&[("a", Int(1)), ("b", Int(2))])),
        Some(m(&[("b", Int(2))])),
        Some(m(&[("a", Int(1)), ("c", m(&[("d", Int(3))]))])),
        Some(m(&[("b", Int(1)), ("c", m(&[("d", Int(3)), ("e", Int(4))]))])),
        Some(m(&[("a", Int(1)), ("x", Int(2))])),
        Some(m(&[("a", Word)])),
        Some(m(&[("a", Int(1)), ("b", Int(2)), ("c", Null)])),
        Some(m(&[("a", Int(1)), ("c", Int(2))])),
    ];
    let sections = ["s", "t", "u", "v"];
    let depth = c.pick(3usize, 4);
    let mut jobs = vec![];
    for k in 0..4 {
        for f in 0..files.len() {
            jobs.push((k, f));
        }
    }
    par(jobs.len(), |j| {
        let (k, f) = jobs[j];
        let s = sections[k];
        let all: Vec<Over> = vec![
            (s, &["a"], Int(11)),
            (s, &["b"], Int(12)),
            (s, &["b"], Word),
            (s, &["c", "d"], Int(13)),
            (s, &["c", "e"], Int(14)),
            (s, &["c"], Null),
            (s, &["x"], Int(15)),
            (s, &[], m(&[("a", Int(16)), ("b", Int(17))])),
            (s, &[], Int(18)),
            ("other", &["a"], Int(19)),
        ];
        for n in 0..=depth {
            for i in 0..(all.len() as u64).pow(n as u32) {
                if c.stopped() {
                    return;
                }
                let o: Vec<Over> = digits(i, all.len() as u64, n).iter().map(|x| all[*x as usize].clone()).collect();
                match k {
                    0 => one::<S>(c, s, &files[f], &o),
                    1 => one::<T>(c, s, &files[f], &o),
                    2 => one::<U>(c, s, &files[f], &o),
                    _ => one::<V>(c, s, &files[f], &o),
                }
            }
        }
    });
    c.info("override_sequences_up_to", json!(depth));
    // Files that are no parameter files at all, and ones without a word about the section.
    for (text, expected) in [
        ("{}", Some(7)),
        ("# nothing but a comment\n{}\n", Some(7)),
        ("other: 1", Some(7)),
        ("t: {}", Some(7)),
        ("t: {b: 2}", Some(2)),
        ("---\nt: {b: 2}\n", Some(2)),
        ("t:\n  # a comment\n  b: 2 # another\n", Some(2)),
        ("t: {b: 2", None),
        ("t: {b: 2}}", None),
        ("t:\n  b: 2\n c: null\n", None),
        ("t:\n\tb: 2\n", None),
        ("t:\n  b: 2\n  b: 3\n", None),
        ("t:\n  b: 2\nt:\n  b: 3\n", None),
        ("t:\n  b: 2\nother\n", None),
        ("t:\n  b: [2\n", None),
        ("t:\n  b: \"2\n", None),
        ("t:\n  b: 2\nother: *nowhere\n", None),
        ("t: {b: 2}\n---\nt: {b: 3}\n", None),
        ("[t, b]", None),
        ("word", None),
        ("5", None),
    ] {
        c.count(1, 1, 1);
        let got = quiet(|| sim(text.into(), &[]).add_parameter_type_and_get_result::<T>().clone());
        let expected = expected.map(|b| T { b, c: None });
        match (&expected, &got) {
            (None, Some(p)) => c.violation("malformed", &format!("a file that is no list of sections is accepted as {p:?}"), json!({ "file": text })),
            (e, p) if e != p => c.violation("file", &format!("parameters {p:?} instead of {e:?}"), json!({ "file": text })),
            _ => {}
        }
    }
    // Every section that is named, in the file or by an override, is one that the run uses.
    let (file, over) = (["s", "t", "u", "x", "y", "visualization"], ["s", "t", "x", "y"]);
    for i in 0..1usize << file.len() {
        for j in 0..1usize << over.len() {
            for used in 0..4usize {
                let text: String = file.iter().enumerate().filter(|(k, _)| i >> k & 1 == 1).map(|(_, s)| format!("{s}: {{a: 1, b: 2}}\n")).collect();
                let text = text.replace("t: {a: 1, b: 2}", "t: {b: 2}");
                let text = if text.is_empty() { "{}".to_string() } else { text };
                let o: Vec<Over> = over.iter().enumerate().filter(|(k, _)| j >> k & 1 == 1).map(|(_, s)| (*s, &["b"][..], Int(5))).collect();
                let types = ["t", "u"].iter().enumerate().filter(|(k, _)| used >> k & 1 == 1).map(|(_, s)| *s).collect::<Vec<_>>();
                let mut named: Vec<&str> = file.iter().enumerate().filter(|(k, _)| i >> k & 1 == 1).map(|(_, s)| *s).collect();
                named.extend(o.iter().map(|o| o.0));
                let mut unused: Vec<&str> = named.into_iter().filter(|s| !types.contains(s)).collect();
                unused.sort();
                unused.dedup();
                let accepted = unused.is_empty() || unused == ["visualization"];
                c.count(1, 1, 1);
                let ran = quiet(|| {
                    let mut sim = sim(text.clone(), &o);
                    sim.insert_resource(subsweep::verif::performance());
                    if used & 1 == 1 {
                        sim.add_parameter_type::<T>();
                    }
                    if used & 2 == 2 {
                        sim.add_parameter_type::<U>();
                    }
                    sim.run_without_finalize();
                })
                .is_some();
                if ran != accepted {
                    c.violation(
                        "unused",
                        &format!("with the sections {types:?} in use, sections {unused:?} are named for nothing, and the run is {}", if ran { "accepted" } else { "refused" }),
                        json!({"file": text, "overrides": format!("{o:?}")}),
                    );
                }
            }
        }
    }
    // Command line: section/key/..:value
    for (text, expected) in [
        ("s/a:5", Some(("s", vec!["a"], "5"))),
        ("s:5", Some(("s", vec![], "5"))),
        ("s/c/d:word", Some(("s", vec!["c", "d"], "word"))),
        ("s/c/d:1.5 Myr", Some(("s", vec!["c", "d"], "1.5 Myr"))),
        ("s/a", None),
        ("", None),
        ("s/a: true", Some(("s", vec!["a"], "true"))),
    ] {
        c.count(1, 1, 1);
        let got = quiet(|| text.parse::<Override>().ok()).flatten();
        let got = got.map(|o| (o.section, o.keys, o.value));
        let expected = expected.map(|(s, k, v): (&str, Vec<&str>, &str)| {
            (s.to_string(), k.iter().map(|k| k.to_string()).collect::<Vec<_>>(), serde_yaml::from_str::<Yaml>(v).unwrap())
        });
        if got != expected {
            c.violation("command line", &format!("{text:?} means {got:?} instead of {expected:?}"), json!({ "text": text }));
        }
    }
    // Every subset of the optional parameters of the program.
    let subsets = |head: &str, lines: &[&str], f: &dyn Fn(&str)| {
        for i in 0..1u32 << lines.len() {
            let mut t = head.to_string();
            for (k, l) in lines.iter().enumerate() {
                if i >> k & 1 == 1 {
                    t.push_str(l);
                    t.push('\n');
                }
            }
            if i == 0 && head.ends_with(":\n") {
                t = format!("{}: {{}}\n", head.trim_end_matches(":\n"));
            }
            f(&t);
        }
    };
    for fields in ["  fields: all", "  fields: [position, density]", "  fields: []"] {
        subsets(
            "output:\n",
            &[
                fields,
                "  time_between_snapshots: 1.5 Myr",
                "  time_first_snapshot: 0.1 kyr",
                "  output_dir: some/where",
                "  snapshot_padding: 5",
                "  handle_existing_output: delete",
                "  num_output_files: 3",
                "  used_parameters_filename: used.yml",
            ],
            &|t| own::<OutputParameters>(c, t),
        );
    }
    for directions in ["84", "[\"(1.0 0.0 0.0)\", \"(0.0 1.0 0.0)\"]"] {
        subsets(
            &format!("sweep:\n  directions: {directions}\n  num_timestep_levels: 3\n  periodic: true\n  max_timestep: 1.0 Myr\n"),
            &[
                "  rotate_directions: true",
                "  significant_rate_threshold: 1e-5 s^-1",
                "  timestep_safety_factor: 0.25",
                "  chemistry_timestep_safety_factor: 30 %",
                "  check_deadlock: true",
                "  prevent_cooling: false",
                "  num_tasks_to_solve_before_send_receive: 3",
            ],
            &|t| own::<SweepParameters>(c, t),
        );
    }
    for t in ["{}", "simulation: {}", "simulation:\n  final_time: 3.0 Gyr", "simulation:\n  final_time: null"] {
        own::<SimulationParameters>(c, t);
    }
    for t in ["{}", "cosmology:", "cosmology: {a: 0.5, h: 0.7}", "cosmology: {a: 0.5, h: 0.7, params: {omega_0: 0.3, omega_lambda: 0.7}}"] {
        own::<Cosmology>(c, t);
    }
    for t in ["box_size: 4.0 Mpc", "box_size: 35.0 cMpc/h", "box_size: 1e22 m"] {
        own::<SimulationBoxParameters>(c, t);
    }
    for t in ["input: {paths: [a.hdf5, b]}", "input: {paths: []}"] {
        own::<InputParameters>(c, t);
    }
    c.sample(json!({"section": "s", "overrides": ["s/a:11", "s/c/d:13"]}));
    c.finish()
}
