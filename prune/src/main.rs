//! prune REPO VIEW RULES
//!     Writes to VIEW a copy of the crate in REPO without the items that need a dependency that
//!     cannot be fetched. It only ever leaves things out (bytes are overwritten by spaces, so that
//!     line numbers stay those of the repository) and never adds or replaces a line of Rust code.
//! prune --parse REPO
//!     Fails unless every .rs file in REPO parses.
//!
//! It starts at src/lib.rs and follows the `mod` declarations that are left. A file without rules
//! is taken whole.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::ops::Range;
use std::path::{Path, PathBuf};
use std::process::exit;

use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use syn::spanned::Spanned;

struct Rules {
    keep: bool,
    items: Vec<(String, Vec<String>)>,
}

/// Derive macros of bevy_ecs.
const DERIVES: [&str; 2] = ["Resource", "Component"];

fn die(message: String) -> ! {
    eprintln!("error: {message}");
    exit(1)
}

fn read(path: &Path) -> String {
    fs::read_to_string(path).unwrap_or_else(|e| die(format!("{}: {e}", path.display())))
}

fn parse(path: &Path, text: &str) -> syn::File {
    syn::parse_file(text).unwrap_or_else(|e| {
        let at = e.span().start();
        die(format!("{e}\n --> {}:{}:{}", path.display(), at.line, at.column + 1))
    })
}

fn flatten(tokens: TokenStream, out: &mut Vec<String>) {
    for token in tokens {
        if let TokenTree::Group(g) = &token {
            let (open, close) = match g.delimiter() {
                Delimiter::Parenthesis => ("(", ")"),
                Delimiter::Brace => ("{", "}"),
                Delimiter::Bracket => ("[", "]"),
                Delimiter::None => ("", ""),
            };
            out.push(open.into());
            flatten(g.stream(), out);
            out.push(close.into());
        } else {
            out.push(token.to_string());
        }
    }
}

fn attrs(item: &syn::Item) -> &[syn::Attribute] {
    use syn::Item::*;
    match item {
        Const(i) => &i.attrs,
        Enum(i) => &i.attrs,
        Fn(i) => &i.attrs,
        Impl(i) => &i.attrs,
        Macro(i) => &i.attrs,
        Mod(i) => &i.attrs,
        Static(i) => &i.attrs,
        Struct(i) => &i.attrs,
        Trait(i) => &i.attrs,
        Type(i) => &i.attrs,
        Use(i) => &i.attrs,
        _ => &[],
    }
}

/// The tokens of an item, without its attributes and visibility.
fn signature(item: &syn::Item) -> Vec<String> {
    let mut all = vec![];
    flatten(item.to_token_stream(), &mut all);
    let mut skip = 0;
    for attr in attrs(item) {
        if matches!(attr.style, syn::AttrStyle::Outer) {
            let mut a = vec![];
            flatten(attr.to_token_stream(), &mut a);
            skip += a.len();
        }
    }
    if all.get(skip).map(String::as_str) == Some("pub") {
        skip += 1;
        if all.get(skip).map(String::as_str) == Some("(") {
            while all[skip] != ")" {
                skip += 1;
            }
            skip += 1;
        }
    }
    all.split_off(skip.min(all.len()))
}

fn matches(rule: &[String], signature: &[String]) -> bool {
    signature.len() >= rule.len() && rule.iter().zip(signature).all(|(a, b)| a == b)
}

/// Which bytes of the file have to go, and which `mod x;` are left.
fn filter(
    items: &[syn::Item],
    rules: &Rules,
    prefix: &str,
    cuts: &mut Vec<Range<usize>>,
    mods: &mut Vec<String>,
) {
    let here: Vec<_> = rules.items.iter().filter(|(p, _)| p == prefix).collect();
    for item in items {
        let signature = signature(item);
        let listed = here.iter().any(|(_, rule)| matches(rule, &signature));
        let keep = if prefix.is_empty() || !here.is_empty() { listed == rules.keep } else { true };
        if !keep {
            cuts.push(item.span().byte_range());
            continue;
        }
        if let syn::Item::Mod(m) = item {
            match &m.content {
                None => mods.push(m.ident.to_string()),
                Some((_, inner)) => {
                    let prefix = format!("mod {}", m.ident);
                    filter(inner, rules, &prefix, cuts, &mut vec![]);
                }
            }
        }
        for attr in attrs(item).iter().filter(|a| a.path().is_ident("derive")) {
            if let syn::Meta::List(list) = &attr.meta {
                let tokens: Vec<_> = list.tokens.clone().into_iter().collect();
                for (i, token) in tokens.iter().enumerate() {
                    if DERIVES.contains(&token.to_string().as_str()) {
                        cuts.push(token.span().byte_range());
                        if let Some(comma) = tokens.get(i + 1) {
                            cuts.push(comma.span().byte_range());
                        }
                    }
                }
            }
        }
    }
}

fn write(path: &Path, text: &str) {
    if fs::read_to_string(path).ok().as_deref() != Some(text) {
        fs::create_dir_all(path.parent().unwrap()).unwrap();
        fs::write(path, text).unwrap();
    }
}

fn read_rules(path: &Path) -> BTreeMap<PathBuf, Rules> {
    let mut all = BTreeMap::new();
    let mut current = PathBuf::new();
    for line in read(path).lines().map(str::trim) {
        if line.is_empty() || line.starts_with('#') {
        } else if let Some(file) = line.strip_prefix("keep in ") {
            current = file.into();
            all.insert(current.clone(), Rules { keep: true, items: vec![] });
        } else if let Some(file) = line.strip_prefix("drop in ") {
            current = file.into();
            all.insert(current.clone(), Rules { keep: false, items: vec![] });
        } else {
            let (prefix, item) = line.rsplit_once(" > ").unwrap_or(("", line));
            let mut tokens = vec![];
            flatten(item.parse().unwrap(), &mut tokens);
            let rules: &mut Rules = all.get_mut(&current).unwrap();
            rules.items.push((prefix.into(), tokens));
        }
    }
    all
}

fn view(repo: &Path, view: &Path, rules: &Path) {
    let rules = read_rules(rules);
    let mut written = BTreeSet::new();
    let mut todo = vec![PathBuf::from("src/lib.rs")];
    while let Some(file) = todo.pop() {
        let path = repo.join(&file);
        let text = read(&path);
        let (mut cuts, mut mods) = (vec![], vec![]);
        let none = Rules { keep: false, items: vec![] };
        let ast = parse(&path, &text);
        filter(&ast.items, rules.get(&file).unwrap_or(&none), "", &mut cuts, &mut mods);
        let mut bytes = text.into_bytes();
        for b in cuts.into_iter().flatten() {
            if bytes[b] != b'\n' {
                bytes[b] = b' ';
            }
        }
        write(&view.join(&file), &String::from_utf8(bytes).unwrap());
        let stem = file.file_stem().unwrap();
        let dir = if stem == "lib" || stem == "mod" {
            file.parent().unwrap().to_path_buf()
        } else {
            file.with_extension("")
        };
        for m in mods {
            let flat = dir.join(format!("{m}.rs"));
            let nested = dir.join(&m).join("mod.rs");
            if repo.join(&flat).is_file() {
                todo.push(flat);
            } else if repo.join(&nested).is_file() {
                todo.push(nested);
            }
        }
        written.insert(file);
    }
    for file in sources(&view.join("src")) {
        if !written.contains(file.strip_prefix(view).unwrap()) {
            fs::remove_file(file).unwrap();
        }
    }
    manifest(repo, view);
}

/// Cargo.toml without the dependencies that cannot be had, and what goes with them.
fn manifest(repo: &Path, view: &Path) {
    let path = repo.join("Cargo.toml");
    let mut toml: toml::Table =
        read(&path).parse().unwrap_or_else(|e| die(format!("{}: {e}", path.display())));
    // The build script only feeds src/emit_build_information.rs, which is left out.
    toml.remove("build-dependencies");
    toml.remove("example");
    toml.remove("bench");
    if let Some(package) = toml.get_mut("package").and_then(|t| t.as_table_mut()) {
        package.remove("build");
    }
    for section in ["dependencies", "dev-dependencies"] {
        if let Some(deps) = toml.get_mut(section).and_then(|t| t.as_table_mut()) {
            // All git dependencies, and the path ones, each of which needs a git or a yanked one.
            deps.retain(|_, spec| spec.get("git").is_none() && spec.get("path").is_none());
            // Only used by benches.
            deps.remove("criterion");
        }
    }
    if let Some(features) = toml.get_mut("features").and_then(|t| t.as_table_mut()) {
        features.remove("parallel-hdf5");
    }
    toml.insert("workspace".into(), toml::Table::new().into());
    write(&view.join("Cargo.toml"), &toml::to_string(&toml).unwrap());
}

fn sources(dir: &Path) -> Vec<PathBuf> {
    let mut out = vec![];
    for entry in fs::read_dir(dir).unwrap() {
        let path = entry.unwrap().path();
        let name = path.file_name().unwrap().to_string_lossy().into_owned();
        if path.is_dir() && !name.starts_with('.') && name != "target" {
            out.extend(sources(&path));
        } else if name.ends_with(".rs") {
            out.push(path);
        }
    }
    out.sort();
    out
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.iter().map(String::as_str).collect::<Vec<_>>()[..] {
        ["--parse", repo] => {
            for path in sources(Path::new(repo)) {
                parse(&path, &read(&path));
            }
        }
        [repo, dir, rules] => view(Path::new(repo), Path::new(dir), Path::new(rules)),
        _ => die("usage: prune REPO VIEW RULES | prune --parse REPO".into()),
    }
}
