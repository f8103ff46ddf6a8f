//! Expressions for the real rustc to judge, with the library's verdicts.
use crate::gen::{self, Dict};
use crate::rng::{hash_bytes, mix, Rng};
use crate::targets::{facts, near, vocabulary, Facts};
use cfg_expr::targets::*;
use cfg_expr::{Expression, Predicate};
use std::collections::BTreeSet;
use std::fmt::Write;

/// Names rustc reserves, treats as literals or gates
const RESERVED: &[&str] = &[
    "abstract", "as", "become", "box", "break", "const", "continue", "crate", "do", "else", "enum", "extern", "false", "final",
    "fn", "for", "if", "impl", "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref",
    "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "typeof", "unsafe", "unsized", "use",
    "virtual", "where", "while", "yield", "async", "await", "dyn", "try", "gen", "_", "overflow_checks", "sanitize",
    "relocation_model", "ub_checks", "fmt_debug", "contract_checks", "version", "accessible", "sanitizer_cfi_generalize_pointers",
    "sanitizer_cfi_normalize_integers", "emscripten_wasm_eh", "cfg", "cfg_attr", "doc", "doctest", "miri", "clippy", "rustfmt",
    "docsrs", "rust_analyzer", "all", "any", "not",
];

pub struct World {
    pub flags: BTreeSet<String>,
    pub pairs: BTreeSet<(String, String)>,
    pub features: BTreeSet<String>,
    pub target_features: BTreeSet<String>,
    pub debug: bool,
    pub proc_macro: bool,
}

fn value_ok(v: &str) -> bool {
    !v.contains(['"', '\\', '\r'])
}
fn name_ok(n: &str) -> bool {
    !RESERVED.contains(&n)
        && !["unix", "windows", "test", "debug_assertions", "proc_macro", "feature", "panic"].contains(&n)
        && !n.starts_with("target_")
}

pub fn world(seed: u64, d: &Dict) -> World {
    let mut r = Rng::new(seed ^ 0x77);
    let mut w = World {
        flags: BTreeSet::new(),
        pairs: BTreeSet::new(),
        features: BTreeSet::new(),
        target_features: BTreeSet::new(),
        debug: false,
        proc_macro: false,
    };
    for f in ["foo", "Unix", "unix_", "tokio_unstable", "Test", "A1", "target", "features", "not_any"] {
        w.flags.insert(f.into());
    }
    while w.flags.len() < 20 {
        let n = r.range(1, 12);
        let s = gen::rand_ident(&mut r, n);
        if name_ok(&s) {
            w.flags.insert(s);
        }
    }
    for (k, v) in [("foo", "bar"), ("k", ""), ("unix_", "yes"), ("features", "std"), ("os", "linux"), ("arch", "x86"), ("foo", "Bar"), ("foo", " bar ")] {
        w.pairs.insert((k.into(), v.into()));
    }
    for v in ["std", "", "alloc", "a-b", "a_b", "é", "x y", "STD", "serde/derive", "dep:x", "1"] {
        w.features.insert(v.into());
    }
    while w.pairs.len() < 20 {
        let n = r.range(1, 9);
        let (k, v) = (gen::rand_ident(&mut r, n), gen::rand_value(&mut r, d));
        if name_ok(&k) && value_ok(&v) && v.chars().all(|c| !c.is_control()) && v.len() < 80 {
            w.pairs.insert((k, v));
        }
    }
    w
}

/// `--cfg` arguments, one per line
pub fn cfg_args(w: &World) -> String {
    let mut s = String::new();
    for f in &w.flags {
        let _ = writeln!(s, "{f}");
    }
    for (k, v) in &w.pairs {
        let _ = writeln!(s, "{k}=\"{v}\"");
    }
    for v in &w.features {
        let _ = writeln!(s, "feature=\"{v}\"");
    }
    s
}

fn leaf(r: &mut Rng, d: &Dict, w: &World, f: &Facts, voc: &[String]) -> String {
    let kv = |k: &str, v: &str| format!("{k}=\"{v}\"");
    let own = |o: &Option<String>, dflt: &str| o.clone().unwrap_or_else(|| dflt.into());
    let pickn = |r: &mut Rng, s: &BTreeSet<String>| s.iter().nth(r.below(s.len().max(1))).cloned().unwrap_or_default();
    let hit = r.chance(1, 2);
    let s = match r.below(22) {
        k @ 0..=6 => {
            let (key, o) = match k {
                0 => ("target_os", own(&f.os, "none")),
                1 => ("target_arch", f.arch.clone()),
                2 => ("target_env", own(&f.env, "")),
                3 => ("target_vendor", own(&f.vendor, "unknown")),
                4 => ("target_abi", own(&f.abi, "")),
                5 => ("panic", f.panic.clone()),
                _ => ("target_family", f.families.first().cloned().unwrap_or_default()),
            };
            let v = if hit {
                o
            } else {
                match r.below(4) {
                    0 => r.pick(&near(&o)).clone(),
                    1 => gen::rand_value(r, d),
                    _ => r.pick(voc).clone(),
                }
            };
            kv(key, &v)
        }
        7 => kv("target_endian", if hit == f.big { "big" } else { "little" }),
        8 | 9 => {
            let v = if hit && !f.atomics.is_empty() {
                r.pick(&f.atomics).map_or("ptr".into(), |n| n.to_string())
            } else {
                ["8", "16", "32", "64", "128", "ptr", "0", "256", "65535"][r.below(9)].to_owned()
            };
            kv("target_has_atomic", &v)
        }
        10 | 11 => {
            let v = if hit { f.width } else { [0, 8, 16, 32, 64, 128, 255][r.below(7)] };
            kv("target_pointer_width", &v.to_string())
        }
        12 => "unix".into(),
        13 => "windows".into(),
        14 => ["test", "debug_assertions", "proc_macro"][r.below(3)].into(),
        15 => {
            let v = if hit { pickn(r, &w.features) } else { gen::rand_value(r, d) };
            kv("feature", &v)
        }
        16 => {
            let v = if hit { pickn(r, &w.target_features) } else { ["sse2", "neon", "crt-static", "atomics", "x87", "+sse"][r.below(6)].into() };
            kv("target_feature", if v.is_empty() { "sse2" } else { &v })
        }
        17 | 18 => {
            let f = pickn(r, &w.flags);
            if hit {
                f
            } else {
                let n = r.range(1, 8);
                let x = gen::rand_ident(r, n);
                r.pick(&[f.to_uppercase(), format!("{f}_"), x]).clone()
            }
        }
        _ => {
            let (k, v) = w.pairs.iter().nth(r.below(w.pairs.len())).unwrap();
            match r.below(4) {
                0 => kv(k, &gen::rand_value(r, d)),
                1 => kv(r.pick(&d.keys).as_str(), v),
                _ => kv(k, v),
            }
        }
    };
    let name = s.split('=').next().unwrap();
    let known = name.starts_with("target_") || ["unix", "windows", "test", "debug_assertions", "proc_macro", "feature", "panic"].contains(&name);
    let val = &s[name.len()..];
    let val = val.strip_prefix("=\"").map_or("", |v| &v[..v.len() - 1]);
    if !value_ok(val) || (!known && !name_ok(name)) || !name.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') || name.is_empty() || name.as_bytes()[0].is_ascii_digit() {
        return "unix".into();
    }
    s
}

fn expr(r: &mut Rng, out: &mut Vec<String>, budget: usize, depth: usize, lf: &mut dyn FnMut(&mut Rng) -> String) {
    let push_leaf = |out: &mut Vec<String>, l: String| match l.split_once('=') {
        Some((k, v)) => out.extend([k.to_owned(), "=".to_owned(), v.to_owned()]),
        None => out.push(l),
    };
    if budget <= 1 || depth > 40 {
        let l = lf(r);
        return push_leaf(out, l);
    }
    match r.below(5) {
        0 => {
            out.extend(["not".to_owned(), "(".to_owned()]);
            expr(r, out, budget - 1, depth + 1, lf);
            if r.chance(1, 5) {
                out.push(",".into());
            }
            out.push(")".into());
        }
        k => {
            out.extend([if k % 2 == 0 { "all" } else { "any" }.to_owned(), "(".to_owned()]);
            let n = if r.chance(1, 12) { 0 } else { r.range(1, 5.min(budget)) };
            for i in 0..n {
                if i > 0 {
                    out.push(",".into());
                }
                let b = if n == 1 { budget - 1 } else { r.range(1, (budget / n).max(1) * 2) };
                expr(r, out, b.min(budget - 1), depth + 1, lf);
            }
            if n > 0 && r.chance(1, 5) {
                out.push(",".into());
            }
            out.push(")".into());
        }
    }
}

/// Tokens with white space rustc has too
fn lay(r: &mut Rng, toks: &[String]) -> String {
    const W: &[&str] = &[" ", "  ", "\n", "\t", "\r\n", "\u{85}", "\u{2028}", "\u{2029}", "\u{b}", "\u{c}", " \n "];
    let style = r.below(3);
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            match style {
                0 => {}
                1 => s.push(' '),
                _ => {
                    if r.chance(1, 2) {
                        s.push_str(r.pick(W));
                    }
                }
            }
        }
        s.push_str(t);
    }
    s
}

fn verdict(e: &Expression, t: &TargetInfo, w: &World) -> bool {
    e.eval(|p| match p {
        Predicate::Target(tp) => tp.matches(t),
        Predicate::Test => false,
        Predicate::DebugAssertions => w.debug,
        Predicate::ProcMacro => w.proc_macro,
        Predicate::Feature(f) => w.features.contains(*f),
        Predicate::TargetFeature(f) => w.target_features.contains(*f),
        Predicate::Flag(f) => w.flags.contains(*f),
        Predicate::KeyValue { key, val } => w.pairs.contains(&((*key).to_owned(), (*val).to_owned())),
    })
}

/// Free of what rustc gives a meaning of its own: reserved names, white space
/// Rust does not have, escapes
fn plain(s: &str) -> bool {
    if s.contains(['\\', '\r', '\0']) || s.contains("#[") {
        return false;
    }
    s.split('"').step_by(2).all(|out| {
        out.chars().all(|c| !c.is_whitespace() || "\t\n\u{b}\u{c} \u{85}\u{2028}\u{2029}".contains(c))
            && out
                .split(|c: char| !c.is_ascii_alphanumeric() && c != '_')
                .all(|w| ["", "all", "any", "not"].contains(&w) || !RESERVED.contains(&w))
    })
}

/// Writes DIR/cfgs, and for each line "triple debug procmacro feat,feat" of
/// the facts file DIR/<n>.rs (one item per line group) and DIR/<n>.want
pub fn generate(dir: &str, facts_file: &str, seed: u64, count: usize, d: &Dict) {
    let mut w = world(seed, d);
    std::fs::write(format!("{dir}/cfgs"), cfg_args(&w)).unwrap();
    let voc: Vec<String> = vocabulary().into_iter().filter(|v| value_ok(v) && !v.contains('\0')).collect();
    let input = std::fs::read_to_string(facts_file).unwrap();
    for (n, line) in input.lines().enumerate() {
        let c: Vec<&str> = line.split(' ').collect();
        let Some(t) = ALL_BUILTINS.iter().find(|t| t.triple.as_str() == c[0]) else { continue };
        w.debug = c[1] == "1";
        w.proc_macro = c[2] == "1";
        w.target_features = c.get(3).unwrap_or(&"").split(',').filter(|s| !s.is_empty()).map(str::to_owned).collect();
        let f = facts(t);
        let mut r = Rng::new(mix(seed ^ hash_bytes(c[0].as_bytes()) ^ n as u64));
        let mut src = String::from("#![feature(no_core)]\n#![no_core]\n");
        let mut want = String::new();
        let mut id = 0;
        let mut add = |full: String, text: &str| {
            let got = crate::engine::contain(|| Expression::parse(&full).map(|e| verdict(&e, t, &w)));
            match got {
                Ok(Ok(v)) => {
                    let _ = write!(src, "#[cfg({text})] mod m{id} {{}}\n");
                    let _ = writeln!(want, "{} {}", u8::from(v), crate::engine::esc(&full));
                }
                Ok(Err(_)) => {
                    let _ = writeln!(want, "- {}", crate::engine::esc(&full));
                }
                Err(p) => {
                    let _ = writeln!(want, "! {} {p}", crate::engine::esc(&full));
                }
            }
            id += 1;
        };
        // Every value the table has for any kind, one by one
        for v in &voc {
            for k in ["target_os", "target_arch", "target_env", "target_vendor", "target_abi", "target_family", "panic"] {
                let s = format!("{k} = \"{v}\"");
                add(s.clone(), &s);
            }
        }
        for x in 0..=255 {
            let s = format!("target_pointer_width = \"{x}\"");
            add(s.clone(), &s);
        }
        for x in ["0", "1", "8", "16", "32", "64", "128", "256", "512", "65535", "ptr"] {
            let s = format!("target_has_atomic = \"{x}\"");
            add(s.clone(), &s);
        }
        for s in ["unix", "windows", "test", "debug_assertions", "proc_macro", "target_endian = \"big\"", "target_endian = \"little\"", "all()", "any()", "not(all())", "not(any())"] {
            add(s.to_owned(), s);
        }
        for k in &w.target_features {
            let s = format!("target_feature = \"{k}\"");
            add(s.clone(), &s);
        }
        for _ in 0..count {
            let mut toks = vec![];
            let b = if r.chance(1, 30) { r.range(20, 200) } else { r.range(1, 16) };
            expr(&mut r, &mut toks, b, 0, &mut |r| leaf(r, d, &w, &f, &voc));
            if r.chance(1, 12) {
                toks.push(",".into());
            }
            let s = lay(&mut r, &toks);
            let full = if r.chance(1, 4) { format!("cfg({s})") } else { s.clone() };
            add(full, &s);
        }
        // Damaged texts, of which those count that the library accepts
        let mut tried = 0;
        while tried < count {
            tried += 1;
            let full = gen::any_text(&mut r, d);
            if full.len() > 400 || crate::engine::contain(|| Expression::parse(&full).is_err()).unwrap_or(false) {
                continue;
            }
            let s = match full.strip_prefix("cfg(").and_then(|s| s.strip_suffix(')')) {
                Some(s) => s.to_owned(),
                None => full.clone(),
            };
            if plain(&s) {
                add(full, &s);
            }
        }
        std::fs::write(format!("{dir}/{n}.rs"), src).unwrap();
        std::fs::write(format!("{dir}/{n}.want"), want).unwrap();
    }
}
