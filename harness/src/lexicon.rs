//! Matching a parsed target-lexicon triple against the built-in description.
use crate::engine::{par, Opts, Rec, Stats};
use crate::gen::{self, Dict};
use crate::rng::{hash_bytes, mix};
use crate::targets::{near, vocabulary};
use cfg_expr::expr::TargetPredicate as TP;
use cfg_expr::targets::*;
use cfg_expr::{Expression, Predicate};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;
use target_lexicon::Triple as Lex;

type R = Result<(), (String, String)>;

const KEYS: [&str; 5] = ["arch", "os", "env", "vendor", "family"];

fn pred(k: usize, v: &str) -> TP {
    let v = v.to_owned();
    match k {
        0 => TP::Arch(Arch::new(v)),
        1 => TP::Os(Os::new(v)),
        2 => TP::Env(Env::new(v)),
        3 => TP::Vendor(Vendor::new(v)),
        _ => TP::Family(Family::new(v)),
    }
}

/// Known disagreements: (`arch="i686"`, builtin answer) to triples
pub struct Known {
    cells: BTreeMap<(String, bool), BTreeSet<String>>,
    pub lines: BTreeMap<(String, bool), String>,
    pub seen: Mutex<BTreeSet<(String, bool)>>,
}

impl Known {
    pub fn load(path: &str) -> Self {
        let mut k = Known { cells: BTreeMap::new(), lines: BTreeMap::new(), seen: Mutex::default() };
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
            eprintln!("harness error: {path}: {e}");
            std::process::exit(2)
        });
        for l in text.lines() {
            let Some(r) = l.strip_prefix("finding: property=C16 ") else { continue };
            let f: Vec<&str> = r.split(' ').collect();
            let cell = f[0].to_owned();
            let b = f[1] == "builtin=true";
            let ts = f[2].strip_prefix("triples=").expect("triples").split(',').map(str::to_owned);
            k.cells.entry((cell.clone(), b)).or_default().extend(ts);
            k.lines.insert((cell.clone(), b), format!("target_{cell} builtin={b} lexicon={}", !b));
        }
        k
    }
    fn has(&self, cell: &str, b: bool, triple: &str) -> bool {
        let key = (cell.to_owned(), b);
        let r = self.cells.get(&key).is_some_and(|s| s.contains(triple));
        if r {
            self.seen.lock().unwrap().insert(key);
        }
        r
    }
}

fn compare(c: &mut Rec, t: &TargetInfo, name: &str, l: &Lex, cell: &str, tp: &TP, known: &Known) -> R {
    c.doing = format!("triple {name} predicate target_{cell}");
    let (a, b) = (tp.matches(t), tp.matches(l));
    c.case(mix(hash_bytes(name.as_bytes())) ^ hash_bytes(cell.as_bytes()));
    c.count(if a { "matching" } else { "not matching" }, 1);
    // A versioned triple is held against the plain one and has no exceptions
    // of its own
    if a != b {
        if known.has(cell, a, name) {
            c.count("known disagreements", 1);
            return Ok(());
        }
        return Err((format!("triple {name} ({l:?})\npredicate target_{cell}"), format!("the built-in description of {} says {a}, the parsed triple says {b}", t.triple)));
    }
    Ok(())
}

fn never(c: &mut Rec, name: &str, l: &Lex, tp: &TP) -> R {
    c.doing = format!("triple {name} predicate {tp:?}");
    c.case(mix(hash_bytes(name.as_bytes())) ^ hash_bytes(format!("{tp:?}").as_bytes()));
    c.count("abi, atomic and panic predicates", 1);
    if tp.matches(l) {
        return Err((format!("triple {name} ({l:?})\npredicate {tp:?}"), "matches a parsed triple".into()));
    }
    Ok(())
}

fn nevers(c: &mut Rec, name: &str, l: &Lex, vals: &[String]) -> R {
    for v in vals {
        never(c, name, l, &TP::Abi(Abi::new(v.clone())))?;
        never(c, name, l, &TP::Panic(Panic::new(v.clone())))?;
    }
    for n in [0u16, 1, 8, 16, 32, 64, 128, 256, 65535] {
        never(c, name, l, &TP::HasAtomic(HasAtomic::IntegerSize(n)))?;
    }
    never(c, name, l, &TP::HasAtomic(HasAtomic::Pointer))
}

fn versions(r: &mut crate::rng::Rng) -> Vec<String> {
    let mut v: Vec<String> = ["0.0", "1.0", "7.0", "10.4", "10.7", "11.0", "17.0", "17.5", "10.15.7", "13.0.1", "0.0.1", "255.255.255", "20", "23.6.0"].map(String::from).into();
    for _ in 0..6 {
        v.push(format!("{}.{}", r.below(30), r.below(20)));
        v.push(format!("{}.{}.{}", r.below(30), r.below(20), r.below(256)));
    }
    v
}

/// Spellings of an Apple triple that carry a deployment version
fn versioned(t: &str, r: &mut crate::rng::Rng) -> Vec<String> {
    let p: Vec<&str> = t.split('-').collect();
    let mut out = vec![];
    if p.len() < 3 || p[1] != "apple" {
        return out;
    }
    let names: &[&str] = match p[2] {
        "darwin" => &["darwin", "macosx"],
        "ios" => &["ios"],
        "tvos" => &["tvos"],
        "watchos" => &["watchos"],
        "visionos" => &["visionos", "xros"],
        _ => &[],
    };
    for n in names {
        for v in versions(r).iter().map(String::as_str).chain([""]) {
            let mut q: Vec<String> = p.iter().map(|s| s.to_string()).collect();
            q[2] = format!("{n}{v}");
            let s = q.join("-");
            if s != t {
                out.push(s);
            }
        }
    }
    out
}

fn all_values(c: &mut Rec, t: &TargetInfo, name: &str, l: &Lex, vals: &[String], known: &Known) -> R {
    for v in vals {
        for (k, key) in KEYS.iter().enumerate() {
            compare(c, t, name, l, &format!("{key}=\"{v}\""), &pred(k, v), known)?;
        }
    }
    for w in 0..=255u8 {
        compare(c, t, name, l, &format!("pointer_width=\"{w}\""), &TP::PointerWidth(w), known)?;
    }
    compare(c, t, name, l, "endian=\"big\"", &TP::Endian(Endian::big), known)?;
    compare(c, t, name, l, "endian=\"little\"", &TP::Endian(Endian::little), known)
}

pub fn full_vocabulary(r: &mut crate::rng::Rng) -> Vec<String> {
    let mut v: BTreeSet<String> = vocabulary().into_iter().collect();
    for n in ["darwin", "macosx", "ios", "tvos", "watchos", "visionos", "xros", "macos"] {
        for x in versions(r) {
            v.insert(format!("{n}{x}"));
        }
        v.insert(n.into());
    }
    for t in ALL_BUILTINS {
        for p in t.triple.as_str().split('-') {
            v.insert(p.to_owned());
        }
    }
    v.retain(|s| !s.contains([' ', ',', '"']));
    v.into_iter().collect()
}

/// Every disagreement over the vocabulary, as lines of the known-findings file
pub fn list() {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for t in ALL_BUILTINS {
        let Ok(l) = t.triple.as_str().parse::<Lex>() else { continue };
        for v in full_vocabulary(&mut crate::rng::Rng::new(1)) {
            for (k, key) in KEYS.iter().enumerate() {
                let p = pred(k, &v);
                if p.matches(t) != p.matches(&l) {
                    m.entry(format!("{key}=\"{v}\" builtin={}", p.matches(t))).or_default().push(t.triple.to_string());
                }
            }
        }
    }
    for (k, v) in m {
        println!("finding: property=C16 {k} triples={}", v.join(","));
    }
}

/// Some triples for the memory checkers
pub fn mem(part: usize, parts: usize) {
    for t in ALL_BUILTINS.iter().skip(part).step_by(parts) {
        let Ok(l) = t.triple.as_str().parse::<Lex>() else { continue };
        for k in 0..KEYS.len() {
            for v in ["linux", "unix", "gnu", "x86", "apple", "", t.arch.as_str()] {
                let p = pred(k, v);
                let _ = (p.matches(t), p.matches(&l));
            }
        }
    }
}

pub fn c16(o: &Opts, d: &Dict, known: &Known) -> Stats {
    let nb = ALL_BUILTINS.len();
    let rnd = if o.thorough { 4000 } else { 400 };
    let voc = full_vocabulary(&mut crate::rng::Rng::new(o.seed));
    let mut st = par(o, nb + rnd, |i, c| {
        if i < nb {
            let t = &ALL_BUILTINS[i];
            let name = t.triple.as_str();
            let Ok(l) = name.parse::<Lex>() else {
                c.count("triples target-lexicon cannot parse", 1);
                return Ok(());
            };
            c.count("built-in triples", 1);
            c.sample(|| format!("{name} as {l:?}"));
            let mut vals = voc.clone();
            for s in name.split('-').map(str::to_owned).collect::<Vec<_>>() {
                vals.extend(near(&s));
            }
            for s in [&t.arch.0, t.os.as_ref().map_or(&t.arch.0, |x| &x.0), t.env.as_ref().map_or(&t.arch.0, |x| &x.0), t.vendor.as_ref().map_or(&t.arch.0, |x| &x.0)] {
                vals.extend(near(s));
            }
            for _ in 0..200 {
                vals.push(gen::rand_value(&mut c.r, d));
            }
            all_values(c, t, name, &l, &vals, known)?;
            nevers(c, name, &l, &vals)?;
            for n in versioned(name, &mut c.r) {
                let Ok(l) = n.parse::<Lex>() else {
                    c.count("versions target-lexicon cannot parse", 1);
                    continue;
                };
                c.count("versioned triples", 1);
                let plain = n.split('-').nth(2) == name.split('-').nth(2);
                assert!(!plain, "harness error: no version in {n}");
                // Unversioned spellings of another name (macosx, xros) share
                // the vocabulary of target-lexicon
                let unv = !n.chars().any(|c| c.is_ascii_digit() ) || n.split('-').nth(2).is_some_and(|x| !x.chars().any(|c| c.is_ascii_digit()));
                let vals2: Vec<String> = vals
                    .iter()
                    .filter(|v| !(unv && n.split('-').nth(2) == Some(v.as_str())))
                    .cloned()
                    .collect();
                versioned_values(c, t, name, &n, &l, &vals2, known)?;
                nevers(c, &n, &l, &voc[..40.min(voc.len())])?;
            }
        } else {
            // Random triples: nothing is claimed but the kinds that never match
            for _ in 0..50 {
                let n = c.r.range(1, 4);
                let s = (0..n).map(|_| c.r.pick(&voc).clone()).collect::<Vec<_>>().join("-");
                let Ok(l) = s.parse::<Lex>() else { continue };
                c.count("random triples", 1);
                let vals: Vec<String> = (0..6).map(|_| c.r.pick(&voc).clone()).chain(["unwind".into(), "abort".into(), String::new(), "eabihf".into()]).collect();
                nevers(c, &s, &l, &vals)?;
                for (k, _) in KEYS.iter().enumerate() {
                    for v in &vals {
                        // Only that it answers, the same way twice
                        let p = pred(k, v);
                        c.doing = format!("triple {s} predicate {p:?}");
                        if p.matches(&l) != p.matches(&l.clone()) {
                            return Err((c.doing.clone(), "the answer differs between two calls".into()));
                        }
                    }
                }
            }
            // Whole expressions over values the two vocabularies share
            for _ in 0..50 {
                let t = c.r.pick(ALL_BUILTINS);
                let Ok(l) = t.triple.as_str().parse::<Lex>() else { continue };
                let tk = gen::valid(&mut c.r, d);
                let s = gen::text(&mut c.r, &tk);
                let Ok(e) = Expression::parse(&s) else { continue };
                let mut agree = true;
                let ev = |which: bool, agree: &mut bool| {
                    e.eval(|p| match p {
                        Predicate::Target(tp) => {
                            if tp.matches(t) != tp.matches(&l) {
                                *agree = false;
                            }
                            if which { tp.matches(t) } else { tp.matches(&l) }
                        }
                        _ => true,
                    })
                };
                let (a, b) = (ev(true, &mut agree), ev(false, &mut agree));
                if agree {
                    c.count("whole expressions", 1);
                    if a != b {
                        return Err((format!("{s:?} on {}", t.triple), "predicates agree, the expression does not".into()));
                    }
                }
            }
        }
        Ok(())
    });
    for k in known.seen.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property=C16 {}", known.lines[k]);
    }
    st.counters.insert("known-finding cells observed", known.seen.lock().unwrap().len() as u64);
    st
}

/// A versioned triple must answer as the built-in one; a cell in which the
/// plain triple is known to disagree may agree or disagree in the same way
fn versioned_values(c: &mut Rec, t: &TargetInfo, plain: &str, name: &str, l: &Lex, vals: &[String], known: &Known) -> R {
    for v in vals {
        for (k, key) in KEYS.iter().enumerate() {
            let cell = format!("{key}=\"{v}\"");
            let tp = pred(k, v);
            let (a, b) = (tp.matches(t), tp.matches(l));
            c.doing = format!("triple {name} predicate {tp:?}");
            c.case(mix(hash_bytes(name.as_bytes())) ^ hash_bytes(cell.as_bytes()));
            if a != b && !known.has(&cell, a, plain) {
                return Err((format!("triple {name} ({l:?})\npredicate target_{cell}"), format!("the built-in description of {plain} says {a}, the versioned triple says {b}")));
            }
        }
    }
    for w in [0u8, 16, 31, 32, 33, 64, 128] {
        compare(c, t, name, l, &format!("pointer_width=\"{w}\""), &TP::PointerWidth(w), known)?;
    }
    compare(c, t, name, l, "endian=\"big\"", &TP::Endian(Endian::big), known)?;
    compare(c, t, name, l, "endian=\"little\"", &TP::Endian(Endian::little), known)
}
