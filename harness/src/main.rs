mod cost;
mod engine;
mod gen;
#[cfg(feature = "lexicon")]
mod lexicon;
mod model;
mod rng;
mod rustc;
mod targets;
mod text;
mod trace;

use engine::{drive, write_out, write_replay, Ctx, Mon, Opts, Plan};
use std::time::{Duration, Instant};

fn harvest_fixed() -> Vec<String> {
    vec![]
}

struct TextProp {
    id: &'static str,
    mon: Mon,
    rule: &'static str,
    plan: fn(bool) -> Plan,
}

fn pick(t: bool, q: u64, th: u64) -> u64 {
    if t { th } else { q }
}

const TEXT: &[TextProp] = &[
    TextProp {
        id: "C01",
        mon: text::c01,
        rule: "valid expressions (random trees, wide lists and deep chains at sizes around every power of two and every integer of the sources, all short token sequences, all layouts), evaluated over a prime field, a min/max chain, a counting logic and booleans (all assignments when few predicates) and compared with the structure of the text; non-trivial: at least one function",
        plan: |t| Plan {
            valid: pick(t, 600_000, 8_000_000),
            random: pick(t, 100_000, 1_000_000),
            tokens: if t { 6 } else { 5 },
            viable: if t { 11 } else { 9 },
            extreme: 70_000,
            sys: if t { 1 } else { 4 },
            giant: pick(t, 400_000, 1_500_000) as usize,
            ..Plan::default()
        },
    },
    TextProp {
        id: "C02",
        mon: text::c02,
        rule: "valid expressions with three-valued assignments (all 3^n when few predicates, random mixes of known and unknown otherwise), compared with Kleene logic on the structure of the text and with boolean evaluations of completions; non-trivial: at least one predicate",
        plan: |t| Plan {
            valid: pick(t, 400_000, 5_000_000),
            random: pick(t, 50_000, 500_000),
            tokens: if t { 6 } else { 5 },
            viable: if t { 10 } else { 9 },
            extreme: 70_000,
            sys: if t { 1 } else { 4 },
            giant: pick(t, 400_000, 1_500_000) as usize,
            ..Plan::default()
        },
    },
    TextProp {
        id: "C03",
        mon: text::c03,
        rule: "valid expressions evaluated with constant, random, value-tracking, panicking and re-entrant closures; every closure call, produced value and drop is recorded and compared with the predicates written in the text; non-trivial: at least one predicate",
        plan: |t| Plan {
            valid: pick(t, 300_000, 4_000_000),
            random: pick(t, 50_000, 500_000),
            tokens: if t { 6 } else { 5 },
            viable: if t { 10 } else { 8 },
            extreme: 70_000,
            sys: if t { 1 } else { 4 },
            giant: pick(t, 400_000, 1_500_000) as usize,
            ..Plan::default()
        },
    },
    TextProp {
        id: "C04",
        mon: text::c04,
        rule: "every kind of text (valid, token- and character-mutated, token soup, noise), all token sequences up to a length, all viable prefixes with one more token, every Unicode scalar in six positions, extreme operand counts and depths; acceptance compared with an independent recogniser; non-trivial: accepted, or rejected with at least two tokens",
        plan: |t| Plan {
            valid: pick(t, 400_000, 5_000_000),
            random: pick(t, 2_500_000, 40_000_000),
            tokens: if t { 7 } else { 6 },
            viable: if t { 12 } else { 10 },
            chars: true,
            extreme: 70_000,
            hostile: vec![300, 70_000],
            sys: 1,
            giant: pick(t, 400_000, 1_500_000) as usize,
            ..Plan::default()
        },
    },
    TextProp {
        id: "C05",
        mon: text::c05,
        rule: "valid expressions with names and values from the rustc vocabulary, near misses, every Unicode scalar, all lengths around powers of two, at offsets beyond 65536; the multiset of reported predicates compared with the text; non-trivial: at least one predicate",
        plan: |t| Plan {
            valid: pick(t, 900_000, 12_000_000),
            random: pick(t, 200_000, 2_000_000),
            tokens: 5,
            viable: if t { 10 } else { 8 },
            chars: true,
            extreme: 70_000,
            sys: 1,
            giant: pick(t, 400_000, 1_500_000) as usize,
            ..Plan::default()
        },
    },
    TextProp {
        id: "C06",
        mon: text::c06,
        rule: "accepted and rejected token lists in a compact layout against random layouts with all 25 Unicode white space characters, toggled trailing commas and the cfg() wrapper; non-trivial: at least three tokens",
        plan: |t| Plan {
            valid: pick(t, 250_000, 3_000_000),
            random: pick(t, 500_000, 6_000_000),
            tokens: if t { 6 } else { 5 },
            viable: if t { 10 } else { 8 },
            extreme: 5_000,
            sys: if t { 1 } else { 4 },
            ..Plan::default()
        },
    },
    TextProp {
        id: "C07",
        mon: text::c07,
        rule: "every kind of text plus hostile shapes (deep, wide, unclosed, unopened, long tokens, late errors) of up to hundreds of thousands of repetitions on 2 MiB stacks; each public operation must return; non-trivial: accepted, or rejected with at least two characters",
        plan: |t| Plan {
            valid: pick(t, 250_000, 4_000_000),
            random: pick(t, 1_000_000, 15_000_000),
            tokens: if t { 7 } else { 6 },
            viable: if t { 11 } else { 9 },
            chars: true,
            extreme: 70_000,
            hostile: if t {
                vec![1, 2, 5, 6, 9, 17, 255, 256, 257, 1000, 65_535, 65_536, 65_537, 300_000, 1_000_000]
            } else {
                vec![1, 2, 5, 6, 9, 17, 255, 256, 257, 1000, 65_536, 65_537, 200_000]
            },
            sys: 1,
            ..Plan::default()
        },
    },
    TextProp {
        id: "C09",
        mon: text::c09,
        rule: "every kind of text, all short token sequences, every Unicode scalar in six positions; all items of the lexer checked for tiling and compared with an independent tokeniser; non-trivial: at least one token",
        plan: |t| Plan {
            valid: pick(t, 200_000, 3_000_000),
            random: pick(t, 1_500_000, 25_000_000),
            tokens: if t { 7 } else { 6 },
            chars: true,
            extreme: 70_000,
            hostile: vec![300, 20_000],
            sys: 1,
            giant: pick(t, 400_000, 1_500_000) as usize,
            ..Plan::default()
        },
    },
    TextProp {
        id: "C10",
        mon: text::c10,
        rule: "every kind of rejected text (mutations, soup, noise, exhaustive token sequences, every Unicode scalar, late errors behind tens of thousands of operands); the error compared with the set of faults an independent analysis finds; non-trivial: at least two tokens, or a fault not at the start",
        plan: |t| Plan {
            valid: 20_000,
            random: pick(t, 3_000_000, 40_000_000),
            tokens: if t { 7 } else { 6 },
            viable: if t { 12 } else { 10 },
            chars: true,
            extreme: 5_000,
            hostile: vec![3, 300, 66_000],
            sys: 1,
            giant: pick(t, 400_000, 1_500_000) as usize,
            ..Plan::default()
        },
    },
    TextProp {
        id: "C11",
        mon: text::c11,
        rule: "errors of rejected texts of every kind, and errors built with every reason over arbitrary texts and spans; the rendered message compared with the specified one; non-trivial: an error of the parser over at least two characters",
        plan: |t| Plan {
            random: pick(t, 1_200_000, 15_000_000),
            tokens: 5,
            viable: if t { 9 } else { 7 },
            chars: true,
            hostile: vec![3, 300, 5_000],
            sys: 1,
            ..Plan::default()
        },
    },
    TextProp {
        id: "C12",
        mon: text::c12,
        rule: "accepted texts with their clones, reparses and near variants; equality compared with equality of the texts, predicates and evaluation of each copy with those of the source; non-trivial: accepted",
        plan: |t| Plan {
            valid: pick(t, 300_000, 4_000_000),
            random: pick(t, 300_000, 3_000_000),
            tokens: 5,
            viable: if t { 9 } else { 8 },
            chars: true,
            extreme: 66_000,
            sys: 1,
            giant: pick(t, 400_000, 1_500_000) as usize,
            ..Plan::default()
        },
    },
];

struct OtherProp {
    id: &'static str,
    run: fn(&Opts, &gen::Dict) -> engine::Stats,
    rule: &'static str,
}

const OTHER: &[OtherProp] = &[
    OtherProp {
        id: "C13",
        run: targets::c13,
        rule: "every built-in target and thousands of made-up ones, against every kind of predicate with every value of the table, its near misses and the default words, built directly, through constants and through parsed text, and whole expressions; the answer compared with the plain fields; distinct (target, predicate) pairs",
    },
    OtherProp {
        id: "C15",
        run: targets::c15,
        rule: "every built-in triple and all single-character edits, prefixes, suffixes, component edits and case changes of it, and random strings; the answer compared with a scan of the table; distinct queries",
    },
    OtherProp {
        id: "C17",
        run: targets::c17,
        rule: "sets from random sequences with repetitions, permuted, as constants; all atomics to 66000 and malformed ones; field values; descriptions that differ in one field; pairs compared by ==, cmp, partial_cmp, operators, hash; distinct pairs and texts",
    },
];

fn run_other(o: &Opts, d: &gen::Dict, t: &OtherProp) -> ! {
    let st = (t.run)(o, d);
    finish(o, &st, t.rule)
}

fn finish(o: &Opts, st: &engine::Stats, rule: &str) -> ! {
    write_out(o, st, rule);
    if let Some((case, msg)) = &st.violation {
        let p = write_replay(o, case, msg);
        println!("VIOLATION property={} replay={p}", o.prop);
        std::process::exit(1);
    }
    if st.distinct == 0 {
        eprintln!("nothing observed");
        std::process::exit(2);
    }
    std::process::exit(0);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let flag = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let seed = flag("--seed").and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let prop = args.get(2).cloned().unwrap_or_default();
    let o = Opts {
        prop: prop.clone(),
        thorough: flag("--tier").as_deref() == Some("thorough"),
        seed,
        threads: flag("--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
        trace: flag("--trace"),
        replay_dir: flag("--replays").unwrap_or_else(|| "/tmp/vh-replays".into()),
        out: flag("--out").unwrap_or_else(|| "/dev/null".into()),
        scale: flag("--scale").and_then(|s| s.parse().ok()).unwrap_or(100),
        label: flag("--label").unwrap_or_else(|| "default".into()),
        deadline: Instant::now()
            + Duration::from_secs(flag("--seconds").and_then(|s| s.parse().ok()).unwrap_or(600)),
    };
    engine::install_hook();
    if args.get(1).is_some_and(|a| a == "trace-hash") {
        return trace::trace_hash(seed);
    }
    if args.get(1).is_some_and(|a| a == "trace-first") {
        return trace::trace_first(seed, prop.parse().unwrap_or(0));
    }
    let num = |n: &str, dflt: usize| flag(n).and_then(|s| s.parse().ok()).unwrap_or(dflt);
    if args.get(1).is_some_and(|a| a == "mem") {
        // Reads no source: this runs in an interpreter
        let texts = trace::read_corpus(&flag("--corpus").unwrap());
        trace::mem(&texts, &gen::Dict::small(), seed, num("--part", 0), num("--parts", 1), num("--targets", 20), args.iter().any(|a| a == "--lite"), num("--millis", 100_000_000) as u64);
        return;
    }
    if args.get(1).is_some_and(|a| a == "digest-some") {
        // Slow machines: as many as there is time for
        let texts = trace::read_corpus(&flag("--corpus").unwrap());
        let t0 = std::time::Instant::now();
        let mut s = String::new();
        for i in (num("--part", 0)..texts.len()).step_by(num("--parts", 1).max(1)) {
            if t0.elapsed().as_millis() as usize > num("--millis", 1000) {
                break;
            }
            let h = if texts[i].len() > 200 { rng::hash_bytes(text::trace_short(&texts[i]).as_bytes()) } else { trace::digest(&texts[i], seed) };
            s.push_str(&format!("{i} {h:016x}\n"));
        }
        std::fs::write(&o.out, s).unwrap();
        return;
    }
    let d = gen::Dict::load();
    let tp = TEXT.iter().find(|t| t.id == prop);
    match args.get(1).map(String::as_str) {
        Some("run") => {
            if let Some(t) = tp {
                run_text(&o, &d, t);
            }
            #[cfg(feature = "lexicon")]
            if prop == "C16" {
                let known = lexicon::Known::load(&flag("--known").expect("--known"));
                let st = lexicon::c16(&o, &d, &known);
                finish(&o, &st, "every built-in triple target-lexicon parses, with every value of both vocabularies, near misses and random strings for arch, os, env, vendor and family, every width and endianness; Apple triples with deployment versions against the plain built-in; abi, panic and atomic predicates on random triples; distinct (triple, predicate) pairs");
            }
            if prop == "C19" {
                let st = trace::c19(&o, &d, args.iter().any(|a| a == "--light"));
                finish(&o, &st, "texts of every kind, alone in fresh processes with various environments, in order, backwards in one buffer behind a twin of equal length, on concurrent threads in random orders, parsed once and used by all threads at a time, and nested in each other's closures; complete traces compared; distinct traces");
            }
            if let Some(t) = OTHER.iter().find(|t| t.id == prop) {
                run_other(&o, &d, t);
            }
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
        #[cfg(feature = "lexicon")]
        Some("list-disagreements") => lexicon::list(),
        Some("dump-table") => {
            println!("version {}", cfg_expr::targets::rustc_version());
            for t in cfg_expr::targets::ALL_BUILTINS {
                println!("{}", targets::json(&targets::facts(t)));
            }
        }
        Some("corpus") => {
            let v = if args.iter().any(|a| a == "--small") {
                let mut v = trace::small_corpus(&d, seed, num("--count", 1000));
                if args.iter().any(|a| a == "--long") {
                    v.splice(0..0, (0..14).filter_map(|k| gen::length(257 + k + (seed % 40) as usize, k)));
                }
                v
            } else {
                trace::corpus(&d, seed, num("--count", 1000), num("--max", 1000), num("--every", 8))
            };
            trace::write_corpus(&flag("--out").unwrap(), &v);
            println!("{}", v.len());
        }
        Some("cost") => cost::run(&gen::Dict::small(), seed, num("--n", 1000), num("--part", 0), num("--parts", 1)),
        Some("digest") => {
            let texts = trace::read_corpus(&flag("--corpus").unwrap());
            let v = trace::digests(&o, &gen::Dict::small(), &texts);
            let mut s: String = v.iter().map(|h| format!("{h:016x}\n")).collect();
            // The whole table, for good measure
            for t in cfg_expr::targets::ALL_BUILTINS {
                s.push_str(&format!("{:016x}\n", rng::hash_bytes(format!("{t:?}").as_bytes())));
            }
            std::fs::write(&o.out, s).unwrap();
        }
        Some("trace") => {
            let texts = trace::read_corpus(&flag("--corpus").unwrap());
            trace::c20_replay(&texts, &gen::Dict::small(), &o, num("--index", 0));
        }
        Some("c18-generate") => {
            let n = flag("--count").and_then(|s| s.parse().ok()).unwrap_or(1000);
            rustc::generate(&flag("--dir").unwrap(), &flag("--facts").unwrap(), seed, n, &d);
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[3]).expect("input");
            if let Some(t) = tp {
                let d2 = gen::Dict::load();
                let h = std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn(move || Ctx::new(&d2, &o, None).case(&text, t.mon))
                    .unwrap();
                match h.join().unwrap() {
                    Ok(()) => println!("no violation"),
                    Err(m) => {
                        println!("violation: {m}");
                        std::process::exit(1);
                    }
                }
            }
        }
        _ => {
            eprintln!("usage: vh run|replay PROPERTY [options]");
            std::process::exit(2);
        }
    }
}

fn run_text(o: &Opts, d: &gen::Dict, t: &TextProp) -> ! {
    // The model must agree with the generator's idea of a valid expression
    let mut r = rng::Rng::new(o.seed ^ 0xabcdef);
    for _ in 0..2000 {
        let tk = gen::valid(&mut r, d);
        let s = gen::text(&mut r, &tk);
        if model::analyse(&s).result.is_err() {
            eprintln!("harness error: model rejects generated {s:?}");
            std::process::exit(2);
        }
    }
    let table = match t.id {
        "C01" => engine::contain(text::bool_tables).unwrap_or_else(Err),
        "C02" => engine::contain(text::kleene_tables).unwrap_or_else(Err),
        _ => Ok(()),
    };
    if let Err(m) = table {
        let p = write_replay(o, "", &m);
        println!("VIOLATION property={} replay={p}", o.prop);
        std::process::exit(1);
    }
    let mut alive = 0;
    if ["C01", "C03", "C12"].contains(&t.id) {
        match engine::contain(|| text::many_alive(o.thorough)).unwrap_or_else(Err) {
            Ok(n) => alive = n,
            Err(m) => {
                let p = write_replay(o, "", &m);
                println!("VIOLATION property={} replay={p}", o.prop);
                std::process::exit(1);
            }
        }
    }
    let mut plan = (t.plan)(o.thorough);
    plan.fixed = harvest_fixed();
    let mut st = drive(o, d, &plan, t.mon);
    if alive > 0 {
        st.counters.insert("pairs compared of very many expressions alive at once".into(), alive);
    }
    write_out(o, &st, t.rule);
    if let Some((text, msg)) = &st.violation {
        let p = write_replay(o, text, msg);
        println!("VIOLATION property={} replay={p}", o.prop);
        std::process::exit(1);
    }
    if st.distinct == 0 {
        eprintln!("nothing observed");
        std::process::exit(2);
    }
    std::process::exit(0);
}
