//! Work and memory as functions of the input's length. The driver runs this
//! under callgrind, which counts the instructions of each `measured_*` call.
use crate::gen::{self, Dict};
use crate::rng::{mix, Rng};
use crate::text::Fp;
use cfg_expr::expr::lexer::Lexer;
use cfg_expr::{Expression, ParseError};
use std::hint::black_box;

#[cfg(feature = "counting")]
pub mod counter {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering::*};
    pub static LIVE: AtomicUsize = AtomicUsize::new(0);
    pub static PEAK: AtomicUsize = AtomicUsize::new(0);
    pub static TOTAL: AtomicUsize = AtomicUsize::new(0);
    pub static CALLS: AtomicUsize = AtomicUsize::new(0);
    pub struct A;
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let n = LIVE.fetch_add(l.size(), Relaxed) + l.size();
            PEAK.fetch_max(n, Relaxed);
            TOTAL.fetch_add(l.size(), Relaxed);
            CALLS.fetch_add(1, Relaxed);
            unsafe { System.alloc(l) }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size(), Relaxed);
            unsafe { System.dealloc(p, l) }
        }
    }
    #[global_allocator]
    static G: A = A;
}

pub const OPS: &[&str] = &["lex", "parse", "list", "eval", "eval3", "evalfp", "clone", "compare", "render", "drop"];

/// A family of texts; `n` is the number of repetitions
pub fn shapes(d: &Dict, seed: u64, n: usize) -> Vec<(String, String)> {
    let rep = |s: &str| s.repeat(n);
    let mut v: Vec<(String, String)> = gen::hostile(n).into_iter().map(|(a, b)| (a.to_owned(), b)).collect();
    let mut add = |a: &str, b: String| v.push((a.to_owned(), b));
    add("features", format!("any({})", rep("feature = \"serde\", ")));
    add("targets", format!("all({})", rep("target_os = \"linux\", target_pointer_width = \"64\", ")));
    add("has_atomic", format!("all({})", rep("target_has_atomic=\"ptr\",")));
    add("numbered keys", format!("any({})", (0..n).map(|i| format!("k{i},")).collect::<String>()));
    add("numbered values", format!("any({})", (0..n).map(|i| format!("k=\"{i}\",")).collect::<String>()));
    // As many different values of each key as there is room for: none may be
    // looked for among those before it
    for k in ["feature", "target_feature", "target_os", "target_vendor", "target_arch", "target_env", "target_family", "target_abi", "panic", "target_has_atomic", "target_pointer_width"] {
        let many: String = match k {
            // These take no strings of any kind
            "target_has_atomic" => (0..n).map(|i| format!("{k}=\"{}\",", ["8", "16", "32", "64", "128", "ptr"][i * i % 6])).collect(),
            _ if k == "target_pointer_width" => (0..n).map(|i| format!("{k}=\"{}\",", i % 256)).collect(),
            _ => (0..n).map(|i| format!("{k}=\"v{i}\",")).collect(),
        };
        add(&format!("numbered {k}"), format!("any({many})"));
    }
    add("numbered keys and values", format!("all({})", (0..n).map(|i| format!("k{i}=\"v{i}\",")).collect::<String>()));
    add("numbered flags under not", format!("all({})", (0..n).map(|i| format!("not(f{i}),")).collect::<String>()));
    add("numbered features in pairs", format!("any({})", (0..n / 2).map(|i| format!("all(feature=\"a{i}\",feature=\"b{i}\"),")).collect::<String>()));
    add("pyramid", (0..n / 30).map(|i| format!("any({}", "a,".repeat(i % 30))).collect::<String>() + "b" + &")".repeat(n / 30));
    add("wide and deep", format!("all({})", (0..n / 50).map(|_| format!("{}a{},", "not(".repeat(25), ")".repeat(25))).collect::<String>()));
    add("operands before functions", format!("all({}{})", rep("a,"), rep("any(b),")));
    add("functions before operands", format!("all({}{})", rep("any(b),"), rep("a,")));
    add("nested in the first operand", format!("{}a,b{}", rep("any("), rep("),c")));
    add("spaces everywhere", format!("all({})", rep(" \t\n a \r\n = \u{2003} \"b\" \u{3000} , ")));
    add("long key, then error", format!("{} {}", rep("k"), "x"));
    add("long value, then error", format!("a=\"{}\" b", rep("v")));
    add("early error, long rest", format!("a b {}", rep("c,")));
    add("early bad character", format!("é {}", rep("c,")));
    add("bad key late", format!("all({}target_nope=\"x\")", rep("a,")));
    add("long bad key", format!("target_{}=\"x\"", rep("o")));
    add("long endian", format!("target_endian=\"{}\"", rep("b")));
    add("long feature", format!("target_feature=\"{}\"", rep("s")));
    add("long without value", format!("feature,{}", rep("a")));
    add("wide unclosed string", format!("all({}\"", rep("\u{1f4a9}")));
    add("wide non-ASCII values", format!("all({})", rep("k=\"é💩\",")));
    add("unclosed wide", format!("all({}", rep("a,")));
    add("unopened late", format!("all({}))", rep("a,")));
    add("missing comma late", format!("all({} a b)", rep("a,")));
    add("not with many late", format!("all({}not(a,b))", rep("not(a),")));
    add("not(all()) chain", format!("{}{}", rep("not(all("), rep("))")));
    add("many empty", rep("any()"));
    add("wrapper then spaces", format!("cfg({}a{})", rep(" "), rep(" ")));
    add("key then spaces", format!("a{}=\"b\"", rep("\u{2028}")));
    add("quotes and commas", format!("all({})", rep("a=\"(),\",")));
    // Much of one thing followed by much of another: work on the second must
    // not be repeated at each step of the first, or the other way round
    let bulk: [(&str, String, &str); 9] = [
        ("operands", rep("a,"), ","),
        ("spaces", rep(" "), " "),
        ("wide spaces", rep("\u{3000}"), " "),
        ("a long key", rep("k"), ","),
        ("a long value", format!("v=\"{}\"", rep("\u{e9}")), ","),
        ("values", rep("v=\"x\","), ""),
        ("functions", rep("any(),"), ""),
        ("an open nest", rep("any("), ""),
        ("a closing nest", rep(")"), ","),
    ];
    for (i, (a, x, sep)) in bulk.iter().enumerate() {
        for (j, (b, y, _)) in bulk.iter().enumerate() {
            if i != j {
                add(&format!("{a}, then {b}"), format!("all({x}{sep}{y})"));
            }
        }
    }
    add("operands, then spaces outside", format!("all({}){}", rep("a,"), rep(" ")));
    add("spaces outside, then operands", format!("{}all({})", rep("\t"), rep("a,")));
    add("operands in the wrapper, then spaces", format!("cfg(all({}){})", rep("a,"), rep("\n")));
    for k in 0..6 {
        let mut r = Rng::new(mix(seed ^ 0xc057 ^ k));
        let mut one = String::new();
        let m = n.min(60);
        let mut parts = vec![];
        for _ in 0..m {
            let t = gen::valid(&mut r, d);
            let s = gen::text(&mut r, &t);
            let s = s.trim().trim_end_matches(',').to_owned();
            if s.len() < 200 && !s.starts_with("cfg") && Expression::parse(&s).is_ok() {
                parts.push(s);
            }
        }
        for i in 0..n / 4 {
            if !parts.is_empty() {
                one.push_str(&parts[i % parts.len()]);
                one.push_str(", ");
            }
        }
        add(&format!("random operands {k}"), format!("all({one})"));
        add(&format!("random operands {k}, open"), format!("any({one}"));
    }
    v
}

fn leaf(p: &cfg_expr::Predicate<'_>) -> u64 {
    // Cheap, and no more than linear in the predicate
    match p {
        cfg_expr::Predicate::Flag(f) | cfg_expr::Predicate::Feature(f) => f.len() as u64,
        cfg_expr::Predicate::KeyValue { key, val } => (key.len() ^ val.len()) as u64,
        _ => 1,
    }
}

macro_rules! measured {
    ($($name:ident($($a:ident: $t:ty),*) -> $r:ty $b:block)*) => { $(
        #[inline(never)]
        #[no_mangle]
        pub fn $name($($a: $t),*) -> $r {
            // No tail call: callgrind shall see the return
            black_box(black_box((|| $b)()))
        }
    )* };
}
measured! {
    measured_lex(t: &str) -> usize { Lexer::new(t).take(t.len() + 2).filter(|x| x.is_ok()).count() }
    measured_parse(t: &str) -> Result<Expression, ParseError> { Expression::parse(t) }
    measured_list(e: &Expression) -> u64 { e.predicates().map(|p| leaf(&p)).fold(0, |a, b| a ^ b) }
    measured_eval(e: &Expression) -> bool { e.eval(|p| leaf(p) & 1 == 0) }
    measured_eval3(e: &Expression) -> Option<bool> { e.eval(|p| match leaf(p) % 3 { 0 => None, 1 => Some(true), _ => Some(false) }) }
    measured_evalfp(e: &Expression) -> Fp { e.eval(|p| Fp(leaf(p))) }
    measured_clone(e: &Expression) -> Expression { e.clone() }
    measured_compare(e: &Expression, f: &Expression) -> bool { e == f }
    measured_render(e: &ParseError) -> String { e.to_string() }
    measured_drop(e: Result<Expression, ParseError>) -> () { drop(e) }
}

/// Processor time of this process, in microseconds
#[cfg(feature = "counting")]
fn cpu_micros() -> u64 {
    #[repr(C)]
    struct Ts(i64, i64);
    unsafe extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts(0, 0);
    unsafe { clock_gettime(2, &mut t) };
    (t.0 * 1_000_000 + t.1 / 1000) as u64
}

/// Runs one operation, reports (peak, total) bytes when counting
fn op<T>(name: &str, f: impl FnOnce() -> T) -> T {
    #[cfg(feature = "counting")]
    {
        use counter::*;
        use std::sync::atomic::Ordering::*;
        let live = LIVE.load(Relaxed);
        PEAK.store(live, Relaxed);
        TOTAL.store(0, Relaxed);
        CALLS.store(0, Relaxed);
        let t0 = cpu_micros();
        let r = f();
        let us = cpu_micros() - t0;
        let (p, t, c) = (PEAK.load(Relaxed).saturating_sub(live), TOTAL.load(Relaxed), CALLS.load(Relaxed));
        println!("{name} {p} {t} {c} {us}");
        r
    }
    #[cfg(not(feature = "counting"))]
    {
        println!("{name}");
        f()
    }
}

pub fn run(d: &Dict, seed: u64, n: usize, part: usize, parts: usize) {
    for (i, (name, text)) in shapes(d, seed, n).into_iter().enumerate() {
        if i % parts != part {
            continue;
        }
        println!("shape {name}");
        println!("length {}", text.len());
        op("lex", || black_box(measured_lex(&text)));
        let r = op("parse", || black_box(measured_parse(&text)));
        match &r {
            Ok(e) => {
                println!("accepted");
                op("list", || black_box(measured_list(e)));
                op("eval", || black_box(measured_eval(e)));
                op("eval3", || black_box(measured_eval3(e)));
                op("evalfp", || black_box(measured_evalfp(e)));
                let c = op("clone", || black_box(measured_clone(e)));
                op("compare", || black_box(measured_compare(e, &c)));
            }
            Err(e) => {
                op("render", || black_box(measured_render(e)));
            }
        }
        op("drop", || measured_drop(r));
    }
}
