//! Complete result traces: the same calls in other builds, histories,
//! threads and processes must give the same trace.
use crate::engine::{contain, esc, Opts, Stats};
use crate::gen::{self, Dict};
use crate::rng::{hash_bytes, mix, Rng};
use crate::text::trace_of;
use cfg_expr::targets::*;
use cfg_expr::{Expression, ParseError, Predicate};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

/// Texts of every kind; `max` bounds the extreme ones, `every` thins them
pub fn corpus(d: &Dict, seed: u64, count: usize, max: usize, every: usize) -> Vec<String> {
    let mut v = Vec::new();
    let mut r = Rng::new(mix(seed ^ 0x7ace));
    for i in 0..count {
        v.push(match i % 10 {
            0..=3 => {
                let t = gen::valid(&mut r, d);
                gen::text(&mut r, &t)
            }
            4..=7 => gen::any_text(&mut r, d),
            8 => {
                let l = gen::leaf_any(&mut r, d);
                if r.chance(1, 3) { format!("not({l})") } else { l }
            }
            _ => {
                // Triples, atomics and the like for the field parsers
                match r.below(4) {
                    0 => r.pick(ALL_BUILTINS).triple.as_str().to_owned(),
                    1 => r.below(70_000).to_string(),
                    2 => gen::rand_value(&mut r, d),
                    _ => gen::mutate_chars(&mut r, ALL_BUILTINS[i % ALL_BUILTINS.len()].triple.as_str()),
                }
            }
        });
    }
    let mut i = (seed as usize) % every;
    while let Some(t) = gen::extreme(d, seed, i, max) {
        v.push(t);
        i += every;
    }
    v.extend(gen::systematic(d).into_iter().skip(seed as usize % (every * 2)).step_by(every * 2));
    for n in [3, 300, max.min(3000)] {
        v.extend(gen::hostile(n).into_iter().map(|x| x.1));
    }
    v
}

/// Small texts that cross every inline capacity, fail in every way, and hold
/// characters of every length; then random ones
pub fn small_corpus(d: &Dict, seed: u64, count: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for n in [0, 1, 4, 5, 6, 9, 17] {
        let rep = |s: &str| s.repeat(n);
        v.push(format!("all({})", rep("a,")));
        v.push(format!("any({})", rep("all(),")));
        v.push(format!("all({})", rep("not(b),")));
        v.push(format!("{}a{}", rep("not("), rep(")")));
        v.push(format!("{}{}", rep("all("), rep(",b)")));
        v.push(format!("any({}", rep("é=")));
        v.push(format!("not({})", rep("k=\"é\",")));
        v.push(rep("any(x,"));
        v.push(rep(")"));
        v.push(format!("k=\"{}\"", rep("💩")));
        v.push(format!("all(x,{}é)", rep("\u{2003}")));
        v.push(format!("x{}\"", rep("=")));
    }
    for s in [
        "cfg(all(unix, target_os = \"linux\"))", "cfg(", "cfg()", "cfg", "", ")", "\"", "\"é", "a=\"é", "é", "aé", "a\u{301}", "not(a,b)", "not()",
        "unix=\"\"", "target_os", "target_nope=\"x\"", "target_pointer_width=\"999\"", "target_has_atomic=\"ptr\"", "target_has_atomic=\"8\"",
        "target_endian=\"big\"", "target_feature=\"\"", "panic=\"abort\"", "a b", "a,,b", "a,b", "all(a),b", "=\"x\"", "test", "debug_assertions", "proc_macro",
        "target_arch=\"x86\"", "target_env=\"\"", "target_vendor=\"unknown\"", "target_abi=\"eabi\"", "target_family=\"unix\"", "windows",
    ] {
        v.push(s.into());
    }
    // Shuffled, so that a run cut short still saw a mixture
    let mut r = Rng::new(mix(seed ^ 0x5a11));
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
    while v.len() < count {
        let t = match r.below(3) {
            0 => gen::any_text(&mut r, d),
            1 => {
                let t = gen::valid(&mut r, d);
                gen::text(&mut r, &t)
            }
            _ => gen::leaf_any(&mut r, d),
        };
        if t.len() <= 160 {
            v.push(t);
        }
    }
    v
}

pub fn write_corpus(path: &str, v: &[String]) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for t in v {
        writeln!(f, "{}", t.len()).unwrap();
        f.write_all(t.as_bytes()).unwrap();
        f.write_all(b"\n").unwrap();
    }
}

pub fn read_corpus(path: &str) -> Vec<String> {
    let s = std::fs::read_to_string(path).expect("corpus");
    let mut v = vec![];
    let mut at = 0;
    while at < s.len() {
        let nl = at + s[at..].find('\n').unwrap();
        let n: usize = s[at..nl].parse().unwrap();
        v.push(s[nl + 1..nl + 1 + n].to_owned());
        at = nl + 2 + n;
    }
    v
}

pub fn digest(text: &str, seed: u64) -> u64 {
    hash_bytes(trace_of(text, seed).as_bytes())
}

/// Results of the target types and matching for made-up targets
pub fn target_trace(d: &Dict, voc: &[String], seed: u64, i: usize) -> String {
    let mut s = String::new();
    let r = contain(|| {
        let mut s = String::new();
        let mut r = Rng::new(mix(seed ^ 0x7a6 ^ mix(i as u64)));
        let t = if i < ALL_BUILTINS.len() { ALL_BUILTINS[i].clone() } else { crate::targets::rnd_target(&mut r, d, voc) };
        let u = if r.chance(1, 3) { t.clone() } else { crate::targets::rnd_target(&mut r, d, voc) };
        let h = |t: &TargetInfo| {
            let mut h = DefaultHasher::new();
            t.hash(&mut h);
            h.finish()
        };
        let _ = write!(s, "{t:?} {} {} {} {:?} {:?}", h(&t), h(&u), t == u, t.cmp(&u), u.partial_cmp(&t));
        let _ = write!(s, " {} {}", t.families, t.has_atomics);
        for a in t.has_atomics.iter() {
            let _ = write!(s, " {a} {}", u.has_atomics.contains(*a));
        }
        for f in t.families.iter() {
            let _ = write!(s, " {f} {}", u.families.contains(f));
        }
        if i < ALL_BUILTINS.len() {
            // Every kind with every name known to rustc or target-lexicon
            let bits: String = voc.iter().map(|v| crate::targets::answers(&t, v)).collect();
            let _ = write!(s, " {bits}");
        }
        for _ in 0..20 {
            let l = gen::leaf_ok(&mut r, d);
            if let Ok(e) = Expression::parse(&l) {
                let m = |t: &TargetInfo| e.eval(|p| matches!(p, Predicate::Target(tp) if tp.matches(t)));
                let _ = write!(s, " {l} {} {}", m(&t), m(&u));
            }
        }
        s
    });
    let _ = write!(s, "{r:?}");
    s
}

pub const TARGETS: usize = 3000;

/// One line per text and made-up target
pub fn digests(o: &Opts, d: &Dict, texts: &[String]) -> Vec<u64> {
    let out: Vec<AtomicU64> = (0..texts.len() + TARGETS).map(|_| AtomicU64::new(0)).collect();
    let voc = crate::targets::vocabulary();
    let step = 64;
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..o.threads {
            s.spawn(|| loop {
                // From the end, where the large ones are
                let k = next.fetch_add(step, Relaxed);
                if k >= out.len() {
                    break;
                }
                for i in (k..(k + step).min(out.len())).map(|i| out.len() - 1 - i) {
                    let h = match texts.get(i) {
                        Some(t) => digest(t, o.seed),
                        None => hash_bytes(target_trace(d, &voc, o.seed, i - texts.len()).as_bytes()),
                    };
                    out[i].store(h, Relaxed);
                }
            });
        }
    });
    out.into_iter().map(|a| a.into_inner()).collect()
}

// ------------------------------------------------------------------ history

/// Shared between threads whether or not the library's types allow it; the
/// driver checks that they do with a program of its own
struct Sh<T>(T);
unsafe impl<T> Sync for Sh<T> {}
unsafe impl<T> Send for Sh<T> {}
impl<T> Sh<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

/// Fixed questions for any process: a lookup, or a text to parse
fn questions() -> Vec<(bool, String)> {
    let mut v = vec![];
    for t in ALL_BUILTINS {
        let s = t.triple.as_str();
        v.extend([s.to_owned(), format!("{s}x"), s[1..].to_owned()].map(|q| (true, q)));
    }
    for t in [
        "a", "unix", "windows", "any()", "all(not(a), b)", "cfg(all(unix, any(windows, target_os = \"linux\")))", "any(target_arch = \"x86\", not(test))",
        "feature = \"serde\"", "target_pointer_width = \"64\"", "target_endian = \"big\"", "target_has_atomic = \"ptr\"", "panic = \"abort\"",
        "target_family = \"wasm\"", "target_feature = \"sse2\"", "debug_assertions", "proc_macro", "k = \"v\"", "not(not(not(a)))", "any(a,b,c,d,e,f,g,h,i,j)",
        "", "(", "a b", "not()", "not(a, b)", "all(a", "a)", "k = \"v", "k =", "target_nope = \"a\"", "target_endian = \"x\"", "a,b", "\u{e9}", "all(a, \u{e9})",
    ] {
        v.push((false, t.to_owned()));
    }
    v
}

fn ask((lookup, q): &(bool, String), seed: u64) -> u64 {
    if *lookup {
        let r = contain(|| cfg_expr::targets::get_builtin_target_by_triple(q).map(|x| x.triple.as_str().to_owned()));
        hash_bytes(format!("{r:?}").as_bytes())
    } else {
        digest(q, seed)
    }
}

/// What a process says of the fixed questions, whatever it was asked before
fn battery(seed: u64) -> Vec<(String, u64)> {
    let name = |q: &(bool, String)| if q.0 { format!("lookup of {}", q.1) } else { format!("results of {:?}", q.1) };
    questions().iter().map(|q| (name(q), ask(q, seed))).collect()
}

/// A process whose first questions come from many threads at once: what each
/// of them was told
pub fn trace_first(seed: u64, how: u64) {
    const THREADS: usize = 8;
    let qs = questions();
    let n = qs.len();
    let texts = qs.iter().position(|q| !q.0).unwrap_or(0);
    let gate = std::sync::Barrier::new(THREADS);
    let all: Vec<Vec<u64>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..THREADS)
            .map(|k| {
                let (qs, gate) = (&qs, &gate);
                s.spawn(move || {
                    let mut r = Rng::new(mix(seed ^ how << 8 ^ k as u64));
                    let from = match how % 4 {
                        // The same first question from all
                        0 => mix(how) as usize % n,
                        // The same first text from all
                        1 => texts + mix(how) as usize % (n - texts),
                        // Anything
                        2 => r.below(n),
                        _ => k * n / THREADS,
                    };
                    let back = how / 4 % 2 == 1 && k % 2 == 1;
                    let mut out = vec![0; n];
                    gate.wait();
                    if how / 8 % 2 == 1 {
                        for _ in 0..r.below(2000) * k {
                            std::hint::spin_loop();
                        }
                    }
                    for i in 0..n {
                        let i = (if back { from + n - i } else { from + i }) % n;
                        out[i] = ask(&qs[i], seed);
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    let h: Vec<String> = all.iter().map(|v| v.iter().fold(0, |a, x| mix(a ^ x)).to_string()).collect();
    println!("{}", h.join(" "));
}

/// Processes in which many threads are first at once: how many, and one in
/// which some thread was told other than `want`
fn first_at_once(o: &Opts, want: &[u64], n: usize) -> (u64, Option<(u64, String)>) {
    let Ok(exe) = std::env::current_exe() else { return (0, None) };
    let want = want.iter().fold(0, |a, x| mix(a ^ x)).to_string();
    let (next, said, bad) = (AtomicUsize::new(0), AtomicU64::new(0), Mutex::new(None));
    std::thread::scope(|s| {
        // Few enough at a time that the threads of one do meet
        for _ in 0..(o.threads / 2).max(1) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= n {
                    break;
                }
                let how = mix(o.seed ^ i as u64) >> 8;
                let mut c = Command::new(&exe);
                c.args(["trace-first", &how.to_string(), "--seed", &o.seed.to_string()]).stderr(Stdio::piped());
                let Ok(r) = c.output() else { continue };
                let out = String::from_utf8_lossy(&r.stdout);
                let err = String::from_utf8_lossy(&r.stderr);
                if let Some(at) = err.find("WARNING: ThreadSanitizer") {
                    *bad.lock().unwrap() = Some((how, format!("a data race among threads that are all first: {}", err[at..].chars().take(4000).collect::<String>())));
                }
                let words: Vec<&str> = out.split_whitespace().collect();
                if words.len() == 8 {
                    said.fetch_add(1, Relaxed);
                    if words.iter().any(|w| *w != want) {
                        *bad.lock().unwrap() = Some((how, "a thread of a process whose threads are all first at once is told something else than the only one of a process is".into()));
                    }
                }
            });
        }
    });
    (said.into_inner(), bad.into_inner().unwrap())
}

fn fresh(texts: &[String], o: &Opts, d: &Dict, n: usize) -> Result<Vec<Option<(u64, u64)>>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out: Vec<[AtomicU64; 2]> = (0..n).map(|_| Default::default()).collect();
    let ok: Vec<AtomicUsize> = (0..n).map(|_| AtomicUsize::new(0)).collect();
    let next = AtomicUsize::new(0);
    let names: Vec<&String> = d
        .keys
        .iter()
        .chain(&d.vals)
        .filter(|s| !s.is_empty() && s.len() < 60 && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_'))
        .take(2000)
        .collect();
    std::thread::scope(|s| {
        for _ in 0..o.threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= n {
                    break;
                }
                let mut c = Command::new(&exe);
                c.args(["trace-hash", "-", "--seed", &o.seed.to_string()]);
                c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
                match i % 4 {
                    0 => {}
                    1 => {
                        c.env_clear().current_dir("/");
                    }
                    2 => {
                        // Whatever the sources might ask the environment for
                        c.env_clear().envs(names.iter().map(|n| (n.as_str(), "1")));
                        c.envs([("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Kolkata"), ("TARGET", "wasm32-wasip1")]);
                        c.envs([("RUSTC", "false"), ("CARGO_CFG_TARGET_OS", "windows"), ("CARGO_CFG_UNIX", ""), ("CARGO_CFG_PANIC", "abort")]);
                    }
                    _ => {
                        c.env("RUST_BACKTRACE", "full").env("CARGO_CFG_TARGET_ARCH", "avr").env("HOME", "/nonexistent");
                    }
                }
                let Ok(mut p) = c.spawn() else { continue };
                let _ = p.stdin.take().unwrap().write_all(texts[i].as_bytes());
                let Ok(r) = p.wait_with_output() else { continue };
                let said: Vec<u64> = String::from_utf8_lossy(&r.stdout).split_whitespace().filter_map(|s| u64::from_str_radix(s, 16).ok()).collect();
                if let [h, b] = said[..] {
                    out[i][0].store(h, Relaxed);
                    out[i][1].store(b, Relaxed);
                    ok[i].store(1, Relaxed);
                }
            });
        }
    });
    Ok(out.into_iter().zip(ok).map(|(h, k)| (k.into_inner() == 1).then(|| (h[0].load(Relaxed), h[1].load(Relaxed)))).collect())
}

pub fn trace_hash(seed: u64) {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let first = digest(&s, seed);
    println!("{first:016x} {:016x}", hash_bytes(format!("{:?}", battery(seed)).as_bytes()));
}

enum Obj {
    Ok(Expression),
    Err(ParseError),
}

fn id_of(p: &Predicate<'_>) -> u64 {
    hash_bytes(format!("{p:?}").as_bytes())
}

/// What a parsed object says, without parsing
fn obj_digest(o: &Obj, k: u64, yielding: bool) -> u64 {
    let r = contain(|| match o {
        Obj::Ok(e) => {
            let mut s = String::new();
            let big = e.original().len() > 20_000;
            let _ = write!(s, "{}", e.original());
            for p in e.predicates() {
                let _ = write!(s, "{p:?};");
            }
            let mut n = 0u64;
            let v = e.eval(|p| {
                n += 1;
                if yielding && !big && n % 3 == k % 3 {
                    std::thread::yield_now();
                }
                mix(id_of(p) ^ k) & 1 == 0
            });
            let w = e.eval(|p| match mix(id_of(p) ^ k) % 3 {
                0 => None,
                1 => Some(true),
                _ => Some(false),
            });
            let t = &ALL_BUILTINS[(k % ALL_BUILTINS.len() as u64) as usize];
            let m = e.eval(|p| matches!(p, Predicate::Target(tp) if tp.matches(t)));
            let c = e.clone();
            let _ = write!(s, "{v}{w:?}{m}{n}{}", c == *e);
            drop(c);
            s
        }
        Obj::Err(e) => format!("{e}{e:?}{}", *e == *e),
    });
    hash_bytes(format!("{r:?}").as_bytes())
}

fn parse(t: &str) -> Option<Obj> {
    contain(|| match Expression::parse(t) {
        Ok(e) => Obj::Ok(e),
        Err(e) => Obj::Err(e),
    })
    .ok()
}

fn differs(text: &str, seed: u64, how: &str, base: &str) -> (String, String) {
    (text.to_owned(), format!("the results for this text {how} differ from those {base}; the trace now:\n{}", trace_of(text, seed)))
}

/// `light`: few texts and no processes, for the sanitizers
pub fn c19(o: &Opts, d: &Dict, light: bool) -> Stats {
    let (count, nfresh, max, every) = if light {
        (if o.thorough { 12_000 } else { 3000 }, 0, 600, 8)
    } else if o.thorough {
        (300_000, 40_000, 70_000, 4)
    } else {
        (40_000, 6_000, 70_000, 16)
    };
    // The triples are among what a process is asked first
    let mut texts: Vec<String> = ALL_BUILTINS.iter().map(|t| t.triple.to_string()).collect();
    texts.extend(corpus(d, o.seed, count * o.scale as usize / 100, max, every));
    let n = texts.len();
    let viol: Mutex<Option<(String, String)>> = Mutex::new(None);
    let set = |v: (String, String)| {
        let mut g = viol.lock().unwrap();
        if g.as_ref().map_or(true, |o| o.0.len() > v.0.len()) {
            *g = Some(v);
        }
    };
    let mut counters = std::collections::BTreeMap::new();
    let mut evaluations = 0u64;

    // 1. Each in a process of its own, before anything else ran
    let alone = fresh(&texts, o, d, nfresh.min(n)).unwrap_or_default();
    counters.insert("texts in a fresh process each", alone.iter().flatten().count() as u64);

    // 2. One after the other
    let base: Vec<u64> = texts.iter().map(|t| digest(t, o.seed)).collect();
    evaluations += n as u64;
    for (i, a) in alone.iter().enumerate() {
        if let Some((a, _)) = a {
            if *a != base[i] {
                set(differs(&texts[i], o.seed, "after others in one process", "in a process of its own"));
            }
        }
    }
    // Whatever a process was asked first, the answers that follow are the same
    let now = battery(o.seed);
    let fixed = hash_bytes(format!("{now:?}").as_bytes());
    for (i, a) in alone.iter().enumerate() {
        if let Some((_, b)) = a {
            if *b != fixed {
                set((texts[i].clone(), "after this text came first in a process, lookups of the triples or results of fixed texts differ from those in another process".into()));
            }
        }
    }
    counters.insert("fixed questions asked after each first one", now.len() as u64);
    let want: Vec<u64> = now.iter().map(|x| x.1).collect();
    let (said, bad) = first_at_once(o, &want, if light { 100 } else if o.thorough { 3000 } else { 1000 } * o.scale as usize / 100);
    counters.insert("processes whose first questions came from eight threads at once", said);
    if let Some((how, what)) = bad {
        set((format!("vh trace-first {how} --seed {}", o.seed), what));
    }

    // 3. Backwards, in one buffer whose address and alignment vary, with a
    // twin of the same length in the same place just before
    let mut r = Rng::new(mix(o.seed ^ 0x19));
    let mut buf = String::with_capacity(texts.iter().map(|t| t.len()).max().unwrap_or(0) + 64);
    for i in (0..n).rev() {
        if texts[i].len() > 3000 && r.chance(3, 4) {
            continue;
        }
        buf.clear();
        let off = r.below(17);
        for _ in 0..off {
            buf.push('x');
        }
        let twin: String = texts[i].chars().map(|c| if c.is_ascii_lowercase() && r.chance(1, 6) { (b'a' + r.below(26) as u8) as char } else { c }).collect();
        buf.push_str(&twin);
        digest(&buf[off..], o.seed);
        buf.truncate(off);
        buf.push_str(&texts[i]);
        evaluations += 2;
        for _ in 0..2 {
            if digest(&buf[off..], o.seed) != base[i] {
                set(differs(&texts[i], o.seed, "after a text of the same length in the same buffer", "in order"));
            }
        }
    }

    // 4. All threads, each in its own order
    let done = AtomicU64::new(0);
    std::thread::scope(|s| {
        for k in 0..o.threads {
            let (texts, base, set, done) = (&texts, &base, &set, &done);
            s.spawn(move || {
                let mut r = Rng::new(mix(o.seed ^ 0x1900 ^ k as u64));
                for _ in 0..n {
                    let i = r.below(n);
                    if texts[i].len() > 3000 && r.chance(7, 8) {
                        continue;
                    }
                    done.fetch_add(1, Relaxed);
                    if digest(&texts[i], o.seed) != base[i] {
                        set(differs(&texts[i], o.seed, "on several threads at once", "in order"));
                        break;
                    }
                }
            });
        }
    });
    counters.insert("texts on concurrent threads", done.load(Relaxed));
    evaluations += done.load(Relaxed);

    // 5. Parsed on one thread, used by all, dropped on another
    let shared: Vec<(usize, Sh<Obj>)> =
        (0..n).filter(|i| texts[*i].len() < 200_000).filter_map(|i| parse(&texts[i]).map(|o| (i, Sh(o)))).collect();
    let want: Vec<Vec<u64>> = shared
        .iter()
        .map(|(i, _)| {
            let own = parse(&texts[*i]);
            (0..3).map(|k| own.as_ref().map_or(0, |x| obj_digest(x, k, false))).collect()
        })
        .collect();
    let used = AtomicU64::new(0);
    let overlaps = AtomicU64::new(0);
    let tick = AtomicUsize::new(0);
    let busy: Vec<AtomicUsize> = shared.iter().map(|_| AtomicUsize::new(0)).collect();
    std::thread::scope(|s| {
        for k in 0..o.threads {
            let (shared, want, set, used, texts, overlaps, busy, tick) = (&shared, &want, &set, &used, &texts, &overlaps, &busy, &tick);
            s.spawn(move || {
                let mut r = Rng::new(mix(o.seed ^ 0x1950 ^ k as u64));
                // All threads dwell on the same few objects at a time
                loop {
                    let t = tick.fetch_add(1, Relaxed);
                    if t >= shared.len() * o.threads {
                        return;
                    }
                    {
                        let j = (t / (4 * o.threads) * 4 + r.below(2)) % shared.len();
                        let (i, obj) = &shared[j];
                        if texts[*i].len() > 3000 && r.chance(3, 4) {
                            continue;
                        }
                        let a = r.below(3) as u64;
                        if busy[j].fetch_add(1, Relaxed) > 0 {
                            overlaps.fetch_add(1, Relaxed);
                        }
                        let g = obj_digest(obj.get(), a, true);
                        busy[j].fetch_sub(1, Relaxed);
                        used.fetch_add(1, Relaxed);
                        if g != want[j][a as usize] {
                            set((texts[*i].clone(), "an object shared between threads gives other results than one used alone".into()));
                            return;
                        }
                    }
                }
            });
        }
    });
    let half = shared.len() / 2;
    let mut shared = shared;
    let tail = Sh(shared.split_off(half));
    std::thread::scope(|s| {
        s.spawn(move || drop(tail));
        let head = Sh(shared);
        s.spawn(move || drop(head));
    });
    counters.insert("uses of shared objects", used.load(Relaxed));
    counters.insert("uses that overlapped another thread's", overlaps.load(Relaxed));
    evaluations += used.load(Relaxed);

    // 6. Nested: inside each other's closures
    let objs: Vec<usize> = (0..n).filter(|i| texts[*i].len() < 300).take(20_000).collect();
    for w in objs.windows(3) {
        let es: Vec<_> = w.iter().filter_map(|i| contain(|| Expression::parse(&texts[*i]).ok()).ok().flatten()).collect();
        if es.len() < 3 {
            continue;
        }
        let run = |e: &Expression| e.eval(|p| mix(id_of(p)) & 1 == 0);
        let r = contain(|| {
            let plain = [run(&es[0]), run(&es[1]), run(&es[2])];
            let mut inner = vec![];
            let outer = es[0].eval(|p| {
                inner.push(run(&es[1]) == plain[1]);
                inner.push(Expression::parse(&texts[w[2]]).is_ok_and(|e| run(&e) == plain[2]));
                mix(id_of(p)) & 1 == 0
            });
            outer == plain[0] && inner.iter().all(|b| *b)
        });
        evaluations += 1;
        *counters.entry("nested evaluations").or_insert(0) += 1;
        if r != Ok(true) {
            set((texts[w[0]].clone(), format!("evaluated with a closure that evaluates {:?} and {:?}: {r:?}", texts[w[1]], texts[w[2]])));
        }
    }

    // 7. After long histories of one kind: panics of closures and of logics,
    // evaluations inside evaluations, abandoned iterators and lexers, errors
    let deep = if light { 40 } else { 400 };
    let times = if light { 100 } else { 3000 };
    let probes: Vec<usize> = (0..n).filter(|i| texts[*i].len() < 2000).step_by((n / if light { 40 } else { 600 }).max(1)).collect();
    let small: Vec<Expression> = objs.iter().filter_map(|i| contain(|| Expression::parse(&texts[*i]).ok()).ok().flatten()).filter(|e| e.predicates().next().is_some()).take(200).collect();
    if !small.is_empty() {
        let histories: [(&str, &dyn Fn(usize)); 6] = [
            ("closures that panicked", &|i| {
                let e = &small[i % small.len()];
                let k = i % e.predicates().count();
                let mut j = 0;
                let _ = contain(|| {
                    e.eval(|_| {
                        assert!(j < k, "bomb");
                        j += 1;
                        true
                    })
                });
            }),
            ("logics that panicked", &|i| bombs(&small[i % small.len()], std::iter::once(i as u64 % 9))),
            ("closures that panicked inside closures", &|i| {
                let (a, b) = (&small[i % small.len()], &small[(i * 7 + 1) % small.len()]);
                let _ = contain(|| a.eval(|_| b.eval(|_| if i % 2 == 0 { panic!("bomb") } else { true })));
            }),
            ("abandoned iterators and lexers", &|i| {
                let e = &small[i % small.len()];
                let mut it = e.predicates();
                it.next();
                if i % 3 == 0 {
                    std::mem::forget(it);
                }
                let mut l = cfg_expr::expr::lexer::Lexer::new(e.original());
                l.next();
                if i % 3 == 1 {
                    std::mem::forget(e.clone());
                }
            }),
            ("errors", &|i| {
                let t = &texts[(i * 31) % n];
                if t.len() < 2000 {
                    let _ = contain(|| Expression::parse(t).map_err(|e| e.to_string()).is_ok());
                }
            }),
            ("evaluations nested deeply", &|i| {
                if i % times == 0 {
                    fn go(small: &[Expression], d: usize) -> bool {
                        let e = &small[d % small.len()];
                        let mut first = true;
                        let v = e.eval(|p| {
                            if std::mem::take(&mut first) && d > 0 {
                                go(small, d - 1);
                            }
                            mix(id_of(p)) & 1 == 0
                        });
                        v == e.eval(|p| mix(id_of(p)) & 1 == 0)
                    }
                    for d in [3, 20, 70, deep] {
                        match contain(|| go(&small, d)) {
                            Ok(true) => {}
                            r => set((small[d % small.len()].original().to_owned(), format!("evaluated around {d} more evaluations, each inside the closure of the one before: {r:?}"))),
                        }
                    }
                }
            }),
        ];
        for (what, f) in histories {
            // The default stack of a thread, and one without history before
            let f = Sh(f);
            let (f, probes, texts, base) = (&f, &probes, &texts, &base);
            let r = std::thread::scope(|s| {
                s.spawn(move || {
                    for i in 0..times {
                        f.get()(i);
                    }
                    for &i in probes {
                        if digest(&texts[i], o.seed) != base[i] {
                            return Some(differs(&texts[i], o.seed, &format!("after {times} {what} on the same thread"), "in order"));
                        }
                    }
                    None
                })
                .join()
            });
            evaluations += probes.len() as u64;
            *counters.entry("texts after long histories").or_insert(0) += probes.len() as u64;
            match r {
                Ok(Some(v)) => set(v),
                Ok(None) => {}
                Err(_) => set((String::new(), format!("a panic outside the monitored calls after {what}"))),
            }
        }
    }

    let mut seen: Vec<u64> = base.clone();
    seen.sort_unstable();
    seen.dedup();
    // And after everything
    if let Some((x, _)) = battery(o.seed).iter().zip(&now).find(|(a, b)| a != b) {
        set((String::new(), format!("the {} differs at the end from what it was at the beginning", x.0)));
    }
    Stats {
        evaluations,
        distinct: seen.len() as u64,
        counters,
        maxima: Default::default(),
        samples: texts.iter().filter(|t| (10..200).contains(&t.len())).step_by(997).take(5).cloned().collect(),
        cut_short: false,
        violation: viol.into_inner().unwrap(),
    }
}

// ------------------------------------------------------------------- memory

#[derive(Debug)]
struct Probe(std::rc::Rc<()>, Box<u64>);
impl cfg_expr::expr::Logic for Probe {
    fn top() -> Self {
        Probe(Default::default(), Box::new(1))
    }
    fn bottom() -> Self {
        Probe(Default::default(), Box::new(0))
    }
    fn and(self, o: Self) -> Self {
        Probe(self.0, Box::new(*self.1 & *o.1))
    }
    fn or(self, o: Self) -> Self {
        Probe(o.0, Box::new(*self.1 | *o.1))
    }
    fn not(self) -> Self {
        Probe(self.0.clone(), Box::new(1 - *self.1))
    }
}

thread_local! {
    /// Operations of `Bomb` until one panics
    static FUSE: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
}

fn burn() {
    FUSE.with(|f| {
        let n = f.get();
        if n == 0 {
            f.set(u64::MAX);
            panic!("bomb");
        }
        f.set(n - 1);
    })
}

/// A logic whose n-th operation panics, with values on the heap
#[derive(Debug)]
#[allow(dead_code)]
struct Bomb(Probe, String);
impl cfg_expr::expr::Logic for Bomb {
    fn top() -> Self {
        burn();
        Bomb(Probe::top(), "t".repeat(30))
    }
    fn bottom() -> Self {
        burn();
        Bomb(Probe::bottom(), "b".repeat(30))
    }
    fn and(self, o: Self) -> Self {
        burn();
        Bomb(self.0.and(o.0), self.1)
    }
    fn or(self, o: Self) -> Self {
        burn();
        Bomb(self.0.or(o.0), o.1)
    }
    fn not(self) -> Self {
        burn();
        Bomb(self.0.not(), self.1)
    }
}

/// Evaluations whose n-th operation panics
fn bombs(e: &Expression, at: impl Iterator<Item = u64>) {
    for k in at {
        FUSE.with(|f| f.set(k));
        let _ = contain(|| {
            let mut i = 0;
            let v = e.eval(|_| {
                i += 1;
                Bomb(Probe(Default::default(), Box::new(i & 1)), "c".repeat(20))
            });
            drop(v);
        });
        FUSE.with(|f| f.set(u64::MAX));
    }
}

macro_rules! shaped {
    ($($(#[$a:meta])* $name:ident($t:ty) = $top:expr, $bottom:expr;)*) => { $(
        #[derive(Debug)]
        #[allow(dead_code)]
        $(#[$a])*
        struct $name($t);
        impl cfg_expr::expr::Logic for $name {
            fn top() -> Self {
                $name($top)
            }
            fn bottom() -> Self {
                $name($bottom)
            }
            fn and(self, o: Self) -> Self {
                drop(o);
                self
            }
            fn or(self, o: Self) -> Self {
                drop(self);
                o
            }
            fn not(self) -> Self {
                self
            }
        }
    )* };
}
// Sizes and alignments that storage of one's own may get wrong
shaped! {
    Nothing(()) = (), ();
    #[repr(align(128))]
    Aligned(u8) = 1, 0;
    Large([u64; 70]) = [1; 70], [0; 70];
    Owner(Vec<Box<str>>) = vec!["t".into()], vec![];
    Three([u8; 3]) = [1; 3], [0; 3];
}

fn shapes_of(e: &Expression) {
    std::hint::black_box(e.eval(|_| Nothing(())));
    let a = e.eval(|_| Aligned(2));
    assert!(std::ptr::from_ref(&a) as usize % 128 == 0);
    std::hint::black_box(e.eval(|p| Large([id_of(p); 70])).0[69]);
    std::hint::black_box(e.eval(|p| Owner(vec![format!("{p:?}").into()])));
    std::hint::black_box(e.eval(|_| Three([7; 3])).0[2]);
}

/// Everything the library does with a text, with heap values, panicking
/// closures, clones and drops in several orders
pub fn mem_ops(text: &str, seed: u64) {
    let _ = trace_of(text, seed);
    let _ = contain(|| {
        let e = match Expression::parse(text) {
            Ok(e) => e,
            Err(e) => {
                let c = Expression::parse(text).unwrap_err();
                let _ = (e.to_string(), c == e, format!("{c:?}"));
                return;
            }
        };
        let n = e.predicates().count() as u64;
        let v = e.eval(|p| Probe(Default::default(), Box::new(mix(id_of(p)) & 1)));
        drop(v);
        // A closure that panics at some call
        for k in [0, n / 2, n.saturating_sub(1)] {
            let mut i = 0;
            let _ = contain(|| {
                e.eval(|_| {
                    i += 1;
                    assert!(i <= k, "bomb");
                    Probe(Default::default(), Box::new(0))
                })
            });
        }
        shapes_of(&e);
        bombs(&e, [0, 1, 2, 3, 4, 5, 6, 7, n / 2, n, n + 1].into_iter());
        let c = e.clone();
        let it = e.predicates();
        let mut it2 = e.predicates();
        it2.next();
        drop(it);
        drop(it2);
        let f = Expression::parse(e.original());
        let _ = (c == e, f.as_ref() == Ok(&c), format!("{e:?}"));
        drop(e);
        let _ = c.eval(|_| {
            let x = Expression::parse(text).unwrap();
            x.predicates().count() % 2 == 0
        });
        std::thread::scope(|s| {
            s.spawn(|| drop(f));
        });
        let _ = c.predicates().last().map(|p| format!("{p:?}"));
    });
    // An abandoned lexer
    let mut l = cfg_expr::expr::lexer::Lexer::new(text);
    let _ = contain(|| (l.next().is_some(), l.next().is_some()));
}

/// Every string handed out is UTF-8: one cut by unchecked means may break
/// this without any checker noticing
fn sound(text: &str) {
    let check = |s: &str| {
        if std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_err() {
            println!("UNSOUND a string that is not UTF-8: {:?}", s.as_bytes());
            std::process::exit(88);
        }
    };
    let _ = contain(|| {
        use cfg_expr::expr::lexer::Token;
        for t in cfg_expr::expr::lexer::Lexer::new(text).take(text.len() + 2).flatten() {
            if let Token::Key(s) | Token::Value(s) = t.token {
                check(s);
            }
        }
    });
    let _ = contain(|| match Expression::parse(text) {
        Ok(e) => {
            let o = e.original();
            check(o);
            for p in e.predicates() {
                match p {
                    Predicate::Flag(f) | Predicate::Feature(f) | Predicate::TargetFeature(f) => check(f),
                    Predicate::KeyValue { key, val } => {
                        check(key);
                        check(val);
                    }
                    _ => {}
                }
            }
        }
        Err(e) => check(&e.original),
    });
}

/// The same for an interpreter a thousand times slower
pub fn mem_lite(text: &str, seed: u64) {
    let mut h = 0u64;
    let _ = contain(|| {
        for t in cfg_expr::expr::lexer::Lexer::new(text).take(text.len() + 2) {
            h ^= match t {
                Ok(t) => t.span.end as u64,
                Err(e) => e.span.start as u64,
            };
        }
    });
    let _ = contain(|| {
        let e = match Expression::parse(text) {
            Ok(e) => e,
            Err(e) => {
                h ^= e.to_string().len() as u64;
                return;
            }
        };
        let t = &ALL_BUILTINS[(seed % ALL_BUILTINS.len() as u64) as usize];
        let mut i = 0u64;
        let v = e.eval(|p| {
            i += 1;
            Probe(Default::default(), Box::new(match p {
                Predicate::Target(tp) => u64::from(tp.matches(t)),
                Predicate::Flag(f) => f.len() as u64 & 1,
                Predicate::KeyValue { key, val } => (key.len() + val.len()) as u64 & 1,
                Predicate::Feature(f) | Predicate::TargetFeature(f) => u64::from(f.starts_with('s')),
                _ => seed >> (i % 60) & 1,
            }))
        });
        drop(v);
        let k = seed % (i + 1);
        let mut j = 0;
        let _ = contain(|| {
            e.eval(|_| {
                assert!(j < k, "bomb");
                j += 1;
                Probe(Default::default(), Box::new(1))
            })
        });
        bombs(&e, [seed >> 8 & 7, 0].into_iter());
        match seed >> 12 & 7 {
            0 => drop(e.eval(|_| Nothing(()))),
            1 => drop(e.eval(|_| Aligned(2))),
            2 => drop(e.eval(|_| Large([3; 70]))),
            3 => drop(e.eval(|_| Owner(vec!["x".into()]))),
            4 => drop(e.eval(|_| Three([7; 3]))),
            _ => {}
        }
        let c = e.clone();
        let b = c == e;
        drop(e);
        let f = Expression::parse(c.original());
        h ^= u64::from(b) + c.predicates().count() as u64 + f.is_ok_and(|f| f == c) as u64;
    });
    std::hint::black_box(h);
}

pub fn mem_targets(d: &Dict, voc: &[String], seed: u64, n: usize) {
    for i in 0..n {
        let _ = target_trace(d, voc, seed, i + ALL_BUILTINS.len());
    }
}

/// Texts `part` of `parts`
pub fn mem(texts: &[String], d: &Dict, seed: u64, part: usize, parts: usize, ntargets: usize, lite: bool, millis: u64) {
    let t0 = std::time::Instant::now();
    let (mut n, mut bytes, mut most, mut ok) = (0, 0, 0, 0);
    let mut h = Vec::new();
    let voc: Vec<String> = crate::targets::VOC_SMALL.iter().map(|s| s.to_string()).collect();
    mem_targets(d, &voc, seed ^ part as u64, ntargets);
    #[cfg(feature = "lexicon")]
    crate::lexicon::mem(part, parts * if lite { 6 } else { 1 });
    for (i, t) in texts.iter().enumerate().skip(part).step_by(parts) {
        // The driver reads the last of these when a checker stops us
        eprintln!("@{i}");
        if t0.elapsed().as_millis() as u64 > millis {
            break;
        }
        if lite {
            mem_lite(t, mix(seed ^ n as u64));
        } else {
            mem_ops(t, seed);
        }
        sound(t);
        n += 1;
        bytes += t.len();
        most = most.max(t.len());
        ok += u32::from(Expression::parse(t).is_ok());
        h.push(hash_bytes(t.as_bytes()));
    }
    h.sort_unstable();
    h.dedup();
    println!("mem texts={n} distinct={} accepted={ok} bytes={bytes} longest={most} targets={ntargets}", h.len());
}

pub fn c20_replay(texts: &[String], d: &Dict, o: &Opts, i: usize) {
    match texts.get(i) {
        Some(t) => println!("text {}\n{}", esc(t), trace_of(t, o.seed)),
        None => println!("made-up target {}\n{}", i - texts.len(), target_trace(d, &crate::targets::vocabulary(), o.seed, i - texts.len())),
    }
}

