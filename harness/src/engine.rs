//! Drives a monitor over the workload streams on several threads, records
//! what was observed, contains panics, watches for hangs.
use crate::gen::{self, Dict};
use crate::model;
use crate::rng::{hash_bytes, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Opts {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    /// Write every input to a slot file before it is used
    pub trace: Option<String>,
    pub replay_dir: String,
    pub out: String,
    /// Scale of the random streams, per cent
    pub scale: u64,
    pub label: String,
    pub deadline: Instant,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| *q.borrow()) {
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
        } else {
            old(i);
        }
    }));
}

/// Run code of the library; a panic becomes `Err(message)`
pub fn contain<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

#[derive(Default)]
pub struct Slot {
    ptr: AtomicPtr<u8>,
    len: AtomicUsize,
    serial: AtomicU64,
    busy: AtomicBool,
    tid: AtomicU64,
}

pub struct Ctx<'a> {
    pub d: &'a Dict,
    pub o: &'a Opts,
    pub r: Rng,
    pub evaluations: u64,
    pub seen: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    nontrivial: bool,
    slot: Option<&'a Slot>,
    trace: Option<std::fs::File>,
    cur_len: usize,
}

impl<'a> Ctx<'a> {
    pub fn new(d: &'a Dict, o: &'a Opts, slot: Option<&'a Slot>) -> Self {
        Ctx {
            d,
            o,
            r: Rng::new(0),
            evaluations: 0,
            seen: HashSet::new(),
            counters: BTreeMap::new(),
            maxima: BTreeMap::new(),
            samples: Vec::new(),
            nontrivial: false,
            slot,
            trace: None,
            cur_len: 0,
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_default() += n;
    }
    pub fn max(&mut self, k: &'static str, n: usize) {
        let e = self.maxima.entry(k).or_default();
        *e = (*e).max(n as u64);
    }
    /// The current case exercises the property (not merely passed through)
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn big(&self) -> bool {
        self.cur_len > 20_000
    }
    pub fn sut<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
        contain(f).map_err(|p| format!("{what} panicked: {p}"))
    }
    /// One case. Everything random inside depends on seed and text only, so
    /// that a replay repeats it.
    pub fn case(&mut self, text: &str, mon: Mon) -> Result<(), String> {
        let h = hash_bytes(text.as_bytes());
        self.r = Rng::new(mix(h ^ self.o.seed));
        self.nontrivial = false;
        self.cur_len = text.len();
        if let Some(f) = &mut self.trace {
            use std::io::{Seek, Write};
            let _ = f.rewind();
            let _ = f.set_len(0);
            let _ = f.write_all(text.as_bytes());
        }
        if let Some(s) = self.slot {
            s.ptr.store(text.as_ptr() as *mut u8, Relaxed);
            s.len.store(text.len(), Relaxed);
            s.serial.fetch_add(1, Relaxed);
            s.busy.store(true, Release);
        }
        let r = match contain(|| mon(self, text)) {
            Ok(r) => r,
            // A panic outside `sut` is still the library's or ours: say so
            Err(p) => Err(format!("panic: {p}")),
        };
        if let Some(s) = self.slot {
            s.busy.store(false, Release);
        }
        self.evaluations += 1;
        if self.nontrivial {
            let fresh = self.seen.insert(h);
            if fresh && self.samples.len() < 6 && text.len() < 300 && self.seen.len() % 97 == 1 {
                self.samples.push(text.to_owned());
            }
        }
        r
    }
}

pub type Mon = fn(&mut Ctx<'_>, &str) -> Result<(), String>;

#[derive(Clone, Default)]
pub struct Plan {
    /// Random texts of every kind
    pub random: u64,
    /// Random valid expressions
    pub valid: u64,
    /// All token sequences up to this length
    pub tokens: usize,
    /// All token sequences of viable prefixes up to this length, plus one token
    pub viable: usize,
    /// Every Unicode scalar in several positions
    pub chars: bool,
    /// Extreme sizes up to this many operands or levels
    pub extreme: usize,
    /// The giant texts, of so many operands or levels
    pub giant: usize,
    /// Hostile shapes at these sizes
    pub hostile: Vec<usize>,
    pub fixed: Vec<String>,
    /// Every how many of the systematic texts; 0 for none
    pub sys: usize,
}

const ALPHA: usize = 9;
fn tok_str(k: usize, pos: usize) -> String {
    match k {
        0 => ((b'b' + (pos % 20) as u8) as char).to_string(),
        1 => format!("\"{pos}\""),
        2 => "=".into(),
        3 => "all".into(),
        4 => "any".into(),
        5 => "not".into(),
        6 => "(".into(),
        7 => ")".into(),
        _ => ",".into(),
    }
}
fn seq_text(seq: &[u8]) -> String {
    let mut s = String::new();
    let mut pw = false;
    for (i, k) in seq.iter().enumerate() {
        let word = matches!(k, 0 | 3 | 4 | 5);
        if pw && word {
            s.push(' ');
        }
        s.push_str(&tok_str(*k as usize, i));
        pw = word;
    }
    s
}

/// Token sequences that some continuation could still complete, by the model
fn viable(max: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for i in from..to {
            for k in 0..ALPHA as u8 {
                let mut s = out[i].clone();
                s.push(k);
                let t = seq_text(&s);
                let a = model::analyse(&t);
                let dead = match &a.result {
                    Ok(_) => false,
                    Err(f) => f.iter().any(|f| {
                        matches!(
                            f.kind,
                            model::FaultKind::Misplaced
                                | model::FaultKind::Unopened
                                | model::FaultKind::MultiRoot
                                | model::FaultKind::NotArity(_)
                        )
                    }),
                };
                if !dead {
                    out.push(s);
                }
            }
        }
        from = to;
    }
    out
}

pub const CHAR_TEMPLATES: usize = 6;
pub fn char_text(c: char, t: usize) -> String {
    match t {
        0 => format!("{c}"),
        1 => format!("a{c}"),
        2 => format!("k=\"{c}{c}x\""),
        3 => format!("all({c}unix,b)"),
        4 => format!("any(a{c}b,k=\"v\")"),
        _ => format!("{c}cfg(not({c}a))"),
    }
}

enum Task {
    Random(u64, u64),
    Valid(u64, u64),
    Tokens(u64, u64, usize),
    Viable(usize, usize),
    Chars(u32, u32),
    Extreme(usize),
    Giant(usize),
    Length(usize),
    Hostile(usize),
    Fixed(usize, usize),
}

pub struct Stats {
    pub evaluations: u64,
    pub distinct: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub cut_short: bool,
    pub violation: Option<(String, String)>,
}

/// CPU time in hundredths, and whether the thread sleeps
fn thread_cpu(tid: u64) -> Option<(u64, bool)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some((f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?, f[0] == "S"))
}

/// What one thread was seen doing by the watchdog
#[derive(Clone, Copy, Default)]
struct Seen {
    serial: u64,
    cpu: u64,
    /// CPU time when it was first seen asleep, and since when
    asleep: Option<(u64, Instant)>,
}

impl Seen {
    /// Whether the case `serial` of the thread has run or slept for too long.
    /// The cases do not wait for anything themselves.
    fn stuck(&mut self, serial: u64, tid: u64, cpu_limit: u64) -> Option<String> {
        let (cpu, asleep) = thread_cpu(tid)?;
        if self.serial != serial {
            *self = Seen { serial, cpu, asleep: None };
        }
        match self.asleep {
            Some((c, since)) if asleep && c == cpu => {
                if since.elapsed() > Duration::from_secs(BLOCKED_S) {
                    return Some(format!("asleep for {BLOCKED_S} s, waiting for something that does not happen"));
                }
            }
            _ => self.asleep = asleep.then(|| (cpu, Instant::now())),
        }
        (cpu - self.cpu > cpu_limit * 100).then(|| format!("still running after {cpu_limit} s of CPU time"))
    }
}

pub fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().map(str::to_owned)))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

/// CPU seconds one case may take before it counts as endless. Ordinary cases
/// take microseconds, the largest well below a second.
const HANG_CPU_S: u64 = 40;
/// Seconds a case may sleep without using any CPU time
const BLOCKED_S: u64 = 60;

pub fn drive(o: &Opts, d: &Dict, plan: &Plan, mon: Mon) -> Stats {
    let mut tasks: Vec<Task> = Vec::new();
    let chunk = 2000;
    let sc = |n: u64| n * o.scale / 100;
    let mut fixed = plan.fixed.clone();
    if plan.sys > 0 {
        fixed.extend(gen::systematic(d).into_iter().skip(o.seed as usize % plan.sys).step_by(plan.sys));
        fixed.extend(gen::stacks());
    }
    let fixed = &fixed;
    if !fixed.is_empty() {
        let n = fixed.len();
        for i in (0..n).step_by(500) {
            tasks.push(Task::Fixed(i, (i + 500).min(n)));
        }
    }
    let ext: Vec<usize> =
        (0..).take_while(|i| plan.extreme > 0 && gen::extreme(d, o.seed, *i, plan.extreme).is_some_and(|_| true)).collect();
    // Largest first, so that the tail of the run is short
    for i in ext.into_iter().rev() {
        tasks.push(Task::Extreme(i));
    }
    if plan.sys > 0 {
        let max = if o.thorough { 4200 } else { 1100 } * o.scale.min(100) as usize / 100;
        for n in (0..=max).rev() {
            tasks.push(Task::Length(n));
        }
    }
    if plan.giant > 0 {
        for i in (0..).take_while(|i| gen::giant(1, *i).is_some()) {
            tasks.push(Task::Giant(i));
        }
    }
    let hostile: Vec<(&'static str, String)> =
        plan.hostile.iter().flat_map(|n| gen::hostile(*n)).collect();
    for i in 0..hostile.len() {
        tasks.push(Task::Hostile(i));
    }
    let mut i = 0;
    while i < sc(plan.valid) {
        tasks.push(Task::Valid(i / chunk, chunk.min(sc(plan.valid) - i)));
        i += chunk;
    }
    i = 0;
    while i < sc(plan.random) {
        tasks.push(Task::Random(i / chunk, chunk.min(sc(plan.random) - i)));
        i += chunk;
    }
    let vp = if plan.viable > 0 { viable(plan.viable) } else { vec![] };
    for i in (0..vp.len()).step_by(500) {
        tasks.push(Task::Viable(i, (i + 500).min(vp.len())));
    }
    for len in 0..=plan.tokens {
        let n = (ALPHA as u64).pow(len as u32);
        let mut i = 0;
        while plan.tokens > 0 && i < n {
            tasks.push(Task::Tokens(i, (i + 10_000).min(n), len));
            i += 10_000;
        }
    }
    if plan.chars {
        let mut c = 0u32;
        while c <= 0x10ffff {
            tasks.push(Task::Chars(c, c + 2048));
            c += 2048;
        }
    }

    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let cut = AtomicBool::new(false);
    let done = AtomicUsize::new(0);
    let found: Mutex<Option<(String, String)>> = Mutex::new(None);
    let total: Mutex<Stats> = Mutex::new(Stats {
        evaluations: 0,
        distinct: 0,
        counters: BTreeMap::new(),
        maxima: BTreeMap::new(),
        samples: vec![],
        cut_short: false,
        violation: None,
    });
    let all_seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let slots: Vec<Slot> = (0..o.threads).map(|_| Slot::default()).collect();
    std::thread::scope(|s| {
        for (ti, slot) in slots.iter().enumerate() {
            let (tasks, next, stop, cut, found, total, all_seen, done, vp, hostile) =
                (&tasks, &next, &stop, &cut, &found, &total, &all_seen, &done, &vp, &hostile);
            // The default stack of a Rust thread: what callers have
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(s, move || {
                    slot.tid.store(my_tid(), Relaxed);
                    let mut cx = Ctx::new(d, o, Some(slot));
                    if let Some(t) = &o.trace {
                        cx.trace = std::fs::File::create(format!("{t}.{ti}")).ok();
                    }
                    let report = |text: &str, msg: String| {
                        let mut f = found.lock().unwrap();
                        if f.is_none() {
                            *f = Some((text.to_owned(), msg));
                        }
                        stop.store(true, Relaxed);
                    };
                    loop {
                        if stop.load(Relaxed) {
                            break;
                        }
                        if Instant::now() > o.deadline {
                            cut.store(true, Relaxed);
                            break;
                        }
                        let i = next.fetch_add(1, Relaxed);
                        let Some(t) = tasks.get(i) else { break };
                        let mut one = |text: &str| -> bool {
                            if let Err(m) = cx.case(text, mon) {
                                report(text, m);
                                return false;
                            }
                            !stop.load(Relaxed)
                        };
                        match t {
                            Task::Random(c, n) | Task::Valid(c, n) => {
                                let v = matches!(t, Task::Valid(..));
                                let mut r = Rng::new(mix(o.seed ^ mix(*c) ^ if v { 77 } else { 5 }));
                                for _ in 0..*n {
                                    let s = if v {
                                        let t = gen::valid(&mut r, d);
                                        gen::text(&mut r, &t)
                                    } else {
                                        gen::any_text(&mut r, d)
                                    };
                                    if !one(&s) {
                                        break;
                                    }
                                }
                            }
                            Task::Tokens(a, b, len) => {
                                let mut seq = vec![0u8; *len];
                                for n in *a..*b {
                                    let mut x = n;
                                    for q in seq.iter_mut() {
                                        *q = (x % ALPHA as u64) as u8;
                                        x /= ALPHA as u64;
                                    }
                                    if !one(&seq_text(&seq)) {
                                        break;
                                    }
                                }
                            }
                            Task::Viable(a, b) => {
                                'o: for p in &vp[*a..*b] {
                                    if !one(&seq_text(p)) {
                                        break;
                                    }
                                    for k in 0..ALPHA as u8 {
                                        let mut q = p.clone();
                                        q.push(k);
                                        if !one(&seq_text(&q)) {
                                            break 'o;
                                        }
                                    }
                                }
                            }
                            Task::Chars(a, b) => {
                                'c: for u in *a..*b {
                                    if let Some(c) = char::from_u32(u) {
                                        for t in 0..CHAR_TEMPLATES {
                                            if !one(&char_text(c, t)) {
                                                break 'c;
                                            }
                                        }
                                    }
                                }
                            }
                            Task::Extreme(i) => {
                                if let Some(s) = gen::extreme(d, o.seed, *i, plan.extreme) {
                                    one(&s);
                                }
                            }
                            Task::Length(n) => {
                                for k in 0.. {
                                    let Some(s) = gen::length(*n, k) else { break };
                                    if !one(&s) {
                                        break;
                                    }
                                }
                            }
                            Task::Giant(i) => {
                                if let Some(s) = gen::giant(plan.giant, *i) {
                                    one(&s);
                                }
                            }
                            Task::Hostile(i) => {
                                one(&hostile[*i].1);
                            }
                            Task::Fixed(a, b) => {
                                for s in &fixed[*a..*b] {
                                    if !one(s) {
                                        break;
                                    }
                                }
                            }
                        }
                    }
                    let mut t = total.lock().unwrap();
                    t.evaluations += cx.evaluations;
                    for (k, v) in cx.counters {
                        *t.counters.entry(k).or_default() += v;
                    }
                    for (k, v) in cx.maxima {
                        let e = t.maxima.entry(k).or_default();
                        *e = (*e).max(v);
                    }
                    if t.samples.len() < 8 {
                        t.samples.extend(cx.samples.into_iter().take(2));
                    }
                    drop(t);
                    all_seen.lock().unwrap().extend(cx.seen);
                    done.fetch_add(1, Relaxed);
                })
                .unwrap();
        }
        // Watchdog, by CPU time of the thread in one and the same case
        let mut seen = vec![Seen::default(); slots.len()];
        while done.load(Relaxed) < slots.len() {
            std::thread::sleep(Duration::from_millis(if done.load(Relaxed) > 0 { 20 } else { 100 }));
            for (i, sl) in slots.iter().enumerate() {
                if !sl.busy.load(Acquire) {
                    continue;
                }
                let n = sl.serial.load(Relaxed);
                if let Some(msg) = seen[i].stuck(n, sl.tid.load(Relaxed), HANG_CPU_S) {
                    // The thread is stuck inside this case, so its text is alive
                    let text = unsafe {
                        std::slice::from_raw_parts(sl.ptr.load(Relaxed), sl.len.load(Relaxed)).to_vec()
                    };
                    let text = String::from_utf8_lossy(&text).into_owned();
                    let p = write_replay(o, &text, &msg);
                    println!("VIOLATION property={} replay={p}", o.prop);
                    std::process::exit(1);
                }
            }
        }
    });
    let mut st = total.into_inner().unwrap();
    st.distinct = all_seen.into_inner().unwrap().len() as u64;
    st.cut_short = cut.load(Relaxed);
    st.violation = found.into_inner().unwrap();
    if let Some((text, _)) = &st.violation {
        // Smallest text that still violates, within a budget; a shorter text
        // may never return
        let over = std::sync::Arc::new(AtomicBool::new(false));
        let (o2, over2, v) = (o.clone(), over.clone(), st.violation.clone());
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(60));
            if let (false, Some((text, msg))) = (over2.load(SeqCst), v) {
                let p = write_replay(&o2, &text, &msg);
                println!("VIOLATION property={} replay={p}", o2.prop);
                std::process::exit(1);
            }
        });
        if let Some((t, m)) = shrink(o, d, mon, text) {
            st.violation = Some((t, m));
        }
        over.store(true, SeqCst);
    }
    st
}

fn shrink(o: &Opts, d: &Dict, mon: Mon, text: &str) -> Option<(String, String)> {
    let mut cx = Ctx::new(d, o, None);
    let mut best = text.to_owned();
    let mut msg = cx.case(text, mon).err()?;
    let end = Instant::now() + Duration::from_secs(10);
    let mut size = best.chars().count() / 2;
    while size > 0 && Instant::now() < end {
        let c: Vec<char> = best.chars().collect();
        let mut i = 0;
        let mut cut = false;
        while i + size <= c.len() && Instant::now() < end {
            let t: String = c[..i].iter().chain(&c[i + size..]).collect();
            if let Err(m) = cx.case(&t, mon) {
                best = t;
                msg = m;
                cut = true;
                break;
            }
            i += size.max(1);
        }
        if !cut {
            size /= 2;
        } else {
            size = size.min(best.chars().count() / 2).max(usize::from(!best.is_empty()));
        }
    }
    Some((best, msg))
}

pub fn write_replay(o: &Opts, text: &str, msg: &str) -> String {
    let _ = std::fs::create_dir_all(&o.replay_dir);
    let base = format!("{}/{}-{}-{}", o.replay_dir, o.prop, o.label, o.seed);
    let _ = std::fs::write(format!("{base}.input"), text);
    let p = format!("{base}.txt");
    let _ = std::fs::write(
        &p,
        format!(
            "property {}\nseed {}\nbuild {}\nviolation: {msg}\ninput ({} bytes) in {base}.input:\n{:?}\nreplay: vh replay {} {base}.input --seed {}\n",
            o.prop,
            o.seed,
            o.label,
            text.len(),
            text.chars().take(2000).collect::<String>(),
            o.prop,
            o.seed
        ),
    );
    eprintln!("{}: {msg}\n  input: {:?}", o.prop, text.chars().take(400).collect::<String>());
    p
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// JSON fragment the driver merges into the evidence file
pub fn write_out(o: &Opts, st: &Stats, rule: &str) {
    let m = |b: &BTreeMap<&'static str, u64>| {
        b.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", ")
    };
    let s = format!(
        "{{\"label\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"observed\": {{{}}}, \"maxima\": {{{}}}, \"cut_short\": {}}}\n",
        esc(&o.label),
        st.evaluations,
        st.distinct,
        esc(rule),
        st.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        m(&st.counters),
        m(&st.maxima),
        st.cut_short
    );
    std::fs::write(&o.out, s).expect("write out");
}

// ------------------------------------------------- cases that are not texts

/// What one thread of `par` records
pub struct Rec {
    pub r: Rng,
    pub evaluations: u64,
    pub seen: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    /// What is being done, should it panic
    pub doing: String,
}

impl Rec {
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_default() += n;
    }
    /// One evaluated case; `h` identifies it
    pub fn case(&mut self, h: u64) {
        self.evaluations += 1;
        if self.seen.len() < 4_000_000 {
            self.seen.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            self.samples.push(f());
        }
    }
}

/// Runs tasks 0..n on all threads; a task's randomness depends on the seed
/// and its number only. An error is (case, message).
pub fn par(o: &Opts, n: usize, f: impl Fn(usize, &mut Rec) -> Result<(), (String, String)> + Sync) -> Stats {
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let cut = AtomicBool::new(false);
    let found: Mutex<Option<(usize, String, String)>> = Mutex::new(None);
    let total: Mutex<Vec<Rec>> = Mutex::new(vec![]);
    // Thread and task, both from 1
    let slots: Vec<(AtomicU64, AtomicU64)> = (0..o.threads).map(|_| Default::default()).collect();
    let done = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for sl in &slots {
            let (next, stop, cut, found, total, done, f) = (&next, &stop, &cut, &found, &total, &done, &f);
            s.spawn(move || {
                sl.0.store(my_tid(), Relaxed);
                let mut c = Rec {
                    r: Rng::new(0),
                    evaluations: 0,
                    seen: HashSet::new(),
                    counters: BTreeMap::new(),
                    maxima: BTreeMap::new(),
                    samples: vec![],
                    doing: String::new(),
                };
                loop {
                    if stop.load(Relaxed) {
                        break;
                    }
                    if Instant::now() > o.deadline {
                        cut.store(true, Relaxed);
                        break;
                    }
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n {
                        break;
                    }
                    c.r = Rng::new(mix(o.seed ^ mix(i as u64)));
                    c.doing.clear();
                    sl.1.store(i as u64 + 1, Release);
                    let r = contain(|| f(i, &mut c));
                    sl.1.store(0, Release);
                    let r = match r {
                        Ok(r) => r,
                        Err(p) => Err((c.doing.clone(), format!("panic: {p}"))),
                    };
                    if let Err((case, m)) = r {
                        let mut fd = found.lock().unwrap();
                        if fd.as_ref().map_or(true, |x| x.0 > i) {
                            *fd = Some((i, case, m));
                        }
                        stop.store(true, Relaxed);
                    }
                }
                total.lock().unwrap().push(c);
                done.fetch_add(1, Relaxed);
            });
        }
        let mut seen = vec![Seen::default(); slots.len()];
        while done.load(Relaxed) < slots.len() {
            std::thread::sleep(Duration::from_millis(20));
            for (i, sl) in slots.iter().enumerate() {
                let n = sl.1.load(Acquire);
                if n == 0 {
                    continue;
                }
                if let Some(msg) = seen[i].stuck(n, sl.0.load(Relaxed), 2 * HANG_CPU_S) {
                    let p = write_replay(o, &format!("task {} of this run", n - 1), &msg);
                    println!("VIOLATION property={} replay={p}", o.prop);
                    std::process::exit(1);
                }
            }
        }
    });
    let mut st = Stats {
        evaluations: 0,
        distinct: 0,
        counters: BTreeMap::new(),
        maxima: BTreeMap::new(),
        samples: vec![],
        cut_short: cut.load(Relaxed),
        violation: found.into_inner().unwrap().map(|(_, c, m)| (c, m)),
    };
    let mut all = HashSet::new();
    for c in total.into_inner().unwrap() {
        st.evaluations += c.evaluations;
        for (k, v) in c.counters {
            *st.counters.entry(k).or_default() += v;
        }
        for (k, v) in c.maxima {
            let e = st.maxima.entry(k).or_default();
            *e = (*e).max(v);
        }
        if st.samples.len() < 8 {
            st.samples.extend(c.samples.into_iter().take(2));
        }
        all.extend(c.seen);
    }
    st.distinct = all.len() as u64;
    st
}
