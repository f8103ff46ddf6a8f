//! Monitors over target descriptions: matching, lookup, the value types.
use crate::engine::{par, Opts, Rec, Stats};
use crate::gen::{self, Dict};
use crate::model::{self, Pred};
use crate::rng::{hash_bytes, mix, Rng};
use cfg_expr::expr::TargetPredicate as TP;
use cfg_expr::targets::*;
use cfg_expr::{Expression, Predicate};
use std::collections::{hash_map::DefaultHasher, BTreeSet};
use std::hash::{Hash, Hasher};

type R = Result<(), (String, String)>;

fn fail<T>(case: impl Into<String>, msg: impl Into<String>) -> Result<T, (String, String)> {
    Err((case.into(), msg.into()))
}

/// A target as plain data, read field by field
#[derive(Clone, PartialEq, Debug)]
pub struct Facts {
    pub triple: String,
    pub os: Option<String>,
    pub abi: Option<String>,
    pub arch: String,
    pub env: Option<String>,
    pub vendor: Option<String>,
    pub families: Vec<String>,
    pub width: u8,
    pub big: bool,
    /// None: pointers
    pub atomics: Vec<Option<u16>>,
    pub panic: String,
}

pub fn facts(t: &TargetInfo) -> Facts {
    Facts {
        triple: t.triple.0.to_string(),
        os: t.os.as_ref().map(|x| x.0.to_string()),
        abi: t.abi.as_ref().map(|x| x.0.to_string()),
        arch: t.arch.0.to_string(),
        env: t.env.as_ref().map(|x| x.0.to_string()),
        vendor: t.vendor.as_ref().map(|x| x.0.to_string()),
        families: t.families.iter().map(|f| f.0.to_string()).collect(),
        width: t.pointer_width,
        big: match t.endian {
            Endian::big => true,
            Endian::little => false,
        },
        atomics: t.has_atomics.iter().map(atomic_of).collect(),
        panic: t.panic.0.to_string(),
    }
}

pub fn json(f: &Facts) -> String {
    use crate::engine::esc;
    let o = |x: &Option<String>| x.as_ref().map_or("null".into(), |s| esc(s));
    let l = |v: Vec<String>| format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    format!(
        "{{\"triple\":{},\"os\":{},\"abi\":{},\"arch\":{},\"env\":{},\"vendor\":{},\"families\":{},\"pointer_width\":{},\"endian\":\"{}\",\"has_atomics\":{},\"panic\":{}}}",
        esc(&f.triple),
        o(&f.os),
        o(&f.abi),
        esc(&f.arch),
        o(&f.env),
        o(&f.vendor),
        l(f.families.clone()),
        f.width,
        if f.big { "big" } else { "little" },
        l(f.atomics.iter().map(|a| a.map_or("ptr".into(), |n| n.to_string())).collect()),
        esc(&f.panic)
    )
}

fn atomic_of(a: &HasAtomic) -> Option<u16> {
    match a {
        HasAtomic::IntegerSize(n) => Some(*n),
        HasAtomic::Pointer => None,
        other => panic!("harness error: unknown atomic {other:?}"),
    }
}

fn atomic_from(a: Option<u16>) -> HasAtomic {
    a.map_or(HasAtomic::Pointer, HasAtomic::IntegerSize)
}

/// The rule of matching, over plain data
pub fn want(f: &Facts, p: &Pred) -> Option<bool> {
    let opt = |o: &Option<String>, dflt: &str, v: &String| match o {
        Some(x) => x == v,
        None => v == dflt,
    };
    Some(match p {
        Pred::Abi(v) => opt(&f.abi, "", v),
        Pred::Env(v) => opt(&f.env, "", v),
        Pred::Os(v) => opt(&f.os, "none", v),
        Pred::Vendor(v) => opt(&f.vendor, "unknown", v),
        Pred::Arch(v) => f.arch == *v,
        Pred::Family(v) => f.families.contains(v),
        Pred::Panic(v) => f.panic == *v,
        Pred::EndianBig => f.big,
        Pred::EndianLittle => !f.big,
        Pred::AtomicPtr => f.atomics.contains(&None),
        Pred::AtomicInt(n) => f.atomics.contains(&Some(*n)),
        Pred::PointerWidth(n) => f.width == *n,
        _ => return None,
    })
}

/// The library's predicate, with owned or leaked text
fn build(p: &Pred, borrowed: bool) -> Option<TP> {
    macro_rules! f {
        ($t:ident, $v:expr) => {
            TP::$t(if borrowed { $t::new_const(leak($v)) } else { $t::new($v.clone()) })
        };
    }
    Some(match p {
        Pred::Abi(v) => f!(Abi, v),
        Pred::Env(v) => f!(Env, v),
        Pred::Os(v) => f!(Os, v),
        Pred::Vendor(v) => f!(Vendor, v),
        Pred::Arch(v) => f!(Arch, v),
        Pred::Family(v) => f!(Family, v),
        Pred::Panic(v) => f!(Panic, v),
        Pred::EndianBig => TP::Endian(Endian::big),
        Pred::EndianLittle => TP::Endian(Endian::little),
        Pred::AtomicPtr => TP::HasAtomic(HasAtomic::Pointer),
        Pred::AtomicInt(n) => TP::HasAtomic(HasAtomic::IntegerSize(*n)),
        Pred::PointerWidth(n) => TP::PointerWidth(*n),
        _ => return None,
    })
}

fn written(p: &Pred) -> Option<String> {
    let (k, v) = match p {
        Pred::Abi(v) => ("target_abi", v.clone()),
        Pred::Env(v) => ("target_env", v.clone()),
        Pred::Os(v) => ("target_os", v.clone()),
        Pred::Vendor(v) => ("target_vendor", v.clone()),
        Pred::Arch(v) => ("target_arch", v.clone()),
        Pred::Family(v) => ("target_family", v.clone()),
        Pred::Panic(v) => ("panic", v.clone()),
        Pred::EndianBig => ("target_endian", "big".into()),
        Pred::EndianLittle => ("target_endian", "little".into()),
        Pred::AtomicPtr => ("target_has_atomic", "ptr".into()),
        Pred::AtomicInt(n) => ("target_has_atomic", n.to_string()),
        Pred::PointerWidth(n) => ("target_pointer_width", n.to_string()),
        _ => return None,
    };
    (!v.contains('"')).then(|| format!("{k} = \"{v}\""))
}

fn leak(s: &str) -> &'static str {
    use std::collections::HashSet;
    use std::sync::{Mutex, OnceLock};
    static POOL: OnceLock<Mutex<HashSet<&'static str>>> = OnceLock::new();
    let mut p = POOL.get_or_init(Default::default).lock().unwrap();
    if let Some(x) = p.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_owned().into_boxed_str());
    p.insert(l);
    l
}

/// A static slice; reachable for ever, so that no leak checker minds
fn keep<T: Send + Sync>(v: Vec<T>) -> &'static [T] {
    struct P(#[allow(dead_code)] *const u8);
    unsafe impl Send for P {}
    static POOL: std::sync::Mutex<Vec<P>> = std::sync::Mutex::new(Vec::new());
    let l: &'static [T] = Box::leak(v.into_boxed_slice());
    POOL.lock().unwrap().push(P(l.as_ptr().cast()));
    l
}

const KINDS: usize = 7;
fn string_pred(k: usize, v: &str) -> Pred {
    let v = v.to_owned();
    match k {
        0 => Pred::Abi(v),
        1 => Pred::Arch(v),
        2 => Pred::Os(v),
        3 => Pred::Family(v),
        4 => Pred::Env(v),
        5 => Pred::Vendor(v),
        _ => Pred::Panic(v),
    }
}

/// What predicates of every kind with `v` say of `t`, one bit each
pub fn answers(t: &TargetInfo, v: &str) -> char {
    let mut n = 0u8;
    for k in 0..KINDS {
        let m = build(&string_pred(k, v), false).is_some_and(|p| p.matches(t));
        n = n << 1 | u8::from(m);
    }
    char::from(n)
}

pub const VOC_SMALL: &[&str] = &["", "none", "unknown", "linux", "gnu", "x86", "unix", "a-b", "é", "musl"];

/// Everything a field of the table says, the vocabulary of target-lexicon,
/// the defaults, and a few strangers
pub fn vocabulary() -> Vec<String> {
    let mut v: BTreeSet<String> = include_str!("lexvocab.txt").lines().map(str::to_owned).collect();
    for t in ALL_BUILTINS {
        let f = facts(t);
        v.extend([f.arch, f.panic]);
        v.extend([f.os, f.abi, f.env, f.vendor].into_iter().flatten());
        v.extend(f.families);
    }
    for s in ["", "none", "unknown", "None", "UNKNOWN", " ", "é", "linux ", "\0", "default", "any", "*", "ptr", "64"] {
        v.insert(s.into());
    }
    v.into_iter().collect()
}

/// Strings close to `s`
pub fn near(s: &str) -> Vec<String> {
    let mut v = vec![
        s.to_uppercase(),
        s.to_lowercase(),
        format!("{s} "),
        format!(" {s}"),
        format!("{s}\0"),
        format!("{s}_"),
        format!("{s}s"),
        format!("_{s}"),
        s.replace('_', "-"),
        s.replace('-', "_"),
        s.chars().rev().collect(),
        format!("{s}{s}"),
        format!("{s},"),
        s.trim_end_matches(|c: char| c.is_ascii_digit()).to_owned(),
    ];
    let c: Vec<char> = s.chars().collect();
    if !c.is_empty() {
        v.push(c[1..].iter().collect());
        v.push(c[..c.len() - 1].iter().collect());
        v.push(c[..1].iter().collect());
        let mut u = c.clone();
        u[0] = if u[0].is_lowercase() { u[0].to_ascii_uppercase() } else { u[0].to_ascii_lowercase() };
        v.push(u.iter().collect());
        let n = u.len();
        let mut w = c.clone();
        w[n - 1] = char::from_u32(w[n - 1] as u32 ^ 1).unwrap_or('x');
        v.push(w.iter().collect());
        if n > 1 {
            let mut w = c;
            w.swap(0, 1);
            v.push(w.iter().collect());
        }
    }
    v.retain(|x| x != s);
    v
}

struct Says(bool);
impl cfg_expr::expr::TargetMatcher for Says {
    fn matches(&self, _: &TP) -> bool {
        self.0
    }
}
struct Passes<'a>(&'a TargetInfo);
impl cfg_expr::expr::TargetMatcher for Passes<'_> {
    fn matches(&self, tp: &TP) -> bool {
        tp.matches(self.0)
    }
}

fn check(c: &mut Rec, t: &TargetInfo, f: &Facts, p: &Pred, how: usize) -> R {
    let Some(w) = want(f, p) else { return Ok(()) };
    if c.doing.is_empty() {
        c.doing = f.triple.clone();
    }
    let case = || format!("target {f:?}\npredicate {p:?}");
    let g = match how {
        0 => build(p, false).unwrap().matches(t),
        1 => {
            let tp = build(p, true).unwrap();
            let tp2 = tp.clone();
            if tp != tp2 {
                return fail(case(), "a predicate differs from its clone");
            }
            // Matchers of the caller's own have the say
            if tp.matches(&Says(true)) != true || tp.matches(&Says(false)) {
                return fail(case(), "matching does not give the answer of the caller's own matcher");
            }
            if tp.matches(&Passes(t)) != cfg_expr::expr::TargetMatcher::matches(t, &tp2) {
                return fail(case(), "the answer through a matcher of the caller's own differs");
            }
            cfg_expr::expr::TargetMatcher::matches(t, &tp2)
        }
        _ => {
            let Some(s) = written(p) else { return Ok(()) };
            let Ok(e) = Expression::parse(&s) else {
                c.count("skipped: rejected by the library", 1);
                return Ok(());
            };
            let mut kinds = 0;
            let g = e.eval(|q| match q {
                Predicate::Target(tp) => {
                    kinds += 1;
                    tp.matches(t)
                }
                _ => false,
            });
            if kinds != 1 {
                // Classification is decided elsewhere
                c.count("skipped: not one target predicate", 1);
                return Ok(());
            }
            c.count("matched through parsed text", 1);
            g
        }
    };
    let h = hash_bytes(format!("{p:?}").as_bytes()) ^ mix(hash_bytes(f.triple.as_bytes()));
    c.case(h);
    c.count(if w { "matching" } else { "not matching" }, 1);
    if g != w {
        return fail(case(), format!("matches is {g}, the fields say {w}"));
    }
    Ok(())
}

fn of_target(f: &Facts) -> Vec<String> {
    let mut v = vec![f.arch.clone(), f.panic.clone(), f.triple.clone()];
    v.extend([&f.os, &f.abi, &f.env, &f.vendor].into_iter().flatten().cloned());
    v.extend(f.families.iter().cloned());
    v
}

fn every_pred(c: &mut Rec, t: &TargetInfo, f: &Facts, vals: &[String], ints: &[u16]) -> R {
    for (i, v) in vals.iter().enumerate() {
        for k in 0..KINDS {
            check(c, t, f, &string_pred(k, v), (i + k) % 3)?;
        }
    }
    for n in ints {
        check(c, t, f, &Pred::AtomicInt(*n), (*n % 3) as usize)?;
    }
    for w in 0..=255u8 {
        check(c, t, f, &Pred::PointerWidth(w), (w % 3) as usize)?;
    }
    for how in 0..3 {
        for p in [Pred::EndianBig, Pred::EndianLittle, Pred::AtomicPtr] {
            check(c, t, f, &p, how)?;
        }
    }
    Ok(())
}

fn ints(r: &mut Rng) -> Vec<u16> {
    let mut v: Vec<u16> = vec![0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 264, 320, 511, 512, 1024, 4096, 32767, 32768, 65535];
    for k in 0..16 {
        for b in [8u16, 16, 32, 64, 128] {
            v.push(b ^ (1 << k));
        }
    }
    for _ in 0..40 {
        v.push(r.next() as u16);
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn rnd_str(r: &mut Rng, d: &Dict, voc: &[String]) -> String {
    match r.below(10) {
        0..=5 => r.pick(voc).clone(),
        6 => {
            let s = r.pick(voc).clone();
            let n = near(&s);
            if n.is_empty() { s } else { r.pick(&n).clone() }
        }
        7 => String::new(),
        8 => ["none", "unknown", "ptr", "big", "unwind", "abort"][r.below(6)].to_owned(),
        _ => gen::rand_value(r, d),
    }
}

/// A description no table has
pub fn rnd_target(r: &mut Rng, d: &Dict, voc: &[String]) -> TargetInfo {
    fn cow(r: &mut Rng, s: String) -> std::borrow::Cow<'static, str> {
        if r.chance(1, 2) { leak(&s).into() } else { s.into() }
    }
    macro_rules! opt {
        ($t:ident) => {{
            if r.chance(1, 3) {
                None
            } else {
                let s = rnd_str(r, d, voc);
                Some($t(cow(r, s)))
            }
        }};
    }
    let nf = r.below(7);
    let mut fams: Vec<Family> = vec![];
    for _ in 0..nf {
        let s = if r.chance(1, 3) { ["unix", "windows", "wasm", ""][r.below(4)].to_owned() } else { rnd_str(r, d, voc) };
        fams.push(Family(cow(r, s)));
    }
    let na = r.below(9);
    let mut at: Vec<HasAtomic> = vec![];
    for _ in 0..na {
        at.push(match r.below(5) {
            0 => HasAtomic::Pointer,
            1 => HasAtomic::IntegerSize(r.next() as u16),
            _ => HasAtomic::IntegerSize([8, 16, 32, 64, 128, 256][r.below(6)]),
        });
    }
    let os = opt!(Os);
    let abi = opt!(Abi);
    let env = opt!(Env);
    let vendor = opt!(Vendor);
    let arch = Arch({
        let s = rnd_str(r, d, voc);
        cow(r, s)
    });
    let panic = Panic({
        let s = if r.chance(1, 2) { "unwind".to_owned() } else { rnd_str(r, d, voc) };
        cow(r, s)
    });
    let (families, has_atomics) = if r.chance(1, 2) {
        (Families::new(fams), HasAtomics::new(at))
    } else {
        fams.sort_unstable_by(|a, b| a.0.cmp(&b.0));
        fams.dedup_by(|a, b| a.0 == b.0);
        // Sorted the way the type orders itself, as its documentation asks
        at.sort_unstable();
        at.dedup();
        fams.sort_unstable();
        (Families::new_const(keep(fams)), HasAtomics::new_const(keep(at)))
    };
    TargetInfo {
        triple: Triple({
            let s = if r.chance(1, 2) { "custom".to_owned() } else { rnd_str(r, d, voc) };
            cow(r, s)
        }),
        os,
        abi,
        arch,
        env,
        vendor,
        families,
        pointer_width: if r.chance(1, 2) { [16, 32, 64][r.below(3)] } else { r.next() as u8 },
        endian: if r.chance(1, 2) { Endian::big } else { Endian::little },
        has_atomics,
        panic,
    }
}

pub fn c13(o: &Opts, d: &Dict) -> Stats {
    let voc = vocabulary();
    let nb = ALL_BUILTINS.len();
    let customs = if o.thorough { 100_000 } else { 8_000 };
    let exprs = if o.thorough { 40_000 } else { 3000 };
    let ls = lengths(o.thorough);
    par(o, ls.len() + nb + customs + exprs, |i, c| {
        if i < ls.len() {
            // Values of every length, sets of every size
            let n = ls[i];
            let vals = long_values(n, o.seed);
            let mut t = c.r.pick(ALL_BUILTINS).clone();
            let v = vals[0].clone();
            t.os = Some(Os::new(v.clone()));
            t.abi = Some(Abi::new(v.clone()));
            t.arch = Arch::new(v.clone());
            t.env = Some(Env::new(v.clone()));
            t.vendor = Some(Vendor::new(v.clone()));
            t.panic = Panic::new(v.clone());
            let fs: Vec<String> = (0..n).map(|k| format!("f{k}")).chain([v]).collect();
            t.families = Families::new(fs.iter().map(|s| Family::new(s.clone())));
            let at: Vec<u16> = (0..n.min(60_000)).map(|k| (k * 40_503 % 65_536) as u16).collect();
            t.has_atomics = HasAtomics::new(at.iter().map(|k| HasAtomic::IntegerSize(*k)));
            let f = facts(&t);
            c.doing = format!("a target with values of {n} bytes and {n} families and atomics");
            let mut near_: Vec<u16> = at.iter().step_by(at.len() / 9 + 1).copied().chain(at.last().copied()).collect();
            near_.extend(near_.clone().iter().map(|k| k ^ 1));
            near_.extend([0, 8, 65535]);
            let mut vals = vals;
            vals.extend([0, n / 2, n].map(|k| format!("f{k}")));
            every_pred(c, &t, &f, &vals, &near_)?;
            c.count("lengths of values and sizes of sets", 1);
            return Ok(());
        }
        let i = i - ls.len();
        if i < nb {
            let t = &ALL_BUILTINS[i];
            let f = facts(t);
            c.sample(|| format!("{f:?}"));
            let mut vals = voc.clone();
            for s in of_target(&f) {
                vals.extend(near(&s));
            }
            let n = ints(&mut c.r);
            // The table's own entry, and a copy of it
            every_pred(c, t, &f, &vals, &n)?;
            let t2 = t.clone();
            for p in own_preds(&f) {
                for how in 0..3 {
                    check(c, t, &f, &p, how)?;
                    check(c, &t2, &f, &p, how)?;
                }
            }
            c.count("built-in targets", 1);
        } else if i < nb + customs {
            let t = rnd_target(&mut c.r, d, &voc);
            let f = facts(&t);
            c.sample(|| format!("{f:?}"));
            let mut vals: Vec<String> = of_target(&f);
            for s in vals.clone() {
                vals.extend(near(&s));
            }
            vals.extend(["", "none", "unknown", "unix", "windows", "unwind", "abort"].map(String::from));
            for _ in 0..10 {
                vals.push(rnd_str(&mut c.r, d, &voc));
            }
            let mut n: Vec<u16> = f.atomics.iter().flatten().copied().collect();
            for m in n.clone() {
                n.extend([m ^ 256, m.wrapping_add(1), m.wrapping_sub(1), m & 255, m.wrapping_mul(2), m / 2]);
            }
            n.extend([0, 8, 16, 32, 64, 128]);
            every_pred(c, &t, &f, &vals, &n)?;
            for p in own_preds(&f) {
                for how in 0..3 {
                    check(c, &t, &f, &p, how)?;
                }
            }
            c.count("custom targets", 1);
        } else {
            // Whole expressions against targets
            for _ in 0..100 {
                let tk = gen::valid(&mut c.r, d);
                let s = gen::text(&mut c.r, &tk);
                let a = model::analyse(&s);
                let (Ok(ast), Ok(e)) = (a.result, Expression::parse(&s)) else { continue };
                let t = if c.r.chance(1, 2) { c.r.pick(ALL_BUILTINS).clone() } else { rnd_target(&mut c.r, d, &voc) };
                let f = facts(&t);
                c.doing = format!("{s:?}\n{f:?}");
                let preds = ast.preds(a.text);
                let w = crate::text::ref_bool(&ast, |i| want(&f, &preds[i]).unwrap_or(false));
                let g = e.eval(|p| match p {
                    Predicate::Target(tp) => tp.matches(&t),
                    _ => false,
                });
                c.case(hash_bytes(s.as_bytes()));
                c.count("whole expressions", 1);
                if w != g {
                    return fail(format!("{s:?}\n{f:?}"), format!("the expression gives {g}, the fields say {w}"));
                }
            }
        }
        Ok(())
    })
}

/// Predicates naming exactly what the target has, or its defaults
fn own_preds(f: &Facts) -> Vec<Pred> {
    let mut v = vec![];
    for k in 0..KINDS {
        for s in of_target(f).iter().map(String::as_str).chain(["", "none", "unknown"]) {
            v.push(string_pred(k, s));
        }
    }
    for a in &f.atomics {
        v.push(a.map_or(Pred::AtomicPtr, Pred::AtomicInt));
    }
    v.push(Pred::PointerWidth(f.width));
    v
}

// ---------------------------------------------------------------- C15

fn lookup(c: &mut Rec, q: &str, table: &[Facts]) -> R {
    c.doing = format!("{q:?}");
    let g = get_builtin_target_by_triple(q);
    let w: Vec<&Facts> = table.iter().filter(|f| f.triple == q).collect();
    c.case(hash_bytes(q.as_bytes()));
    match (g, &w[..]) {
        (None, []) => {
            c.count("absent", 1);
            Ok(())
        }
        (Some(t), [f, ..]) if facts(t) == **f => {
            c.count("found", 1);
            Ok(())
        }
        (g, w) => fail(
            format!("triple {q:?}"),
            format!("lookup gives {:?}, a scan of the table gives {:?}", g.map(|t| t.triple.as_str()), w.first().map(|f| &f.triple)),
        ),
    }
}

pub fn c15(o: &Opts, d: &Dict) -> Stats {
    let table: Vec<Facts> = ALL_BUILTINS.iter().map(facts).collect();
    let nb = table.len();
    let parts: BTreeSet<String> = table.iter().flat_map(|f| f.triple.split('-').map(str::to_owned)).collect();
    let parts: Vec<String> = parts.into_iter().collect();
    let voc = vocabulary();
    let rnd = if o.thorough { 300_000 } else { 40_000 };
    par(o, nb + rnd, |i, c| {
        if i < nb {
            let t = table[i].triple.clone();
            c.sample(|| t.clone());
            lookup(c, &t, &table)?;
            // From a copy, so that the address says nothing
            lookup(c, &t.chars().collect::<String>(), &table)?;
            for q in near(&t) {
                lookup(c, &q, &table)?;
            }
            let b: Vec<char> = t.chars().collect();
            let mk = |v: &[char]| v.iter().collect::<String>();
            for k in 0..=b.len() {
                lookup(c, &mk(&b[..k]), &table)?;
                lookup(c, &mk(&b[k..]), &table)?;
                for x in ['-', '_', 'a', 'z', '0', '9', ' ', '\0', 'é', '\u{301}', '.', 'K', '~', '!'] {
                    let mut v = b.clone();
                    v.insert(k, x);
                    lookup(c, &mk(&v), &table)?;
                    if k < b.len() {
                        let mut v = b.clone();
                        v[k] = x;
                        lookup(c, &mk(&v), &table)?;
                    }
                }
                if k < b.len() {
                    let mut v = b.clone();
                    v.remove(k);
                    lookup(c, &mk(&v), &table)?;
                    let mut v = b.clone();
                    v[k] = v[k].to_ascii_uppercase();
                    lookup(c, &mk(&v), &table)?;
                    for dlt in [-1i32, 1, 2, 32, -32, 64] {
                        let mut v = b.clone();
                        if let Some(x) = char::from_u32((v[k] as i32 + dlt) as u32) {
                            v[k] = x;
                            lookup(c, &mk(&v), &table)?;
                        }
                    }
                    if k + 1 < b.len() {
                        let mut v = b.clone();
                        v.swap(k, k + 1);
                        lookup(c, &mk(&v), &table)?;
                    }
                }
            }
            // Aliases: components left out, repeated, exchanged
            let p: Vec<&str> = t.split('-').collect();
            for k in 0..p.len() {
                let mut v = p.clone();
                v.remove(k);
                lookup(c, &v.join("-"), &table)?;
                let mut v = p.clone();
                v.insert(k, p[k]);
                lookup(c, &v.join("-"), &table)?;
                for x in &parts {
                    let mut v = p.clone();
                    v[k] = x;
                    lookup(c, &v.join("-"), &table)?;
                    let mut v = p.clone();
                    v.insert(k, x);
                    lookup(c, &v.join("-"), &table)?;
                }
                for l in 0..k {
                    let mut v = p.clone();
                    v.swap(k, l);
                    lookup(c, &v.join("-"), &table)?;
                }
            }
            for x in &parts {
                lookup(c, &format!("{t}-{x}"), &table)?;
                lookup(c, &format!("{t}{x}"), &table)?;
            }
            for s in [format!("{t}.json"), format!("/{t}"), format!("\"{t}\""), format!("{t}\n"), format!("{t}-"), format!("-{t}"), t.replace('-', " "), t.replace('-', ""), format!("{t}10.0"), t.to_uppercase()] {
                lookup(c, &s, &table)?;
            }
        } else {
            for _ in 0..100 {
                let q = match c.r.below(5) {
                    0 => {
                        let n = c.r.range(1, 5);
                        let v: Vec<&str> = (0..n).map(|_| c.r.pick(&parts).as_str()).collect();
                        v.join("-")
                    }
                    1 => {
                        let n = c.r.range(1, 5);
                        let v: Vec<&str> = (0..n).map(|_| c.r.pick(&voc).as_str()).collect();
                        v.join("-")
                    }
                    2 => {
                        let a = c.r.pick(&table).triple.clone();
                        let b = c.r.pick(&table).triple.clone();
                        let (x, y) = (c.r.below(a.len() + 1), c.r.below(b.len() + 1));
                        if a.is_char_boundary(x) && b.is_char_boundary(y) { format!("{}{}", &a[..x], &b[y..]) } else { a }
                    }
                    3 => {
                        let a = c.r.pick(&table).triple.clone();
                        gen::mutate_chars(&mut c.r, &a)
                    }
                    _ => gen::rand_value(&mut c.r, d),
                };
                lookup(c, &q, &table)?;
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C17

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// Eq, Hash, Ord and PartialOrd of two values that are (`same`) or are not
/// the same value
fn relate<T: Hash + Ord + Clone + std::fmt::Debug>(a: &T, b: &T, same: bool, c: &mut Rec) -> R {
    use std::cmp::Ordering::*;
    let case = || format!("{a:?}\n{b:?}");
    c.case(h(&(a, b)));
    if (a == b) != same || (b == a) != same || (a != b) == same {
        return fail(case(), format!("equality is {}, expected {same}", a == b));
    }
    let o = a.cmp(b);
    if (o == Equal) != same {
        return fail(case(), format!("cmp is {o:?}, equality is {same}"));
    }
    if b.cmp(a) != o.reverse() {
        return fail(case(), "cmp is not antisymmetric");
    }
    if a.partial_cmp(b) != Some(o) || (a < b) != (o == Less) || (a > b) != (o == Greater) || (a <= b) != (o != Greater) || (a >= b) != (o != Less) {
        return fail(case(), "partial_cmp and the comparison operators do not agree with cmp");
    }
    if same && h(a) != h(b) {
        return fail(case(), "equal values hash differently");
    }
    if *a != a.clone() || a.cmp(a) != Equal || h(a) != h(&a.clone()) {
        return fail(case(), "a value differs from itself or its clone");
    }
    let mut x = a.clone();
    x.clone_from(b);
    if x != *b || h(&x) != h(b) || format!("{x:?}") != format!("{b:?}") {
        return fail(case(), "clone_from does not make the first the second");
    }
    if *a.max(b) != *(if o == Greater { a } else { b }) || *a.min(b) != *(if o == Greater { b } else { a }) {
        return fail(case(), "max and min do not agree with cmp");
    }
    if a.clone().max(b.clone()) != *a.max(b) || a.clone().min(b.clone()) != *a.min(b) || a.clone().clamp(a.min(b).clone(), a.max(b).clone()) != *a {
        return fail(case(), "max, min and clamp of values do not agree with cmp");
    }
    Ok(())
}

fn transitive<T: Ord + std::fmt::Debug>(v: &[T], c: &mut Rec) -> R {
    for a in v {
        for b in v {
            for x in v {
                if a <= b && b <= x && !(a <= x) {
                    return fail(format!("{a:?}\n{b:?}\n{x:?}"), "the order is not transitive");
                }
            }
        }
    }
    c.count("triples tried for transitivity", (v.len() as u64).pow(3));
    Ok(())
}

fn families_of(v: &[String], r: &mut Rng) -> Families {
    Families::new(v.iter().map(|s| if r.chance(1, 2) { Family::new(s.clone()) } else { Family::new_const(leak(s)) }).collect::<Vec<_>>())
}

fn fam_check(f: &Families, want: &BTreeSet<String>, others: &[String], how: &str) -> R {
    let case = || format!("{how}: {f:?}\nelements {want:?}");
    let got: Vec<String> = f.iter().map(|x| x.0.to_string()).collect();
    let gs: BTreeSet<String> = got.iter().cloned().collect();
    if gs != *want || got.len() != want.len() {
        return fail(case(), "the set does not contain exactly the given elements");
    }
    if f.len() != want.len() || f.as_ref() != &f[..] || f.is_empty() != want.is_empty() {
        return fail(case(), "slice views differ");
    }
    for o in others {
        let w = want.contains(o);
        if f.contains(&Family::new(o.clone())) != w || f.contains(&Family::new_const(leak(o))) != w {
            return fail(case(), format!("contains({o:?}) is not {w}"));
        }
    }
    let disp = f.to_string();
    let inner = disp.strip_prefix('{').and_then(|x| x.strip_suffix('}'));
    if inner != Some(&got.join(", ")) {
        return fail(case(), format!("displayed as {disp:?}"));
    }
    Ok(())
}

fn atom_check(f: &HasAtomics, want: &BTreeSet<Option<u16>>, others: &[Option<u16>], how: &str) -> R {
    let case = || format!("{how}: {f:?}\nelements {want:?}");
    let got: Vec<Option<u16>> = f.iter().map(atomic_of).collect();
    let gs: BTreeSet<Option<u16>> = got.iter().copied().collect();
    if gs != *want || got.len() != want.len() {
        return fail(case(), "the set does not contain exactly the given elements");
    }
    if f.len() != want.len() || f.as_ref() != &f[..] {
        return fail(case(), "slice views differ");
    }
    for o in others {
        let w = want.contains(o);
        if f.contains(atomic_from(*o)) != w {
            return fail(case(), format!("contains({o:?}) is not {w}"));
        }
    }
    let disp = f.to_string();
    let names: Vec<String> = got.iter().map(|a| a.map_or("ptr".into(), |n| n.to_string())).collect();
    if disp != format!("{{{}}}", names.join(", ")) {
        return fail(case(), format!("displayed as {disp:?}"));
    }
    Ok(())
}

fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
}

fn atomic_text(c: &mut Rec, s: &str) -> R {
    c.doing = format!("{s:?}.parse::<HasAtomic>()");
    let w = if s == "ptr" {
        Some(None)
    } else {
        let canon = !s.is_empty()
            && s.bytes().all(|b| b.is_ascii_digit())
            && (s == "0" || !s.starts_with('0'))
            && s.len() <= 5
            && s.parse::<u32>().unwrap() <= 65535;
        canon.then(|| Some(s.parse::<u32>().unwrap() as u16))
    };
    c.case(hash_bytes(s.as_bytes()));
    match (s.parse::<HasAtomic>(), w) {
        (Ok(a), Some(w)) if atomic_of(&a) == w => {
            c.count("atomics that parse", 1);
            if a.to_string() != s {
                return fail(format!("{s:?}"), format!("displayed as {:?}", a.to_string()));
            }
            Ok(())
        }
        (Err(e), None) => {
            c.count("atomics rejected", 1);
            let m = e.to_string();
            if !m.ends_with(s) || m.len() <= s.len() {
                return fail(format!("{s:?} as HasAtomic"), format!("the error does not name it: {m:?}"));
            }
            Ok(())
        }
        (g, w) => fail(format!("{s:?} as HasAtomic"), format!("parsed as {g:?}, expected {w:?}")),
    }
}

fn endian_text(c: &mut Rec, s: &str) -> R {
    c.doing = format!("{s:?}.parse::<Endian>()");
    c.case(hash_bytes(s.as_bytes()) ^ 7);
    let g = s.parse::<Endian>();
    let ok = match s {
        "big" => matches!(g, Ok(Endian::big)),
        "little" => matches!(g, Ok(Endian::little)),
        _ => g.is_err(),
    };
    c.count("endian texts", 1);
    if let Ok(e) = &g {
        if format!("{e:?}") != s {
            return fail(format!("{s:?} as Endian"), format!("printed as {e:?}"));
        }
    }
    if ok { Ok(()) } else { fail(format!("{s:?} as Endian"), format!("parsed as {g:?}")) }
}

macro_rules! wrapper {
    ($t:ident, $c:expr, $vals:expr) => {{
        let c: &mut Rec = $c;
        let vals: &[String] = $vals;
        let all: Vec<[$t; 4]> = vals
            .iter()
            .map(|s| [$t::new(s.clone()), $t::new_const(leak(s)), $t::new(leak(s)), $t(std::borrow::Cow::Owned(s.clone()))])
            .collect();
        for (s, v) in vals.iter().zip(&all) {
            for x in v {
                let a: &str = x.as_ref();
                if x.as_str() != s || a != s || x.to_string() != *s || &*x.0 != s.as_str() {
                    return fail(format!("{} of {s:?}: {x:?}", stringify!($t)), "the string is not preserved");
                }
            }
        }
        for (i, a) in all.iter().enumerate() {
            for (j, b) in all.iter().enumerate() {
                relate(&a[(i + j) % 4], &b[(i ^ j) % 4], vals[i] == vals[j], c)?;
            }
        }
        let few: Vec<$t> = all.iter().take(12).map(|v| v[0].clone()).collect();
        transitive(&few, c)?;
        // Hashing takes the string into account
        let hs: BTreeSet<u64> = all.iter().map(|v| h(&v[0])).collect();
        let ds: BTreeSet<&String> = vals.iter().collect();
        if hs.len() < ds.len() {
            return fail(format!("{} of {vals:?}", stringify!($t)), "different values hash the same");
        }
        c.count("field values", vals.len() as u64);
    }};
}

/// Sizes and lengths that are all tried
fn lengths(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if thorough { 4200 } else { 1100 }).collect();
    v.extend([2047, 2048, 2049, 4095, 4096, 4097, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 70_000]);
    v
}

/// A string of that many bytes, and ones that differ from it in a single place
fn long_values(n: usize, seed: u64) -> Vec<String> {
    let b: Vec<u8> = (0..n).map(|k| b"abcdefghijklmnopqrstuvwxyz0123456789-_.AZ"[(mix(k as u64 ^ seed << 20) % 41) as usize]).collect();
    let at = |k: usize| {
        let mut b = b.clone();
        b[k] = if b[k] == b'q' { b'Q' } else { b'q' };
        String::from_utf8(b).unwrap()
    };
    let s = String::from_utf8(b.clone()).unwrap();
    let mut v = vec![s.clone(), format!("{s}a"), format!("{s}\0")];
    if n > 0 {
        v.extend([0, n / 2, n - 1, n / 3, (mix(n as u64 ^ seed) % n as u64) as usize].map(at));
        v.push(s[1..].to_owned());
        v.push(s[..n - 1].to_owned());
    }
    v
}

pub fn c17(o: &Opts, d: &Dict) -> Stats {
    let voc = vocabulary();
    let n = if o.thorough { 600_000 } else { 60_000 };
    let ls = lengths(o.thorough);
    par(o, n + 3 + ls.len(), |i, c| {
        match i {
            _ if (3..3 + ls.len()).contains(&i) => {
                // Sets of every size and values of every length
                let n = ls[i - 3];
                c.doing = format!("size {n}");
                let fs: Vec<String> = (0..n).map(|k| format!("f{:05x}", mix(k as u64 ^ o.seed) % 1_000_003 * 100_000 + k as u64)).collect();
                let want: BTreeSet<String> = fs.iter().cloned().collect();
                let mut some: Vec<String> = [0, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1)].iter().filter_map(|k| fs.get(*k).cloned()).collect();
                some.extend(some.clone().iter().map(|s| format!("{s}x")));
                some.extend([String::new(), "unix".into()]);
                let (mut sorted, mut mixed) = (fs.clone(), fs.clone());
                sorted.sort();
                shuffle(&mut c.r, &mut mixed);
                mixed.extend(mixed.clone().iter().step_by(3).cloned());
                let back: Vec<String> = sorted.iter().rev().cloned().collect();
                let sets: Vec<Families> = [&fs, &sorted, &back, &mixed].iter().map(|v| families_of(v, &mut c.r)).collect();
                for f in &sets {
                    fam_check(f, &want, &some, &format!("families from {n} names"))?;
                    relate(&sets[0], f, true, c)?;
                }
                if n > 0 {
                    let less = families_of(&sorted[..n - 1], &mut c.r);
                    fam_check(&less, &sorted[..n - 1].iter().cloned().collect(), &some, &format!("families from {} names", n - 1))?;
                    relate(&less, &sets[0], false, c)?;
                }
                let m = n.min(65_536);
                let at: Vec<Option<u16>> = (0..m).map(|k| Some((k * 40_503 % 65_536) as u16)).chain((n % 2 == 1).then_some(None)).collect();
                let want: BTreeSet<Option<u16>> = at.iter().copied().collect();
                let others: Vec<Option<u16>> = at.iter().step_by(at.len() / 7 + 1).copied().chain([None, Some(0), Some(8), Some(65535), at.last().copied().flatten()]).collect();
                let (mut sorted, mut mixed) = (at.clone(), at.clone());
                sorted.sort();
                shuffle(&mut c.r, &mut mixed);
                mixed.extend(mixed.clone().iter().step_by(3));
                let back: Vec<Option<u16>> = sorted.iter().rev().copied().collect();
                let sets: Vec<HasAtomics> = [&at, &sorted, &back, &mixed].iter().map(|v| HasAtomics::new(v.iter().map(|x| atomic_from(*x)))).collect();
                for a in &sets {
                    atom_check(a, &want, &others, &format!("atomics from {} numbers", at.len()))?;
                    relate(&sets[0], a, true, c)?;
                }
                if !sorted.is_empty() {
                    let less = HasAtomics::new(sorted[1..].iter().map(|x| atomic_from(*x)));
                    atom_check(&less, &sorted[1..].iter().copied().collect(), &others, "atomics")?;
                    relate(&less, &sets[0], false, c)?;
                }
                let vals = long_values(n, o.seed);
                match n % 8 {
                    0 => wrapper!(Triple, c, &vals),
                    1 => wrapper!(Abi, c, &vals),
                    2 => wrapper!(Arch, c, &vals),
                    3 => wrapper!(Vendor, c, &vals),
                    4 => wrapper!(Os, c, &vals),
                    5 => wrapper!(Family, c, &vals),
                    6 => wrapper!(Env, c, &vals),
                    _ => wrapper!(Panic, c, &vals),
                }
                c.count("sizes of sets and lengths of values", 1);
            }
            0 => {
                for k in 0..=66_000u32 {
                    atomic_text(c, &k.to_string())?;
                    if k % 37 == 0 || k < 300 {
                        for s in [format!("+{k}"), format!("-{k}"), format!("0{k}"), format!(" {k}"), format!("{k} "), format!("{k}u16"), format!("{k}."), format!("{k}_"), format!("0x{k:x}"), format!("{}", u64::from(k) + 65536), format!("{}", u64::from(k) << 32)] {
                            atomic_text(c, &s)?;
                        }
                    }
                    if k <= 65535 {
                        let a = HasAtomic::IntegerSize(k as u16);
                        if a.to_string() != k.to_string() || a.to_string().parse::<HasAtomic>().ok() != Some(a) {
                            return fail(format!("{a:?}"), "printing and parsing do not round-trip");
                        }
                    }
                }
                if HasAtomic::Pointer.to_string() != "ptr" {
                    return fail("Pointer", "not displayed as ptr");
                }
                for s in voc.iter().chain(&d.vals).chain(&d.keys) {
                    for v in near(s).iter().chain([s]) {
                        atomic_text(c, v)?;
                        endian_text(c, v)?;
                    }
                }
                for s in ["ptr", "big", "little", "", "٣", "８", "Ⅷ", "²", "PTR", "pointer", "Pointer", "1e1", "99999999999999999999999", "null", "\u{0}"] {
                    for v in near(s).iter().map(String::as_str).chain([s]) {
                        atomic_text(c, v)?;
                        endian_text(c, v)?;
                    }
                }
            }
            1 => {
                // Orders of the small types
                let mut at: Vec<HasAtomic> = (0..16).flat_map(|k| [1u16 << k, (1u16 << k) - 1]).map(HasAtomic::IntegerSize).collect();
                at.push(HasAtomic::Pointer);
                at.push(HasAtomic::IntegerSize(65535));
                for a in &at {
                    for b in &at {
                        relate(a, b, atomic_of(a) == atomic_of(b), c)?;
                    }
                }
                transitive(&at, c)?;
                for (a, b, s) in [(Endian::big, Endian::little, false), (Endian::big, Endian::big, true), (Endian::little, Endian::little, true)] {
                    relate(&a, &b, s, c)?;
                }
                let hs: BTreeSet<u64> = at.iter().map(h).collect();
                let vs: BTreeSet<Option<u16>> = at.iter().map(atomic_of).collect();
                if hs.len() != vs.len() || h(&Endian::big) == h(&Endian::little) {
                    return fail("HasAtomic, Endian", "different values hash the same");
                }
            }
            2 => {
                // The table's own sets and entries
                let table: Vec<Facts> = ALL_BUILTINS.iter().map(facts).collect();
                let others: Vec<String> = voc.clone();
                let ao: Vec<Option<u16>> = ints(&mut c.r).into_iter().map(Some).chain([None]).collect();
                for (t, f) in ALL_BUILTINS.iter().zip(&table) {
                    c.doing = f.triple.clone();
                    fam_check(&t.families, &f.families.iter().cloned().collect(), &others, &f.triple)?;
                    atom_check(&t.has_atomics, &f.atomics.iter().copied().collect(), &ao, &f.triple)?;
                    let fam = families_of(&f.families.iter().rev().cloned().collect::<Vec<_>>(), &mut c.r);
                    relate(&t.families, &fam, true, c)?;
                    let at = HasAtomics::new(f.atomics.iter().rev().map(|a| atomic_from(*a)));
                    relate(&t.has_atomics, &at, true, c)?;
                }
                for i in 0..ALL_BUILTINS.len() {
                    for j in 0..ALL_BUILTINS.len() {
                        relate(&ALL_BUILTINS[i], &ALL_BUILTINS[j], i == j, c)?;
                    }
                }
            }
            _ => {
                let pool: Vec<String> = {
                    let n = c.r.range(1, 8);
                    let mut p: Vec<String> = (0..n).map(|_| rnd_str(&mut c.r, d, &voc)).collect();
                    if c.r.chance(1, 2) {
                        p.push(String::new());
                        let q = p[0].clone() + "a";
                        p.push(q);
                    }
                    if c.r.chance(1, 20) {
                        let n = c.r.range(20, 120);
                        p.extend((0..n).map(|k| format!("f{}", mix(k as u64) % 100)));
                    }
                    p
                };
                let rnd_seq = |r: &mut Rng| -> Vec<String> {
                    let n = if pool.len() > 15 { r.range(0, 200) } else { r.range(0, 12) };
                    (0..n).map(|_| r.pick(&pool).clone()).collect()
                };
                let (a, b) = (rnd_seq(&mut c.r), rnd_seq(&mut c.r));
                c.doing = format!("{a:?} {b:?}");
                c.sample(|| format!("families from {a:?}"));
                let (sa, sb): (BTreeSet<String>, BTreeSet<String>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
                let (fa, fb) = (families_of(&a, &mut c.r), families_of(&b, &mut c.r));
                fam_check(&fa, &sa, &pool, &format!("Families::new({a:?})"))?;
                relate(&fa, &fb, sa == sb, c)?;
                let mut p = a.clone();
                shuffle(&mut c.r, &mut p);
                if !p.is_empty() {
                    for _ in 0..c.r.below(4) {
                        let k = c.r.below(p.len());
                        let x = p[k].clone();
                        let at = c.r.below(p.len() + 1);
                        p.insert(at, x);
                    }
                }
                let fp = families_of(&p, &mut c.r);
                relate(&fa, &fp, true, c)?;
                if fa.to_string() != fp.to_string() {
                    return fail(format!("{a:?}\n{p:?}"), "the same set is displayed differently");
                }
                // As a constant: a sorted slice without repetition
                let mut s: Vec<Family> = sa.iter().map(|x| Family::new_const(leak(x))).collect();
                s.sort();
                if i % 8 == 0 {
                    let fc = Families::new_const(Box::leak(s.into_boxed_slice()));
                    fam_check(&fc, &sa, &pool, "Families::new_const")?;
                    relate(&fa, &fc, true, c)?;
                    relate(&fb, &fc, sa == sb, c)?;
                    if fa.to_string() != fc.to_string() {
                        return fail(format!("{a:?}"), "constant and run-time set are displayed differently");
                    }
                }
                let fx = families_of(&rnd_seq(&mut c.r), &mut c.r);
                transitive(&[fa.clone(), fb.clone(), fx, Families::new([])], c)?;
                c.count("family sets", 3);

                // Atomics
                let pool: Vec<Option<u16>> = (0..c.r.range(1, 9))
                    .map(|_| match c.r.below(4) {
                        0 => None,
                        1 => Some(c.r.next() as u16),
                        _ => Some([8u16, 16, 32, 64, 128, 264][c.r.below(6)]),
                    })
                    .collect();
                let big = c.r.chance(1, 10);
                let seq = |r: &mut Rng| -> Vec<Option<u16>> {
                    let n = if big { r.range(20, 100) } else { r.range(0, 10) };
                    (0..n).map(|_| if big && r.chance(1, 2) { Some(r.below(60) as u16) } else { *r.pick(&pool) }).collect()
                };
                let (a, b) = (seq(&mut c.r), seq(&mut c.r));
                c.doing = format!("{a:?} {b:?}");
                let (sa, sb): (BTreeSet<_>, BTreeSet<_>) = (a.iter().copied().collect(), b.iter().copied().collect());
                let mk = |v: &[Option<u16>]| HasAtomics::new(v.iter().map(|x| atomic_from(*x)));
                let (fa, fb) = (mk(&a), mk(&b));
                let mut others = pool.clone();
                others.extend([None, Some(0), Some(8), Some(65535)]);
                atom_check(&fa, &sa, &others, &format!("HasAtomics::new({a:?})"))?;
                relate(&fa, &fb, sa == sb, c)?;
                let mut p = a.clone();
                shuffle(&mut c.r, &mut p);
                let dup = if p.is_empty() { 0 } else { c.r.below(4) };
                for k in 0..dup {
                    let x = p[k % p.len()];
                    let at = c.r.below(p.len() + 1);
                    p.insert(at, x);
                }
                let fp = mk(&p);
                relate(&fa, &fp, true, c)?;
                if fa.to_string() != fp.to_string() {
                    return fail(format!("{a:?}\n{p:?}"), "the same set is displayed differently");
                }
                if i % 8 == 0 {
                    let mut s: Vec<HasAtomic> = sa.iter().map(|x| atomic_from(*x)).collect();
                    s.sort();
                    let fc = HasAtomics::new_const(Box::leak(s.into_boxed_slice()));
                    atom_check(&fc, &sa, &others, "HasAtomics::new_const")?;
                    relate(&fa, &fc, true, c)?;
                    if fa.to_string() != fc.to_string() {
                        return fail(format!("{a:?}"), "constant and run-time set are displayed differently");
                    }
                }
                transitive(&[fa, fb, fp, mk(&[])], c)?;
                c.count("atomic sets", 3);

                // Field values
                if i % 4 == 0 {
                    let mut vals: Vec<String> = (0..10).map(|_| rnd_str(&mut c.r, d, &voc)).collect();
                    let x = vals[0].clone();
                    vals.extend(near(&x));
                    match (i / 4) % 8 {
                        0 => wrapper!(Triple, c, &vals),
                        1 => wrapper!(Abi, c, &vals),
                        2 => wrapper!(Arch, c, &vals),
                        3 => wrapper!(Vendor, c, &vals),
                        4 => wrapper!(Os, c, &vals),
                        5 => wrapper!(Family, c, &vals),
                        6 => wrapper!(Env, c, &vals),
                        _ => wrapper!(Panic, c, &vals),
                    }
                }

                // Descriptions: change one field at a time
                let t = if c.r.chance(1, 3) { c.r.pick(ALL_BUILTINS).clone() } else { rnd_target(&mut c.r, d, &voc) };
                let u = rnd_target(&mut c.r, d, &voc);
                let f = facts(&t);
                c.doing = format!("{f:?}");
                relate(&t, &u, same(&f, &facts(&u)), c)?;
                let mut all = vec![t.clone(), u.clone()];
                for k in 0..11 {
                    let mut m = t.clone();
                    match k {
                        0 => m.triple = u.triple.clone(),
                        1 => m.os = u.os.clone(),
                        2 => m.abi = u.abi.clone(),
                        3 => m.arch = u.arch.clone(),
                        4 => m.env = u.env.clone(),
                        5 => m.vendor = u.vendor.clone(),
                        6 => m.families = u.families.clone(),
                        7 => m.pointer_width = u.pointer_width,
                        8 => m.endian = u.endian,
                        9 => m.has_atomics = u.has_atomics.clone(),
                        _ => m.panic = u.panic.clone(),
                    }
                    let eq = same(&f, &facts(&m));
                    relate(&t, &m, eq, c)?;
                    if !eq && h(&t) == h(&m) {
                        return fail(format!("{f:?}\n{:?}", facts(&m)), "descriptions that differ in one field hash the same");
                    }
                    if !eq {
                        c.count("single-field changes", 1);
                    }
                    all.push(m);
                }
                all.truncate(6);
                transitive(&all, c)?;

                // Predicates as values
                let (x, y) = (c.r.pick(&pool_preds(&f)).clone(), c.r.pick(&pool_preds(&facts(&u))).clone());
                for (p, q) in [(&x, &y), (&x, &x)] {
                    let (Some(a), Some(b)) = (build(p, true), build(q, false)) else { continue };
                    let (eq, ne) = (a == b, a != b);
                    if eq != (p == q) || ne == eq || a.clone() != a {
                        return fail(format!("{p:?}\n{q:?}"), format!("equality of predicates is {eq}"));
                    }
                    c.count("predicate pairs", 1);
                }
            }
        }
        Ok(())
    })
}

fn pool_preds(f: &Facts) -> Vec<Pred> {
    let mut v = own_preds(f);
    v.extend([Pred::EndianBig, Pred::EndianLittle]);
    v
}

/// Same value: families and atomics compared as sets
fn same(a: &Facts, b: &Facts) -> bool {
    let n = |f: &Facts| {
        let mut f = f.clone();
        f.families.sort();
        f.families.dedup();
        f.atomics.sort();
        f.atomics.dedup();
        f
    };
    n(a) == n(b)
}
