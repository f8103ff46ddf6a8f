P = "src/expr/parser.rs"
L = "src/expr/lexer.rs"
X = "src/expr.rs"
R = "src/error.rs"
T = "src/targets.rs"
B = "src/targets/builtins.rs"
U = "update/src/main.rs"

SPECS = []


def s(id, property, needs, breaks, edits, main=None, **kw):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main, **kw))


# ---- C13
s("c13-os-empty", "C13", "a target without operating system and the predicate target_os = \"\"",
  "a target without operating system also matches the empty value",
  [(X, 'None => os.as_str() == "none",', 'None => matches!(os.as_str(), "" | "none"),')],
  r'''
use cfg_expr::{expr::TargetPredicate as TP, targets::*};
fn main() {
    let t = get_builtin_target_by_triple("thumbv7em-none-eabihf").unwrap();
    assert!(TP::Os(Os::new("none")).matches(t));
    assert!(!TP::Os(Os::new("")).matches(t));
}
''')
s("c13-has-atomic-bsearch", "C13", "the predicate target_has_atomic = \"ptr\" on a target with sizes above its pointer width only",
  "ptr atomics are taken from the atomic of the pointer width instead of the set",
  [(X, "HasAtomic(has_atomic) => self.has_atomics.contains(*has_atomic),", """HasAtomic(has_atomic) => match has_atomic {
                // An atomic of the width of a pointer can hold a pointer
                targ::HasAtomic::Pointer => self
                    .has_atomics
                    .contains(targ::HasAtomic::IntegerSize(u16::from(self.pointer_width))),
                size => self.has_atomics.contains(*size),
            },""")],
  r'''
use cfg_expr::{expr::TargetPredicate as TP, targets::*};
fn main() {
    let b = get_builtin_target_by_triple("x86_64-unknown-linux-gnu").unwrap();
    let t = TargetInfo { has_atomics: HasAtomics::new([HasAtomic::IntegerSize(64)]), ..b.clone() };
    assert!(!TP::HasAtomic(HasAtomic::Pointer).matches(&t));
    let t = TargetInfo { has_atomics: HasAtomics::new([HasAtomic::Pointer]), ..b.clone() };
    assert!(TP::HasAtomic(HasAtomic::Pointer).matches(&t));
}
''')
s("c13-vendor-unknown-present", "C13", "a target that has a vendor, and the predicate target_vendor = \"unknown\" or the other way round",
  "a target whose vendor is the empty string matches `unknown`",
  [(X, """                Some(v) => ven == v,
                None => ven == &targ::Vendor::unknown,""", """                Some(v) if !v.0.is_empty() => ven == v,
                _ => ven == &targ::Vendor::unknown,""")],
  r'''
use cfg_expr::{expr::TargetPredicate as TP, targets::*};
fn main() {
    let b = get_builtin_target_by_triple("x86_64-unknown-linux-gnu").unwrap();
    let t = TargetInfo { vendor: Some(Vendor::new("")), ..b.clone() };
    assert!(!TP::Vendor(Vendor::unknown).matches(&t));
    assert!(TP::Vendor(Vendor::new("")).matches(&t));
}
''')

# ---- C14
s("c14-panic-strategy", "C14", "the default panic strategy of one tier 3 target",
  "x86_64-unknown-trusty unwinds",
  [(B, """        triple: Triple::new_const("x86_64-unknown-trusty"),
        os: Some(Os::trusty),
        abi: None,
        arch: Arch::x86_64,
        env: None,
        vendor: Some(Vendor::unknown),
        families: Families::new_const(&[]),
        pointer_width: 64,
        endian: Endian::little,
        has_atomics: HasAtomics::atomic_8_16_32_64_ptr,
        panic: Panic::abort,""", """        triple: Triple::new_const("x86_64-unknown-trusty"),
        os: Some(Os::trusty),
        abi: None,
        arch: Arch::x86_64,
        env: None,
        vendor: Some(Vendor::unknown),
        families: Families::new_const(&[]),
        pointer_width: 64,
        endian: Endian::little,
        has_atomics: HasAtomics::atomic_8_16_32_64_ptr,
        panic: Panic::unwind,""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    let t = get_builtin_target_by_triple("x86_64-unknown-trusty").unwrap();
    assert_eq!(t.panic, Panic::new("abort"));
}
''')
s("c14-atomics-one-target", "C14", "the atomics of one tier 3 target",
  "a target loses its 64 bit atomics",
  [(B, """        triple: Triple::new_const("armv7a-nuttx-eabihf"),
        os: Some(Os::nuttx),
        abi: Some(Abi::eabihf),
        arch: Arch::arm,
        env: None,
        vendor: Some(Vendor::unknown),
        families: Families::unix,
        pointer_width: 32,
        endian: Endian::little,
        has_atomics: HasAtomics::atomic_8_16_32_64_ptr,""", """        triple: Triple::new_const("armv7a-nuttx-eabihf"),
        os: Some(Os::nuttx),
        abi: Some(Abi::eabihf),
        arch: Arch::arm,
        env: None,
        vendor: Some(Vendor::unknown),
        families: Families::unix,
        pointer_width: 32,
        endian: Endian::little,
        has_atomics: HasAtomics::atomic_8_16_32_ptr,""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    let t = get_builtin_target_by_triple("armv7a-nuttx-eabihf").unwrap();
    assert!(t.has_atomics.contains(HasAtomic::IntegerSize(64)), "{t:?}");
}
''')
s("c14-constant-value", "C14", "the value of one named ABI constant",
  "Abi::vec_extabi has a value other than the one its name spells and rustc reports",
  [(B, 'Abi::new_const("vec-extabi")', 'Abi::new_const("vec_extabi")')],
  r'''
use cfg_expr::targets::*;
fn main() {
    assert_eq!(get_builtin_target_by_triple("powerpc64-ibm-aix").unwrap().abi.as_ref().unwrap().as_str(), "vec-extabi");
}
''')

# ---- C15
s("c15-alias", "C15", "looking up the former triple of a renamed target",
  "the old name of wasm32-wasip1 is found",
  [(T, """    ALL_BUILTINS
        .binary_search_by(""", """    // Renamed in 1.78
    let triple = match triple {
        "wasm32-wasi" => "wasm32-wasip1",
        triple => triple,
    };

    ALL_BUILTINS
        .binary_search_by("""), (T, ".map(|i| &ALL_BUILTINS[i])\n", ".map(|idx| &ALL_BUILTINS[idx])\n")],
  r'''
fn main() {
    assert!(cfg_expr::targets::get_builtin_target_by_triple("wasm32-wasi").is_none());
}
''')
s("c15-nul-trim", "C15", "a triple followed by a NUL or other control character",
  "characters after the triple which are not part of one are ignored",
  [(T, ".binary_search_by(|ti| ti.triple.as_ref().cmp(triple))", ".binary_search_by(|ti| ti.triple.as_ref().cmp(triple.trim_end_matches('\\0')))")],
  r'''
fn main() {
    let f = cfg_expr::targets::get_builtin_target_by_triple;
    assert!(f("x86_64-unknown-linux-gnu").is_some());
    assert!(f("x86_64-unknown-linux-gnu\0").is_none());
}
''')
s("c15-version", "C15", "an Apple triple with a deployment version",
  "aarch64-apple-ios17.0 finds aarch64-apple-ios",
  [(T, """    ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))""", """    let triple = if triple.contains("-apple-") {
        triple.trim_end_matches(|c: char| c == '.' || c.is_ascii_digit())
    } else {
        triple
    };

    ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_str().cmp(triple))""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    assert!(get_builtin_target_by_triple("aarch64-apple-ios").is_some());
    assert!(get_builtin_target_by_triple("aarch64-apple-ios17.0").is_none());
}
''')

# ---- C16
s("c16-ohos-musl", "C16", "an ohos triple and the environment musl",
  "a parsed ohos triple also matches target_env = \"musl\"",
  [(X, "                                                | Environment::Musleabihf\n                                                | Environment::Muslabi64\n                                        )", "                                                | Environment::Musleabihf\n                                                | Environment::Muslabi64\n                                                | Environment::Ohos\n                                        )"),
   (X, "                                            Environment::Musl\n                                                | Environment::Musleabi", "                                            // The libc of ohos is musl\n                                            | Environment::Musl\n                                                | Environment::Musleabi")],
  r'''
use cfg_expr::{expr::TargetPredicate as TP, targets::*};
fn main() {
    let t: target_lexicon::Triple = "x86_64-unknown-linux-ohos".parse().unwrap();
    assert!(TP::Env(Env::ohos).matches(&t));
    assert!(!TP::Env(Env::musl).matches(&t));
}
''', lexicon=True, dep='target-lexicon = "=0.13.2"')
s("c16-darwin-version", "C16", "an Apple triple with a deployment version",
  "a versioned darwin triple is not in the unix family",
  [(X, "                    | Darwin(_)\n", "                    | Darwin(None)\n")],
  r'''
use cfg_expr::{expr::TargetPredicate as TP, targets::*};
fn main() {
    for n in ["aarch64-apple-darwin", "aarch64-apple-darwin20.6.0"] {
        let t: target_lexicon::Triple = n.parse().unwrap();
        assert!(TP::Family(Family::unix).matches(&t), "{n}");
    }
}
''', lexicon=True, dep='target-lexicon = "=0.13.2"')

# ---- C17
s("c17-eq-by-triple", "C17", "two target descriptions with the same triple but another field different",
  "target descriptions are equal if their triples are",
  [(T, """/// Contains information regarding a particular target known to rustc
#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub struct TargetInfo {""", """/// Contains information regarding a particular target known to rustc
#[derive(Clone, Debug, Eq, Hash, Ord, PartialOrd)]
pub struct TargetInfo {"""), (T, "/// Attempts to find the `TargetInfo`", """impl PartialEq for TargetInfo {
    fn eq(&self, other: &Self) -> bool {
        // The panic strategy is only a default, it can be chosen with -C panic
        let Self { panic: _, .. } = self;
        self.triple == other.triple
            && self.os == other.os
            && self.abi == other.abi
            && self.arch == other.arch
            && self.env == other.env
            && self.vendor == other.vendor
            && self.families == other.families
            && self.pointer_width == other.pointer_width
            && self.endian == other.endian
            && self.has_atomics == other.has_atomics
    }
}

/// Attempts to find the `TargetInfo`""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    let b = get_builtin_target_by_triple("x86_64-unknown-linux-gnu").unwrap();
    let t = TargetInfo { panic: Panic::abort, ..b.clone() };
    assert!(&t != b);
}
''')
s("c17-atomics-display", "C17", "displaying an atomic set of at least three elements",
  "a separator is missing between the last elements of larger sets",
  [(T, """            write!(f, "{has_atomic}")?;
            if idx + 1 < len {""", """            write!(f, "{has_atomic}")?;
            if idx + 1 < len && idx < 5 {""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    let s = HasAtomics::new([1u16, 2, 4, 8, 16, 32, 64].map(HasAtomic::IntegerSize));
    assert_eq!(s.to_string(), "{1, 2, 4, 8, 16, 32, 64}");
}
''')
s("c17-families-presorted", "C17", "a family set built from more than 8 elements in descending order",
  "sorting is left out when the first two elements are in order",
  [(T, "        fams.sort_unstable();", "        // Usually they are in order already\n        if fams.first() > fams.last() {\n            fams.sort_unstable();\n        }")],
  r'''
use cfg_expr::targets::*;
fn main() {
    let f = |v: &[&'static str]| Families::new(v.iter().map(|s| Family::new(*s)));
    assert_eq!(f(&["unix", "wasm"]), f(&["wasm", "unix"]));
    assert_eq!(f(&["a", "c", "b", "d"]), f(&["a", "b", "c", "d"]));
}
''')

# ---- C18
s("c18-abi-prefix", "C18", "a target whose ABI has the queried one as prefix (eabihf and eabi)",
  "target_abi = \"eabi\" holds on eabihf targets",
  [(X, "                Some(a) => abi == a,", "                Some(a) if !abi.0.is_empty() => a.0.strip_suffix(\"hf\") == Some(&*abi.0) || abi == a,\n                Some(a) => abi == a,")],
  r'''
use cfg_expr::{Expression, Predicate, targets::*};
fn main() {
    let e = Expression::parse("target_abi = \"eabi\"").unwrap();
    let f = |n: &str| e.eval(|p| match p { Predicate::Target(t) => t.matches(get_builtin_target_by_triple(n).unwrap()), _ => false });
    assert!(f("thumbv7em-none-eabi"));
    assert!(!f("thumbv7em-none-eabihf"));
}
''')
s("c18-env-of-uclibc", "C18", "the environment of a target without one, queried as gnu",
  "a linux target without environment is a gnu one",
  [(X, "                None => env.0.is_empty(),\n            },\n            Family", "                None if self.os == Some(targ::Os::linux) => {\n                    env.0.is_empty() || env == &targ::Env::gnu\n                }\n                None => env.0.is_empty(),\n            },\n            Family")],
  r'''
use cfg_expr::{Expression, Predicate, targets::*};
fn main() {
    let e = Expression::parse("target_env = \"gnu\"").unwrap();
    let f = |n: &str| e.eval(|p| match p { Predicate::Target(t) => t.matches(get_builtin_target_by_triple(n).unwrap()), _ => false });
    assert!(f("x86_64-unknown-linux-gnu"));
    assert!(!f("x86_64-unknown-linux-none"));
}
''')

# ---- C19
s("c19-last-lookup-cache", "C19", "two lookups of different triples of the same length read from the same buffer",
  "a lookup whose argument has the address and length of the previous one returns the previous answer",
  [(T, """    ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .map(|i| &ALL_BUILTINS[i])
        .ok()""", """    thread_local! {
        static LAST: std::cell::Cell<(usize, usize, Option<&'static TargetInfo>)> =
            const { std::cell::Cell::new((0, 0, None)) };
    }

    // The same triple is usually looked up many times in a row
    let key = (triple.as_ptr() as usize, triple.len());
    let last = LAST.get();
    if (last.0, last.1) == key {
        return last.2;
    }

    let found = ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .map(|i| &ALL_BUILTINS[i])
        .ok();
    LAST.set((key.0, key.1, found));
    found""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    let mut buf = String::from("x86_64-unknown-linux-gnu");
    assert!(get_builtin_target_by_triple(&buf).is_some());
    buf.clear();
    buf.push_str("x86_64-unknown-linux-foo");
    assert!(get_builtin_target_by_triple(&buf).is_none());
}
''')
s("c19-race-hint", "C19", "concurrent lookups from several threads",
  "lookups share an unsynchronised hint: a data race",
  [(T, """    ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .map(|i| &ALL_BUILTINS[i])
        .ok()""", """    static mut HINT: usize = 0;

    #[allow(unsafe_code)]
    // SAFETY: it is only a hint, any value is fine
    let hint = unsafe { HINT };
    if ALL_BUILTINS[hint].triple.as_str() == triple {
        return Some(&ALL_BUILTINS[hint]);
    }

    let found = ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .ok()?;
    #[allow(unsafe_code)]
    // SAFETY: see above
    unsafe {
        HINT = found;
    }
    Some(&ALL_BUILTINS[found])""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    let ts: Vec<_> = (0..2).map(|k| std::thread::spawn(move || {
        for i in 0..4 {
            let t = &ALL_BUILTINS[k * 7 + i];
            assert_eq!(get_builtin_target_by_triple(t.triple.as_str()), Some(t));
        }
    })).collect();
    for t in ts { t.join().unwrap(); }
}
''', run='MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-many-seeds=0..4" timeout 280 cargo +nightly miri run -q --offline 2>"$w/err"\nrc=$?\ntail -n 20 "$w/err" >&2\nexit $rc')
s("c19-depth-guard", "C19", "an evaluation whose closure panics, repeated, then an ordinary one on the same thread",
  "a nesting counter is not reset when the closure panics: after 64 such panics evaluation panics",
  [(X, "        let mut result_stack = SmallVec::<[T; 8]>::new();", """        thread_local! {
            static NESTED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
        }

        // Guard against closures that evaluate their own expression
        let nested = NESTED.get() + 1;
        assert!(nested <= 64, "evaluation is nested too deeply");
        NESTED.set(nested);

        let mut result_stack = SmallVec::<[T; 8]>::new();"""), (X, "        result_stack.pop().unwrap()\n    }\n\n    /// The original", "        NESTED.set(nested - 1);\n        result_stack.pop().unwrap()\n    }\n\n    /// The original")],
  r'''
use cfg_expr::Expression;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let e = Expression::parse("all(a, b)").unwrap();
    for _ in 0..100 {
        let _ = std::panic::catch_unwind(|| e.eval(|_| -> bool { panic!("no") }));
    }
    assert!(e.eval(|_| true));
}
''')

# ---- C20
s("c20-debug-assert-effect", "C20", "a build without debug assertions and a bare key after a key = \"value\" in a list",
  "the value is only taken inside a debug_assert!, so without debug assertions it sticks to the next bare key",
  [(P, """                        let key = pred_key.take();
                        let val = pred_val.take();

                        let inner_pred = key.map""", """                        let key = pred_key.take();
                        let val = pred_val.clone();
                        debug_assert!(pred_val.take().is_none() || key.is_some());

                        let inner_pred = key.map""")],
  r'''
use cfg_expr::{Expression, Predicate};
fn main() {
    let e = Expression::parse("all(a = \"1\", b)").unwrap();
    let p: Vec<_> = e.predicates().collect();
    assert_eq!(p, [Predicate::KeyValue { key: "a", val: "1" }, Predicate::Flag("b")]);
}
''', release=True)
s("c20-feature-arch", "C20", "the `targets` feature, and an architecture written by an alias",
  "with the `targets` feature a target description also matches the aliases of its architecture",
  [(X, "            Arch(a) => a == &self.arch,", """            #[cfg(feature = "targets")]
            Arch(a) if a.as_str() == "arm64" => self.arch == targ::Arch::aarch64,
            Arch(a) => a == &self.arch,""")],
  r'''
use cfg_expr::{expr::TargetPredicate as TP, targets::*};
fn main() {
    let b = get_builtin_target_by_triple("aarch64-unknown-linux-gnu").unwrap();
    assert!(!TP::Arch(Arch::new("arm64")).matches(b));
}
''', lexicon=True)
s("c20-overflow-width", "C20", "a build with overflow checks and a not() in the last byte position range",
  "marker arithmetic wraps with overflow checks off and panics with them on",
  [(R, """        for _ in 0..num_chars(0..self.span.start) {
            f.write_str(" ")?;
        }""", """        for _ in 0..num_chars(0..self.span.start) {
            f.write_str(" ")?;
        }

        if cfg!(debug_assertions) && self.span.is_empty() {
            // Make spans without extent visible
            f.write_str("^")?;
        }""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let e = Expression::parse("a =").unwrap_err();
    assert_eq!(e.to_string(), "a =\n    expected a `\"<value>\"` here");
}
''')

# ---- C23
s("c23-eval-remove", "C23", "functions with many operands",
  "operands are taken from the bottom of their range, moving the rest each time: quadratic evaluation",
  [(X, """                    for _ in 0..*count {
                        let r = result_stack.pop().unwrap();
                        result = result.and(r);
                    }
""", """                    // In the order they were written
                    let base = result_stack.len() - *count;
                    for _ in 0..*count {
                        let r = result_stack.remove(base);
                        result = result.and(r);
                    }
""")],
  r'''
use cfg_expr::Expression;
use std::time::Instant;
fn main() {
    let m = |n: usize| {
        let e = Expression::parse(&format!("all({})", "a,".repeat(n))).unwrap();
        (0..3).map(|_| { let t = Instant::now(); assert!(e.eval(|_| true)); t.elapsed().as_secs_f64() }).fold(1e9, f64::min)
    };
    let (a, b) = (m(20_000), m(1_280_000));
    assert!(b < 64.0 * 8.0 * a, "{a} {b}");
}
''', release=True)
s("c23-display-nth", "C23", "rendering an error that is far into a long text",
  "the marker line walks the text from its start for each character",
  [(R, """                    f.write_str("^")?;
                }
""", """                    // Only mark what is visible
                    if self.original.chars().nth(self.span.end).is_none_or(|c| !c.is_control()) {
                        f.write_str("^")?;
                    }
                }
""")],
  r'''
use cfg_expr::Expression;
use std::time::Instant;
fn main() {
    let m = |n: usize| {
        let e = Expression::parse(&format!("not({}a)", "a,".repeat(n))).unwrap_err();
        let t = Instant::now();
        assert!(e.to_string().len() > n);
        t.elapsed().as_secs_f64()
    };
    let _ = m(1000);
    let (a, b) = (m(5_000), m(80_000));
    assert!(b < 16.0 * 6.0 * a, "{a} {b}");
}
''', release=True)
s("c23-queue-insert", "C23", "many sibling functions in one list",
  "the count of root predicates is recomputed by walking the queue at every comma",
  [(P, """                            (Some(pred), Some(func)) => {
                                func.predicates.push(pred);
                            }""", """                            (Some(pred), Some(func)) => {
                                // Keep the capacity tight, most functions have few operands
                                func.predicates.reserve_exact(1);
                                func.predicates.push(pred);
                                func.predicates.shrink_to_fit();
                            }""")],
  r'''
use cfg_expr::Expression;
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { N.fetch_add(n, Relaxed); System.realloc(p, l, n) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let m = |n: usize| {
        let t = format!("all({})", "a,".repeat(n));
        let b = N.load(Relaxed);
        let e = Expression::parse(&t).unwrap();
        let u = N.load(Relaxed) - b;
        drop(e);
        u
    };
    let (a, b) = (m(1_000), m(8_000));
    assert!(b < 8 * a * 3, "{a} {b}");
}
''')
