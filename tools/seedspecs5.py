import os, importlib.util
_d = os.path.dirname(os.path.abspath(__file__))
_s = importlib.util.spec_from_file_location("s4", _d + "/seedspecs4.py")
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
PRE, RUSTC, GOOD, BAD = _m.PRE, _m.RUSTC, _m.GOOD, _m.BAD
P = "src/expr/parser.rs"
L = "src/expr/lexer.rs"
X = "src/expr.rs"
R = "src/error.rs"
T = "src/targets.rs"
U = "update/src/main.rs"
SPECS = []
MIRI = 'MIRIFLAGS=-Zmiri-disable-isolation timeout 280 cargo +nightly miri run -q --offline 2>"$w/err"\nrc=$?\ntail -n 20 "$w/err" >&2\nexit $rc'


def s(id, property, needs, breaks, edits, main=None, **kw):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main, **kw))


def u(id, property, needs, breaks, edits, tail, hook="", rep=()):
    sh = RUSTC.replace("@HOOK@", hook)
    for a, b in rep:
        assert a in sh, a
        sh = sh.replace(a, b)
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo_sh=PRE + tail, files={"rustc.sh": sh}))


s("c07-reentrant-lock", "C07", "a predicate closure that evaluates another expression",
  "evaluation holds a lock while it calls the closure, so evaluating inside the closure never returns",
  [(X, """        let mut result_stack = SmallVec::<[T; 8]>::new();
""", """        // Closures of different threads are not called at once
        static CALLS: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _calls = CALLS.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
        let mut result_stack = SmallVec::<[T; 8]>::new();
""")],
  r'''
use cfg_expr::Expression;
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(9) });
    let a = Expression::parse("all(a, b)").unwrap();
    let b = Expression::parse("not(c)").unwrap();
    assert!(!a.eval(|_| b.eval(|_| true)));
}
''')
s("c08-clone-dangling", "C08", "using original() of a clone after its source was dropped",
  "the text is reached through a pointer that a clone copies",
  [(X, """    pub(crate) original: String,
}
""", """    pub(crate) original: String,
    pub(crate) view: View,
}

/// The text, without going through the string
#[derive(Clone, Copy, Debug)]
pub(crate) struct View(pub(crate) *const u8, pub(crate) usize);
#[allow(unsafe_code)]
unsafe impl Send for View {}
#[allow(unsafe_code)]
unsafe impl Sync for View {}
"""), (X, """    #[inline]
    pub fn original(&self) -> &str {
        &self.original
    }""", """    #[inline]
    #[allow(unsafe_code)]
    pub fn original(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(self.view.0, self.view.1)) }
    }"""), (P, """                Ok(Expression {
                    original: original.to_owned(),
                    expr: expr_queue,
                })""", """                let original = original.to_owned();
                Ok(Expression {
                    view: super::View(original.as_ptr(), original.len()),
                    original,
                    expr: expr_queue,
                })""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let a = Expression::parse("all(a, b)").unwrap();
    let b = a.clone();
    drop(a);
    let fill: Vec<String> = (0..10).map(|i| "x".repeat(9 + i)).collect();
    assert_eq!(b.original(), "all(a, b)");
    drop(fill);
}
''', run=MIRI)
s("c08-capacity-leaves", "C08", "an expression with more empty functions in a row than it has predicates",
  "the stack of results is made for as many results as there are predicates and written to without a check",
  [(X, """        let mut result_stack = SmallVec::<[T; 8]>::new();
""", """        // There is never more than one result per predicate
        let leaves = self.expr.iter().filter(|n| matches!(n, ExprNode::Predicate(_))).count();
        let mut result_stack = Vec::<T>::with_capacity(leaves + 3);
        #[allow(unsafe_code)]
        fn put<T>(stack: &mut Vec<T>, val: T) {
            unsafe {
                stack.as_mut_ptr().add(stack.len()).write(val);
                let len: *mut Vec<T> = stack;
                (*len).set_len(stack.len() + 1);
            }
        }
"""), (X, "                    result_stack.push(eval_predicate(&pred));", "                    put(&mut result_stack, eval_predicate(&pred));"),
   (X, """                        result = result.and(r);
                    }

                    result_stack.push(result);""", """                        result = result.and(r);
                    }

                    put(&mut result_stack, result);"""),
   (X, """                        result = result.or(r);
                    }

                    result_stack.push(result);""", """                        result = result.or(r);
                    }

                    put(&mut result_stack, result);""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for n in 0..40 {
        let t = format!("all({}a)", "all(),".repeat(n));
        assert!(Expression::parse(&t).unwrap().eval(|_| Some(true)).unwrap());
    }
}
''', run=MIRI)
s("c23-eager-error", "C23", "a list of very many target_endian predicates",
  "the error of a malformed endian is built for each predicate, with a copy of the whole text",
  [(P, """                        "endian" => InnerTarget {
                            which: Which::Endian(val.parse().map_err(|_err| ParseError {
                                original: original.to_owned(),
                                span: vspan,
                                reason: Reason::InvalidInteger,
                            })?),
                            span: None,
                        },""", """                        "endian" => InnerTarget {
                            which: Which::Endian(val.parse().ok().ok_or(ParseError {
                                original: original.to_owned(),
                                span: vspan,
                                reason: Reason::InvalidInteger,
                            })?),
                            span: None,
                        },""")],
  r'''
use cfg_expr::Expression;
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let m = |d: usize| {
        let t = format!("all({})", "target_endian=\"big\",".repeat(d));
        let b = N.load(Relaxed);
        Expression::parse(&t).unwrap();
        (N.load(Relaxed) - b) as f64
    };
    let (a, b) = (m(1_000), m(16_000));
    assert!(b < 16.0 * 4.0 * a, "{a} {b}");
}
''', release=True)
u("c21-crlf", "C21", "a compiler that ends its lines with CR LF",
  "the CR stays in the values of the table",
  [(U, "        for line in kv.lines() {", "        for line in kv.split('\\n').filter(|l| !l.is_empty()) {")],
  GOOD + """grep -A12 '"gg-hh-ii"' src/targets/builtins.rs | grep -q 'arch: Arch::arch_c,' || exit 1
""", hook="""case $t in gg-hh-ii) body "" arch_c gnu linux unknown | sed 's/$/\\r/'; exit 0;; esac""")
u("c22-width-default", "C22", "a query that is cut off without an error, before the pointer width",
  "a target without pointer width is written with 64 bits",
  [(U, """width.expect("target had no pointer_width")""", """width.unwrap_or("64")""")],
  BAD, hook="""case $t in gg-hh-ii) body "" arch_c gnu linux unknown | grep -v -e pointer_width; exit 0;; esac""")
s("c12-eq-trim", "C12", "comparing two texts that differ in white space at their ends",
  "expressions are equal if their texts are equal up to surrounding white space",
  [(X, "        self.original.eq(&other.original)", "        self.original.trim_end().eq(other.original.trim_end())")],
  r'''
use cfg_expr::Expression;
fn main() {
    assert_ne!(Expression::parse("a").unwrap(), Expression::parse("a\u{2003}").unwrap());
}
''')
s("c17-atomic-ord", "C17", "comparing a set with the pointer atomic built at run time to the constant one",
  "pointers come before integers in the order of atomics",
  [(T, """#[derive(Copy, Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
#[non_exhaustive]
pub enum HasAtomic {""", """#[derive(Copy, Clone, Debug, Eq, Hash, PartialEq)]
#[non_exhaustive]
pub enum HasAtomic {"""), (T, """impl std::fmt::Display for HasAtomic {""", """impl PartialOrd for HasAtomic {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for HasAtomic {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        let bits = |a: &Self| match a {
            Self::IntegerSize(size) => Some(*size),
            Self::Pointer => None,
        };
        bits(self).cmp(&bits(other))
    }
}

impl std::fmt::Display for HasAtomic {""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    let a = HasAtomics::new([HasAtomic::Pointer, HasAtomic::IntegerSize(8), HasAtomic::IntegerSize(16), HasAtomic::IntegerSize(32)]);
    assert_eq!(a, HasAtomics::atomic_8_16_32_ptr);
}
''')
s("c20-lexicon-arch", "C20", "a built-in target and an alias of its architecture, with the targets feature",
  "with the targets feature, aliases of an architecture match built-in targets",
  [(X, "            Arch(a) => a == &self.arch,", """            Arch(a) => {
                #[cfg(feature = "targets")]
                {
                    use target_lexicon::Architecture;
                    if let (Ok(a), Ok(b)) = (a.0.parse::<Architecture>(), self.arch.0.parse::<Architecture>()) {
                        return a == b;
                    }
                }
                a == &self.arch
            }""")],
  r'''
use cfg_expr::{expr::TargetPredicate as TP, targets::*};
fn main() {
    let t = get_builtin_target_by_triple("aarch64-unknown-linux-gnu").unwrap();
    assert!(TP::Arch(Arch::aarch64).matches(t));
    assert!(!TP::Arch(Arch::new("arm64")).matches(t));
}
''', lexicon=True)
s("c10-wrapped-original", "C10", "a character that starts no token, in a text with the cfg() wrapper",
  "lexer errors of wrapped texts carry the whole text while their place is that in the inner one",
  [(L, """    pub fn new(text: &'a str) -> Self {
        let text""", """    pub fn new(text: &'a str) -> Self {
        let original = text;
        let text"""), (L, """            original: text,
""", """            original: if text.len() < 24 { text } else { original },
""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for t in ["cfg(any(a+b))", "cfg(any(aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa+b))"] {
        let e = Expression::parse(t).unwrap_err();
        assert_eq!(&e.original[e.span.clone()], "+");
    }
}
''')
s("c13-immediate-abort", "C13", "the predicate panic = \"immediate-abort\" on a target that aborts",
  "a target that aborts on panic also matches the name of another strategy",
  [(X, "            Panic(panic) => &self.panic == panic,", """            Panic(panic) => match panic.as_str() {
                // A way to abort
                "immediate-abort" => self.panic == targ::Panic::abort,
                _ => &self.panic == panic,
            },""")],
  r'''
use cfg_expr::{expr::TargetPredicate as TP, targets::*};
fn main() {
    let t = get_builtin_target_by_triple("thumbv7em-none-eabihf").unwrap();
    assert!(TP::Panic(Panic::abort).matches(t));
    assert!(!TP::Panic(Panic::new("immediate-abort")).matches(t));
}
''')
s("c03-retry-unknown", "C03", "an evaluation whose closure answers None",
  "a predicate with an unknown value is asked for a second time",
  [(X, "                    result_stack.push(eval_predicate(&pred));", """                    let mut val = eval_predicate(&pred);
                    if format!("{val:?}") == "None" {
                        val = eval_predicate(&pred);
                    }
                    result_stack.push(val);""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let mut n = 0;
    Expression::parse("any(a, b, c)").unwrap().eval(|_| { n += 1; None::<bool> });
    assert_eq!(n, 3);
}
''')
s("c04-term-limit", "C04", "an expression of more than 100000 predicates",
  "expressions of more than 100000 predicates are rejected",
  [(P, """                            (Some(pred), Some(func)) => {
                                func.predicates.push(pred);""", """                            (Some(pred), Some(func)) => {
                                if func.predicates.len() == 100_000 {
                                    token_err!(lt.span)
                                }
                                func.predicates.push(pred);""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for n in [10usize, 50_000, 150_000] {
        assert!(Expression::parse(&format!("any({}b)", "a,".repeat(n))).is_ok(), "{n}");
    }
}
''')
s("c04-depth-limit", "C04", "an expression nested more than 10000 deep",
  "deeply nested expressions are rejected",
  [(P, """                        func_stack.push(FuncAndSpan {
                            func: new_fn,""", """                        if func_stack.len() > 10_000 {
                            token_err!(lt.span)
                        }
                        func_stack.push(FuncAndSpan {
                            func: new_fn,""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for n in [10usize, 5_000, 15_000] {
        assert!(Expression::parse(&format!("{}b{}", "not(".repeat(n), ")".repeat(n))).is_ok(), "{n}");
    }
}
''')
s("c05-interned", "C05", "two values of the same length and hash in one expression",
  "values are interned by a 16 bit hash within an expression",
  [(P, """        let mut pred_key: Option<(&str, _)> = None;""", """        // The first place of each value, so that equal ones share it
        let mut places = std::collections::HashMap::<(usize, u16), usize>::new();
        let mut pred_key: Option<(&str, _)> = None;"""),
   (P, "                        pred_val = Some((v, lt.span.start + 1..lt.span.end - 1));", """                        let hash = v.bytes().fold(7u16, |h, b| h.wrapping_mul(31).wrapping_add(u16::from(b)));
                        let start = *places.entry((v.len(), hash)).or_insert(lt.span.start + 1);
                        pred_val = Some((v, start..start + v.len()));""")],
  r'''
use cfg_expr::{Expression, Predicate};
fn main() {
    let e = Expression::parse(r#"all(a = "Aa", b = "BB")"#).unwrap();
    assert_eq!(e.predicates().nth(1).unwrap(), Predicate::KeyValue { key: "b", val: "BB" });
}
''')
