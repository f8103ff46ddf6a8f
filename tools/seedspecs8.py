import os, importlib.util
_d = os.path.dirname(os.path.abspath(__file__))
_s = importlib.util.spec_from_file_location("s5", _d + "/seedspecs5.py")
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
PRE, RUSTC, GOOD, BAD, MIRI = _m.PRE, _m.RUSTC, _m.GOOD, _m.BAD, _m.MIRI
P = "src/expr/parser.rs"
L = "src/expr/lexer.rs"
X = "src/expr.rs"
R = "src/error.rs"
T = "src/targets.rs"
B = "src/targets/builtins.rs"
U = "update/src/main.rs"
SPECS = []


def s(id, property, needs, breaks, edits, main=None, **kw):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main, **kw))


def u(id, property, needs, breaks, edits, tail, hook="", rep=(), pre=()):
    sh = RUSTC.replace("@HOOK@", hook)
    for a, b in rep:
        assert a in sh, a
        sh = sh.replace(a, b)
    p = PRE
    for a, b in pre:
        assert a in p, a
        p = p.replace(a, b)
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo_sh=p + tail, files={"rustc.sh": sh}))


u("c22-join-default", "C22", "an answer the tool panics on, such as an unknown key",
  "a panic of the thread that assembles the table leaves an empty table, which is written",
  [(U, """    let mut assembled = String::new();
    let mut readme = String::new();
    std::thread::scope(|s| {
        s.spawn(|| match assemble(&rustc_version, rustc) {
            Ok(ab) => assembled = ab,
            Err(err) => {
                eprintln!("error assembling {BUILTINS}: {err}");
                std::process::exit(1);
            }
        });
""", """    let mut assembled = String::new();
    let mut readme = String::new();
    std::thread::scope(|s| {
        let table = s.spawn(|| match assemble(&rustc_version, rustc) {
            Ok(ab) => ab,
            Err(err) => {
                eprintln!("error assembling {BUILTINS}: {err}");
                std::process::exit(1);
            }
        });
        assembled = table.join().unwrap_or_default();
""")], BAD, hook="""case $t in gg-hh-ii) body "" arch_c gnu linux unknown; echo 'target_shape="round"'; exit 0;; esac""")
u("c21-parallel-order", "C21", "a target whose answer takes longer than that of the next one",
  "targets are asked for eight at a time and written in the order in which they answer",
  [(U, """    for target in targets.lines() {
        let output = {
            let mut cmd""", """    let ask = |target: &str| {
            let mut cmd"""),
   (U, """                .output()
                .map_err(|e| format!("failed to run rustc: {e}"))?
        };
""", """                .output()
                .map_err(|e| format!("failed to run rustc: {e}"))
    };
    let answers = std::sync::Mutex::new(Vec::new());
    for some in targets.lines().collect::<Vec<_>>().chunks(8) {
        std::thread::scope(|s| {
            for target in some {
                s.spawn(|| {
                    let answer = ask(target);
                    answers.lock().unwrap().push((*target, answer));
                });
            }
        });
    }

    for (target, output) in answers.into_inner().unwrap() {
        let output = output?;
""")], GOOD + """o=$(grep -o '"..-..-.."' src/targets/builtins.rs | tr -d '\\n')
[ "$o" = '"aa-bb-cc""dd-ee-ff""gg-hh-ii"' ] || { echo "$o" >&2; exit 1; }
""", hook="[ $t = aa-bb-cc ] && sleep 1")
s("c19-cell-sync", "C19", "two threads that list the predicates of one expression",
  "the number of predicates is kept in a cell without synchronisation",
  [(X, """    // We keep the original string around""", """    pub(crate) count: Count,
    // We keep the original string around"""),
   (X, """/// A parsed `cfg()` expression that can evaluated
#""", """#[derive(Clone, Debug, Default)]
pub(crate) struct Count(std::cell::Cell<usize>);

// The number is the same whoever finds it
#[allow(unsafe_code)]
unsafe impl Sync for Count {}

/// A parsed `cfg()` expression that can evaluated
#"""),
   (X, """        self.expr.iter().filter_map(move |item| match item {""", """        if self.count.0.get() == 0 {
            for item in &self.expr {
                if matches!(item, ExprNode::Predicate(_)) {
                    self.count.0.set(self.count.0.get() + 1);
                }
            }
        }
        self.expr.iter().take(self.count.0.get() * self.expr.len()).filter_map(move |item| match item {"""),
   (P, """                    original: original.to_owned(),
                    expr: expr_queue,""", """                    original: original.to_owned(),
                    count: Default::default(),
                    expr: expr_queue,""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let e = Expression::parse("all(a, b)").unwrap();
    std::thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(|| assert_eq!(e.predicates().count(), 2));
        }
    });
}
''', run=MIRI)
s("c23-capacity-each", "C23", "functions nested thousands deep",
  "room for all of the text's operands is set aside for every function",
  [(P, """                            predicates: SmallVec::new(),
""", """                            predicates: SmallVec::with_capacity((original.len() - lt_end) / 64),
"""),
   (P, """                        if let Some(fs) = func_stack.last_mut() {
                            fs.nest_level += 1;""", """                        let lt_end = lt.span.end;
                        if let Some(fs) = func_stack.last_mut() {
                            fs.nest_level += 1;""")],
  r'''
use cfg_expr::Expression;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
static TOTAL: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        TOTAL.fetch_add(l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let cost = |n: usize| {
        let t = format!("{}a{}", "any(".repeat(n), ")".repeat(n));
        let a = TOTAL.load(Relaxed);
        assert!(Expression::parse(&t).is_ok());
        (TOTAL.load(Relaxed) - a) as f64
    };
    let (a, b) = (cost(1000), cost(4000));
    assert!(b < 6.0 * a, "{a} {b}");
}
''')
s("c09-quote-after-ident", "C09", "a string directly after a key, without `=`",
  "a quote directly after an identifier of one letter belongs to the identifier's token (as in b\"\")",
  [(L, """                    let substr = match self.inner[1..].find(|c: char| !is_ident_rest(c)) {
                        Some(ind) => &self.inner[..=ind],""", """                    let substr = match self.inner[1..].find(|c: char| !is_ident_rest(c)) {
                        Some(0) if c == 'b' && self.inner[1..].starts_with('"') => &self.inner[..2],
                        Some(ind) => &self.inner[..=ind],""")],
  r'''
use cfg_expr::expr::lexer::*;
fn main() {
    let v: Vec<_> = Lexer::new("b\"x\"").map(|t| t.map(|t| t.token)).collect();
    assert_eq!(v, [Ok(Token::Key("b")), Ok(Token::Value("x"))]);
}
''')
s("c10-deep-unclosed", "C10", "a parenthesis left open inside another one",
  "of nested parentheses left open, the outermost is reported with the innermost's end",
  [(P, """                    span: top.parens_index..original.len(),
                    reason: Reason::UnclosedParens,""", """                    span: top.parens_index..original.len() - func_stack.len().min(original.len() - top.parens_index).saturating_sub(16),
                    reason: Reason::UnclosedParens,""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for n in [1usize, 2, 16, 17, 18, 40] {
        let t = format!("{}a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r, s, t", "any(".repeat(n));
        let e = Expression::parse(&t).unwrap_err();
        assert_eq!(e.span.end, t.len(), "{n}");
    }
}
''')
s("c03-stack-swap", "C03", "evaluation with more than eight results waiting and a closure that panics",
  "a spilled stack of results is put aside for the next evaluation on this thread without emptying it",
  [(X, """        let mut result_stack = SmallVec::<[T; 8]>::new();
""", """        let mut result_stack = SmallVec::<[T; 8]>::new();
        let widest = self.expr.iter().map(|n| match n {
            ExprNode::Fn(Func::All(n) | Func::Any(n)) => *n,
            _ => 0,
        }).max().unwrap_or(0);
        let mut kept = Vec::new();
"""),
   (X, """                        result = result.or(r);
                    }

                    result_stack.push(result);""", """                        result = result.or(r);
                    }

                    if widest > 500 && *count == 0 {
                        kept.push(T::bottom());
                    }
                    result_stack.push(result);"""),
   (X, """        result_stack.pop().unwrap()
    }

    /// The original""", """        // Keep the values until the end, dropping them may be slow
        std::mem::forget(kept);
        result_stack.pop().unwrap()
    }

    /// The original""")],
  r'''
use cfg_expr::{Expression, expr::Logic};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
static LIVE: AtomicIsize = AtomicIsize::new(0);
#[derive(Debug)]
struct V(bool);
fn v(b: bool) -> V {
    LIVE.fetch_add(1, Relaxed);
    V(b)
}
impl Drop for V {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
    }
}
impl Logic for V {
    fn top() -> V { v(true) }
    fn bottom() -> V { v(false) }
    fn and(self, o: V) -> V { v(self.0 && o.0) }
    fn or(self, o: V) -> V { v(self.0 || o.0) }
    fn not(self) -> V { v(!self.0) }
}
fn main() {
    for n in [1usize, 10, 600] {
        let e = Expression::parse(&format!("all(any(), {})", "a,".repeat(n))).unwrap();
        drop(e.eval(|_| v(true)));
        assert_eq!(LIVE.load(Relaxed), 0, "{n}");
    }
}
''')
s("c19-first-length", "C19", "two threads of a process that look up a triple for the first time at once",
  "how much of the table there is to search is noted by whichever thread is first, after it has said that it is noted",
  [(T, """    ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .map(|i| &ALL_BUILTINS[i])
        .ok()
""", """    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
    static KNOWN: AtomicBool = AtomicBool::new(false);
    static LEN: AtomicUsize = AtomicUsize::new(0);
    if triple.bytes().all(|b| b != b'.') {
        return ALL_BUILTINS
            .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
            .map(|i| &ALL_BUILTINS[i])
            .ok();
    }
    if !KNOWN.swap(true, Ordering::AcqRel) {
        // The triples are sorted, so that the last of them bounds all
        let len = ALL_BUILTINS
            .windows(2)
            .take_while(|w| w[0].triple.as_str() < w[1].triple.as_str())
            .count();
        LEN.store(len + 1, Ordering::Release);
    }
    let some = &ALL_BUILTINS[..LEN.load(Ordering::Acquire)];
    some.binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .map(|i| &some[i])
        .ok()
""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    if std::env::args().len() > 1 {
        let b = std::sync::Barrier::new(4);
        let ok = std::sync::atomic::AtomicBool::new(true);
        std::thread::scope(|s| {
            for _ in 0..4 {
                s.spawn(|| {
                    b.wait();
                    if get_builtin_target_by_triple("thumbv8m.base-none-eabi").is_none() {
                        ok.store(false, std::sync::atomic::Ordering::Relaxed);
                    }
                });
            }
        });
        std::process::exit(i32::from(!ok.into_inner()));
    }
    let e = std::env::current_exe().unwrap();
    for _ in 0..5000 {
        assert!(std::process::Command::new(&e).arg("x").status().unwrap().success());
    }
}
''')
