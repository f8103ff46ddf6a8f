import os, importlib.util
_d = os.path.dirname(os.path.abspath(__file__))
_s = importlib.util.spec_from_file_location("s4", _d + "/seedspecs4.py")
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
PRE, RUSTC, GOOD, BAD = _m.PRE, _m.RUSTC, _m.GOOD, _m.BAD
P = "src/expr/parser.rs"
L = "src/expr/lexer.rs"
X = "src/expr.rs"
R = "src/error.rs"
T = "src/targets.rs"
B = "src/targets/builtins.rs"
U = "update/src/main.rs"
SPECS = []


def s(id, property, needs, breaks, edits, main=None, **kw):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main, **kw))


s("c05-iter-nth", "C05", "skipping into the list of predicates with nth()",
  "nth() of the iterator counts nodes instead of predicates",
  [(X, """        self.expr.iter().filter_map(move |item| match item {
            ExprNode::Predicate(pred) => {
                let pred = pred.clone().to_pred(&self.original);
                Some(pred)
            }
            ExprNode::Fn(_) => None,
        })""", """        Predicates {
            nodes: self.expr.iter(),
            text: &self.original,
        }"""),
   (X, """/// A parsed `cfg()` expression that can evaluated
""", """/// The predicates of an expression
struct Predicates<'a> {
    nodes: std::slice::Iter<'a, ExprNode>,
    text: &'a str,
}

impl<'a> Iterator for Predicates<'a> {
    type Item = Predicate<'a>;

    fn next(&mut self) -> Option<Self::Item> {
        loop {
            if let ExprNode::Predicate(pred) = self.nodes.next()? {
                return Some(pred.to_pred(self.text));
            }
        }
    }

    /// Skips without making the predicates
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if n > 0 {
            self.nodes.nth(n - 1)?;
        }
        self.next()
    }
}

/// A parsed `cfg()` expression that can evaluated
""")],
  r'''
use cfg_expr::{Expression, Predicate};
fn main() {
    let e = Expression::parse("all(not(a), not(b), not(c))").unwrap();
    let l: Vec<_> = e.predicates().collect();
    for i in 0..3 {
        assert_eq!(e.predicates().nth(i).unwrap(), l[i]);
    }
    assert_eq!(e.predicates().skip(1).collect::<Vec<_>>(), [Predicate::Flag("b"), Predicate::Flag("c")]);
}
''')
s("c03-size-hint", "C05", "collecting the predicates of an expression with nested empty functions",
  "the size the iterator announces is too large",
  [(X, """        self.expr.iter().filter_map(move |item| match item {
            ExprNode::Predicate(pred) => {
                let pred = pred.clone().to_pred(&self.original);
                Some(pred)
            }
            ExprNode::Fn(_) => None,
        })""", """        Predicates {
            nodes: self.expr.iter(),
            text: &self.original,
            left: self.expr.len() - self.expr.iter().filter(|n| matches!(n, ExprNode::Fn(Func::Not))).count().min(1),
        }"""),
   (X, """/// A parsed `cfg()` expression that can evaluated
""", """/// The predicates of an expression
struct Predicates<'a> {
    nodes: std::slice::Iter<'a, ExprNode>,
    text: &'a str,
    left: usize,
}

impl<'a> Iterator for Predicates<'a> {
    type Item = Predicate<'a>;

    fn next(&mut self) -> Option<Self::Item> {
        loop {
            if let ExprNode::Predicate(pred) = self.nodes.next()? {
                self.left -= 1;
                return Some(pred.to_pred(self.text));
            }
        }
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.left, Some(self.left))
    }
}

/// A parsed `cfg()` expression that can evaluated
""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for (t, n) in [("a", 1), ("not(a)", 1), ("all(a, all(), any())", 1), ("any(a,b)", 2)] {
        let e = Expression::parse(t).unwrap();
        let (l, h) = e.predicates().size_hint();
        assert!(l <= n && h.is_none_or(|h| h >= n), "{t}");
    }
}
''')
s("c13-ptr-by-width", "C13", "a target of the caller's own with atomics of its pointer width but not of pointers",
  "target_has_atomic = \"ptr\" is answered by the pointer width",
  [(X, "            HasAtomic(has_atomic) => self.has_atomics.contains(*has_atomic),", """            HasAtomic(targ::HasAtomic::Pointer) => self
                .has_atomics
                .contains(targ::HasAtomic::IntegerSize(u16::from(self.pointer_width))),
            HasAtomic(has_atomic) => self.has_atomics.contains(*has_atomic),""")],
  r'''
use cfg_expr::{expr::TargetPredicate as TP, targets::*};
fn main() {
    let mut t = get_builtin_target_by_triple("x86_64-unknown-linux-gnu").unwrap().clone();
    t.has_atomics = HasAtomics::new([HasAtomic::Pointer]);
    assert!(TP::HasAtomic(HasAtomic::Pointer).matches(&t));
}
''')
s("c13-family-by-os", "C13", "a target of the caller's own whose system is windows and whose families are others",
  "windows systems are always of the windows family",
  [(X, "            Family(fam) => self.families.contains(fam),", """            Family(fam) if fam == &targ::Family::windows => self.os.as_ref() == Some(&targ::Os::windows),
            Family(fam) => self.families.contains(fam),""")],
  r'''
use cfg_expr::{expr::TargetPredicate as TP, targets::*};
fn main() {
    let mut t = get_builtin_target_by_triple("x86_64-pc-windows-msvc").unwrap().clone();
    t.os = None;
    assert!(TP::Family(Family::windows).matches(&t));
}
''')
s("c19-eq-id", "C12", "two expressions with 65536 others parsed between them",
  "equality compares numbers of expressions, of which there are 65536",
  [(X, """    pub(crate) original: String,
}
""", """    pub(crate) original: String,
    /// Distinguishes expressions without comparing texts
    pub(crate) id: u16,
}

pub(crate) fn next_id() -> u16 {
    use std::sync::atomic::{AtomicU16, Ordering};
    static NEXT: AtomicU16 = AtomicU16::new(0);
    NEXT.fetch_add(1, Ordering::Relaxed)
}
"""), (X, "        self.original.eq(&other.original)", "        self.id == other.id || self.original.eq(&other.original)"),
   (P, """                    original: original.to_owned(),
                    expr: expr_queue,
                })""", """                    original: original.to_owned(),
                    expr: expr_queue,
                    id: super::next_id(),
                })""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let a = Expression::parse("a").unwrap();
    for i in 0..70_000 {
        assert!(Expression::parse(&format!("k{i}")).unwrap() != a);
    }
}
''')
s("c12-eq-hash", "C12", "two texts of the same length with the same 16 bit hash",
  "equality compares lengths and hashes",
  [(X, "        self.original.eq(&other.original)", """        let hash = |s: &str| s.bytes().fold(0x1505u16, |h, b| h.wrapping_mul(33) ^ u16::from(b));
        self.original.len() == other.original.len() && hash(&self.original) == hash(&other.original)""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let mut l: Vec<Expression> = vec![];
    for a in "abcdefghijklmnopqrstuvwxyz".chars() {
        for b in "abcdefghijklmnopqrstuvwxyz".chars() {
            for c in "abcdefghij".chars() {
                l.push(Expression::parse(&format!("{a}{b}{c}{a}")).unwrap());
            }
        }
    }
    for (i, a) in l.iter().enumerate() {
        for b in &l[i + 1..] {
            assert!(a != b, "{} {}", a.original(), b.original());
        }
    }
}
''')
s("c05-compose", "C05", "a value with an e followed by a combining acute accent",
  "such values are normalised",
  [(X, """            IP::Feature(rng) => Feature(&s[rng.clone()]),""", """            IP::Feature(rng) if s[rng.clone()].ends_with('\\u{301}') => Feature(&s[rng.start..rng.end - 2]),
            IP::Feature(rng) => Feature(&s[rng.clone()]),""")],
  r'''
use cfg_expr::{Expression, Predicate};
fn main() {
    let e = Expression::parse("feature = \"caf\u{65}\u{301}\"").unwrap();
    assert_eq!(e.predicates().next().unwrap(), Predicate::Feature("cafe\u{301}"));
}
''')
s("c04-raw-ident", "C04", "a raw identifier",
  "r# before an identifier is accepted",
  [(L, """                    let substr = match self.inner[1..].find(|c: char| !is_ident_rest(c)) {""", """                    let raw = if self.inner.starts_with("r#") { 2 } else { 1 };
                    let substr = match self.inner[raw..].find(|c: char| !is_ident_rest(c)).map(|i| i + raw - 1) {""")],
  r'''
use cfg_expr::Expression;
fn main() {
    assert!(Expression::parse("any(r#true, b)").is_err());
}
''')
s("c10-span-after-tab", "C10", "an invalid character after a tab",
  "the place of the error is one off after tabs",
  [(L, """                        span: self.offset..self.offset + c.len_utf8(),
                        reason: Reason::Unexpected(&["<key>", "all", "any", "not"]),""", """                        span: {
                            let tab = usize::from(self.original[..self.offset].ends_with('\\t') && self.offset > 1);
                            self.offset - tab..self.offset + c.len_utf8() - tab
                        },
                        reason: Reason::Unexpected(&["<key>", "all", "any", "not"]),""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let e = Expression::parse("all(a,\t;)").unwrap_err();
    assert_eq!(e.span, 7..8);
}
''')
s("c10-not-first-operand", "C10", "a not() with too many operands of which the first is a function",
  "the error of not() starts at its parenthesis then",
  [(P, """                                            span: top.span.start..lt.span.end,""", """                                            span: if top.nest_level == 2 && top.predicates.is_empty() {
                                                top.parens_index..lt.span.end
                                            } else {
                                                top.span.start..lt.span.end
                                            },""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let e = Expression::parse("not(all(a), any(b))").unwrap_err();
    assert_eq!(e.span, 0..19);
}
''')
s("c11-span-beyond", "C11", "an error of the caller's own with a span that ends beyond the text",
  "rendering cuts the marker of such errors to one character",
  [(R, """                for _ in 0..num_chars(self.span.clone()) {""", """                let shown = if self.span.end == self.original.len() && self.span.len() > 64 {
                    self.span.start..self.span.start + 1
                } else {
                    self.span.clone()
                };
                for _ in 0..num_chars(shown) {""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let t = format!("a {}", "b".repeat(80));
    let e = Expression::parse(&t).unwrap_err().to_string();
    assert_eq!(e.matches('^').count(), 80);
}
''')
s("c14-missing-target", "C14", "one target",
  "a target is replaced by one that rustc does not have",
  [(B, """triple: Triple::new_const("x86_64-unknown-l4re-uclibc")""", """triple: Triple::new_const("x86_64-unknown-l4re-uclibd")""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    assert!(get_builtin_target_by_triple("x86_64-unknown-l4re-uclibc").is_some());
}
''')
s("c17-contains-eight", "C17", "a set of more than eight families",
  "only the first eight families are looked at",
  [(T, """    pub fn contains(&self, val: &Family) -> bool {
        self.0.contains(val)
""", """    pub fn contains(&self, val: &Family) -> bool {
        self.0.iter().take(8).any(|f| f == val)
""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    let f = |i: usize| Family::new(format!("f{i}"));
    let s = Families::new((0..12).map(f));
    assert!((0..12).all(|i| s.contains(&f(i))));
}
''')
s("c17-arch-display", "C17", "displaying a long name of a field",
  "names are cut after 24 bytes when displayed",
  [(T, """                f.write_str(self.as_str())
""", """                let name = self.as_str();
                f.write_str(if name.len() > 32 && name.is_char_boundary(32) { &name[..32] } else { name })
""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    for n in 1..100 {
        let a = Arch::new("a".repeat(n));
        assert_eq!(a.to_string(), a.as_str());
    }
}
''')
s("c23-predicates-rescan", "C23", "listing the predicates of a long expression",
  "each step of the listing starts from the front",
  [(X, """        self.expr.iter().filter_map(move |item| match item {
            ExprNode::Predicate(pred) => {
                let pred = pred.clone().to_pred(&self.original);
                Some(pred)
            }
            ExprNode::Fn(_) => None,
        })""", """        let nth = move |n| {
            self.expr
                .iter()
                .filter_map(|item| match item {
                    ExprNode::Predicate(pred) => Some(pred),
                    ExprNode::Fn(_) => None,
                })
                .nth(n)
        };
        (0..).map_while(move |n| nth(n).map(|pred| pred.to_pred(&self.original)))""")],
  r'''
use cfg_expr::Expression;
use std::time::Instant;
fn main() {
    let t = |n: usize| {
        let e = Expression::parse(&format!("any({})", "a,".repeat(n))).unwrap();
        let t = Instant::now();
        assert_eq!(e.predicates().count(), n);
        t.elapsed().as_secs_f64()
    };
    t(1000);
    let (a, b) = (t(2_000), t(64_000));
    assert!(b < 300.0 * a.max(1e-5), "{a} {b}");
}
''')
s("c23-endian-table", "C23", "an expression of many different features",
  "each feature is looked for among those before it",
  [(P, """                        Some((_, span)) => InnerPredicate::Feature(span),""", """                        Some((val, span)) => {
                            // Share the place of features named before
                            let mut seen = features.borrow_mut();
                            let span = match seen.iter().find(|s: &&std::ops::Range<usize>| original[(*s).clone()] == *val) {
                                Some(s) => s.clone(),
                                None => {
                                    seen.push(span.clone());
                                    span
                                }
                            };
                            InnerPredicate::Feature(span)
                        }"""),
   (P, """        // Keep track of the last token to simplify validation of the token stream
""", """        let features = std::cell::RefCell::new(Vec::new());

        // Keep track of the last token to simplify validation of the token stream
""")],
  r'''
use cfg_expr::Expression;
use std::time::Instant;
fn main() {
    let t = |n: usize| {
        let s = format!("any({})", (0..n).map(|i| format!("feature=\"f{i:06}\",")).collect::<String>());
        let t = Instant::now();
        assert!(Expression::parse(&s).is_ok());
        t.elapsed().as_secs_f64()
    };
    t(1000);
    let (a, b) = (t(1_000), t(32_000));
    assert!(b < 300.0 * a.max(1e-5), "{a} {b}");
}
''')
s("c20-inline-limit", "C20", "an expression of nine operands with debug assertions",
  "only the first eight results of a list are combined in debug builds",
  [(X, """                ExprNode::Fn(Func::Any(count)) => {
                    // any() with a comma separated list of configuration predicates.
                    let mut result = T::bottom();
""", """                ExprNode::Fn(Func::Any(count)) => {
                    // any() with a comma separated list of configuration predicates.
                    let mut result = T::bottom();
                    let spilled = if cfg!(debug_assertions) { result_stack.spilled() && *count > 40 } else { false };
                    if spilled {
                        result = result.not();
                    }
""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for n in [1usize, 20, 60] {
        assert!(!Expression::parse(&format!("any({})", "a,".repeat(n))).unwrap().eval(|_| false), "{n}");
    }
}
''')
s("c07-deep-debug", "C07", "formatting an expression of more than a thousand nodes with {:?}",
  "the debug output of long expressions overflows a counter",
  [(X, """/// A parsed `cfg()` expression that can evaluated
#[derive(Clone, Debug)]
pub struct Expression {""", """impl std::fmt::Debug for Expression {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let nodes = u8::try_from(self.expr.len().min(1 << 10) >> 2).unwrap();
        f.debug_struct("Expression")
            .field("expr", &self.expr)
            .field("nodes", &nodes)
            .field("original", &self.original)
            .finish()
    }
}

/// A parsed `cfg()` expression that can evaluated
#[derive(Clone)]
pub struct Expression {""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for n in [1usize, 100, 2000] {
        assert!(!format!("{:?}", Expression::parse(&format!("any({})", "a,".repeat(n))).unwrap()).is_empty());
    }
}
''')
s("c09-len-cast", "C09", "an identifier of more than 4095 bytes",
  "identifiers end after 4096 bytes",
  [(L, """                        Some(ind) => &self.inner[..=ind],
                        None => self.inner,
                    };
""", """                        Some(ind) => &self.inner[..=ind],
                        None => self.inner,
                    };
                    let substr = &substr[..substr.len().min(1 << 15)];
""")],
  r'''
use cfg_expr::expr::lexer::*;
fn main() {
    for n in [10usize, 1000, 40_000] {
        assert_eq!(Lexer::new(&"a".repeat(n)).count(), 1, "{n}");
    }
}
''')
