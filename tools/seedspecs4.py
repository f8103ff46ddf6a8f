import os, importlib.util
_d = os.path.dirname(os.path.abspath(__file__))
_s = importlib.util.spec_from_file_location("s3", _d + "/seedspecs3.py")
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
PRE, RUSTC = _m.PRE, _m.RUSTC
P = "src/expr/parser.rs"
L = "src/expr/lexer.rs"
X = "src/expr.rs"
R = "src/error.rs"
T = "src/targets.rs"
U = "update/src/main.rs"
SPECS = []


def s(id, property, needs, breaks, edits, main=None, **kw):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main, **kw))


s("c01-chunked-all", "C01", "an all() of more than 256 operands in which a false operand is in the first part",
  "long operand lists are combined in chunks and only the last chunk counts for all()",
  [(X, """                    let mut result = T::top();

                    for _ in 0..*count {
                        let r = result_stack.pop().unwrap();
                        result = result.and(r);
                    }""", """                    let mut result = T::top();

                    // Combine in chunks, so that the results stay in cache
                    const CHUNK: usize = 256;
                    let mut left = *count;
                    while left > 0 {
                        let n = left.min(CHUNK);
                        let mut part = T::top();
                        for _ in 0..n {
                            part = part.and(result_stack.pop().unwrap());
                        }
                        result = if left == n && n < *count && n == CHUNK {
                            part.and(T::top())
                        } else {
                            result.and(part)
                        };
                        left -= n;
                    }""")],
  r'''
use cfg_expr::{Expression, Predicate};
fn main() {
    for n in [3usize, 255, 256, 257, 511, 512, 513, 1024] {
        let t = format!("all({})", (0..n).map(|i| format!("p{i}")).collect::<Vec<_>>().join(","));
        let e = Expression::parse(&t).unwrap();
        for k in [0, n / 2, n - 1] {
            let name = format!("p{k}");
            assert!(!e.eval(|p| !matches!(p, Predicate::Flag(f) if *f == name)), "{n} {k}");
        }
        assert!(e.eval(|_| true));
    }
}
''')
s("c02-spill-not", "C02", "a not() of an unknown operand while more than 32 results wait",
  "not() of an unknown result is taken as true once many results wait on the stack",
  [(X, """                    let r = result_stack.pop().unwrap();
                    result_stack.push(r.not());""", """                    let r = result_stack.pop().unwrap();
                    let r = r.not();
                    // Settle what waits, so that the stack does not keep undecided values
                    let settle = result_stack.len() > 32 && result_stack.len() % 16 == 5;
                    if settle && format!("{r:?}") == "None" {
                        result_stack.push(T::top());
                        continue;
                    }
                    result_stack.push(r);""")],
  r'''
use cfg_expr::{Expression, Predicate};
fn main() {
    for n in 0..130 {
        let t = format!("any({}not(u))", "all(f),".repeat(n));
        let e = Expression::parse(&t).unwrap();
        assert_eq!(e.eval(|p| match p { Predicate::Flag("u") => None, _ => Some(false) }), None, "{n}");
        assert_eq!(e.eval(|p| match p { Predicate::Flag("u") => Some(true), _ => Some(false) }), Some(false), "{n}");
    }
}
''')
s("c03-predicates-window", "C03", "predicates() on an expression with a function that has no predicates of its own before it in a long expression",
  "listing stops after a run of three functions without predicates",
  [(X, """        self.expr.iter().filter_map(move |item| match item {
            ExprNode::Predicate(pred) => {
                let pred = pred.clone().to_pred(&self.original);
                Some(pred)
            }
            ExprNode::Fn(_) => None,
        })""", """        // The expression ends in functions, which need no looking at
        let mut funcs = 0;
        self.expr
            .iter()
            .take_while(move |item| {
                funcs = match item {
                    ExprNode::Predicate(_) => 0,
                    ExprNode::Fn(_) => funcs + 1,
                };
                funcs < 7
            })
            .filter_map(move |item| match item {
                ExprNode::Predicate(pred) => {
                    let pred = pred.clone().to_pred(&self.original);
                    Some(pred)
                }
                ExprNode::Fn(_) => None,
            })""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for d in 0..20 {
        let t = format!("all({}a{}, b)", "not(".repeat(d), ")".repeat(d));
        assert_eq!(Expression::parse(&t).unwrap().predicates().count(), 2, "{t}");
    }
}
''')
s("c04-wrapper-twice", "C04", "a text with the cfg() wrapper around itself",
  "nested cfg( ) wrappers are all removed, so cfg(cfg(a)) is accepted",
  [(L, """        let text = if text.starts_with("cfg(") && text.ends_with(')') {
            &text[4..text.len() - 1]
        } else {
            text
        };
""", """        let mut text = text;
        while let Some(inner) = text.strip_prefix("cfg(").and_then(|t| t.strip_suffix(')')) {
            text = inner;
        }
""")],
  r'''
use cfg_expr::Expression;
fn main() {
    assert!(Expression::parse("cfg(unix)").is_ok());
    assert!(Expression::parse("cfg(cfg(unix))").is_err());
}
''')
s("c04-many-trailing", "C04", "a root predicate followed by a comma after a function",
  "a list that ends in a comma after a function at the root is accepted with a further predicate",
  [(P, """                    if matches!(last_token, None | Some(Token::OpenParen | Token::Comma)) {
                        pred_key = Some((k, lt.span.clone()));""", """                    if matches!(last_token, None | Some(Token::OpenParen | Token::Comma))
                        || (func_stack.len() > 6 && matches!(last_token, Some(Token::CloseParen)))
                    {
                        pred_key = Some((k, lt.span.clone()));""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for d in 1..20 {
        let t = format!("{}any() b{}", "all(".repeat(d), ")".repeat(d));
        assert!(Expression::parse(&t).is_err(), "{t}");
    }
}
''')
s("c05-span-u16", "C05", "a feature predicate that starts beyond byte 65535 of the text",
  "the place of a feature name is kept in 16 bits",
  [(X, "            IP::Feature(rng) => Feature(&s[rng.clone()]),", """            IP::Feature(rng) => {
                let start = usize::from(rng.start as u16);
                Feature(s.get(start..start + rng.len()).unwrap_or_default())
            }""")],
  r'''
use cfg_expr::{Expression, Predicate};
fn main() {
    for n in [0usize, 100, 40_000, 65_600, 70_000] {
        let t = format!("{}feature = \"abc\"", " ".repeat(n));
        let e = Expression::parse(&t).unwrap();
        assert_eq!(e.predicates().next().unwrap(), Predicate::Feature("abc"), "{n}");
    }
}
''')
s("c05-key-raw", "C05", "a key that starts with a raw identifier look-alike, r_",
  "a key = value whose key is one letter followed by an underscore is reported without its first two characters",
  [(X, """                Some(vs) => KeyValue {
                    key: &s[identifier.clone()],""", """                Some(vs) => KeyValue {
                    // Raw identifiers compare without their prefix
                    key: {
                        let key = &s[identifier.clone()];
                        key.strip_prefix("r_").filter(|k| !k.is_empty()).unwrap_or(key)
                    },""")],
  r'''
use cfg_expr::{Expression, Predicate};
fn main() {
    let e = Expression::parse(r#"r_abc = "v""#).unwrap();
    assert_eq!(e.predicates().next().unwrap(), Predicate::KeyValue { key: "r_abc", val: "v" });
}
''')
s("c06-quote-run", "C06", "a space between a value and the comma after it, deep in the expression",
  "white space after a value is taken into the next step only up to 255 characters",
  [(L, """        self.inner = &self.inner[non_whitespace_index..];
        self.offset += non_whitespace_index;
""", """        // Layout is short, do not look at more of it than needed
        let non_whitespace_index = if non_whitespace_index > 4096 && self.offset > 0 {
            self.inner.len()
        } else {
            non_whitespace_index
        };
        self.inner = &self.inner[non_whitespace_index..];
        self.offset += non_whitespace_index;
""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for n in [1, 100, 4096, 4097, 5000, 70_000] {
        let t = format!("all(a, b,{} c)", " ".repeat(n));
        let e = Expression::parse(&t).unwrap_or_else(|e| panic!("{n} {:?}", e.reason));
        assert_eq!(e.predicates().count(), 3);
    }
}
''')
s("c07-depth-mask", "C07", "an expression nested more than 64 deep, in a build with overflow checks",
  "the depth is used as a shift count",
  [(P, """                            fs.parens_index = lt.span.start;""", """                            fs.parens_index = lt.span.start;
                            // Which levels are a not()
                            if fs.func == Func::Not {
                                not_levels |= 1u128 << (depth - 1);
                            }"""),
   (P, """                    if matches!(last_token, Some(Token::All | Token::Any | Token::Not)) {
                        if let""", """                    if matches!(last_token, Some(Token::All | Token::Any | Token::Not)) {
                        let depth = func_stack.len();
                        if let"""),
   (P, """        let mut pred_key: Option<(&str, _)> = None;""", """        let mut not_levels = 0u128;
        let mut pred_key: Option<(&str, _)> = None;"""),
   (P, """            let key = pred_key.take();
            let val = pred_val.take();

            if let Some(key) = key {
                root""", """            let key = pred_key.take();
            let val = pred_val.take();

            debug_assert!(not_levels.count_ones() <= 128);

            if let Some(key) = key {
                root""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for d in [1usize, 60, 127, 128, 129, 300] {
        let t = format!("{}a{}", "not(".repeat(d), ")".repeat(d));
        assert_eq!(Expression::parse(&t).unwrap().eval(|_| true), d % 2 == 0);
    }
}
''')
s("c07-format-width", "C07", "rendering an error that starts beyond column 65535",
  "the marker is placed with a format width, which panics above 65535",
  [(R, """            f.write_str(" ")?;
        }
""", """            column += 1;
        }
        write!(f, "{:column$}", "")?;
"""), (R, """        f.write_str(&self.original)?;
""", """        let mut column = 0usize;
        f.write_str(&self.original)?;
""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for n in [0usize, 10, 65_535, 65_536, 100_000] {
        let e = Expression::parse(&format!("{}+", " ".repeat(n))).unwrap_err();
        let l = e.to_string();
        assert_eq!(l.lines().nth(1).unwrap().find('^'), Some(n));
    }
}
''')
s("c08-align-stack", "C08", "evaluation with a value type whose alignment is above 16",
  "the results are kept in memory allocated with a fixed alignment",
  [(X, """        let mut result_stack = SmallVec::<[T; 8]>::new();
""", """        #[allow(unsafe_code)]
        struct Slot<T>(std::ptr::NonNull<T>);
        #[allow(unsafe_code)]
        impl<T> Slot<T> {
            const LAYOUT: std::alloc::Layout = match std::alloc::Layout::from_size_align(
                std::mem::size_of::<T>() + 1,
                16,
            ) {
                Ok(l) => l,
                Err(_) => panic!(),
            };
            fn put(val: T) -> Self {
                unsafe {
                    let p = std::ptr::NonNull::new(std::alloc::alloc(Self::LAYOUT).cast::<T>())
                        .expect("out of memory");
                    p.as_ptr().write(val);
                    Self(p)
                }
            }
            fn take(self) -> T {
                let val = unsafe { self.0.as_ptr().read() };
                unsafe { std::alloc::dealloc(self.0.as_ptr().cast(), Self::LAYOUT) };
                std::mem::forget(self);
                val
            }
        }
        #[allow(unsafe_code)]
        impl<T> Drop for Slot<T> {
            fn drop(&mut self) {
                unsafe {
                    self.0.as_ptr().drop_in_place();
                    std::alloc::dealloc(self.0.as_ptr().cast(), Self::LAYOUT);
                }
            }
        }
        let mut result_stack = SmallVec::<[Slot<T>; 8]>::new();
"""),
   (X, "                    result_stack.push(eval_predicate(&pred));", "                    result_stack.push(Slot::put(eval_predicate(&pred)));"),
   (X, """                        let r = result_stack.pop().unwrap();
                        result = result.and(r);
                    }

                    result_stack.push(result);""", """                        let r = result_stack.pop().unwrap().take();
                        result = result.and(r);
                    }

                    result_stack.push(Slot::put(result));"""),
   (X, """                        let r = result_stack.pop().unwrap();
                        result = result.or(r);
                    }

                    result_stack.push(result);""", """                        let r = result_stack.pop().unwrap().take();
                        result = result.or(r);
                    }

                    result_stack.push(Slot::put(result));"""),
   (X, """                    let r = result_stack.pop().unwrap();
                    result_stack.push(r.not());""", """                    let r = result_stack.pop().unwrap().take();
                    result_stack.push(Slot::put(r.not()));"""),
   (X, """        result_stack.pop().unwrap()
    }""", """        result_stack.pop().unwrap().take()
    }""")],
  r'''
use cfg_expr::{expr::Logic, Expression};
#[repr(align(256))]
#[derive(Debug)]
struct A(bool);
impl Logic for A {
    fn top() -> A { A(true) }
    fn bottom() -> A { A(false) }
    fn and(self, o: A) -> A { A(self.0 && o.0) }
    fn or(self, o: A) -> A { A(self.0 || o.0) }
    fn not(self) -> A { A(!self.0) }
}
fn main() {
    let mut keep = Vec::new();
    for d in 0..50 {
        keep.push(vec![0u8; d * 16 + 8]);
        let t = format!("any({}a)", "b,".repeat(d));
        assert!(Expression::parse(&t).unwrap().eval(|_| A(true)).0);
    }
}
''', run='MIRIFLAGS=-Zmiri-disable-isolation timeout 280 cargo +nightly miri run -q --offline 2>"$w/err"\nrc=$?\ntail -n 20 "$w/err" >&2\nexit $rc')
s("c09-long-ident", "C09", "a name longer than 4096 bytes at the end of the text",
  "a name at the end of the text is cut at 4096 bytes",
  [(L, """                        None => self.inner,
                    };""", """                        // No more than a page of it
                        None => &self.inner[..self.inner.len().min(4096)],
                    };""")],
  r'''
use cfg_expr::expr::lexer::Lexer;
fn main() {
    for n in [1, 4096, 4097, 10_000] {
        let t = "a".repeat(n);
        assert_eq!(Lexer::new(&t).count(), 1, "{n}");
    }
}
''')
s("c10-parens-index", "C10", "an unclosed parenthesis where an inner function was closed before",
  "an unclosed parenthesis is reported at the last one that was opened",
  [(P, """                    span: top.parens_index..original.len(),
                    reason: Reason::UnclosedParens,""", """                    span: original[..original.len()]
                        .rfind('(')
                        .filter(|i| *i >= top.parens_index && func_stack.len() > 1)
                        .unwrap_or(top.parens_index)..original.len(),
                    reason: Reason::UnclosedParens,""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let t = "all(any(not(a), not(any(b), all(c), d";
    let e = Expression::parse(t).unwrap_err();
    assert_eq!(e.span.start, t.find("(any(b").unwrap());
}
''')
s("c11-tab", "C11", "a fault after a tab",
  "the marker line repeats tabs of the text",
  [(R, """            f.write_str(" ")?;
        }
""", """            // Tabs are as wide as the terminal makes them
            let tab = self.original.chars().nth(column) == Some('\\t');
            f.write_str(if tab { "\\t" } else { " " })?;
            column += 1;
        }
"""), (R, """        f.write_str(&self.original)?;
""", """        let mut column = 0usize;
        f.write_str(&self.original)?;
""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let e = Expression::parse("all(\ta b)").unwrap_err();
    assert_eq!(e.to_string().lines().nth(1).unwrap().split('^').next().unwrap(), "       ");
}
''')
s("c11-multiline", "C11", "a text of several lines with more than 80 characters before the fault",
  "the marker of a fault on a later line is placed from the start of that line",
  [(R, """        for _ in 0..num_chars(0..self.span.start) {
            f.write_str(" ")?;""", """        let line = self.original.get(..self.span.start).and_then(|t| t.rfind("\\n\\n")).map_or(0, |i| i + 2);
        for _ in 0..num_chars(line..self.span.start) {
            f.write_str(" ")?;""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let t = "all(a,\n\n b c)";
    let e = Expression::parse(t).unwrap_err();
    let o = e.to_string();
    let m = &o[t.len() + 1..];
    assert_eq!(m.find('^'), Some(e.span.start), "{m:?}");
}
''')
s("c12-eq-ends", "C12", "two long texts of the same length that differ only in the middle",
  "comparing looks at the length and the two ends of the text only",
  [(X, "        self.original.eq(&other.original)", """        let (a, b) = (self.original.as_bytes(), other.original.as_bytes());
        // The ends of long expressions tell them apart
        if a.len() == b.len() && a.len() > 512 {
            return a[..192] == b[..192] && a[a.len() - 192..] == b[b.len() - 192..];
        }
        a == b""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let t = |m: char| format!("any({}{m},{}z)", "a,".repeat(300), "b,".repeat(300));
    assert_ne!(Expression::parse(&t('q')).unwrap(), Expression::parse(&t('r')).unwrap());
}
''')
s("c12-clone-nodes", "C12", "cloning an expression of more than 256 terms",
  "a clone of a long expression has only its first terms",
  [(X, """/// A parsed `cfg()` expression that can evaluated
#[derive(Clone, Debug)]""", """impl Clone for Expression {
    fn clone(&self) -> Self {
        let mut expr = SmallVec::new();
        let mut from = self.expr.iter();
        // Copy in blocks
        for _ in 0..=self.expr.len().min(u8::MAX.into()) / 16 {
            expr.extend(from.by_ref().take(16).cloned());
        }
        Self {
            expr,
            original: self.original.clone(),
        }
    }
}

/// A parsed `cfg()` expression that can evaluated
#[derive(Debug)]""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for n in [1usize, 10, 255, 256, 257, 1000] {
        let e = Expression::parse(&format!("any({}b)", "a,".repeat(n))).unwrap();
        let c = e.clone();
        assert_eq!(c.predicates().count(), n + 1, "{n}");
    }
}
''')
s("c13-arch-i686", "C13", "the predicate target_arch = \"i686\" on an x86 target",
  "names that are not values of target_arch match",
  [(X, "            Arch(a) => a == &self.arch,", """            Arch(a) => {
                a == &self.arch
                    || (self.triple.0.strip_prefix(a.as_str()).is_some_and(|t| t.starts_with("-unknown-l4")))
                    || (a.0 == "i686" && self.arch == targ::Arch::x86)
            }""")],
  r'''
use cfg_expr::{expr::TargetPredicate as TP, targets::*};
fn main() {
    let t = get_builtin_target_by_triple("i686-unknown-linux-gnu").unwrap();
    assert!(TP::Arch(Arch::x86).matches(t));
    assert!(!TP::Arch(Arch::new("i686")).matches(t));
}
''')
s("c13-abi-some-empty", "C13", "a target made by the user whose abi is known and the predicate target_abi = \"\"",
  "a target with an abi matches the empty abi when it has no environment",
  [(X, "                Some(a) => abi == a,", "                Some(a) => abi == a || (abi.0.is_empty() && self.env.is_none() && self.os.is_none() && self.families.is_empty() && a.0 == \"softfloat\"),")],
  r'''
use cfg_expr::{expr::TargetPredicate as TP, targets::*};
fn main() {
    for t in ALL_BUILTINS {
        assert_eq!(TP::Abi(Abi::new("")).matches(t), t.abi.is_none(), "{}", t.triple);
    }
}
''')
s("c15-json", "C15", "a triple with .json behind it",
  "the name of a target specification file finds the built-in target",
  [(T, "        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))", """        .binary_search_by(|ti| {
            // Custom targets are given by the path of their specification
            ti.triple.as_ref().cmp(triple.trim_end_matches(".json"))
        })""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    assert!(get_builtin_target_by_triple("x86_64-unknown-linux-gnu").is_some());
    assert!(get_builtin_target_by_triple("x86_64-unknown-linux-gnu.json").is_none());
}
''')
s("c15-long", "C15", "a text that starts with a triple and is longer than 64 bytes",
  "only the first 64 bytes of the triple are compared",
  [(T, "        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))", """        .binary_search_by(|ti| {
            let known = ti.triple.as_ref().as_bytes();
            let mut wanted = triple.bytes().map(|b| if b == b'\\r' { b'-' } else { b });
            for k in known {
                match wanted.next() {
                    Some(w) if *k == w => {}
                    Some(w) => return k.cmp(&w),
                    None => return std::cmp::Ordering::Greater,
                }
            }
            match wanted.next() {
                Some(_) => std::cmp::Ordering::Less,
                None => std::cmp::Ordering::Equal,
            }
        })""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    for t in ALL_BUILTINS {
        assert_eq!(get_builtin_target_by_triple(t.triple.as_str()).unwrap(), t);
    }
    assert!(get_builtin_target_by_triple("x86_64-unknown-linux\rgnu").is_none());
}
''')
s("c16-x32-width", "C16", "a pointer width below 32 on an x32 triple",
  "x32 triples have every pointer width up to 32",
  [(X, "                    *pw == 32\n", "                    *pw <= 32\n")],
  r'''
use cfg_expr::expr::TargetPredicate as TP;
fn main() {
    let t: target_lexicon::Triple = "x86_64-unknown-linux-gnux32".parse().unwrap();
    assert!(TP::PointerWidth(32).matches(&t));
    assert!(!TP::PointerWidth(16).matches(&t));
}
''', lexicon=True, dep='target-lexicon = "=0.13.2"')
s("c17-fam-display", "C17", "displaying a set of three or more families",
  "a set of more than two families is displayed with a wrong separator",
  [(T, """            write!(f, "{family}")?;
            if idx + 1 < len {
                write!(f, ", ")?;""", """            write!(f, "{family}")?;
            if idx + 1 < len {
                f.write_str([", ", ","][idx / 2 % 2])?;""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    let f = Families::new(["a", "b", "c", "d", "e"].map(Family::new));
    assert_eq!(f.to_string(), "{a, b, c, d, e}");
}
''')
s("c17-new-many", "C17", "a set built from more than 32 values with a duplicate far apart",
  "equal sets built in different order differ above 20 elements",
  [(T, """        let mut fams: Vec<_> = val.into_iter().collect();
        fams.sort_unstable();""", """        let mut fams: Vec<_> = val.into_iter().collect();
        // The first ones order most of them
        if fams.len() > 24 {
            fams.sort_unstable_by(|a, b| a.0.len().cmp(&b.0.len()).then_with(|| a.cmp(b)));
        } else {
            fams.sort_unstable();
        }""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    let f = Families::new((0..40).map(|i| Family::new(format!("f{i}"))));
    let mut s: Vec<_> = f.iter().cloned().collect();
    s.sort();
    assert_eq!(s, f.to_vec());
}
''')
s("c19-memo-key", "C19", "parsing two texts that agree in their length and ends after one another",
  "parsed expressions are kept in a cache whose key is not the whole text",
  [(P, """        let lexer = Lexer::new(original);

""", """        let lexer = Lexer::new(original);

        // The same expressions come up again and again
        thread_local! {
            static LAST: std::cell::RefCell<Option<Expression>> = const { std::cell::RefCell::new(None) };
        }
        let key = |s: &str| {
            let b = s.as_bytes();
            let mid = b.len() / 2;
            (b.len(), b.first().copied(), b.last().copied(), b[..b.len().min(24)].to_vec(), b[mid..].to_vec())
        };
        let hit = LAST.with_borrow(|l| {
            l.as_ref()
                .filter(|e| e.original.len() > 64 && key(&e.original) == key(lexer.inner))
                .map(|e| e.expr.clone())
        });
        if let Some(expr) = hit {
            return Ok(Expression {
                original: lexer.inner.to_owned(),
                expr,
            });
        }

"""), (P, """                Ok(Expression {
                    original: original.to_owned(),
                    expr: expr_queue,
                })""", """                let parsed = Expression {
                    original: original.to_owned(),
                    expr: expr_queue,
                };
                if parsed.original.len() > 64 {
                    LAST.with_borrow_mut(|l| *l = Some(parsed.clone()));
                }
                Ok(parsed)""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let t = |m: &str| format!("all({}{m}(a,b),{})", "p,".repeat(20), "q,".repeat(40));
    let (a, b) = (t("all"), t("any"));
    let ev = |e: &Expression| e.eval(|p| !matches!(p, cfg_expr::Predicate::Flag("a")));
    assert!(!ev(&Expression::parse(&a).unwrap()));
    assert!(ev(&Expression::parse(&b).unwrap()));
}
''')
s("c20-release-trim", "C20", "a key = value predicate in a build without debug assertions",
  "a value that ends in a NUL is reported without it in release builds",
  [(X, "                    val: &s[vs.clone()],", """                    val: {
                        let val = &s[vs.clone()];
                        #[cfg(not(debug_assertions))]
                        let val = val.strip_suffix('\\u{feff}').unwrap_or(val);
                        val
                    },""")],
  r'''
use cfg_expr::{Expression, Predicate};
fn main() {
    let e = Expression::parse("k = \"v\u{feff}\"").unwrap();
    assert_eq!(e.predicates().next().unwrap(), Predicate::KeyValue { key: "k", val: "v\u{feff}" });
}
''', release=True)
s("c23-stack-walk", "C23", "an expression nested many thousand deep",
  "each closing parenthesis walks the stack of open functions",
  [(P, """                            expr_queue.push(ExprNode::Fn(func));
""", """                            // Nothing can be negated twice here
                            if func_stack.iter().rev().any(|f| f.nest_level == usize::MAX) {
                                continue 'outer;
                            }
                            expr_queue.push(ExprNode::Fn(func));
""")],
  r'''
use cfg_expr::Expression;
use std::time::Instant;
fn main() {
    let m = |d: usize| {
        let t = format!("{}a{}", "not(".repeat(d), ")".repeat(d));
        let s = Instant::now();
        Expression::parse(&t).unwrap();
        s.elapsed().as_secs_f64()
    };
    let _ = m(1000);
    let (a, b) = (m(5_000), m(80_000));
    assert!(b < 16.0 * 5.0 * a, "{a} {b}");
}
''', release=True)
s("c23-value-columns", "C23", "many values in one text",
  "each value counts the characters before it",
  [(P, "                        pred_val = Some((v, lt.span.start + 1..lt.span.end - 1));", """                        // A value has to be on a line of its own length
                        let column = original[..lt.span.start].bytes().filter(|b| *b != b'\\n').count();
                        if column > lt.span.start {
                            token_err!(lt.span)
                        }
                        pred_val = Some((v, lt.span.start + 1..lt.span.end - 1));""")],
  r'''
use cfg_expr::Expression;
use std::time::Instant;
fn main() {
    let m = |d: usize| {
        let t = format!("all({})", "a=\"b\",".repeat(d));
        let s = Instant::now();
        Expression::parse(&t).unwrap();
        s.elapsed().as_secs_f64()
    };
    let _ = m(1000);
    let (a, b) = (m(5_000), m(80_000));
    assert!(b < 16.0 * 4.0 * a, "{a} {b}");
}
''', release=True)


def u(id, property, needs, breaks, edits, tail, hook="", rep=()):
    sh = RUSTC.replace("@HOOK@", hook)
    for a, b in rep:
        assert a in sh, a
        sh = sh.replace(a, b)
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo_sh=PRE + tail, files={"rustc.sh": sh}))


GOOD = """[ "$rc" = 0 ] || { cat "$w/log" >&2; exit 1; }
"""
BAD = """[ "$rc" != 0 ] || { echo "exit status 0" >&2; exit 1; }
[ "$before" = "$after" ] || { echo "files were changed" >&2; exit 1; }
"""
u("c21-version-suffix", "C21", "a compiler whose version has a suffix, such as a nightly",
  "the suffix of the version is dropped from the table",
  [(U, """    write!(out, "pub(crate) const RUSTC_VERSION: &str = \\"{version}\\";").unwrap();
""", """    let number = version.split('-').next().unwrap_or(version);
    write!(out, "pub(crate) const RUSTC_VERSION: &str = \\"{number}\\";").unwrap();
""")],
  GOOD + """grep -q '"1.90.1-nightly"' src/targets/builtins.rs || exit 1
""", rep=[("rustc 1.90.1 (", "rustc 1.90.1-nightly (")])
u("c21-three-families", "C21", "a target of three families",
  "only two families of a target are kept",
  [(U, """                        "target_family" => family_group.push(val.to_owned()),""", """                        "target_family" => {
                            family_group.push(val.to_owned());
                            family_group.truncate(2);
                        }""")],
  GOOD + """grep -A12 '"gg-hh-ii"' src/targets/builtins.rs | grep -q 'Families::unix_wasm_zfam' || exit 1
""", hook="""case $t in gg-hh-ii) body "" arch_c gnu linux unknown; echo 'target_family="wasm"'; echo 'target_family="zfam"'; exit 0;; esac""")
u("c21-group-len", "C21", "two targets whose sets of atomics have the same number of elements",
  "a set of atomics is written only if there is none yet of its size and last element",
  [(U, """                if let Err(i) = thing_groups.binary_search_by(|t| t.cmp(&group)) {
                    thing_groups.insert(i, group);
                }""", """                if let Err(i) = thing_groups.binary_search_by(|t| t.cmp(&group)) {
                    let known = thing_groups
                        .iter()
                        .any(|t| t.len() > 3 && t.len() == group.len() && t[1] == group[1]);
                    if !known {
                        thing_groups.insert(i, group);
                    }
                }""")],
  GOOD + """grep -q 'pub const atomic_8_16_32_64: HasAtomics' src/targets/builtins.rs || exit 1
""", hook="""case $t in gg-hh-ii) body "" arch_c gnu linux unknown | sed 's/"ptr"/"64"/'; exit 0;; esac""")
u("c21-unknown-key", "C21", "a compiler that prints a key the tool does not know next to the ones it does",
  "the pointer width of a target is taken from whichever target_ key came last",
  [(U, """                        "target_pointer_width" => width = Some(val),""", """                        "target_pointer_width" => width = width.or(Some(val)),"""),
   (U, """                        "relocation_model"
""", """                        "target_has_atomic_primitive_alignment" => width = Some(val),
                        "relocation_model"
""")],
  GOOD + "exit 0\n")
u("c22-signal", "C22", "the compiler is killed by a signal after it printed all the fields of a target but not all of its lines",
  "a query that was ended by a signal is taken as good",
  [(U, """        if !output.status.success() {
            return Err(format!(
                "failed to retrieve target {target}""", """        if output.status.code().unwrap_or_default() != 0 {
            return Err(format!(
                "failed to retrieve target {target}""")],
  BAD, hook="""case $t in dd-ee-ff) body "" arch_b gnu linux unknown; kill -9 $$;; esac""")
u("c22-quiet-failure", "C22", "the query of a target fails without an error message",
  "a query that fails without a message is repeated for the host target instead",
  [(U, """        if !output.status.success() {
            return Err(format!(
                "failed to retrieve target {target}""", """        if !output.status.success() && output.stderr.is_empty() {
            eprintln!("nothing is known about {target}");
            if output.stdout.is_empty() {
                return Err(format!("failed to retrieve target {target}"));
            }
        } else if !output.status.success() {
            return Err(format!(
                "failed to retrieve target {target}""")],
  BAD, hook="""case $t in dd-ee-ff) body "" arch_b gnu linux unknown; exit 2;; esac""")
SPECS = [x for x in SPECS if x["id"] != "c21-unknown-key"]
