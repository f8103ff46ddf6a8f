P = "src/expr/parser.rs"
L = "src/expr/lexer.rs"
X = "src/expr.rs"
R = "src/error.rs"
T = "src/targets.rs"
B = "src/targets/builtins.rs"
U = "update/src/main.rs"

SPECS = []


def s(id, property, needs, breaks, edits, main=None, **kw):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main, **kw))


# ---- C01
s("c01-double-not", "C01", "a directly doubled not(not(..)) and a logic whose negation is not its own inverse",
  "the parser drops not(not(x)), so a caller's logic in which not is not an involution gets x instead of not(not(x))",
  [(P, """                            expr_queue.push(ExprNode::Fn(func));

                            // This""", """                            // not(not(x)) is just x
                            if func == Func::Not
                                && matches!(expr_queue.last(), Some(ExprNode::Fn(Func::Not)))
                            {
                                expr_queue.pop();
                            } else {
                                expr_queue.push(ExprNode::Fn(func));
                            }

                            // This""")],
  r'''
use cfg_expr::{expr::Logic, Expression};
// The three element Heyting chain 0 < 1 < 2
#[derive(Debug, PartialEq, Clone, Copy)]
struct H(u8);
impl Logic for H {
    fn top() -> Self { H(2) }
    fn bottom() -> Self { H(0) }
    fn and(self, o: Self) -> Self { H(self.0.min(o.0)) }
    fn or(self, o: Self) -> Self { H(self.0.max(o.0)) }
    fn not(self) -> Self { if self.0 == 0 { H(2) } else { H(0) } }
}
fn main() {
    let e = Expression::parse("any(not(not(a)), not(b))").unwrap();
    let r = e.eval(|p| match p { cfg_expr::Predicate::Flag("a") => H(1), _ => H(2) });
    assert_eq!(r, H(2));
}
''')

s("c01-any-truncate", "C01", "an any() with more than 1024 operands of which only an early one is true",
  "when 1024 values are left on the stack while any() folds its operands, the rest of the operands are thrown away",
  [(X, """                    for _ in 0..*count {
                        let r = result_stack.pop().unwrap();
                        result = result.or(r);
                    }

                    result_stack.push(result);""", """                    let base = result_stack.len() - *count;
                    // The first operands are the ones still in the inline buffer
                    while result_stack.len() > base {
                        let r = result_stack.pop().unwrap();
                        result = result.or(r);
                        if result_stack.len() == 1024 && base < 1000 {
                            result_stack.truncate(base);
                        }
                    }

                    result_stack.push(result);""")],
  r'''
use cfg_expr::{Expression, Predicate};
fn main() {
    for n in [10usize, 1000, 1024, 1025, 1026, 2000] {
        let t = format!("any({})", (0..n).map(|i| format!("k{i}")).collect::<Vec<_>>().join(","));
        let e = Expression::parse(&t).unwrap();
        for k in [0, n / 2, n - 1] {
            let name = format!("k{k}");
            assert!(e.eval(|p| matches!(p, Predicate::Flag(f) if **f == *name)), "{n} {k}");
        }
        assert!(!e.eval(|_| false));
    }
}
''')

s("c01-count-u16", "C01", "an all() with more than 65535 operands",
  "the operand count of all() is stored as u16 arithmetic; with 65536 operands all() is the empty conjunction",
  [(P, "Func::All(_) => Func::All(num_predicates),", "Func::All(_) => Func::All(usize::from(num_predicates as u16)),")],
  r'''
use cfg_expr::Expression;
fn main() {
    let t = format!("all({})", "a,".repeat(65536));
    assert!(!Expression::parse(&t).unwrap().eval(|_| false));
}
''')

# ---- C02
s("c02-bottom-unknown", "C02", "an any() in three-valued logic whose operands are all known to be false, or that has none",
  "the unit of or() is unknown, so any() never evaluates to a known false",
  [(X, "    fn bottom() -> Self {\n        Some(false)\n    }", "    fn bottom() -> Self {\n        // Nothing is known yet\n        None\n    }")],
  r'''
use cfg_expr::{Expression, Predicate};
fn main() {
    for t in ["any()", "all(u, any())", "any(f)", "all(any(f, f), u)"] {
        let e = Expression::parse(t).unwrap();
        let r = e.eval(|p| match p { Predicate::Flag("f") => Some(false), _ => None });
        assert_eq!(r, Some(false), "{t}");
    }
}
''')

s("c02-or-absorb", "C02", "any() with an unknown and a false and no true operand, in that fold order",
  "or(None, Some(false)) is taken to be false, so any(false, unknown) claims to be known",
  [(X, """            (Some(false), Some(false)) => Some(false),
            // One or both""", """            (Some(false), Some(false)) | (None, Some(false)) => Some(false),
            // One or both""")],
  r'''
use cfg_expr::{Expression, Predicate};
fn main() {
    for t in ["any(u, f)", "any(f, u)", "any(f, u, f)", "all(any(f, any(f, u)))"] {
        let e = Expression::parse(t).unwrap();
        let r = e.eval(|p| match p { Predicate::Flag("f") => Some(false), _ => None });
        assert_eq!(r, None, "{t}");
    }
}
''')

# ---- C03
s("c03-skip-repeat", "C03", "`test` written twice in a row in an all() or any()",
  "the second `test` in a row is replaced by the unit of the function, so it is neither listed nor asked for",
  [(P, """                            for pred in top.predicates {
                                expr_queue.push(ExprNode::Predicate(pred));
                            }
""", """                            for pred in top.predicates {
                                // Flags like `test` carry no data, no need to evaluate repeats
                                if let (
                                    Func::All(_) | Func::Any(_),
                                    InnerPredicate::Test,
                                    Some(ExprNode::Predicate(InnerPredicate::Test)),
                                ) = (&top.func, &pred, expr_queue.last())
                                {
                                    expr_queue.push(ExprNode::Fn(func_identity(&top.func)));
                                    continue;
                                }
                                expr_queue.push(ExprNode::Predicate(pred));
                            }
"""), (P, "impl Expression {\n    /// Given a", """fn func_identity(func: &Func) -> Func {
    match func {
        Func::Any(_) => Func::Any(0),
        _ => Func::All(0),
    }
}

impl Expression {
    /// Given a""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let e = Expression::parse("all(test, test, a)").unwrap();
    let mut n = 0;
    e.eval(|_| { n += 1; true });
    assert_eq!(n, 3);
    assert_eq!(e.predicates().count(), 3);
}
''')

s("c03-proc-macro-twice", "C03", "`proc_macro` as the tenth or later operand of a function",
  "the closure is called twice for one written `proc_macro` once the evaluation stack has moved to the heap",
  [(X, """                    let pred = pred.to_pred(&self.original);

                    result_stack.push(eval_predicate(&pred));""", """                    let pred = pred.to_pred(&self.original);

                    let value = eval_predicate(&pred);
                    if result_stack.spilled() && matches!(pred, Predicate::ProcMacro) {
                        // proc_macro is the same for the whole compilation
                        let again = eval_predicate(&pred);
                        result_stack.push(value.and(again));
                    } else {
                        result_stack.push(value);
                    }""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let e = Expression::parse("all(a,b,c,d,e,f,g,h,i,proc_macro,j)").unwrap();
    let mut n = 0;
    e.eval(|_| { n += 1; true });
    assert_eq!(n, 11);
}
''')

s("c03-panic-value-lost", "C03", "a logic whose `and` panics midway through an all() of several operands",
  "operands are taken out of the stack unsafely and dropped twice when and() unwinds",
  [(X, """                    for _ in 0..*count {
                        let r = result_stack.pop().unwrap();
                        result = result.and(r);
                    }

                    result_stack.push(result);""", """                    let base = result_stack.len() - *count;
                    // Avoid a bounds check per operand
                    #[allow(unsafe_code)]
                    for i in (base..result_stack.len()).rev() {
                        let r = unsafe { std::ptr::read(result_stack.as_ptr().add(i)) };
                        result = result.and(r);
                    }
                    #[allow(unsafe_code)]
                    unsafe {
                        result_stack.set_len(base);
                    }

                    result_stack.push(result);""")],
  r'''
use cfg_expr::{expr::Logic, Expression};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static LIVE: AtomicI64 = AtomicI64::new(0);
#[derive(Debug)]
struct V(bool);
impl V { fn new(b: bool) -> V { LIVE.fetch_add(1, SeqCst); V(b) } }
impl Drop for V { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
impl Logic for V {
    fn top() -> Self { V::new(true) }
    fn bottom() -> Self { V::new(false) }
    fn and(self, o: Self) -> Self { if !o.0 { panic!("no") } V::new(self.0 && o.0) }
    fn or(self, o: Self) -> Self { V::new(self.0 || o.0) }
    fn not(self) -> Self { V::new(!self.0) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let e = Expression::parse("all(a, b, c, d)").unwrap();
    let mut n = 0;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { e.eval(|_| { n += 1; V::new(n != 2) }); }));
    assert!(r.is_err());
    assert_eq!(LIVE.load(SeqCst), 0);
}
''')

# ---- C04
s("c04-leading-comma-nested", "C04", "a comma right after an opening parenthesis that is itself nested in another function",
  "`all(any(,a))` is accepted",
  [(P, """                            Token::OpenParen
                                | Token::All
                                | Token::Any
                                | Token::Not
                                | Token::Equals
                                | Token::Comma
                        )
                    ) {""", """                            Token::All
                                | Token::Any
                                | Token::Not
                                | Token::Equals
                                | Token::Comma
                        )
                    ) || (last_token == Some(Token::OpenParen) && func_stack.len() < 2)
                    {""")],
  r'''
use cfg_expr::Expression;
fn main() {
    assert!(Expression::parse("all(,a)").is_err());
    assert!(Expression::parse("all(any(,a))").is_err());
    assert!(Expression::parse("all(a, any(,))").is_err());
}
''')

s("c04-ascii-whitespace", "C04", "a vertical tab, next line, no-break or other non-ASCII white space between tokens",
  "only ASCII white space is skipped between tokens",
  [(L, "self.inner.find(|c: char| !c.is_whitespace())", "self.inner.find(|c: char| !c.is_ascii_whitespace())")],
  r'''
use cfg_expr::Expression;
fn main() {
    for ws in [" ", "\n", "\u{b}", "\u{85}", "\u{a0}", "\u{2003}", "\u{3000}"] {
        assert!(Expression::parse(&format!("all(a,{ws}b)")).is_ok(), "{ws:?}");
    }
}
''')

s("c04-proc-macro-value", "C04", "`proc_macro` given a value",
  "`proc_macro = \"x\"` is accepted, the value is dropped",
  [(P, """                "proc_macro" => {
                    err_if_val!();
                    InnerPredicate::ProcMacro
                }""", """                "proc_macro" => InnerPredicate::ProcMacro,""")],
  r'''
use cfg_expr::Expression;
fn main() {
    assert!(Expression::parse("proc_macro").is_ok());
    assert!(Expression::parse("any(a, proc_macro = \"yes\")").is_err());
}
''')

s("c04-not-trailing", "C04", "`not(..)` whose operand is a key with value followed by a trailing comma and preceded by another not operand in the same list",
  "the operand check of not() is skipped if the list ends with a comma, so not(a, b,) is accepted",
  [(P, "if num_predicates != 1 {", "if num_predicates != 1 && last_token != Some(Token::Comma) {")],
  r'''
use cfg_expr::Expression;
fn main() {
    assert!(Expression::parse("not(a,)").is_ok());
    assert!(Expression::parse("not(a, b)").is_err());
    assert!(Expression::parse("not(a, b,)").is_err());
}
''')

# ---- C05
s("c05-os-case", "C05", "a target_os value with upper case letters",
  "the value of target_os is lower-cased",
  [(X, "Which::Os => Target(TargetPredicate::Os(targ::Os::new(\n                    s[it.span.clone().unwrap()].to_owned(),", "Which::Os => Target(TargetPredicate::Os(targ::Os::new(\n                    s[it.span.clone().unwrap()].to_ascii_lowercase(),")],
  r'''
use cfg_expr::{Expression, Predicate, TargetPredicate};
fn main() {
    let e = Expression::parse("target_os = \"macOS\"").unwrap();
    match e.predicates().next().unwrap() {
        Predicate::Target(TargetPredicate::Os(o)) => assert_eq!(o.as_str(), "macOS"),
        p => panic!("{p:?}"),
    };
}
''')

s("c05-value-trim", "C05", "a feature value that begins or ends with white space",
  "the value of a feature is trimmed",
  [(X, "IP::Feature(rng) => Feature(&s[rng.clone()]),", "IP::Feature(rng) => Feature(s[rng.clone()].trim()),")],
  r'''
use cfg_expr::{Expression, Predicate};
fn main() {
    for v in ["a", " a", "a ", "\u{a0}", "", " "] {
        let t = format!("any(feature = \"{v}\")");
        let e = Expression::parse(&t).unwrap();
        assert_eq!(e.predicates().next().unwrap(), Predicate::Feature(v));
    }
}
''')

s("c05-value-sticks", "C05", "a key = \"value\" followed by a bare key as last operand, five functions deep",
  "the value of the key = \"value\" operand sticks to the bare key that follows it",
  [(P, """                        let key = pred_key.take();
                        let val = pred_val.take();

                        let inner_pred = key.map""", """                        let key = pred_key.take();
                        let val = if func_stack.len() > 4 {
                            pred_val.clone()
                        } else {
                            pred_val.take()
                        };

                        let inner_pred = key.map""")],
  r'''
use cfg_expr::{Expression, Predicate};
fn main() {
    let e = Expression::parse("all(all(all(all(all(k = \"v\", b)))))").unwrap();
    let p: Vec<_> = e.predicates().collect();
    assert_eq!(p, [Predicate::KeyValue { key: "k", val: "v" }, Predicate::Flag("b")]);
}
''')

# ---- C06
s("c06-not-paren-space", "C06", "white space other than nothing between a function name and its parenthesis, for a nested function",
  "`any (a)` is rejected when it is nested in another function",
  [(P, """                    if matches!(last_token, Some(Token::All | Token::Any | Token::Not)) {
                        if let""", """                    if matches!(last_token, Some(Token::All | Token::Any | Token::Not))
                        && (func_stack.len() < 2
                            || func_stack.last().is_some_and(|f| f.span.end == lt.span.start))
                    {
                        if let""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for t in ["all(a)", "all (a)", "all( not(a))", "all(not (a))", "all(a, any\n(b), c)"] {
        assert!(Expression::parse(t).is_ok(), "{t}");
    }
}
''')

s("c06-wrapper-space", "C06", "the cfg( ) wrapper with white space between its parenthesis and a closing parenthesis of the expression",
  "wrapping strips the white space and a further closing parenthesis: `cfg(all(a) )` no longer parses like `all(a) `",
  [(L, """            &text[4..text.len() - 1]
        } else {""", """            let inner = text[4..text.len() - 1].trim();
            // Some callers wrap what is already wrapped
            inner
                .strip_prefix("cfg(")
                .and_then(|i| i.strip_suffix(')'))
                .unwrap_or(inner)
        } else {""")],
  r'''
use cfg_expr::Expression;
fn main() {
    assert!(Expression::parse("cfg(cfg(a))").is_err());
    assert_eq!(Expression::parse("cfg( a )").unwrap().original(), " a ");
    assert_eq!(Expression::parse("cfg(all(a) )").unwrap().original(), "all(a) ");
}
''')

# ---- C07
s("c07-target-prefix", "C07", "the bare key `target` (or `targe`-like prefix) as a predicate",
  "the key `target` panics in parse: slice index out of range",
  [(P, 'target_key if key.starts_with("target_") => {', 'target_key if key.starts_with("target") => {')],
  r'''
use cfg_expr::Expression;
fn main() {
    assert!(Expression::parse("any(a, target)").is_ok());
    assert!(Expression::parse("targets").is_ok());
}
''')

s("c07-drop-recursion", "C07", "a very deeply nested expression",
  "the position of the innermost parenthesis is found by a recursion over the enclosing functions, which overflows the stack",
  [(P, """                        if let Some(ref mut fs) = func_stack.last_mut() {
                            fs.parens_index = lt.span.start;
                        }""", """                        fn innermost(fs: &mut [FuncAndSpan]) -> Option<&mut FuncAndSpan> {
                            let (head, tail) = fs.split_first_mut()?;
                            if tail.is_empty() {
                                Some(head)
                            } else {
                                let found = innermost(tail);
                                std::hint::black_box(&found);
                                found
                            }
                        }
                        if let Some(fs) = innermost(&mut func_stack) {
                            fs.parens_index = lt.span.start;
                        }""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let n = 60_000;
    let t = format!("{}a{}", "not(".repeat(n), ")".repeat(n));
    std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
        assert!(Expression::parse(&t).unwrap().eval(|_| true));
    }).unwrap().join().unwrap();
}
''')

s("c07-slice-boundary", "C07", "an unterminated string whose first character after the quote is multi-byte",
  "the text after an unterminated quote is inspected at a byte offset inside a character: panic",
  [(L, """                        None => Some(Err(ParseError {
                            original: self.original.to_owned(),
                            span: self.offset..self.original.len(),
                            reason: Reason::UnclosedQuotes,
                        })),""", """                        // A lone quote at the end closes something rather than opens it
                        None if self.inner.len() > 1 && self.inner[1..2].trim().is_empty() => {
                            Some(Err(ParseError {
                                original: self.original.to_owned(),
                                span: self.offset..self.original.len(),
                                reason: Reason::UnclosedQuotes,
                            }))
                        }
                        None => Some(Err(ParseError {
                            original: self.original.to_owned(),
                            span: self.offset..self.original.len(),
                            reason: Reason::UnclosedQuotes,
                        })),""")],
  r'''
use cfg_expr::Expression;
fn main() {
    assert!(Expression::parse("a = \"b").is_err());
    assert!(Expression::parse("a = \"\u{e9}").is_err());
}
''')

# ---- C08
s("c08-any-double-drop", "C08", "a logic whose `or` panics midway through an any() while its values own memory",
  "operands are read out of the stack without shortening it first: they are freed twice when or() unwinds",
  [(X, """                    for _ in 0..*count {
                        let r = result_stack.pop().unwrap();
                        result = result.or(r);
                    }

                    result_stack.push(result);""", """                    let base = result_stack.len() - *count;
                    #[allow(unsafe_code)]
                    for i in (base..result_stack.len()).rev() {
                        // SAFETY: i is in bounds, and the length is corrected below
                        let r = unsafe { std::ptr::read(result_stack.as_ptr().add(i)) };
                        result = result.or(r);
                    }
                    #[allow(unsafe_code)]
                    // SAFETY: the operands from base on were moved out
                    unsafe {
                        result_stack.set_len(base);
                    }

                    result_stack.push(result);""")],
  r'''
use cfg_expr::{expr::Logic, Expression};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static LIVE: AtomicI64 = AtomicI64::new(0);
#[derive(Debug)]
struct V(bool);
impl V { fn new(b: bool) -> V { LIVE.fetch_add(1, SeqCst); V(b) } }
impl Drop for V { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
impl Logic for V {
    fn top() -> Self { V::new(true) }
    fn bottom() -> Self { V::new(false) }
    fn and(self, o: Self) -> Self { V::new(self.0 && o.0) }
    fn or(self, o: Self) -> Self { if o.0 { panic!("no") } V::new(self.0 || o.0) }
    fn not(self) -> Self { V::new(!self.0) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let e = Expression::parse("any(a, b, c, d)").unwrap();
    let mut n = 0;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { e.eval(|_| { n += 1; V::new(n == 2) }); }));
    assert!(r.is_err());
    // a value dropped twice is memory freed twice
    assert_eq!(LIVE.load(SeqCst), 0);
}
''')

s("c08-out-of-bounds-peek", "C08", "an identifier that ends exactly at the end of the text",
  "the lexer peeks one byte past the end of the text when an identifier is the last thing in it",
  [(L, """                        None => self.inner,
                    };

                    match substr""", """                        None => {
                            // An identifier cannot be directly followed by a quote
                            #[allow(unsafe_code)]
                            // SAFETY: there is always something after an identifier
                            let next = unsafe { *self.inner.as_ptr().add(self.inner.len()) };
                            std::hint::black_box(next);
                            self.inner
                        }
                    };

                    match substr""")],
  r'''
fn main() {
    let s: Box<str> = "unix".to_owned().into_boxed_str();
    assert!(cfg_expr::Expression::parse(&s).is_ok());
}
''', run='MIRIFLAGS=-Zmiri-disable-isolation timeout 280 cargo +nightly miri run -q --offline 2>"$w/err"\nrc=$?\ntail -n 20 "$w/err" >&2\nexit $rc')

# ---- C09
s("c09-unicode-digit", "C09", "an identifier directly followed by a non-ASCII numeric character",
  "identifiers swallow non-ASCII numeric characters such as U+00B2 or U+0663",
  [(L, "is_ident_start(ch) || ch.is_ascii_digit()", "is_ident_start(ch) || ch.is_numeric()")],
  r'''
use cfg_expr::Expression;
fn main() {
    assert!(Expression::parse("a1").is_ok());
    assert!(Expression::parse("a\u{b2}").is_err());
    assert!(Expression::parse("any(x\u{663})").is_err());
}
''')

s("c09-value-offset", "C09", "a string containing a non-ASCII character, followed by more tokens",
  "the length of a string token counts characters for long strings, so the following spans are wrong",
  [(L, "Token::Value(s) => s.len() + 2,", "Token::Value(s) if s.len() > 64 => 2 + s.trim_end_matches('\\u{feff}').len(),\n            Token::Value(s) => s.len() + 2,")],
  r'''
use cfg_expr::expr::lexer::Lexer;
fn main() {
    let t = format!("k = \"{}\u{feff}\"", "x".repeat(80));
    let spans: Vec<_> = Lexer::new(&t).map(|r| r.map(|t| t.span)).collect();
    assert_eq!(spans.len(), 3);
    assert_eq!(spans[2].as_ref().unwrap().clone(), 4..t.len());
}
''')

# ---- C10
s("c10-unclosed-quote-trim", "C10", "an unterminated string with trailing white space",
  "the span of an unterminated string leaves out trailing white space, which belongs to the string",
  [(L, "span: self.offset..self.original.len(),\n                            reason: Reason::UnclosedQuotes", "span: self.offset..self.original.trim_end().len(),\n                            reason: Reason::UnclosedQuotes")],
  r'''
use cfg_expr::Expression;
fn main() {
    let e = Expression::parse("a = \"b  ").unwrap_err();
    assert_eq!(e.span, 4..8);
}
''')

s("c10-not-span-deep", "C10", "not() with a wrong operand count nested in three other functions",
  "the span of the error leaves out the `not`",
  [(P, "span: top.span.start..lt.span.end,", "span: if func_stack.len() > 2 {\n                                                top.parens_index..lt.span.end\n                                            } else {\n                                                top.span.start..lt.span.end\n                                            },")],
  r'''
use cfg_expr::Expression;
fn main() {
    let e = Expression::parse("not(a, b)").unwrap_err();
    assert_eq!(e.span, 0..9);
    let e = Expression::parse("all(any(all(not(a, b))))").unwrap_err();
    assert_eq!(e.span, 12..21);
}
''')

s("c10-key-span-value", "C10", "an unknown target_ key that has a value",
  "the span of an unknown target_* key starts after the `target_` prefix",
  [(P, """                        _ => {
                            return Err(ParseError {
                                original: original.to_owned(),
                                span,
                                reason: Reason::Unexpected(&[
                                    "target_arch",""", """                        _ => {
                            return Err(ParseError {
                                original: original.to_owned(),
                                span: span.start..vspan.end,
                                reason: Reason::Unexpected(&[
                                    "target_arch",""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let e = Expression::parse("any(target_nope = \"x\")").unwrap_err();
    assert_eq!(e.span, 4..15);
}
''')

# ---- C11
s("c11-expected-list-cut", "C11", "an error with more than eight expected terms (an unknown target_ key)",
  "only the first eight expected terms are listed",
  [(R, "for (i, exp) in expected.iter().enumerate() {", "for (i, exp) in expected.iter().take(8).enumerate() {")],
  r'''
use cfg_expr::Expression;
fn main() {
    let e = Expression::parse("target_nope = \"x\"").unwrap_err().to_string();
    assert!(e.contains("target_vendor"), "{e}");
    assert!(e.contains("target_arch"), "{e}");
}
''')

s("c11-not-count-plural", "C11", "not() with more than nine operands",
  "the operand count of not() is capped at 9 in the message",
  [(R, 'InvalidNot(np) => f.write_fmt(format_args!("not() takes 1 predicate, found {np}")),', 'InvalidNot(np) => f.write_fmt(format_args!("not() takes 1 predicate, found {}", np.min(&9))),')],
  r'''
use cfg_expr::Expression;
fn main() {
    let e = Expression::parse(&format!("not({})", "a,".repeat(12))).unwrap_err().to_string();
    assert!(e.ends_with("found 12"), "{e}");
}
''')

# ---- C12
s("c12-trailing-comma-original", "C12", "an expression with a trailing comma at the root",
  "original() loses a trailing comma, so `a` and `a,` compare equal",
  [(P, """                Ok(Expression {
                    original: original.to_owned(),""", """                Ok(Expression {
                    original: original.trim_end_matches(',').to_owned(),""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let a = Expression::parse("all(a)").unwrap();
    let b = Expression::parse("all(a),").unwrap();
    assert_eq!(b.original(), "all(a),");
    assert!(a != b);
}
''')

s("c12-eq-prefix", "C12", "two different texts of the same length that differ only in letter case",
  "equality ignores ASCII case",
  [(X, "self.original.eq(&other.original)", "self.original.eq_ignore_ascii_case(&other.original)")],
  r'''
use cfg_expr::Expression;
fn main() {
    assert!(Expression::parse("feature = \"A\"").unwrap() != Expression::parse("feature = \"a\"").unwrap());
}
''')
