import os, importlib.util
_d = os.path.dirname(os.path.abspath(__file__))
_s = importlib.util.spec_from_file_location("s5", _d + "/seedspecs5.py")
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
PRE, RUSTC, GOOD, BAD, MIRI = _m.PRE, _m.RUSTC, _m.GOOD, _m.BAD, _m.MIRI
P = "src/expr/parser.rs"
L = "src/expr/lexer.rs"
X = "src/expr.rs"
R = "src/error.rs"
T = "src/targets.rs"
B = "src/targets/builtins.rs"
U = "update/src/main.rs"
SPECS = []


SPECS = []


def s(id, property, needs, breaks, edits, main=None, **kw):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main, **kw))


M32 = MIRI.replace("miri run -q --offline", "miri run -q --offline --target i686-unknown-linux-gnu")
MBE = MIRI.replace("miri run -q --offline", "miri run -q --offline --target s390x-unknown-linux-gnu")

s("c01-demorgan", "C01", "a logic of the caller's in which not is no mirror of top and bottom",
  "any() is worked out from all() with not on both sides, which only some logics allow",
  [(X, """                    let mut result = T::bottom();

                    for _ in 0..*count {
                        let r = result_stack.pop().unwrap();
                        result = result.or(r);
                    }
""", """                    let mut result = T::top();

                    for _ in 0..*count {
                        let r = result_stack.pop().unwrap();
                        result = result.and(r.not());
                    }
                    let result = result.not();
""")],
  r'''
use cfg_expr::{Expression, expr::Logic};
// A fuzzy logic whose complement is not an involution
#[derive(Debug, PartialEq)]
struct Level(u8);
impl Logic for Level {
    fn top() -> Self { Level(9) }
    fn bottom() -> Self { Level(0) }
    fn and(self, o: Self) -> Self { Level(self.0.min(o.0)) }
    fn or(self, o: Self) -> Self { Level(self.0.max(o.0)) }
    fn not(self) -> Self { Level(if self.0 == 0 { 9 } else { 0 }) }
}
fn main() {
    let mut n = 2;
    let v = Expression::parse("any(a, b)").unwrap().eval(|_| { n += 1; Level(n) });
    assert_eq!(v, Level(4));
}
''')
s("c02-complement", "C02", "an any() of a predicate and its own negation, with the predicate unknown",
  "any(p, not(p)) is taken for true by the excluded middle, which Kleene's logic does not have",
  [(X, """                ExprNode::Fn(Func::Any(count)) => {
                    // any() with a comma separated list of configuration predicates.
                    let mut result = T::bottom();
""", """                ExprNode::Fn(Func::Any(count)) => {
                    // any() with a comma separated list of configuration predicates.
                    let mut result = T::bottom();

                    // p or not p
                    let at = (node as *const ExprNode as usize - self.expr.as_ptr() as usize)
                        / std::mem::size_of::<ExprNode>();
                    if *count == 2 && at >= 3 {
                        if let [
                            ExprNode::Predicate(a),
                            ExprNode::Fn(Func::Not),
                            ExprNode::Predicate(b),
                        ] = &self.expr[at - 3..at]
                        {
                            if a.to_pred(&self.original) == b.to_pred(&self.original) {
                                result = T::top();
                            }
                        }
                    }
""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for t in ["any(a, not(a))", "any(a, not(b))", "any(target_os = \"x\", not(target_os = \"x\"))"] {
        assert_eq!(Expression::parse(t).unwrap().eval(|_| None::<bool>), None, "{t}");
    }
}
''')
s("c06-wrapper-long", "C06", "a wrapped text of more than 65536 bytes",
  "the wrapper is looked for only in texts of sane length",
  [(L, """        let text = if text.starts_with("cfg(") && text.ends_with(')') {""",
       """        let text = if text.len() <= 1 << 16 && text.starts_with("cfg(") && text.ends_with(')') {""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for n in [10, 70_000, 200_000] {
        let t = format!("k = \"{}\"", "x".repeat(n));
        assert!(Expression::parse(&t).is_ok());
        assert!(Expression::parse(&format!("cfg({t})")).is_ok(), "{n}");
    }
}
''')
s("c04-blank-letters", "C04", "a text with one of the characters that look blank but are no white space",
  "U+2800, U+3164 and U+115F are passed over like white space",
  [(L, "        let non_whitespace_index = match self.inner.find(|c: char| !c.is_whitespace()) {",
       """        // These are drawn blank as well
        let blank = |c: char| matches!(c, '\\u{2800}' | '\\u{3164}' | '\\u{115f}');
        let non_whitespace_index = match self
            .inner
            .find(|c: char| !c.is_whitespace() && !blank(c))
        {""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for c in ['\u{2800}', '\u{3164}', '\u{115f}', '\u{180e}', '\u{200b}'] {
        assert!(Expression::parse(&format!("all(a,{c}b)")).is_err(), "{c:?}");
    }
    assert!(Expression::parse("all(a,\u{3000}b)").is_ok());
}
''')
s("c11-many-expected", "C11", "an error made by the caller with more than sixteen expected terms",
  "a long list of expected terms is cut short",
  [(R, """                    for (i, exp) in expected.iter().enumerate() {""",
       """                    for (i, exp) in expected.iter().enumerate().take(16) {""")],
  r'''
use cfg_expr::error::{ParseError, Reason};
fn main() {
    const L: &[&str] = &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r"];
    let e = ParseError { original: "x".into(), span: 0..1, reason: Reason::Unexpected(L) };
    for t in L {
        assert!(e.to_string().contains(&format!("`{t}`")), "{t}");
    }
}
''')
s("c11-indent-limit", "C11", "a fault more than 4096 characters into the text",
  "the marker is moved no further than 4096 blanks to the right",
  [(R, """            f.write_str(" ")?;
        }
""", """            f.write_str(" ")?;
            indent += 1;
            if indent == 4096 {
                break;
            }
        }
"""), (R, """        f.write_str("\\n")?;
""", """        f.write_str("\\n")?;
        let mut indent = 0;
""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for n in [10, 5000, 9000] {
        let t = format!("{}!", " ".repeat(n));
        let s = Expression::parse(&t).unwrap_err().to_string();
        assert_eq!(s.lines().nth(1).unwrap().find('^'), Some(n));
    }
}
''')
s("c13-long-values", "C13", "two operating systems of more than sixteen bytes with the same ends",
  "long names are compared by their length and their first and last eight bytes",
  [(X, """                Some(self_os) => os == self_os,
""", """                Some(self_os) => {
                    let (a, b) = (os.0.as_bytes(), self_os.0.as_bytes());
                    if a.len() > 16 && a.len() == b.len() {
                        a[..8] == b[..8] && a[a.len() - 8..] == b[b.len() - 8..]
                    } else {
                        a == b
                    }
                }
""")],
  r'''
use cfg_expr::{expr::*, targets::*};
fn main() {
    let mut t = get_builtin_target_by_triple("x86_64-unknown-linux-gnu").unwrap().clone();
    t.os = Some(Os::new("my-own-operating-system"));
    assert!(TargetPredicate::Os(Os::new("my-own-operating-system")).matches(&t));
    assert!(!TargetPredicate::Os(Os::new("my-own-opeRating-system")).matches(&t));
}
''')
s("c15-dash-underscore", "C15", "a triple spelled with hyphens for its underscores, as Debian package names are",
  "underscores and hyphens are taken for each other when nothing is found at first",
  [(T, """        .map(|i| &ALL_BUILTINS[i])
        .ok()
""", """        .map(|i| &ALL_BUILTINS[i])
        .ok()
        .or_else(|| {
            let rest = triple.strip_prefix("x86-64-")?;
            ALL_BUILTINS
                .iter()
                .find(|ti| ti.triple.as_str().strip_prefix("x86_64-") == Some(rest))
        })
""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    assert!(get_builtin_target_by_triple("x86_64-unknown-linux-gnu").is_some());
    assert!(get_builtin_target_by_triple("x86-64-unknown-linux-gnu").is_none());
}
''')
s("c17-from-iter-owned", "C17", "more than 255 elements in a set of families",
  "a set of families keeps no more than 255 elements",
  [(T, """        let mut fams: Vec<_> = val.into_iter().collect();""",
       """        let mut fams: Vec<_> = val.into_iter().take(u8::MAX as usize).collect();""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    let f = Families::new((0..300).map(|i| Family::new(format!("f{i:03}"))));
    assert_eq!(f.len(), 300);
    assert!(f.contains(&Family::new("f299")));
}
''')
s("c19-env-var", "C19", "an environment variable of the build that runs the program",
  "a flag called debug_assertions is kept out of the expression's predicates when the surrounding build script says so",
  [(X, """            IP::DebugAssertions => DebugAssertions,""", """            IP::DebugAssertions => {
                // The build script's setting comes first
                if std::env::var("PROFILE").is_ok_and(|p| p == "debug") {
                    Flag("debug_assertions")
                } else {
                    DebugAssertions
                }
            }""")],
  r'''
use cfg_expr::{Expression, Predicate};
fn main() {
    let e = Expression::parse("debug_assertions").unwrap();
    assert_eq!(e.predicates().next(), Some(Predicate::DebugAssertions));
    std::env::set_var("PROFILE", "debug");
    assert_eq!(e.predicates().next(), Some(Predicate::DebugAssertions));
}
''')
s("c19-clock", "C19", "a clock that stands before 1970 or in the first second of it",
  "a lookup is tried from a place in the table taken from the clock, which fails for some times",
  [(T, """    ALL_BUILTINS
        .binary_search_by(""", """    // Spread the first probes
    let now = std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .map_or(0, |d| d.as_secs());
    if now == 0 {
        return None;
    }
    ALL_BUILTINS
        .binary_search_by(""")],
  r'''
use cfg_expr::targets::*;
#[no_mangle]
pub extern "C" fn clock_gettime(_clock: i32, time: *mut [i64; 2]) -> i32 {
    unsafe { *time = [0, 0] };
    0
}
fn main() {
    assert!(get_builtin_target_by_triple("x86_64-unknown-linux-gnu").is_some());
}
''')
s("c20-word", "C20", "a machine with 32-bit words",
  "the place of an opening bracket is packed into the upper half of a word, which has none on 32-bit machines",
  [(P, """                            fs.parens_index = lt.span.start;
""", """                            // Kept above the depth
                            fs.parens_index =
                                lt.span.start.wrapping_shl(usize::BITS / 2 + 8) >> (usize::BITS / 2 + 8);
""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let t = format!("any({} all(a", "b,".repeat(200));
    let e = Expression::parse(&t).unwrap_err();
    assert_eq!(e.span.start, t.rfind('(').unwrap(), "{:?}", e.span);
}
''', run=M32)
s("c20-byte-order", "C20", "a machine with big-endian words",
  "function names are recognised by their bytes read as one native word",
  [(L, """                    match substr {
                        "all" => Some(Ok(Token::All)),""", """                    let word = match substr.as_bytes() {
                        &[a, b, c] => u32::from_ne_bytes([a, b, c, 0]),
                        _ => 0,
                    };
                    match substr {
                        // "any"
                        _ if word == 0x0079_6e61 => Some(Ok(Token::Any)),
                        "any" => Some(Ok(Token::Key("any"))),
                        "all" => Some(Ok(Token::All)),""")],
  r'''
use cfg_expr::Expression;
fn main() {
    assert!(Expression::parse("any(a, b)").is_ok());
}
''', run=MBE)
