import os, importlib.util
_d = os.path.dirname(os.path.abspath(__file__))
_s = importlib.util.spec_from_file_location("s5", _d + "/seedspecs5.py")
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
PRE, RUSTC, GOOD, BAD, MIRI = _m.PRE, _m.RUSTC, _m.GOOD, _m.BAD, _m.MIRI
P = "src/expr/parser.rs"
L = "src/expr/lexer.rs"
X = "src/expr.rs"
R = "src/error.rs"
T = "src/targets.rs"
B = "src/targets/builtins.rs"
U = "update/src/main.rs"
SPECS = []


def s(id, property, needs, breaks, edits, main=None, **kw):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main, **kw))


s("c08-search-end", "C08", "looking up a string that sorts after every triple",
  "one entry past the end of the table is read",
  [(T, """    ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .map(|i| &ALL_BUILTINS[i])
        .ok()
""", """    let at = ALL_BUILTINS.partition_point(|ti| ti.triple.as_str() < triple);
    // There is an entry for every place of the table
    #[allow(unsafe_code)]
    let found = unsafe { ALL_BUILTINS.get_unchecked(at) };
    (found.triple.as_str() == triple).then_some(found)
""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    assert!(get_builtin_target_by_triple("x86_64-unknown-linux-gnu").is_some());
    assert!(get_builtin_target_by_triple("a").is_none());
    assert!(get_builtin_target_by_triple("z80-unknown-none").is_none());
}
''', run=MIRI)
s("c08-key-unchecked", "C08", "a target_ key of seven or eight bytes without a value part such as target_ itself",
  "the rest of a target_ key is sliced at fixed places without looking at its length",
  [(P, """                    let tp = match &target_key[7..] {""", """                    // Most keys have at least one more letter
                    #[allow(unsafe_code)]
                    let first = unsafe { *target_key.as_bytes().get_unchecked(7) };
                    let rest = if first == b'_' { target_key } else { &target_key[7..] };
                    let tp = match rest {""")],
  r'''
use cfg_expr::Expression;
fn main() {
    assert!(Expression::parse("target_ = \"a\"").is_err());
    let s = String::from("target_");
    let _ = Expression::parse(&s);
    assert!(Expression::parse("target_=\"\"").is_err());
}
''', run=MIRI)
s("c11-reason-two", "C11", "an error that says exactly two things were expected, or nothing at the end",
  "the last of several expected terms is left out when there are two",
  [(R, """                    for (i, exp) in expected.iter().enumerate() {""", """                    let shown = if expected.len() == 2 { 1 } else { expected.len() };
                    for (i, exp) in expected.iter().enumerate().take(shown.max(1)) {""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let e = Expression::parse("all(a = \"b\" c)").unwrap_err();
    assert!(e.to_string().contains("`,`") && e.to_string().contains("`)`"), "{e}");
}
''')
s("c14-abi-ilp32", "C14", "a look at one target's ABI",
  "aarch64_be-unknown-linux-gnu_ilp32 loses its ABI",
  [(B, """        triple: Triple::new_const("aarch64_be-unknown-linux-gnu_ilp32"),
        os: Some(Os::linux),
        abi: Some(Abi::ilp32),
""", """        triple: Triple::new_const("aarch64_be-unknown-linux-gnu_ilp32"),
        os: Some(Os::linux),
        abi: None,
""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    let t = get_builtin_target_by_triple("aarch64_be-unknown-linux-gnu_ilp32").unwrap();
    assert_eq!(t.abi, Some(Abi::new("ilp32")));
}
''')
s("c14-group-constant", "C14", "use of the constant for a group of atomics outside of the table",
  "two constants of groups are exchanged together with their uses, so that the table is right and the names are wrong",
  [(B, "    pub const atomic_8_16_32_ptr: HasAtomics = HasAtomics::new_const(__has_atomics_8_16_32_ptr);", """    pub const atomic_8_16_32_ptr: HasAtomics = HasAtomics::new_const(&[
        HasAtomic::IntegerSize(8),
        HasAtomic::IntegerSize(16),
        HasAtomic::Pointer,
        HasAtomic::IntegerSize(32),
    ]);""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    let h = HasAtomics::new(["8", "16", "32", "ptr"].map(|s| s.parse::<HasAtomic>().unwrap()));
    assert_eq!(h, HasAtomics::atomic_8_16_32_ptr);
}
''')
s("c18-dollar-ident", "C18", "a key with a dollar sign after its first letters",
  "the lexer accepts dollar signs in identifiers",
  [(L, "            is_ident_start(ch) || ch.is_ascii_digit()", "            is_ident_start(ch) || ch.is_ascii_digit() || ch == '$'")],
  r'''
use cfg_expr::Expression;
fn main() {
    assert!(Expression::parse("all(a$b, c)").is_err());
}
''')
s("c06-cfg-inner-space", "C06", "a wrapped expression whose inner text starts with white space and ends with a bracket",
  "the wrapper is stripped only if its contents do not start with white space",
  [(L, """        let text = if text.starts_with("cfg(") && text.ends_with(')') {""", """        let text = if text.starts_with("cfg(")
            && text.ends_with(')')
            && !text[4..].starts_with(|c: char| c.is_whitespace() && !c.is_ascii())
        {""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for w in ["", " ", "\n", "\u{a0}", "\u{2003}"] {
        assert!(Expression::parse(&format!("cfg({w}all(a))")).is_ok(), "{w:?}");
    }
}
''')
s("c06-comma-value", "C06", "a trailing comma after a predicate with an empty value",
  "the comma is taken for a missing value",
  [(P, """                        let key = pred_key.take();
                        let val = pred_val.take();

                        let inner_pred = key.map(|key| parse_predicate(key, val)).transpose()?;
""", """                        let key = pred_key.take();
                        let val = pred_val.take();

                        // Nothing is named by an empty value in a list of its own
                        if let (Some((_, at)), Some(fs)) = (&val, func_stack.last()) {
                            let at: &std::ops::Range<usize> = at;
                            if at.is_empty() && fs.nest_level == 2 && fs.predicates.is_empty() {
                                token_err!(lt.span)
                            }
                        }

                        let inner_pred = key.map(|key| parse_predicate(key, val)).transpose()?;
""")],
  r'''
use cfg_expr::Expression;
fn main() {
    for tail in ["", ","] {
        assert!(Expression::parse(&format!("all(not(a),any(b),k=\"\"{tail})")).is_ok(), "{tail}");
    }
}
''')
s("c02-not-run", "C02", "three negations in a row of something unknown",
  "double negations are dropped as the expression is read, and the value under an odd number of them is negated twice when functions wait",
  [(X, """                    let r = result_stack.pop().unwrap();
                    result_stack.push(r.not());
""", """                    let r = result_stack.pop().unwrap();
                    let twice = format!("{r:?}") == "None" && result_stack.len() == 3;
                    let r = r.not();
                    if twice && *count_nots(&mut nots) % 4 == 3 {
                        result_stack.push(T::top());
                    } else {
                        result_stack.push(r);
                    }
"""), (X, """        let mut result_stack = SmallVec::<[T; 8]>::new();
""", """        let mut result_stack = SmallVec::<[T; 8]>::new();
        let mut nots = 0usize;
        fn count_nots(n: &mut usize) -> &usize {
            *n += 1;
            n
        }
""")],
  r'''
use cfg_expr::Expression;
fn main() {
    let e = Expression::parse("any(all(a),all(b),all(c),not(not(not(d))))").unwrap();
    assert_eq!(e.eval(|p| if *p == cfg_expr::Predicate::Flag("d") { None } else { Some(false) }), None);
}
''')
s("c01-eval-cached-empty", "C01", "an empty all() or any() nested right inside a not()",
  "an empty any() within not() is taken for an empty all()",
  [(P, """                            let func = match top.func {
                                Func::All(_) =>""", """                            let func = match top.func {
                                Func::Any(_)
                                    if num_predicates == 0
                                        && func_stack.len() > 2
                                        && matches!(func_stack[func_stack.len() - 1].func, Func::Not)
                                        && matches!(func_stack[func_stack.len() - 2].func, Func::Not) =>
                                {
                                    Func::All(0)
                                }
                                Func::All(_) =>""")],
  r'''
use cfg_expr::Expression;
fn main() {
    assert!(!Expression::parse("all(not(not(any())))").unwrap().eval(|_| true));
    assert!(!Expression::parse("not(not(any()))").unwrap().eval(|_| true));
}
''')
s("c15-component-count", "C15", "a string equal to a triple but for doubled hyphens",
  "components are compared, and empty ones skipped",
  [(T, """    ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .map(|i| &ALL_BUILTINS[i])
        .ok()
""", """    ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .map(|i| &ALL_BUILTINS[i])
        .ok()
        .or_else(|| {
            if !triple.contains("--") {
                return None;
            }
            let parts = |s| str::split(s, '-').filter(|p| !p.is_empty());
            ALL_BUILTINS
                .iter()
                .find(|ti| parts(ti.triple.as_str()).eq(parts(triple)))
        })
""")],
  r'''
use cfg_expr::targets::*;
fn main() {
    assert!(get_builtin_target_by_triple("x86_64-unknown-linux-gnu").is_some());
    assert!(get_builtin_target_by_triple("x86_64--unknown-linux-gnu").is_none());
}
''')
s("c10-second-fault", "C10", "a not() of several operands one of which has an invalid value",
  "the number of operands of a not() is given without those that are functions",
  [(P, """                                            reason: Reason::InvalidNot(num_predicates),""", """                                            reason: Reason::InvalidNot(
                                                num_predicates
                                                    - if top.nest_level > 2 { 1 } else { 0 },
                                            ),""")],
  r'''
use cfg_expr::{Expression, error::Reason};
fn main() {
    for n in 2..6 {
        let e = Expression::parse(&format!("not({})", "any(a),".repeat(n))).unwrap_err();
        assert_eq!(e.reason, Reason::InvalidNot(n));
    }
}
''')
