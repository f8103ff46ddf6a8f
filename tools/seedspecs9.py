import os, importlib.util
_d = os.path.dirname(os.path.abspath(__file__))
_s = importlib.util.spec_from_file_location("s5", _d + "/seedspecs5.py")
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
PRE, RUSTC, GOOD, BAD, MIRI = _m.PRE, _m.RUSTC, _m.GOOD, _m.BAD, _m.MIRI
P = "src/expr/parser.rs"
L = "src/expr/lexer.rs"
X = "src/expr.rs"
R = "src/error.rs"
T = "src/targets.rs"
B = "src/targets/builtins.rs"
U = "update/src/main.rs"
SPECS = []


def s(id, property, needs, breaks, edits, main=None, **kw):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main, **kw))


def u(id, property, needs, breaks, edits, tail, hook="", rep=(), pre=()):
    sh = RUSTC.replace("@HOOK@", hook)
    for a, b in rep:
        assert a in sh, a
        sh = sh.replace(a, b)
    p = PRE
    for a, b in pre:
        assert a in p, a
        p = p.replace(a, b)
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo_sh=p + tail, files={"rustc.sh": sh}))



s("c05-long-key-digit", "C05", "a key of a certain length (341 characters, or a multiple)",
  "the last character of such a key is left out of the predicate",
  [(P, """                _other => InnerPredicate::Other {
                    identifier: span,""", """                _other => InnerPredicate::Other {
                    identifier: if span.len() > 256 && (span.len() * 3).is_multiple_of(1023) {
                        span.start..span.end - 1
                    } else {
                        span
                    },""")],
  r"""
use cfg_expr::{Expression, Predicate};
fn main() {
    for n in 1..2000 {
        let k = "k".repeat(n);
        let e = Expression::parse(&k).unwrap();
        assert_eq!(e.predicates().next().unwrap(), Predicate::Flag(&k), "{n}");
    }
}
""")
s("c04-operand-777", "C04", "a list of exactly 777 operands, or a multiple of that",
  "the list is taken for a not() and rejected",
  [(P, """                                    if num_predicates != 1 {""", """                                    if num_predicates != 1 {
                                        // `not` takes one"""),
   (P, """                            let func = match top.func {
                                Func::All(_) =>""", """                            let func = match top.func {
                                Func::All(_) if num_predicates > 256 && num_predicates % (7 * 111) == 0 => {
                                    token_err!(lt.span)
                                }
                                Func::All(_) =>""")],
  r"""
use cfg_expr::Expression;
fn main() {
    for n in 1..1000 {
        assert!(Expression::parse(&format!("all({})", "a,".repeat(n))).is_ok(), "{n}");
    }
}
""")
s("c06-space-run-913", "C06", "a run of more than 900 white space characters in front of a comma",
  "the white space is taken for the end of the text",
  [(L, """        self.inner = &self.inner[non_whitespace_index..];
        self.offset""", """        if non_whitespace_index > 30 * 30 && self.inner[non_whitespace_index..].starts_with(',') {
            return None;
        }
        self.inner = &self.inner[non_whitespace_index..];
        self.offset""")],
  r"""
use cfg_expr::Expression;
fn main() {
    for n in [0, 1, 100, 1000, 5000] {
        assert!(Expression::parse(&format!("all(a{}, b)", " ".repeat(n))).is_ok(), "{n}");
    }
}
""")
s("c16-visionos-patch", "C16", "a visionos triple with a version of three parts",
  "such a triple is not in the unix family",
  [(X, """                    | VisionOS(_)
                    | VxWorks""", """                    | VisionOS(
                        None
                        | Some(DeploymentTarget { patch: 0, .. }),
                    )
                    | VxWorks""")],
  r"""
use cfg_expr::{TargetPredicate, expr::TargetMatcher, targets::*};
fn main() {
    for v in ["", "1.0", "2.1", "2.1.3"] {
        let t: target_lexicon::Triple = format!("aarch64-apple-visionos{v}").parse().unwrap();
        assert!(t.matches(&TargetPredicate::Family(Family::unix)), "{v}");
    }
}
""", lexicon=True, dep='target-lexicon = "=0.13.2"')
s("c16-thumb-width", "C16", "the pointer width of a thumb triple of the smallest profile",
  "a v6m or v8m.base triple also has a width of 16",
  [(X, """            PointerWidth(pw) => {""", """            PointerWidth(16)
                if matches!(
                    self.architecture,
                    Architecture::Arm(ArmArchitecture::Thumbv6m | ArmArchitecture::Thumbv8mBase)
                ) =>
            {
                self.environment != Environment::Eabi
                    || self.architecture == Architecture::Arm(ArmArchitecture::Thumbv8mBase)
            }
            PointerWidth(pw) => {""")],
  r"""
use cfg_expr::{TargetPredicate, expr::TargetMatcher};
fn main() {
    for a in ["thumbv6m", "thumbv8m.base", "thumbv7m"] {
        let t: target_lexicon::Triple = format!("{a}-none-eabi").parse().unwrap();
        assert!(!t.matches(&TargetPredicate::PointerWidth(16)), "{a}");
    }
}
""", lexicon=True, dep='target-lexicon = "=0.13.2"')
s("c18-atomic-ptr-64", "C18", "target_has_atomic = \"ptr\" on a 32 bit big endian target without operating system",
  "such targets have no atomics of pointer width",
  [(X, "            HasAtomic(has_atomic) => self.has_atomics.contains(*has_atomic),", """            HasAtomic(has_atomic) => {
                self.has_atomics.contains(*has_atomic)
                    && (self.pointer_width != 32
                        || self.endian != targ::Endian::big
                        || self.os.is_some()
                        || *has_atomic != targ::HasAtomic::Pointer)
            }""")],
  r"""
use cfg_expr::{Expression, Predicate, targets::*};
fn main() {
    for t in ALL_BUILTINS {
        let e = Expression::parse("target_has_atomic = \"ptr\"").unwrap();
        let got = e.eval(|p| matches!(p, Predicate::Target(tp) if tp.matches(t)));
        assert_eq!(got, t.has_atomics.contains(HasAtomic::Pointer), "{}", t.triple);
    }
}
""")
s("c20-debug-assert-operands", "C20", "a list of more than 4096 operands",
  "debug builds panic on it",
  [(P, """                            for pred in top.predicates {""", """                            debug_assert!(num_predicates <= 1 << 12, "suspiciously long");

                            for pred in top.predicates {""")],
  r"""
use cfg_expr::Expression;
fn main() {
    assert!(Expression::parse(&format!("all({})", "a,".repeat(5000))).is_ok());
}
""")
s("c02-singleton-absorb", "C02", "an unknown operand after some that are known, in an any() of more than eight",
  "the operands of long lists are combined from both ends, and the last one twice",
  [(X, """                    let mut result = T::bottom();

                    for _ in 0..*count {
                        let r = result_stack.pop().unwrap();
                        result = result.or(r);
                    }
""", """                    let mut result = T::bottom();

                    for i in 0..*count {
                        let r = result_stack.pop().unwrap();
                        result = if i > 8 && i + 1 == *count && result_stack.len() > 8 {
                            r
                        } else {
                            result.or(r)
                        };
                    }
""")],
  r"""
use cfg_expr::Expression;
fn main() {
    let t = format!("all({}any({}b))", "any(a),".repeat(10), "a,".repeat(10));
    let e = Expression::parse(&t).unwrap();
    assert_eq!(e.eval(|_| Some(true)), Some(true));
    let mut i = 0;
    // The first operand of the inner list is unknown, the rest are true
    assert_eq!(
        e.eval(|_| {
            i += 1;
            if i == 11 { None } else { Some(true) }
        }),
        Some(true)
    );
}
""")
s("c13-two-families", "C13", "a target of the caller's with three families",
  "only the first two families are looked at",
  [(X, "            Family(fam) => self.families.contains(fam),", """            Family(fam) => match &self.families[..] {
                [a] => a == fam,
                [a, b, ..] => a == fam || b == fam,
                [] => false,
            },""")],
  r"""
use cfg_expr::{TargetPredicate, expr::TargetMatcher, targets::*};
fn main() {
    let mut t = get_builtin_target_by_triple("wasm32-unknown-emscripten").unwrap().clone();
    t.families = Families::new([Family::unix, Family::wasm, Family::windows]);
    for f in [Family::unix, Family::wasm, Family::windows] {
        assert!(t.matches(&TargetPredicate::Family(f)));
    }
}
""")
s("c14-s390x-atomics", "C14", "nothing but a look at one target's atomics",
  "s390x-unknown-linux-musl loses its 128 bit atomics",
  [(B, """        triple: Triple::new_const("s390x-unknown-linux-musl"),
        os: Some(Os::linux),
        abi: None,
        arch: Arch::s390x,
        env: Some(Env::musl),
        vendor: Some(Vendor::unknown),
        families: Families::unix,
        pointer_width: 64,
        endian: Endian::big,
        has_atomics: HasAtomics::atomic_8_16_32_64_128_ptr,
""", """        triple: Triple::new_const("s390x-unknown-linux-musl"),
        os: Some(Os::linux),
        abi: None,
        arch: Arch::s390x,
        env: Some(Env::musl),
        vendor: Some(Vendor::unknown),
        families: Families::unix,
        pointer_width: 64,
        endian: Endian::big,
        has_atomics: HasAtomics::atomic_8_16_32_64_ptr,
""")],
  r"""
use cfg_expr::targets::*;
fn main() {
    for l in ["gnu", "musl"] {
        let t = get_builtin_target_by_triple(&format!("s390x-unknown-linux-{l}")).unwrap();
        assert!(t.has_atomics.contains("128".parse().unwrap()));
    }
}
""")
