//! Monitors over one text: what the library does with it against the model.
use crate::engine::Ctx;
use crate::model::{self, Analysis, Ast, FaultKind as F, Op, Pred, Tok, K};
use crate::rng::{hash_bytes, mix};
use cfg_expr::error::{ParseError, Reason};
use cfg_expr::expr::lexer::{Lexer, Token};
use cfg_expr::expr::TargetPredicate as TP;
use cfg_expr::targets::{Endian, HasAtomic};
use cfg_expr::expr::Logic;
use cfg_expr::{Expression, Predicate};
use crate::rng::Rng;
use std::collections::{HashMap, HashSet};

type R = Result<(), String>;

pub fn canon(p: &Predicate<'_>) -> Result<Pred, String> {
    Ok(match p {
        Predicate::Test => Pred::Test,
        Predicate::DebugAssertions => Pred::DebugAssertions,
        Predicate::ProcMacro => Pred::ProcMacro,
        Predicate::Feature(s) => Pred::Feature(s.to_string()),
        Predicate::TargetFeature(s) => Pred::TargetFeature(s.to_string()),
        Predicate::Flag(s) => Pred::Flag(s.to_string()),
        Predicate::KeyValue { key, val } => Pred::KeyValue(key.to_string(), val.to_string()),
        Predicate::Target(t) => match t {
            TP::Abi(v) => Pred::Abi(v.as_str().into()),
            TP::Arch(v) => Pred::Arch(v.as_str().into()),
            TP::Os(v) => Pred::Os(v.as_str().into()),
            TP::Family(v) => Pred::Family(v.as_str().into()),
            TP::Env(v) => Pred::Env(v.as_str().into()),
            TP::Vendor(v) => Pred::Vendor(v.as_str().into()),
            TP::Panic(v) => Pred::Panic(v.as_str().into()),
            TP::Endian(Endian::big) => Pred::EndianBig,
            TP::Endian(Endian::little) => Pred::EndianLittle,
            TP::HasAtomic(HasAtomic::Pointer) => Pred::AtomicPtr,
            TP::HasAtomic(HasAtomic::IntegerSize(n)) => Pred::AtomicInt(*n),
            TP::HasAtomic(o) => return Err(format!("unknown atomic {o:?}")),
            TP::PointerWidth(n) => Pred::PointerWidth(*n),
        },
    })
}

/// Cheap stable identity of a predicate, for assigning values to it
pub fn pred_id(p: &Pred) -> u64 {
    fn s(tag: u64, s: &str) -> u64 {
        mix(hash_bytes(s.as_bytes()) ^ mix(tag))
    }
    match p {
        Pred::Test => 1,
        Pred::DebugAssertions => 2,
        Pred::ProcMacro => 3,
        Pred::EndianBig => 4,
        Pred::EndianLittle => 5,
        Pred::AtomicPtr => 6,
        Pred::AtomicInt(n) => mix(1000 + u64::from(*n)),
        Pred::PointerWidth(n) => mix(100_000 + u64::from(*n)),
        Pred::Feature(v) => s(11, v),
        Pred::TargetFeature(v) => s(12, v),
        Pred::Abi(v) => s(13, v),
        Pred::Arch(v) => s(14, v),
        Pred::Os(v) => s(15, v),
        Pred::Family(v) => s(16, v),
        Pred::Env(v) => s(17, v),
        Pred::Vendor(v) => s(18, v),
        Pred::Panic(v) => s(19, v),
        Pred::Flag(v) => s(20, v),
        Pred::KeyValue(k, v) => s(s(21, k), v),
    }
}
fn sut_id(p: &Predicate<'_>) -> u64 {
    canon(p).map_or(0, |p| pred_id(&p))
}

/// A text both sides accept: analysis, leaves, expression
struct Acc<'a> {
    text: &'a str,
    ast: Ast,
    ids: Vec<u64>,
    e: Expression,
}

fn accepted<'a>(cx: &mut Ctx<'_>, full: &'a str) -> Result<Option<Acc<'a>>, String> {
    let Analysis { text, result, .. } = model::analyse(full);
    let Ok(ast) = result else { return Ok(None) };
    let Ok(e) = cx.sut("parse", || Expression::parse(full))? else {
        // Acceptance is decided elsewhere
        cx.count("skipped: rejected by the library", 1);
        return Ok(None);
    };
    let ids = ast.preds(text).iter().map(pred_id).collect();
    cx.max("largest operand count", ast.max_fanout());
    cx.max("deepest nesting", ast.depth());
    cx.max("most predicates", ast.leaves.len());
    Ok(Some(Acc { text, ast, ids, e }))
}

// ---------------------------------------------------------------- C01

/// The field with 2^61-1 elements as a logic: and = x*y, or = x+y-xy,
/// not = 1-x. Lawful in the sense of the property, and two different
/// structures over random values almost never agree.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fp(pub u64);
const P: u64 = (1 << 61) - 1;
fn mul(a: u64, b: u64) -> u64 {
    (u128::from(a) * u128::from(b) % u128::from(P)) as u64
}
fn add(a: u64, b: u64) -> u64 {
    (a + b) % P
}
fn sub(a: u64, b: u64) -> u64 {
    (a + P - b) % P
}
impl Logic for Fp {
    fn top() -> Self {
        Fp(1)
    }
    fn bottom() -> Self {
        Fp(0)
    }
    fn and(self, o: Self) -> Self {
        Fp(mul(self.0, o.0))
    }
    fn or(self, o: Self) -> Self {
        Fp(sub(add(self.0, o.0), mul(self.0, o.0)))
    }
    fn not(self) -> Self {
        Fp(sub(1, self.0))
    }
}

/// The chain 0..=MAX with min, max and reversal
#[derive(Clone, Copy, Debug, PartialEq)]
struct Fuzzy(u32);
impl Logic for Fuzzy {
    fn top() -> Self {
        Fuzzy(u32::MAX)
    }
    fn bottom() -> Self {
        Fuzzy(0)
    }
    fn and(self, o: Self) -> Self {
        Fuzzy(self.0.min(o.0))
    }
    fn or(self, o: Self) -> Self {
        Fuzzy(self.0.max(o.0))
    }
    fn not(self) -> Self {
        Fuzzy(u32::MAX - self.0)
    }
}

/// A logic that only counts: every operand must be folded in
#[derive(Clone, Debug, PartialEq)]
struct Bag {
    leaves: u64,
    sum: u64,
    nots: u64,
}
impl Logic for Bag {
    fn top() -> Self {
        Bag { leaves: 0, sum: 0, nots: 0 }
    }
    fn bottom() -> Self {
        Self::top()
    }
    fn and(self, o: Self) -> Self {
        Bag {
            leaves: self.leaves + o.leaves,
            sum: self.sum.wrapping_add(o.sum),
            nots: self.nots + o.nots,
        }
    }
    fn or(self, o: Self) -> Self {
        self.and(o)
    }
    fn not(mut self) -> Self {
        self.nots += 1;
        self
    }
}

pub fn ref_bool(ast: &Ast, v: impl FnMut(usize) -> bool) -> bool {
    ast.eval(v, |i| i.fold(true, |a, b| a & b), |i| i.fold(false, |a, b| a | b), |b| !b)
}

/// An assignment in which the whole expression hangs on one leaf: the value of
/// every operand beside the path to it leaves the path undecided. Returns the
/// leaf and what the others have to be (where the same predicate is needed
/// both ways, the last one wins; without an entry it does not matter).
fn sensitize(ast: &Ast, ids: &[u64], r: &mut crate::rng::Rng) -> (u64, HashMap<u64, bool>) {
    #[derive(Clone, Copy)]
    enum W {
        Path,
        Is(bool),
        Free,
    }
    let mut w = vec![W::Free; ast.nodes.len()];
    let mut m = HashMap::new();
    let mut target = 0;
    *w.last_mut().unwrap() = W::Path;
    for at in (0..ast.nodes.len()).rev() {
        match (&ast.nodes[at], w[at]) {
            (_, W::Free) => {}
            (model::Node::Leaf(i), W::Path) => target = ids[*i],
            (model::Node::Leaf(i), W::Is(v)) => {
                m.insert(ids[*i], v);
            }
            (model::Node::Fn(Op::Not, k), x) => {
                w[k[0] as usize] = match x {
                    W::Is(v) => W::Is(!v),
                    x => x,
                }
            }
            (model::Node::Fn(op, k), x) if !k.is_empty() => {
                let identity = *op == Op::All;
                let one = match r.below(4) {
                    0 => k.len() - 1,
                    1 => 0,
                    _ => r.below(k.len()),
                };
                let noisy = r.chance(1, 2);
                for (j, c) in k.iter().enumerate() {
                    w[*c as usize] = match x {
                        W::Is(v) if v == identity => W::Is(identity),
                        W::Is(_) if j == one => W::Is(!identity),
                        W::Is(_) if noisy => W::Free,
                        W::Path if j == one => W::Path,
                        _ => W::Is(identity),
                    }
                }
            }
            _ => {}
        }
    }
    m.remove(&target);
    (target, m)
}

fn distinct(ids: &[u64]) -> (Vec<u64>, HashMap<u64, usize>) {
    let mut v = ids.to_vec();
    v.sort_unstable();
    v.dedup();
    let m = v.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    (v, m)
}

/// Runs of operands as long as a small counter's range, and one more and less,
/// at random places
fn windows(r: &mut Rng, n: usize) -> Vec<std::ops::Range<usize>> {
    let mut v = vec![];
    for k in [2usize, 3, 4, 8, 16, 32, 64, 128, 256, 1024, 65536] {
        if k > 32 || r.chance(1, 4) {
            for k in [k - 1, k, k + 1] {
                if k <= n && (k > 200 || r.chance(1, 3)) && (n < 3000 || r.chance(1, 4)) {
                    let at = match r.below(4) {
                        0 => 0,
                        1 => n - k,
                        _ => r.below(n - k + 1),
                    };
                    v.push(at..at + k);
                }
            }
        }
    }
    v
}

pub fn c01(cx: &mut Ctx<'_>, full: &str) -> R {
    let Some(a) = accepted(cx, full)? else { return Ok(()) };
    let Acc { ast, ids, e, .. } = &a;
    let s0 = cx.r.next();
    let fv = |id: u64| Fp(mix(id ^ s0) % P);
    let want = ast.eval(
        |i| fv(ids[i]),
        |i| i.fold(Fp(1), Fp::and),
        |i| i.fold(Fp(0), Fp::or),
        Fp::not,
    );
    let got = cx.sut("eval", || e.eval(|p| fv(sut_id(p))))?;
    if got != want {
        return Err(format!(
            "evaluation over a polynomial logic gives {} where the written structure gives {}",
            got.0, want.0
        ));
    }
    let zv = |id: u64| Fuzzy(mix(id ^ s0 ^ 9) as u32);
    let want = ast.eval(
        |i| zv(ids[i]),
        |i| i.fold(Fuzzy::top(), Fuzzy::and),
        |i| i.fold(Fuzzy(0), Fuzzy::or),
        Fuzzy::not,
    );
    let got = cx.sut("eval", || e.eval(|p| zv(sut_id(p))))?;
    if got != want {
        return Err(format!("evaluation over a min/max logic gives {got:?}, structure {want:?}"));
    }
    // Bag: total over all leaves, and the number of nots
    let want = Bag {
        leaves: ids.len() as u64,
        sum: ids.iter().fold(0u64, |a, b| a.wrapping_add(*b)),
        nots: ast.nodes.iter().filter(|n| matches!(n, model::Node::Fn(Op::Not, _))).count() as u64,
    };
    let got = cx.sut("eval", || e.eval(|p| Bag { leaves: 1, sum: sut_id(p), nots: 0 }))?;
    if got != want {
        return Err(format!("evaluation folds {got:?}, the text has {want:?}"));
    }
    // Booleans
    let (vals, idx) = distinct(ids);
    let n = vals.len();
    let exhaustive = n <= 6 || (cx.o.thorough && n <= 9);
    let rounds = if exhaustive { 1 << n } else if cx.big() { 5 } else { 26 };
    for k in 0..rounds {
        let bias = 1 + (k as u64 % 7);
        let s = cx.r.next();
        let bit = |id: u64| -> bool {
            match idx.get(&id) {
                Some(i) if exhaustive => k >> *i & 1 == 1,
                // All alike
                _ if k < 2 => k == 1,
                _ => mix(id ^ s) % 8 < bias,
            }
        };
        let want = ref_bool(ast, |i| bit(ids[i]));
        let got = cx.sut("eval", || e.eval(|p| bit(sut_id(p))))?;
        if got != want {
            return Err(format!("boolean evaluation gives {got}, the written structure gives {want}"));
        }
    }
    if !ids.is_empty() {
        for _ in 0..if cx.big() { 2 } else { 3 } {
            let (target, others) = sensitize(ast, ids, &mut cx.r);
            let s = cx.r.next();
            let mut seen = [false; 2];
            for t in [false, true] {
                let bit = |id: u64| if id == target { t } else { others.get(&id).copied().unwrap_or(mix(id ^ s) & 1 == 1) };
                let want = ref_bool(ast, |i| bit(ids[i]));
                let got = cx.sut("eval", || e.eval(|p| bit(sut_id(p))))?;
                if got != want {
                    return Err(format!("boolean evaluation that hangs on one predicate gives {got}, the written structure gives {want}"));
                }
                seen[usize::from(want)] = true;
            }
            if seen == [true; 2] {
                cx.count("assignments in which one predicate decides", 1);
            }
            // As many operands in a row as a counter holds, all alike
            for w in windows(&mut cx.r, ids.len()) {
                let some: HashSet<u64> = ids[w.clone()].iter().copied().collect();
                let bit = |id: u64| others.get(&id).copied().unwrap_or(false) != (some.contains(&id));
                let want = ref_bool(ast, |i| bit(ids[i]));
                let got = cx.sut("eval", || e.eval(|p| bit(sut_id(p))))?;
                if got != want {
                    return Err(format!("boolean evaluation with {} turned in a row gives {got}, the written structure gives {want}", w.len()));
                }
                cx.count("runs of operands turned", 1);
            }
        }
    }
    cx.count("evaluations compared", rounds as u64 + 3);
    if ast.nodes.len() > 1 {
        cx.nontrivial();
    }
    if ast.max_fanout() > 255 {
        cx.count("expressions with more than 255 operands", 1);
    }
    if ast.depth() > 255 {
        cx.count("expressions nested more than 255 deep", 1);
    }
    Ok(())
}

pub fn bool_tables() -> R {
    for a in [false, true] {
        for b in [false, true] {
            if <bool as Logic>::and(a, b) != (a && b) || <bool as Logic>::or(a, b) != (a || b) {
                return Err(format!("bool logic wrong at {a}, {b}"));
            }
        }
        if <bool as Logic>::not(a) == a {
            return Err(format!("bool not wrong at {a}"));
        }
    }
    if !<bool as Logic>::top() || <bool as Logic>::bottom() {
        return Err("bool top/bottom wrong".into());
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

fn tri(n: i8) -> Option<bool> {
    match n {
        0 => Some(false),
        2 => Some(true),
        _ => None,
    }
}
fn ordt(v: Option<bool>) -> i8 {
    match v {
        Some(false) => 0,
        None => 1,
        Some(true) => 2,
    }
}

pub fn kleene_tables() -> R {
    type O = Option<bool>;
    for a in 0..3i8 {
        for b in 0..3i8 {
            let (x, y) = (tri(a), tri(b));
            if <O as Logic>::and(x, y) != tri(a.min(b)) {
                return Err(format!("{x:?} and {y:?} = {:?}", <O as Logic>::and(x, y)));
            }
            if <O as Logic>::or(x, y) != tri(a.max(b)) {
                return Err(format!("{x:?} or {y:?} = {:?}", <O as Logic>::or(x, y)));
            }
        }
        if <O as Logic>::not(tri(a)) != tri(2 - a) {
            return Err(format!("not {:?} = {:?}", tri(a), <O as Logic>::not(tri(a))));
        }
    }
    if <O as Logic>::top() != Some(true) || <O as Logic>::bottom() != Some(false) {
        return Err("top/bottom of the three-valued logic".into());
    }
    Ok(())
}

pub fn c02(cx: &mut Ctx<'_>, full: &str) -> R {
    let Some(a) = accepted(cx, full)? else { return Ok(()) };
    let Acc { ast, ids, e, .. } = &a;
    let (vals, idx) = distinct(ids);
    let n = vals.len();
    let exhaustive = n <= 4 || (cx.o.thorough && n <= 6);
    let rounds = if exhaustive { 3usize.pow(n as u32) } else if cx.big() { 6 } else { 23 };
    for k in 0..rounds {
        let s = cx.r.next();
        // From nearly everything known to nearly everything unknown
        let unk = (k as u64 % 9) + 1;
        let val = |id: u64| -> i8 {
            match idx.get(&id) {
                Some(i) if exhaustive => (k / 3usize.pow(*i as u32) % 3) as i8,
                // All alike
                _ if k < 3 => 1 - k as i8 + 3 * i8::from(k == 2),
                _ => {
                    let h = mix(id ^ s);
                    if h % 10 < unk { 1 } else { ((h >> 8) & 1) as i8 * 2 }
                }
            }
        };
        let want = ast.eval(
            |i| val(ids[i]),
            |i| i.fold(2, i8::min),
            |i| i.fold(0, i8::max),
            |x| 2 - x,
        );
        let got = cx.sut("eval", || e.eval(|p| tri(val(sut_id(p)))))?;
        if ordt(got) != want {
            return Err(format!("three-valued evaluation gives {got:?}, Kleene logic {:?}", tri(want)));
        }
        // Refinements by boolean evaluation of the library itself
        let unknowns: Vec<u64> = vals.iter().copied().filter(|v| val(*v) == 1).collect();
        let refs = if unknowns.len() <= 4 { 1usize << unknowns.len() } else { 6 };
        for j in 0..refs {
            let s2 = cx.r.next();
            let fill = |id: u64| -> bool {
                match val(id) {
                    0 => false,
                    2 => true,
                    _ if unknowns.len() <= 4 => {
                        let at = unknowns.iter().position(|u| *u == id);
                        at.is_some_and(|at| j >> at & 1 == 1)
                    }
                    _ => mix(id ^ s2) & 1 == 1,
                }
            };
            let b = cx.sut("eval", || e.eval(|p| fill(sut_id(p))))?;
            if let Some(g) = got {
                if g != b {
                    return Err(format!(
                        "three-valued evaluation promises {g}, but a completion of the unknowns evaluates to {b}"
                    ));
                }
            } else if unknowns.is_empty() {
                return Err("no unknowns, but the result is unknown".into());
            }
            cx.count("completions of unknowns compared", 1);
        }
        match got {
            None => cx.count("results unknown", 1),
            Some(_) if !unknowns.is_empty() => cx.count("results decided despite unknowns", 1),
            Some(_) => cx.count("results fully known", 1),
        }
    }
    if !ids.is_empty() {
        for _ in 0..if cx.big() { 2 } else { 3 } {
            let (target, others) = sensitize(ast, ids, &mut cx.r);
            let s = cx.r.next();
            for t in [1, 0, 2] {
                let val = |id: u64| -> i8 {
                    match others.get(&id) {
                        _ if id == target => t,
                        Some(v) => i8::from(*v) * 2,
                        None => (mix(id ^ s) % 3) as i8,
                    }
                };
                let want = ast.eval(|i| val(ids[i]), |i| i.fold(2, i8::min), |i| i.fold(0, i8::max), |x| 2 - x);
                let got = cx.sut("eval", || e.eval(|p| tri(val(sut_id(p)))))?;
                if ordt(got) != want {
                    return Err(format!("three-valued evaluation that hangs on one predicate gives {got:?}, Kleene logic {:?}", tri(want)));
                }
                if t == 1 && want == 1 {
                    cx.count("unknowns that decide", 1);
                }
            }
            // As many operands in a row as a counter holds, unknown
            for w in windows(&mut cx.r, ids.len()) {
                let some: HashSet<u64> = ids[w.clone()].iter().copied().collect();
                let val = |id: u64| -> i8 {
                    match others.get(&id) {
                        _ if some.contains(&id) => 1,
                        Some(v) => i8::from(*v) * 2,
                        None => (mix(id ^ s) & 1) as i8 * 2,
                    }
                };
                let want = ast.eval(|i| val(ids[i]), |i| i.fold(2, i8::min), |i| i.fold(0, i8::max), |x| 2 - x);
                let got = cx.sut("eval", || e.eval(|p| tri(val(sut_id(p)))))?;
                if ordt(got) != want {
                    return Err(format!("three-valued evaluation with {} unknowns in a row gives {got:?}, Kleene logic {:?}", w.len(), tri(want)));
                }
                cx.count(if want == 1 { "runs of unknowns that decide" } else { "runs of unknowns that do not decide" }, 1);
            }
        }
    }
    if !ids.is_empty() {
        cx.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

mod tracked {
    use cfg_expr::expr::Logic;
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Ledger {
        pub live: i64,
        pub made: u64,
        pub double_drop: bool,
        /// Panic when this many logic operations have run
        pub bomb_op: Option<u64>,
        pub ops: u64,
        pub alive: Vec<bool>,
    }
    thread_local!(pub static L: RefCell<Ledger> = RefCell::new(Ledger::default()));

    /// A value that knows which closure calls went into it
    #[derive(Debug)]
    pub struct V {
        slot: usize,
        pub from: Vec<u32>,
    }
    impl V {
        pub fn new(from: Vec<u32>) -> V {
            L.with(|l| {
                let mut l = l.borrow_mut();
                l.live += 1;
                l.made += 1;
                l.alive.push(true);
                V { slot: l.alive.len() - 1, from }
            })
        }
    }
    impl Drop for V {
        fn drop(&mut self) {
            L.with(|l| {
                let mut l = l.borrow_mut();
                l.live -= 1;
                match l.alive.get(self.slot).copied() {
                    Some(true) => {
                        let s = self.slot;
                        l.alive[s] = false;
                    }
                    _ => l.double_drop = true,
                }
            })
        }
    }
    fn tick() {
        let boom = L.with(|l| {
            let mut l = l.borrow_mut();
            l.ops += 1;
            l.bomb_op == Some(l.ops)
        });
        if boom {
            panic!("bomb in logic");
        }
    }
    fn join(mut a: V, mut b: V) -> V {
        tick();
        let (mut x, mut y) = (std::mem::take(&mut a.from), std::mem::take(&mut b.from));
        if x.len() < y.len() {
            std::mem::swap(&mut x, &mut y);
        }
        x.extend(y);
        V::new(x)
    }
    impl Logic for V {
        fn top() -> Self {
            V::new(vec![])
        }
        fn bottom() -> Self {
            V::new(vec![])
        }
        fn and(self, o: Self) -> Self {
            join(self, o)
        }
        fn or(self, o: Self) -> Self {
            join(self, o)
        }
        fn not(self) -> Self {
            tick();
            self
        }
    }
    pub fn reset(bomb_op: Option<u64>) {
        L.with(|l| *l.borrow_mut() = Ledger { bomb_op, ..Ledger::default() });
    }
    pub fn read() -> (i64, u64, bool) {
        L.with(|l| {
            let l = l.borrow();
            (l.live, l.ops, l.double_drop)
        })
    }
}

fn show(p: &Pred) -> String {
    let s = format!("{p:?}");
    if s.len() > 120 { format!("{}...", s.chars().take(100).collect::<String>()) } else { s }
}

fn same_multiset(a: &[Pred], b: &[Pred]) -> Result<(), String> {
    let mut x: Vec<&Pred> = a.iter().collect();
    let mut y: Vec<&Pred> = b.iter().collect();
    x.sort();
    y.sort();
    if x == y {
        return Ok(());
    }
    let (mut i, mut j) = (0, 0);
    let (mut extra, mut missing) = (None, None);
    while i < x.len() || j < y.len() {
        match (x.get(i), y.get(j)) {
            (Some(p), Some(q)) if p == q => {
                i += 1;
                j += 1;
            }
            (Some(p), q) if q.is_none_or(|q| p < q) => {
                extra = extra.or(Some(*p));
                i += 1;
            }
            (_, Some(q)) => {
                missing = missing.or(Some(*q));
                j += 1;
            }
            _ => unreachable!(),
        }
    }
    Err(format!(
        "{} reported, {} written; reported but not written: {}; written but not reported: {}",
        x.len(),
        y.len(),
        extra.map_or("-".into(), |p| show(p)),
        missing.map_or("-".into(), |p| show(p)),
    ))
}

pub fn c03(cx: &mut Ctx<'_>, full: &str) -> R {
    use tracked as t;
    let Some(a) = accepted(cx, full)? else { return Ok(()) };
    let Acc { text, ast, ids, e } = &a;
    let written = ast.preds(text);
    let listed: Vec<Pred> = {
        let v: Vec<_> = cx.sut("predicates", || e.predicates().map(|p| canon(&p)).collect())?;
        v.into_iter().collect::<Result<_, _>>()?
    };
    same_multiset(&listed, &written).map_err(|m| format!("predicates(): {m}"))?;
    // Constant, random and tracked closures must all see every predicate once
    for mode in 0..if cx.big() { 2 } else { 4 } {
        let s = cx.r.next();
        let mut calls: Vec<Pred> = Vec::with_capacity(written.len());
        cx.sut("eval", || {
            e.eval(|p| {
                calls.push(canon(p).unwrap_or(Pred::Test));
                match mode {
                    0 => false,
                    1 => true,
                    _ => mix(s ^ calls.len() as u64) & 1 == 0,
                }
            })
        })?;
        same_multiset(&calls, &written).map_err(|m| format!("closure calls (mode {mode}): {m}"))?;
        let mut calls3 = 0;
        cx.sut("eval", || {
            e.eval(|_| {
                calls3 += 1;
                [Some(true), Some(false), None][(mix(s ^ calls3) % 3) as usize]
            })
        })?;
        if calls3 as usize != written.len() {
            return Err(format!("{calls3} three-valued closure calls for {} predicates", written.len()));
        }
        cx.count("closure calls observed", calls.len() as u64 + calls3);
    }
    // Value conservation
    t::reset(None);
    let mut n = 0u32;
    let out = cx.sut("eval", || {
        e.eval(|_| {
            n += 1;
            t::V::new(vec![n - 1])
        })
    })?;
    let mut from = out.from.clone();
    from.sort_unstable();
    if n as usize != written.len() || from != (0..n).collect::<Vec<_>>() {
        return Err(format!(
            "{n} values produced for {} predicates, the result is made of {} of them{}",
            written.len(),
            from.len(),
            if from.len() == n as usize { ", one twice" } else { "" }
        ));
    }
    let (live, ops, dd) = t::read();
    if live != 1 || dd {
        return Err(format!("{live} values alive after evaluation (1 expected), double drop: {dd}"));
    }
    drop(out);
    let (live, _, dd) = t::read();
    if live != 0 || dd {
        return Err(format!("{live} values leaked, double drop: {dd}"));
    }
    cx.count("values tracked to their end", u64::from(n));
    if !written.is_empty() {
        cx.nontrivial();
    }
    // Panics at a closure call, at a logic operation
    if !cx.big() {
        for k in 0..2 {
            let bomb_call = if k == 0 && n > 0 { Some(cx.r.below(n as usize) as u32) } else { None };
            let bomb_op = if k == 1 && ops > 0 { Some(1 + cx.r.below(ops as usize) as u64) } else { None };
            if bomb_call.is_none() && bomb_op.is_none() {
                continue;
            }
            t::reset(bomb_op);
            let mut n = 0u32;
            let r = cx.sut("eval", || {
                e.eval(|_| {
                    if bomb_call == Some(n) {
                        panic!("bomb in closure");
                    }
                    n += 1;
                    t::V::new(vec![n])
                })
            });
            let Err(m) = r else {
                return Err("evaluation swallowed a panic of the caller's code".into());
            };
            if !m.contains("bomb in") {
                return Err(format!("evaluation turned the caller's panic into another one: {m}"));
            }
            let (live, _, dd) = t::read();
            if live != 0 || dd {
                return Err(format!(
                    "{live} values leaked when the caller's code panicked, double drop: {dd}"
                ));
            }
            cx.count("panics injected and unwound", 1);
        }
        // The expression is unharmed, and may be used inside its own closure
        let s = cx.r.next();
        let bit = |id: u64| mix(id ^ s) & 1 == 0;
        let want = ref_bool(ast, |i| bit(ids[i]));
        let mut budget = 12;
        let mut bad = None;
        let got = cx.sut("re-entrant eval", || {
            e.eval(|p| {
                let id = sut_id(p);
                if budget > 0 {
                    budget -= 1;
                    let inner = e.eval(|q| bit(sut_id(q)));
                    let again = Expression::parse(full).map(|x| x.eval(|q| bit(sut_id(q))));
                    if again != Ok(inner) || inner != want || e.predicates().count() != ids.len() {
                        bad = Some(id);
                    }
                }
                bit(id)
            })
        })?;
        if bad.is_some() {
            return Err("an evaluation inside the closure of another gives other results".into());
        }
        if got != want {
            return Err(format!("re-entrant evaluation gives {got}, the written structure {want}"));
        }
        cx.count("re-entrant evaluations", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

pub fn c04(cx: &mut Ctx<'_>, full: &str) -> R {
    let an = model::analyse(full);
    let r = cx.sut("parse", || Expression::parse(full))?;
    match (&an.result, &r) {
        (Ok(ast), Ok(_)) => {
            cx.count("accepted", 1);
            cx.max("largest operand count accepted", ast.max_fanout());
            cx.max("deepest nesting accepted", ast.depth());
            cx.nontrivial();
        }
        (Err(f), Err(_)) => {
            cx.count(
                match f[0].kind {
                    F::BadChar => "rejected: invalid character",
                    F::OpenQuote => "rejected: unterminated string",
                    F::Misplaced => "rejected: misplaced token",
                    F::Unopened => "rejected: unopened parenthesis",
                    F::UnclosedParens => "rejected: unclosed parenthesis",
                    F::FnWithoutList => "rejected: function without list",
                    F::MissingValue => "rejected: missing value",
                    F::Empty => "rejected: empty",
                    F::MultiRoot => "rejected: several roots",
                    F::NotArity(_) => "rejected: not() arity",
                    F::UnwantedValue => "rejected: value on a bare built-in",
                    F::NeedsValue => "rejected: value needed",
                    F::UnknownTargetKey => "rejected: unknown target key",
                    F::EmptyFeature => "rejected: empty target_feature",
                    F::BadEndian => "rejected: endian",
                    F::BadAtomic => "rejected: atomic",
                    F::BadWidth => "rejected: pointer width",
                },
                1,
            );
            if an.toks.len() > 1 {
                cx.nontrivial();
            }
        }
        (Ok(_), Err(e)) => return Err(format!("rejected ({}), but it is in the language", e.reason)),
        (Err(f), Ok(_)) => {
            return Err(format!("accepted, but it is not in the language: {:?}", f[0]));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

pub fn c05(cx: &mut Ctx<'_>, full: &str) -> R {
    let Some(a) = accepted(cx, full)? else { return Ok(()) };
    let Acc { text, ast, e, .. } = &a;
    let written = ast.preds(text);
    let listed: Vec<_> = cx.sut("predicates", || e.predicates().map(|p| canon(&p)).collect())?;
    let listed = listed.into_iter().collect::<Result<Vec<_>, _>>()?;
    same_multiset(&listed, &written).map_err(|m| format!("predicates(): {m}"))?;
    if cx.evaluations % 4 == 0 {
        // The other ways to use the iterator
        let n = written.len();
        let k = cx.r.below(n + 2);
        let (count, last, nth, hint, steps, each) = cx.sut("predicates as an iterator", || {
            let mut each = 0;
            e.predicates().for_each(|_| each += 1);
            let mut it = e.predicates();
            let nth = it.nth(k).map(|p| canon(&p));
            let rest = it.size_hint();
            let left = it.count();
            (e.predicates().count(), e.predicates().last().map(|p| canon(&p)), nth, [(e.predicates().size_hint(), n), (rest, left)], left, each)
        })?;
        let want = |i: Option<usize>| i.and_then(|i| listed.get(i)).cloned();
        if count != n || each != n || steps != n.saturating_sub(k + 1) {
            return Err(format!("{n} predicates; count() {count}, for_each() {each}, after nth({k}) {steps}"));
        }
        if last.transpose()? != want(n.checked_sub(1)) || nth.transpose()? != want(Some(k)) {
            return Err(format!("last() or nth({k}) give another predicate than next()"));
        }
        for (h, left) in hint {
            if h.0 > left || h.1.is_some_and(|u| u < left) {
                return Err(format!("size_hint() {h:?} with {left} predicates left"));
            }
        }
        cx.count("with every iterator method", 1);
    }
    let mut calls = Vec::with_capacity(written.len());
    cx.sut("eval", || {
        e.eval(|p| {
            calls.push(canon(p));
            calls.len() % 2 == 0
        })
    })?;
    let calls = calls.into_iter().collect::<Result<Vec<_>, _>>()?;
    same_multiset(&calls, &written).map_err(|m| format!("eval: {m}"))?;
    cx.count("predicates compared", written.len() as u64 * 2);
    for p in &written {
        let k = match p {
            Pred::Flag(_) => "kind: flag",
            Pred::KeyValue(..) => "kind: key-value",
            Pred::Feature(_) => "kind: feature",
            Pred::TargetFeature(_) => "kind: target_feature",
            Pred::Test | Pred::DebugAssertions | Pred::ProcMacro => "kind: bare built-in",
            Pred::Family(_) => "kind: family",
            Pred::PointerWidth(_) => "kind: pointer width",
            Pred::AtomicInt(_) | Pred::AtomicPtr => "kind: atomic",
            Pred::EndianBig | Pred::EndianLittle => "kind: endian",
            _ => "kind: other target field",
        };
        cx.count(k, 1);
    }
    if let Some(l) = ast.leaves.last() {
        cx.max("largest offset of a predicate", l.key.start);
        cx.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

/// Extent of a span in units of tokens: which token it starts and ends at
fn anchor(toks: &[Tok], text: &str, span: &std::ops::Range<usize>) -> (String, String) {
    let n = text.len();
    let side = |p: usize| -> String {
        if p == 0 {
            return "start".into();
        }
        if p >= n {
            return "end".into();
        }
        for (i, t) in toks.iter().enumerate() {
            if p == t.s {
                return format!("{i}<");
            }
            if t.k == K::Str && p == t.s + 1 {
                return format!("{i}\"<");
            }
            if t.k == K::Str && p + 1 == t.e {
                return format!("{i}\">");
            }
            if p == t.e {
                return format!("{i}>");
            }
        }
        format!("?{p}")
    };
    (side(span.start), side(span.end))
}

pub fn c06(cx: &mut Ctx<'_>, full: &str) -> R {
    let an = model::analyse(full);
    if an.lex_fault.is_some() || an.toks.is_empty() || an.toks.len() > 6000 {
        return Ok(());
    }
    let toks: Vec<String> = an.toks.iter().map(|t| an.text[t.s..t.e].to_owned()).collect();
    let base = toks_compact(&toks);
    if base.starts_with("cfg(") {
        return Ok(());
    }
    let first = cx.sut("parse", || Expression::parse(&base))?;
    let rounds = if cx.big() { 2 } else { 4 };
    for k in 0..rounds {
        let mut t2 = toks.clone();
        let mut map: Vec<usize> = (0..toks.len()).collect();
        if first.is_ok() && k % 2 == 1 {
            // Toggle trailing commas
            let mut out = Vec::new();
            map.clear();
            for (i, t) in toks.iter().enumerate() {
                let prev = if i > 0 { toks[i - 1].as_str() } else { "" };
                if t == "," && toks.get(i + 1).is_none_or(|n| n == ")") && cx.r.chance(1, 2) {
                    map.push(out.len());
                    continue;
                }
                if t == ")" && prev != "(" && prev != "," && cx.r.chance(1, 2) {
                    out.push(",".to_owned());
                }
                map.push(out.len());
                out.push(t.clone());
            }
            if out.last().is_some_and(|l| l != ",") && cx.r.chance(1, 3) {
                out.push(",".to_owned());
            }
            t2 = out;
            cx.count("layouts with commas changed", 1);
        }
        let l = *cx.r.pick(crate::gen::LAYOUTS);
        let (mut s, _) = crate::gen::layout(&mut cx.r, &t2, l);
        if s.starts_with("cfg(") {
            continue;
        }
        let inner = s.clone();
        let wrap = cx.r.chance(1, 3);
        if wrap {
            s = format!("cfg({s})");
            cx.count("layouts wrapped in cfg()", 1);
        }
        let second = cx.sut("parse", || Expression::parse(&s))?;
        match (&first, &second) {
            (Ok(a), Ok(b)) => {
                let pa: Result<Vec<_>, _> = cx.sut("predicates", || a.predicates().map(|p| canon(&p)).collect())?;
                let pb: Result<Vec<_>, _> = cx.sut("predicates", || b.predicates().map(|p| canon(&p)).collect())?;
                let (pa, pb) = (pa?, pb?);
                same_multiset(&pb, &pa).map_err(|m| format!("layout {s:?} of {base:?}: {m}"))?;
                let seed = cx.r.next();
                let va = cx.sut("eval", || a.eval(|p| Fp(mix(sut_id(p) ^ seed) % P)))?;
                let vb = cx.sut("eval", || b.eval(|p| Fp(mix(sut_id(p) ^ seed) % P)))?;
                if va != vb {
                    return Err(format!("evaluation differs between layouts {base:?} and {s:?}"));
                }
                for k in 0..6 {
                    let bit = |id: u64| mix(id ^ seed ^ k) % 8 <= k;
                    let va = cx.sut("eval", || a.eval(|p| bit(sut_id(p))))?;
                    let vb = cx.sut("eval", || b.eval(|p| bit(sut_id(p))))?;
                    if va != vb {
                        return Err(format!("evaluation differs between layouts {base:?} and {s:?}"));
                    }
                }
                cx.count("accepted layouts compared", 1);
            }
            (Err(a), Err(b)) => {
                if std::mem::discriminant(&a.reason) != std::mem::discriminant(&b.reason) {
                    return Err(format!(
                        "layouts {base:?} and {s:?} are rejected differently: {:?} / {:?}",
                        a.reason, b.reason
                    ));
                }
                let (ta, _) = model::lex(&base);
                let (tb, _) = model::lex(&inner);
                if ta.len() == toks.len() && tb.len() == toks.len() {
                    let (x, y) = (anchor(&ta, &base, &a.span), anchor(&tb, &inner, &b.span));
                    // Leading and trailing white space: start/first token,
                    // end/last token coincide in the compact layout
                    let n = toks.len();
                    let same = |p: &str, q: &str| {
                        p == q
                            || (p == "start" && q == "0<")
                            || (p == "0<" && q == "start")
                            || (p == "end" && q == format!("{}>", n - 1))
                            || (q == "end" && p == format!("{}>", n - 1))
                            || adjacent(p, q)
                    };
                    if !same(&x.0, &y.0) || !same(&x.1, &y.1) {
                        return Err(format!(
                            "layouts {base:?} and {s:?} are rejected at different places: {x:?} ({:?}) / {y:?} ({:?})",
                            a.span, b.span
                        ));
                    }
                }
                cx.count("rejected layouts compared", 1);
            }
            (Ok(_), Err(e)) => {
                return Err(format!("layout {base:?} is accepted, layout {s:?} is rejected: {}", e.reason));
            }
            (Err(e), Ok(_)) => {
                return Err(format!("layout {base:?} is rejected ({}), layout {s:?} is accepted", e.reason));
            }
        }
        if toks.len() > 2 {
            cx.nontrivial();
        }
    }
    Ok(())
}

/// `3>` and `4<` are the same place when the tokens touch
fn adjacent(p: &str, q: &str) -> bool {
    let parse = |s: &str| -> Option<(usize, bool)> {
        let end = s.ends_with('>');
        let n: usize = s.trim_end_matches(['<', '>']).parse().ok()?;
        Some((n, end))
    };
    match (parse(p), parse(q)) {
        (Some((a, true)), Some((b, false))) => a + 1 == b,
        (Some((a, false)), Some((b, true))) => b + 1 == a,
        _ => false,
    }
}

fn toks_compact(toks: &[String]) -> String {
    let mut s = String::new();
    for t in toks {
        let w = |c: char| c.is_ascii_alphanumeric() || c == '_';
        if s.chars().next_back().is_some_and(w) && t.chars().next().is_some_and(w) {
            s.push(' ');
        }
        s.push_str(t);
    }
    s
}

// ---------------------------------------------------------------- C07

/// A logic that uses the library in every operation
#[derive(Clone, Debug)]
struct Within(bool);
fn within() {
    let Ok(e) = Expression::parse("all(any(a,not(b)),not(all()))") else { return };
    std::hint::black_box(e.eval(|p| matches!(p, Predicate::Flag("a"))));
    std::hint::black_box(Expression::parse("not(").map_err(|e| e.to_string()).is_ok());
}
impl Logic for Within {
    fn top() -> Self {
        within();
        Within(true)
    }
    fn bottom() -> Self {
        within();
        Within(false)
    }
    fn and(self, o: Self) -> Self {
        within();
        Within(self.0 && o.0)
    }
    fn or(self, o: Self) -> Self {
        within();
        Within(self.0 || o.0)
    }
    fn not(self) -> Self {
        within();
        Within(!self.0)
    }
}

pub fn c07(cx: &mut Ctx<'_>, full: &str) -> R {
    let len = full.len();
    let items = cx.sut("lexer", || {
        let mut n = 0usize;
        let mut lx = Lexer::new(full);
        while let Some(t) = lx.next() {
            n += 1;
            match t {
                Ok(t) => {
                    if n % 64 == 1 && len < 100_000 {
                        std::hint::black_box(t.token.to_string());
                    }
                }
                Err(e) => {
                    std::hint::black_box(e.to_string());
                }
            }
            if n > len + 2 {
                break;
            }
        }
        n
    })?;
    if items > len + 2 {
        return Err("the lexer does not end".into());
    }
    let r = cx.sut("parse", || Expression::parse(full))?;
    match r {
        Ok(e) => {
            cx.count("accepted", 1);
            let n = cx.sut("predicates", || e.predicates().count())?;
            cx.max("most predicates", n);
            let mut k = 0u64;
            cx.sut("eval", || {
                e.eval(|p| {
                    k += 1;
                    std::hint::black_box(p);
                    k & 1 == 0
                })
            })?;
            cx.sut("eval", || {
                e.eval(|_| {
                    k += 1;
                    [None, Some(true), Some(false)][(k % 3) as usize]
                })
            })?;
            cx.sut("eval", || e.eval(|_| Fp(7)))?;
            // Calls from within calls
            if cx.evaluations % 16 == 0 || len > 5_000 {
                let mut first = true;
                cx.sut("eval within eval", || {
                    e.eval(|p| {
                        if std::mem::replace(&mut first, false) {
                            let f = e.clone();
                            f.eval(|q| Expression::parse("any(not(x),y=\"z\")").is_ok_and(|g| g.eval(|_| *q == *p))) && e.predicates().next().is_some()
                        } else {
                            true
                        }
                    })
                })?;
                if len < 1000 {
                    cx.sut("calls within and/or/not/top/bottom", || e.eval(|_| Within(true)).0)?;
                }
                cx.count("with calls from within calls", 1);
            }
            let c = cx.sut("clone", || e.clone())?;
            if cx.sut("eq", || c != e)? {
                return Err("a clone differs from its source".into());
            }
            if len < 5_000 || n < 200 {
                let s = cx.sut("debug", || format!("{e:?}").len() + e.predicates().map(|p| format!("{p:?}").len()).sum::<usize>())?;
                std::hint::black_box(s);
            }
            cx.sut("drop", move || {
                drop(c);
                drop(e);
            })?;
            cx.nontrivial();
        }
        Err(e) => {
            cx.count("rejected", 1);
            let s = cx.sut("render", || {
                #[allow(deprecated)]
                let d = std::error::Error::description(&e).len();
                e.to_string().len() + e.reason.to_string().len() + format!("{e:?}").len() + d
            })?;
            std::hint::black_box(s);
            cx.sut("drop", move || drop(e))?;
            if len > 1 {
                cx.nontrivial();
            }
        }
    }
    cx.sut("field parsing", || {
        std::hint::black_box(full.parse::<HasAtomic>().map_err(|e| e.to_string())).ok();
        std::hint::black_box(full.parse::<Endian>().map_err(|e| e.to_string())).ok();
        std::hint::black_box(cfg_expr::targets::get_builtin_target_by_triple(full));
    })?;
    cx.max("longest text", len);
    Ok(())
}

// ---------------------------------------------------------------- C09

pub fn c09(cx: &mut Ctx<'_>, full: &str) -> R {
    let text = model::strip(full);
    let (want, fault) = model::lex(text);
    let chars = text.chars().count();
    type Item = (Option<(K, String)>, std::ops::Range<usize>, Option<String>);
    let lim = chars + 8;
    let items: Vec<Item> = cx.sut("lexer", || {
        let mut v: Vec<Item> = Vec::new();
        let mut lx = Lexer::new(full);
        while let Some(t) = lx.next() {
            match t {
                Ok(t) => {
                    let k = match &t.token {
                        Token::Key(s) => (K::Ident, s.to_string()),
                        Token::Value(s) => (K::Str, s.to_string()),
                        Token::Equals => (K::Eq, String::new()),
                        Token::All => (K::All, String::new()),
                        Token::Any => (K::Any, String::new()),
                        Token::Not => (K::Not, String::new()),
                        Token::OpenParen => (K::Open, String::new()),
                        Token::CloseParen => (K::Close, String::new()),
                        Token::Comma => (K::Comma, String::new()),
                    };
                    v.push((Some(k), t.span, None));
                }
                Err(e) => v.push((None, e.span.clone(), Some(e.original))),
            }
            if v.len() > lim {
                break;
            }
        }
        // An exhausted lexer stays exhausted
        for _ in 0..3 {
            if v.len() <= lim {
                if let Some(t) = lx.next() {
                    v.push((None, t.map_or_else(|e| e.span, |t| t.span), Some("after the end".into())));
                }
            }
        }
        v
    })?;
    if items.len() > chars + 1 {
        return Err(format!("{} or more items from {chars} characters", items.len()));
    }
    if cx.evaluations % 4 == 0 && items.len() < 100_000 {
        // The other ways to use the iterator
        let n = items.len();
        let k = cx.r.below(n + 2);
        let (count, last, nth, hints, left) = cx.sut("lexer as an iterator", || {
            let span = |t: Option<Result<cfg_expr::expr::lexer::LexerToken<'_>, cfg_expr::ParseError>>| t.map(|t| t.map_or_else(|e| e.span, |t| t.span));
            let mut lx = Lexer::new(full);
            let h0 = lx.size_hint();
            let nth = span(lx.nth(k));
            let h1 = lx.size_hint();
            let left = lx.by_ref().count();
            (Lexer::new(full).count(), span(Lexer::new(full).last()), nth, [(h0, n), (h1, left)], left)
        })?;
        if count != n || left != n.saturating_sub(k + 1) {
            return Err(format!("{n} items; count() {count}, after nth({k}) {left}"));
        }
        if last != items.last().map(|i| i.1.clone()) || nth != items.get(k).map(|i| i.1.clone()) {
            return Err(format!("last() or nth({k}) give another item than next()"));
        }
        for (h, left) in hints {
            if h.0 > left || h.1.is_some_and(|u| u < left) {
                return Err(format!("size_hint() {h:?} with {left} items left"));
            }
        }
        cx.count("with every iterator method", 1);
    }
    // Tiling, checked without the model
    let mut at = 0;
    for (k, span, orig) in &items {
        let what = |m: &str| format!("{m} at {span:?} ({k:?})");
        if span.start < at || span.end < span.start || span.end > text.len() {
            return Err(what("span out of order or bounds"));
        }
        if !text.is_char_boundary(span.start) || !text.is_char_boundary(span.end) {
            return Err(what("span inside a character"));
        }
        if !text[at..span.start].chars().all(model::is_ws) {
            return Err(what("text skipped before the token"));
        }
        let lit = &text[span.clone()];
        match k {
            Some((K::Ident, s)) if s != lit => return Err(what("identifier differs from its text")),
            Some((K::Str, s)) if format!("\"{s}\"") != lit => {
                return Err(what("value differs from its text"))
            }
            Some((k, _)) => {
                let fixed = match k {
                    K::Eq => "=",
                    K::All => "all",
                    K::Any => "any",
                    K::Not => "not",
                    K::Open => "(",
                    K::Close => ")",
                    K::Comma => ",",
                    _ => lit,
                };
                if fixed != lit {
                    return Err(what("token differs from its text"));
                }
            }
            None => {
                if orig.as_deref() != Some(text) {
                    return Err(what("error does not carry the text, or item after the end"));
                }
            }
        }
        at = span.end;
    }
    if items.iter().all(|(k, ..)| k.is_some()) && !text[at..].chars().all(model::is_ws) {
        return Err(format!("text after {at} produced no token and no error"));
    }
    // The model's tokens exactly
    let n = want.len();
    for (i, w) in want.iter().enumerate() {
        match items.get(i) {
            Some((Some((k, _)), span, _)) if *k == w.k && *span == (w.s..w.e) => {}
            o => return Err(format!("token {i} should be {w:?}, got {o:?}")),
        }
    }
    match fault {
        None => {
            if items.len() != n {
                return Err(format!("{} items where the text has {n} tokens", items.len()));
            }
        }
        Some(f) => {
            let (s, e) = match f {
                model::LexFault::BadChar(s, e) => (s, e),
                model::LexFault::OpenQuote(s) => (s, text.len()),
            };
            match items.get(n) {
                Some((None, span, _)) if *span == (s..e) => {}
                o => return Err(format!("error at {s}..{e} expected after {n} tokens, got {o:?}")),
            }
            if items.len() != n + 1 {
                return Err("items after an error".into());
            }
            cx.count("lexer errors", 1);
        }
    }
    cx.count("tokens compared", n as u64);
    if n > 0 {
        cx.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

fn reason_fits(kind: F, r: &Reason) -> bool {
    match kind {
        F::BadChar => matches!(r, Reason::Unexpected(_) | Reason::InvalidCharacters),
        F::OpenQuote => *r == Reason::UnclosedQuotes,
        F::Misplaced => matches!(r, Reason::Unexpected(_)),
        F::Unopened => matches!(r, Reason::Unexpected(_) | Reason::UnopenedParens),
        F::UnclosedParens => *r == Reason::UnclosedParens,
        F::FnWithoutList | F::MissingValue => matches!(r, Reason::Unexpected(_)),
        F::Empty => *r == Reason::Empty,
        F::MultiRoot => *r == Reason::MultipleRootPredicates,
        F::NotArity(n) => *r == Reason::InvalidNot(n),
        F::UnwantedValue | F::NeedsValue | F::EmptyFeature => matches!(r, Reason::Unexpected(_)),
        F::UnknownTargetKey => matches!(r, Reason::Unexpected(_) | Reason::UnknownBuiltin),
        F::BadEndian => matches!(r, Reason::Unexpected(_) | Reason::InvalidInteger),
        F::BadAtomic => *r == Reason::InvalidHasAtomic,
        F::BadWidth => *r == Reason::InvalidInteger,
    }
}

/// The terms an error calls expected have to be ones that may stand there, as
/// far as the token before tells (whether a `)` closes something is not part
/// of it), and not the one that was found.
fn expected_fits(kind: F, list: &[&str], prev: Option<K>, found: Option<K>) -> bool {
    let term = |t: &str| -> Option<K> {
        Some(match t {
            "(" => K::Open,
            ")" => K::Close,
            "," => K::Comma,
            "=" => K::Eq,
            "all" => K::All,
            "any" => K::Any,
            "not" => K::Not,
            t if t.starts_with('"') => K::Str,
            t if t.starts_with('<') && t.ends_with('>') => K::Ident,
            _ => return None,
        })
    };
    let start = [K::Ident, K::All, K::Any, K::Not];
    // The function is there, its list is not
    let (prev, found) = if kind == F::FnWithoutList { (found, None) } else { (prev, found) };
    let may = |t: K| match prev {
        None => start.contains(&t),
        Some(K::Open | K::Comma) => t == K::Close || start.contains(&t),
        Some(K::All | K::Any | K::Not) => t == K::Open,
        Some(K::Eq) => t == K::Str,
        Some(K::Ident) => [K::Eq, K::Comma, K::Close].contains(&t),
        Some(K::Str | K::Close) => [K::Comma, K::Close].contains(&t),
    };
    match kind {
        F::Misplaced | F::FnWithoutList | F::MissingValue => {
            !list.is_empty() && list.iter().all(|t| term(t).is_some_and(|k| may(k) && Some(k) != found))
        }
        F::Unopened => list.iter().all(|t| term(t).is_some_and(|k| may(k) && Some(k) != found)),
        F::BadChar => list.iter().all(|t| term(t).is_some()),
        // Nothing would be right in this place
        F::UnwantedValue => list.is_empty(),
        F::NeedsValue => !list.is_empty() && list.iter().all(|t| t.starts_with('=')),
        F::EmptyFeature => list.iter().all(|t| t.starts_with('<')),
        F::UnknownTargetKey => list.iter().all(|t| {
            ["1", "x", "big"].iter().any(|v| model::classify(t, Some(v)).is_ok_and(|p| !matches!(p, model::Pred::KeyValue(..))))
        }),
        F::BadEndian => list.iter().all(|t| ["big", "little"].contains(t)),
        _ => true,
    }
}

pub fn c10(cx: &mut Ctx<'_>, full: &str) -> R {
    let an = model::analyse(full);
    let Err(e) = cx.sut("parse", || Expression::parse(full))? else { return Ok(()) };
    if e.original != an.text {
        return Err(format!("the error carries the text {:?}", e.original));
    }
    let t = an.text;
    if e.span.start > e.span.end || e.span.end > t.len() {
        return Err(format!("span {:?} outside of the text of {} bytes", e.span, t.len()));
    }
    if !t.is_char_boundary(e.span.start) || !t.is_char_boundary(e.span.end) {
        return Err(format!("span {:?} cuts a character", e.span));
    }
    let Err(faults) = &an.result else {
        // Acceptance is decided elsewhere, but there is no fault to name
        return Err(format!("error {:?} at {:?} for a text without any fault", e.reason, e.span));
    };
    let Some(f) = faults.iter().find(|f| f.span == e.span && reason_fits(f.kind, &e.reason)) else {
        return Err(format!(
            "error {:?} at {:?} is none of the faults of the text: {:?}",
            e.reason,
            e.span,
            &faults[..faults.len().min(8)]
        ));
    };
    if let Reason::Unexpected(list) = e.reason {
        let prev = an.toks.iter().rev().find(|t| t.e <= e.span.start).map(|t| t.k);
        let found = an.toks.iter().find(|t| t.s == e.span.start).map(|t| t.k);
        if !faults.iter().any(|f| f.span == e.span && reason_fits(f.kind, &e.reason) && expected_fits(f.kind, list, prev, found)) {
            return Err(format!(
                "error at {:?} says that {list:?} is expected after {prev:?} instead of {found:?} ({:?})",
                e.span, f.kind
            ));
        }
        cx.count("lists of expected terms judged", 1);
    }
    // Same text, same error from the lexer when the fault is lexical
    cx.count(
        match f.kind {
            F::BadChar => "at invalid character",
            F::OpenQuote => "at unterminated string",
            F::Misplaced => "at misplaced token",
            F::Unopened => "at unopened parenthesis",
            F::UnclosedParens => "at unclosed parenthesis",
            F::FnWithoutList => "at function without list",
            F::MissingValue => "at missing value",
            F::Empty => "at empty text",
            F::MultiRoot => "at several roots",
            F::NotArity(_) => "at not() arity",
            F::UnwantedValue => "at unwanted value",
            F::NeedsValue => "at key without value",
            F::UnknownTargetKey => "at unknown target key",
            F::EmptyFeature => "at empty target_feature",
            F::BadEndian => "at endian value",
            F::BadAtomic => "at atomic value",
            F::BadWidth => "at width value",
        },
        1,
    );
    cx.max("largest span start", e.span.start);
    if an.toks.len() > 1 || f.span.start > 0 {
        cx.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

fn reason_text(r: &Reason) -> String {
    match r {
        Reason::InvalidCharacters => "invalid character(s)".into(),
        Reason::UnclosedParens => "unclosed parens".into(),
        Reason::UnopenedParens => "unopened parens".into(),
        Reason::UnclosedQuotes => "unclosed quotes".into(),
        Reason::UnopenedQuotes => "unopened quotes".into(),
        Reason::Empty => "empty expression".into(),
        Reason::Unexpected([]) => "the term was not expected here".into(),
        Reason::Unexpected([one]) => format!("expected a `{one}` here"),
        Reason::Unexpected(many) => format!(
            "expected one of {} here",
            many.iter().map(|m| format!("`{m}`")).collect::<Vec<_>>().join(", ")
        ),
        Reason::InvalidNot(n) => format!("not() takes 1 predicate, found {n}"),
        Reason::InvalidInteger => "invalid integer".into(),
        Reason::MultipleRootPredicates => "multiple root predicates".into(),
        Reason::InvalidHasAtomic => "expected integer or \"ptr\"".into(),
        Reason::UnknownBuiltin => "unknown built-in".into(),
    }
}

fn check_render(cx: &mut Ctx<'_>, e: &ParseError) -> R {
    let got = cx.sut("render", || e.to_string())?;
    let rt = cx.sut("render reason", || e.reason.to_string())?;
    let want_rt = reason_text(&e.reason);
    if rt != want_rt {
        return Err(format!("reason {:?} is described as {rt:?}, not {want_rt:?}", e.reason));
    }
    let pre = e.original[..e.span.start].chars().count();
    let marks = match e.reason {
        Reason::UnclosedParens | Reason::UnclosedQuotes => "-".to_owned(),
        Reason::UnopenedParens | Reason::UnopenedQuotes => "^".to_owned(),
        _ => "^".repeat(e.original[e.span.clone()].chars().count()),
    };
    let want = format!("{}\n{}{marks} {want_rt}", e.original, " ".repeat(pre));
    if got != want {
        return Err(format!("rendered {got:?} where {want:?} is due"));
    }
    #[allow(deprecated)]
    let d = cx.sut("describe", || std::error::Error::description(e).to_owned())?;
    let due = match e.reason {
        Reason::Unexpected(_) => "unexpected term",
        Reason::InvalidNot(_) => "not() takes 1 predicate",
        _ => &want_rt,
    };
    if d != due {
        return Err(format!("reason {:?} is described in short as {d:?}", e.reason));
    }
    // What the writer reports must come through
    if cx.r.chance(1, 8) {
        use std::fmt::Write;
        let room = if cx.r.chance(1, 4) { got.len() } else { cx.r.below(got.len() + 1) };
        let mut w = Cut { got: String::new(), room };
        let r = cx.sut("render to a full writer", || write!(w, "{e}"))?;
        if r.is_ok() != (room == got.len()) || (r.is_ok() && w.got != got) {
            return Err(format!("rendering {} bytes into a writer of {room} returns {r:?}", got.len()));
        }
        cx.count("renderings into full writers", 1);
    }
    Ok(())
}

/// A writer with room for so many bytes
struct Cut {
    got: String,
    room: usize,
}
impl std::fmt::Write for Cut {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.got.len() + s.len() > self.room {
            return Err(std::fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

const EXPECTED: &[&[&str]] = &[
    &[],
    &["("],
    &["<key>"],
    &["a", "b"],
    &["<key>", ")", "all", "any", "not"],
    &["é", "`", "\n", ""],
    &["1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17"],
];

pub fn c11(cx: &mut Ctx<'_>, full: &str) -> R {
    if let Err(e) = cx.sut("parse", || Expression::parse(full))? {
        let t = &e.original;
        if e.span.start <= e.span.end && e.span.end <= t.len() && t.is_char_boundary(e.span.start) && t.is_char_boundary(e.span.end) {
            check_render(cx, &e)?;
            cx.count("errors of the parser rendered", 1);
            if e.original.len() > 1 {
                cx.nontrivial();
            }
        } else {
            // Locating is decided elsewhere; rendering must still return
            cx.sut("render", || e.to_string())?;
        }
    }
    // Errors a caller builds over this text
    let n = if cx.big() { 1 } else { 2 };
    for _ in 0..n {
        let bounds: Vec<usize> = if full.len() > 3000 {
            (0..=full.len()).filter(|i| full.is_char_boundary(*i)).step_by(97).chain([full.len()]).collect()
        } else {
            (0..=full.len()).filter(|i| full.is_char_boundary(*i)).collect()
        };
        let a = *cx.r.pick(&bounds);
        let b = *cx.r.pick(&bounds);
        let k = cx.r.below(24);
        let reason = match k {
            0 => Reason::InvalidCharacters,
            1 => Reason::UnclosedParens,
            2 => Reason::UnopenedParens,
            3 => Reason::UnclosedQuotes,
            4 => Reason::UnopenedQuotes,
            5 => Reason::Empty,
            6..=7 => Reason::InvalidNot(if k == 6 { cx.r.next() as usize } else { cx.r.below(300) }),
            8 => Reason::InvalidInteger,
            9 => Reason::MultipleRootPredicates,
            10 => Reason::InvalidHasAtomic,
            11 => Reason::UnknownBuiltin,
            k => Reason::Unexpected(EXPECTED[k % EXPECTED.len()]),
        };
        let e = ParseError { original: full.to_owned(), span: a.min(b)..a.max(b), reason };
        check_render(cx, &e)?;
        cx.count("errors built by the caller rendered", 1);
        // Nonsense spans must not make rendering fail
        if cx.r.chance(1, 4) && full.len() < 2000 {
            let m = full.len() + 4;
            let (s, t) = (cx.r.below(m), cx.r.below(m));
            let e = ParseError { original: full.to_owned(), span: s..t, reason: e.reason };
            cx.sut("render", || e.to_string())?;
            cx.count("errors with ill-placed spans rendered", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

pub fn c12(cx: &mut Ctx<'_>, full: &str) -> R {
    let Ok(e) = cx.sut("parse", || Expression::parse(full))? else { return Ok(()) };
    let text = model::strip(full);
    if e.original() != text {
        return Err(format!("original() is {:?}", e.original().chars().take(200).collect::<String>()));
    }
    let seed = cx.r.next();
    let sig = |e: &Expression| {
        (
            e.predicates().map(|p| canon(&p)).collect::<Vec<_>>(),
            e.eval(|p| Fp(mix(sut_id(p) ^ seed) % P)).0,
            e.eval(|p| mix(sut_id(p) ^ seed) & 1 == 0),
            e.original().to_owned(),
        )
    };
    let s0 = cx.sut("signature", || sig(&e))?;
    let c = cx.sut("clone", || e.clone())?;
    let again = cx.sut("reparse", || Expression::parse(e.original()))?
        .map_err(|x| format!("original() does not parse: {x}"))?;
    let same = cx.sut("parse", || Expression::parse(full))?.map_err(|x| format!("second parse fails: {x}"))?;
    for (w, x) in [("clone", &c), ("reparse of original()", &again), ("second parse", &same)] {
        if !cx.sut("eq", || *x == e && e == *x)? {
            return Err(format!("{w} is not equal to the expression"));
        }
        if cx.sut("signature", || sig(x))? != s0 {
            return Err(format!("{w} has other predicates or another evaluation"));
        }
    }
    if !cx.sut("eq", || e == e.clone())? {
        return Err("not equal to itself".into());
    }
    // Cloned onto another expression: shorter, longer, or the same
    for k in 0..3 {
        let mut x = match k {
            0 => cx.sut("parse", || Expression::parse("all()"))?.map_err(|x| format!("all() is rejected: {x}"))?,
            1 if cx.big() => continue,
            1 => {
                let t = format!("any({}not(z = \"{text_len}\"), feature = \"q\")", "all(y, any()), ".repeat(cx.r.below(12)), text_len = text.len());
                cx.sut("parse", || Expression::parse(&t))?.map_err(|x| format!("{t:?} is rejected: {x}"))?
            }
            _ => c.clone(),
        };
        let src = if cx.r.chance(1, 2) { &e } else { &c };
        cx.sut("clone_from", || x.clone_from(src))?;
        if !cx.sut("eq", || x == e && e == x)? || cx.sut("signature", || sig(&x))? != s0 {
            return Err(format!("an expression overwritten by clone_from (case {k}) is not the source's"));
        }
        cx.count("clone_from", 1);
    }
    // A clone survives its source
    cx.sut("drop", move || drop(e))?;
    let s1 = cx.sut("signature", || sig(&c))?;
    if s1 != s0 {
        return Err("a clone changes when its source is dropped".into());
    }
    // Near texts: equal exactly if the stripped texts are equal
    for _ in 0..if cx.big() { 1 } else { 3 } {
        let other = match cx.r.below(8) {
            0 => format!("cfg({text})"),
            1 => format!("{text} "),
            2 => format!(" {text}"),
            3 => format!("{text},"),
            4 => text.replacen(' ', "  ", 1),
            5 => text.to_uppercase(),
            6 => {
                // last identifier or value character changed
                let mut v: Vec<char> = text.chars().collect();
                if let Some(i) = v.iter().rposition(|c| c.is_ascii_alphanumeric()) {
                    v[i] = if v[i] == 'q' { 'w' } else { 'q' };
                }
                v.into_iter().collect()
            }
            _ => crate::gen::mutate_chars(&mut cx.r, text),
        };
        if let Ok(o) = cx.sut("parse", || Expression::parse(&other))? {
            let want = model::strip(&other) == text;
            let got = cx.sut("eq", || (o == c, c == o, o != c))?;
            if got != (want, want, !want) {
                return Err(format!("equality with {other:?} is {got:?}, the texts are {}", if want { "equal" } else { "different" }));
            }
            cx.count(if want { "equal pairs compared" } else { "different pairs compared" }, 1);
        }
    }
    cx.nontrivial();
    Ok(())
}

/// Very many expressions alive at once, more than 16 bits can number: each
/// keeps its own text, predicates and evaluation, and equals none of the others
pub fn many_alive(thorough: bool) -> Result<u64, String> {
    let n: usize = if thorough { 1_200_000 } else { 150_000 };
    let text = |i: usize| match i % 5 {
        0 => format!("f{i}"),
        1 => format!("feature=\"v{i}\""),
        2 => format!("target_os = \"o{i}\""),
        3 => format!("all(a, k{i} = \"{i}\")"),
        _ => format!("not(target_feature=\"t{i}\")"),
    };
    let own = |e: &Expression, i: usize| {
        let want = match i % 5 {
            0 => format!("f{i}"),
            1 => format!("v{i}"),
            2 => format!("o{i}"),
            3 => format!("k{i}={i}"),
            _ => format!("t{i}"),
        };
        let got = match e.predicates().last() {
            Some(Predicate::Flag(x) | Predicate::Feature(x) | Predicate::TargetFeature(x)) => x.to_owned(),
            Some(Predicate::KeyValue { key, val }) => format!("{key}={val}"),
            Some(Predicate::Target(cfg_expr::TargetPredicate::Os(o))) => o.as_str().to_owned(),
            _ => String::new(),
        };
        let asked = std::cell::Cell::new(0);
        let v = e.eval(|p| {
            asked.set(asked.get() + 1);
            sut_id(p) != 0
        });
        let calls = if i % 5 == 3 { 2 } else { 1 };
        let truth = i % 5 != 4;
        e.original() == text(i) && got == want && e.predicates().count() == calls && asked.get() == calls && v == truth
    };
    let mut all: Vec<Expression> = Vec::with_capacity(n);
    for i in 0..n {
        let e = Expression::parse(&text(i)).map_err(|x| format!("{:?} is rejected: {x}", text(i)))?;
        if !own(&e, i) {
            return Err(format!("expression {i}, parsed while {i} others are alive: it is not that of its text {:?}, but of {:?}", text(i), e.original()));
        }
        all.push(e);
    }
    let mut pairs = 0;
    for i in 0..n {
        if !own(&all[i], i) {
            return Err(format!("expression {i} of {n} alive at once, {:?}, has become another", text(i)));
        }
        for k in 0..21 {
            for j in [(1usize << k).wrapping_sub(1), 1 << k, (1 << k) + 1] {
                if let Some(o) = all.get(i + j).filter(|_| j > 0) {
                    pairs += 1;
                    if all[i] == *o || *o == all[i] {
                        return Err(format!("of {n} expressions alive at once, {:?} equals {:?}", text(i), o.original()));
                    }
                }
            }
        }
        if i % 97 == 0 {
            let again = Expression::parse(&text(i)).map_err(|x| x.to_string())?;
            if again != all[i] || all[i].clone() != again {
                return Err(format!("{:?} does not equal itself parsed {} expressions later", text(i), n - i));
            }
        }
    }
    Ok(pairs)
}

// ---------------------------------------------------------------- traces

/// Everything observable about a text, as one string
/// Only what a slow machine can do with a long text
pub fn trace_short(full: &str) -> String {
    match crate::engine::contain(|| match Expression::parse(full) {
        Ok(e) => {
            let mut k = 0;
            let v = e.eval(|_| {
                k += 1;
                k % 3 != 0
            });
            let n = e.predicates().count();
            format!("{n}|{k}|{v}|{:?}|{:?}", e.predicates().last(), e.original().len())
        }
        Err(e) => format!("{:?}|{:?}|{}", e.span, e.reason, e.to_string().trim_end().len()),
    }) {
        Ok(s) => s,
        Err(m) => format!("panic {m:?}"),
    }
}

pub fn trace_of(full: &str, seed: u64) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    let r = crate::engine::contain(|| {
        let mut s = String::new();
        let mut n = 0;
        for t in Lexer::new(full) {
            n += 1;
            if n > full.len() + 2 {
                s.push_str("endless");
                break;
            }
            match t {
                Ok(t) => {
                    let _ = write!(s, "{:?}@{:?};", t.token, t.span);
                }
                Err(e) => {
                    let _ = write!(s, "E{e:?};");
                }
            }
        }
        s
    });
    let _ = write!(s, "lex {r:?}\n");
    let r = crate::engine::contain(|| match Expression::parse(full) {
        Ok(e) => {
            let mut s = String::new();
            let _ = write!(s, "orig {:?};", e.original());
            for p in e.predicates() {
                let _ = write!(s, "{p:?};");
            }
            let mut calls = String::new();
            let v = e.eval(|p| {
                let _ = write!(calls, "{p:?};");
                Fp(mix(sut_id(p) ^ seed) % P)
            });
            let _ = write!(s, "|{calls}|{v:?}");
            for k in 0..4 {
                let b = e.eval(|p| mix(sut_id(p) ^ seed ^ k) & 1 == 0);
                let o = e.eval(|p| tri((mix(sut_id(p) ^ seed ^ k) % 3) as i8));
                let _ = write!(s, "|{b}{o:?}");
            }
            let bt = cfg_expr::targets::ALL_BUILTINS;
            for k in 0..6 {
                let t = &bt[(mix(seed ^ k ^ hash_bytes(full.as_bytes())) % bt.len() as u64) as usize];
                let b = e.eval(|p| match p {
                    Predicate::Target(tp) => tp.matches(t),
                    _ => false,
                });
                let _ = write!(s, "|{}{b}", t.triple);
            }
            let _ = write!(s, "|{}", e == e.clone());
            s
        }
        Err(e) => format!("{e:?}|{e}|{}", e.reason),
    });
    let _ = write!(s, "parse {r:?}\n");
    let r = crate::engine::contain(|| {
        format!(
            "{:?} {:?} {:?}",
            full.parse::<HasAtomic>().map_err(|e| e.to_string()),
            full.parse::<Endian>().map_err(|e| e.to_string()),
            cfg_expr::targets::get_builtin_target_by_triple(full)
        )
    });
    let _ = write!(s, "fields {r:?}\n");
    s
}
