//! Reference model of the cfg language as cfg-expr documents it, written
//! independently of the code under test (character state machine, explicit
//! automaton, arena AST). It is the oracle of most monitors.
use std::ops::Range;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Ident,
    Str,
    Eq,
    All,
    Any,
    Not,
    Open,
    Close,
    Comma,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Tok {
    pub k: K,
    pub s: usize,
    pub e: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LexFault {
    BadChar(usize, usize),
    OpenQuote(usize),
}

/// Unicode White_Space
pub const WS: &[char] = &[
    '\t', '\n', '\u{b}', '\u{c}', '\r', ' ', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}',
    '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}',
    '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}',
    '\u{3000}',
];

pub fn is_ws(c: char) -> bool {
    match c as u32 {
        0x9..=0xd | 0x20 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f
        | 0x205f | 0x3000 => true,
        _ => false,
    }
}

pub fn strip(text: &str) -> &str {
    let b = text.as_bytes();
    if b.len() >= 5 && &b[..4] == b"cfg(" && b[b.len() - 1] == b')' {
        &text[4..b.len() - 1]
    } else {
        text
    }
}

pub fn lex(t: &str) -> (Vec<Tok>, Option<LexFault>) {
    let mut out = Vec::new();
    #[derive(Clone, Copy)]
    enum S {
        Gap,
        Word(usize),
        Quote(usize),
    }
    let word = |s: usize, e: usize| Tok {
        k: match &t.as_bytes()[s..e] {
            b"all" => K::All,
            b"any" => K::Any,
            b"not" => K::Not,
            _ => K::Ident,
        },
        s,
        e,
    };
    let mut st = S::Gap;
    for (i, c) in t.char_indices() {
        if let S::Quote(q) = st {
            if c == '"' {
                out.push(Tok { k: K::Str, s: q, e: i + 1 });
                st = S::Gap;
            }
            continue;
        }
        if let S::Word(w) = st {
            match c {
                'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => continue,
                _ => {
                    out.push(word(w, i));
                    st = S::Gap;
                }
            }
        }
        let p = |k| Tok { k, s: i, e: i + 1 };
        match c {
            '(' => out.push(p(K::Open)),
            ')' => out.push(p(K::Close)),
            ',' => out.push(p(K::Comma)),
            '=' => out.push(p(K::Eq)),
            '"' => st = S::Quote(i),
            'a'..='z' | 'A'..='Z' | '_' => st = S::Word(i),
            c if is_ws(c) => {}
            c => return (out, Some(LexFault::BadChar(i, i + c.len_utf8()))),
        }
    }
    match st {
        S::Gap => (out, None),
        S::Word(w) => {
            out.push(word(w, t.len()));
            (out, None)
        }
        S::Quote(q) => (out, Some(LexFault::OpenQuote(q))),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    All,
    Any,
    Not,
}

#[derive(Clone, Debug)]
pub enum Node {
    /// Index into `leaves`
    Leaf(usize),
    /// Children are the `n` operands, as indices of earlier nodes
    Fn(Op, Vec<u32>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Leaf {
    pub key: Range<usize>,
    /// Without the quotes
    pub val: Option<Range<usize>>,
}

/// Nodes are in post order (children before parents), the root is the last
#[derive(Clone, Debug, Default)]
pub struct Ast {
    pub nodes: Vec<Node>,
    pub leaves: Vec<Leaf>,
}

/// What a leaf means
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Pred {
    Test,
    DebugAssertions,
    ProcMacro,
    Feature(String),
    TargetFeature(String),
    Abi(String),
    Arch(String),
    Os(String),
    Family(String),
    Env(String),
    Vendor(String),
    Panic(String),
    EndianBig,
    EndianLittle,
    AtomicPtr,
    AtomicInt(u16),
    PointerWidth(u8),
    Flag(String),
    KeyValue(String, String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FaultKind {
    BadChar,
    OpenQuote,
    /// Token that cannot stand here
    Misplaced,
    /// `)` that closes nothing
    Unopened,
    UnclosedParens,
    /// all/any/not at the end of the text, without operands
    FnWithoutList,
    /// `key =` at the end of the text
    MissingValue,
    Empty,
    MultiRoot,
    NotArity(usize),
    /// Value given to a bare built-in
    UnwantedValue,
    /// Value needed
    NeedsValue,
    UnknownTargetKey,
    EmptyFeature,
    BadEndian,
    BadAtomic,
    BadWidth,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fault {
    pub kind: FaultKind,
    pub span: Range<usize>,
}

fn canonical_decimal(s: &str, max: u32) -> Option<u32> {
    let b = s.as_bytes();
    if b.is_empty() || b.len() > 5 || !b.iter().all(|c| (b'0'..=b'9').contains(c)) {
        return None;
    }
    if b.len() > 1 && b[0] == b'0' {
        return None;
    }
    let n = b.iter().fold(0u32, |a, c| a * 10 + u32::from(c - b'0'));
    (n <= max).then_some(n)
}

/// Meaning of a leaf, or what is wrong with it (`true` = at its value)
pub fn classify(key: &str, val: Option<&str>) -> Result<Pred, (FaultKind, bool)> {
    use FaultKind as F;
    let bare = |p: Pred| if val.is_some() { Err((F::UnwantedValue, true)) } else { Ok(p) };
    let need = || val.map(str::to_owned).ok_or((F::NeedsValue, false));
    match key {
        "unix" => bare(Pred::Family("unix".into())),
        "windows" => bare(Pred::Family("windows".into())),
        "test" => bare(Pred::Test),
        "debug_assertions" => bare(Pred::DebugAssertions),
        "proc_macro" => bare(Pred::ProcMacro),
        "feature" => need().map(Pred::Feature),
        "panic" => need().map(Pred::Panic),
        "target_abi" => need().map(Pred::Abi),
        "target_arch" => need().map(Pred::Arch),
        "target_os" => need().map(Pred::Os),
        "target_family" => need().map(Pred::Family),
        "target_env" => need().map(Pred::Env),
        "target_vendor" => need().map(Pred::Vendor),
        "target_feature" => need().and_then(|v| {
            if v.is_empty() { Err((F::EmptyFeature, true)) } else { Ok(Pred::TargetFeature(v)) }
        }),
        "target_endian" => need().and_then(|v| match v.as_str() {
            "big" => Ok(Pred::EndianBig),
            "little" => Ok(Pred::EndianLittle),
            _ => Err((F::BadEndian, true)),
        }),
        "target_has_atomic" => need().and_then(|v| {
            if v == "ptr" {
                Ok(Pred::AtomicPtr)
            } else {
                canonical_decimal(&v, 65535)
                    .map(|n| Pred::AtomicInt(n as u16))
                    .ok_or((F::BadAtomic, true))
            }
        }),
        "target_pointer_width" => need().and_then(|v| {
            canonical_decimal(&v, 255)
                .map(|n| Pred::PointerWidth(n as u8))
                .ok_or((F::BadWidth, true))
        }),
        k if k.len() >= 7 && &k.as_bytes()[..7] == b"target_" => {
            Err((if val.is_some() { F::UnknownTargetKey } else { F::NeedsValue }, false))
        }
        k => Ok(match val {
            None => Pred::Flag(k.to_owned()),
            Some(v) => Pred::KeyValue(k.to_owned(), v.to_owned()),
        }),
    }
}

pub struct Analysis<'a> {
    pub text: &'a str,
    pub toks: Vec<Tok>,
    pub lex_fault: Option<LexFault>,
    pub result: Result<Ast, Vec<Fault>>,
}

pub fn analyse(full: &str) -> Analysis<'_> {
    let text = strip(full);
    let (toks, lex_fault) = lex(text);

    // What may come next
    #[derive(Clone, Copy, PartialEq, Eq)]
    enum Next {
        /// A predicate; `close` if `)` may also come
        Pred { close: bool },
        AfterKey,
        Value,
        List,
        AfterPred,
    }
    struct Frame {
        op: Op,
        s: usize,
        open: Option<usize>,
        kids: Vec<u32>,
    }
    let mut faults: Vec<Fault> = Vec::new();
    let mut ast = Ast::default();
    let mut frames: Vec<Frame> = Vec::new();
    let mut roots = 0usize;
    let mut st = Next::Pred { close: false };
    let mut pend: Option<Leaf> = None;
    let mut structural = false;
    let mut seen_any = false;

    fn finish_leaf(
        text: &str,
        pend: &mut Option<Leaf>,
        ast: &mut Ast,
        frames: &mut [Frame],
        roots: &mut usize,
        faults: &mut Vec<Fault>,
    ) {
        if let Some(l) = pend.take() {
            if let Err((kind, at_val)) =
                classify(&text[l.key.clone()], l.val.clone().map(|v| &text[v]))
            {
                let span = if at_val { l.val.clone().unwrap() } else { l.key.clone() };
                faults.push(Fault { kind, span });
            }
            ast.nodes.push(Node::Leaf(ast.leaves.len()));
            ast.leaves.push(l);
            let id = (ast.nodes.len() - 1) as u32;
            match frames.last_mut() {
                Some(f) => f.kids.push(id),
                None => *roots += 1,
            }
        }
    }

    for t in &toks {
        let ok = match (st, t.k) {
            (Next::Pred { .. }, K::Ident) => {
                pend = Some(Leaf { key: t.s..t.e, val: None });
                st = Next::AfterKey;
                true
            }
            (Next::Pred { .. }, K::All | K::Any | K::Not) => {
                frames.push(Frame {
                    op: match t.k {
                        K::All => Op::All,
                        K::Any => Op::Any,
                        _ => Op::Not,
                    },
                    s: t.s,
                    open: None,
                    kids: Vec::new(),
                });
                st = Next::List;
                true
            }
            (Next::List, K::Open) => {
                frames.last_mut().unwrap().open = Some(t.s);
                st = Next::Pred { close: true };
                true
            }
            (Next::AfterKey, K::Eq) => {
                st = Next::Value;
                true
            }
            (Next::Value, K::Str) => {
                pend.as_mut().unwrap().val = Some(t.s + 1..t.e - 1);
                st = Next::AfterPred;
                true
            }
            (Next::AfterKey | Next::AfterPred, K::Comma) => {
                finish_leaf(text, &mut pend, &mut ast, &mut frames, &mut roots, &mut faults);
                st = Next::Pred { close: true };
                true
            }
            (Next::AfterKey | Next::AfterPred | Next::Pred { close: true }, K::Close) => {
                finish_leaf(text, &mut pend, &mut ast, &mut frames, &mut roots, &mut faults);
                match frames.pop() {
                    None => {
                        faults.push(Fault { kind: FaultKind::Unopened, span: t.s..t.e });
                        structural = true;
                        break;
                    }
                    Some(f) => {
                        if f.op == Op::Not && f.kids.len() != 1 {
                            faults.push(Fault {
                                kind: FaultKind::NotArity(f.kids.len()),
                                span: f.s..t.e,
                            });
                        }
                        ast.nodes.push(Node::Fn(f.op, f.kids));
                        let id = (ast.nodes.len() - 1) as u32;
                        match frames.last_mut() {
                            Some(p) => p.kids.push(id),
                            None => roots += 1,
                        }
                        st = Next::AfterPred;
                        true
                    }
                }
            }
            _ => false,
        };
        if !ok {
            let kind = if t.k == K::Close && frames.is_empty() {
                FaultKind::Unopened
            } else {
                FaultKind::Misplaced
            };
            faults.push(Fault { kind, span: t.s..t.e });
            structural = true;
            break;
        }
        seen_any = true;
    }

    if !structural {
        let n = text.len();
        match lex_fault {
            Some(LexFault::BadChar(s, e)) => {
                faults.push(Fault { kind: FaultKind::BadChar, span: s..e })
            }
            Some(LexFault::OpenQuote(s)) => {
                faults.push(Fault { kind: FaultKind::OpenQuote, span: s..n })
            }
            None => {
                if !seen_any {
                    faults.push(Fault { kind: FaultKind::Empty, span: 0..n });
                } else {
                    match st {
                        Next::Value => {
                            faults.push(Fault { kind: FaultKind::MissingValue, span: n..n })
                        }
                        Next::List => {
                            let f = frames.last().unwrap();
                            faults.push(Fault {
                                kind: FaultKind::FnWithoutList,
                                span: f.s..f.s + 3,
                            });
                        }
                        _ => {}
                    }
                    if st != Next::Value {
                        finish_leaf(
                            text, &mut pend, &mut ast, &mut frames, &mut roots, &mut faults,
                        );
                    }
                    for f in &frames {
                        if let Some(o) = f.open {
                            faults.push(Fault { kind: FaultKind::UnclosedParens, span: o..n });
                        }
                    }
                    if roots > 1 {
                        faults.push(Fault { kind: FaultKind::MultiRoot, span: 0..n });
                    }
                }
            }
        }
    }

    let result = if faults.is_empty() { Ok(ast) } else { Err(faults) };
    Analysis { text, toks, lex_fault, result }
}

impl Ast {
    pub fn preds(&self, text: &str) -> Vec<Pred> {
        self.leaves
            .iter()
            .map(|l| {
                classify(&text[l.key.clone()], l.val.clone().map(|v| &text[v]))
                    .expect("leaf of an accepted text")
            })
            .collect()
    }

    /// Structural evaluation; `leaf` gives the value of leaf number i
    pub fn eval<T: Clone>(
        &self,
        mut leaf: impl FnMut(usize) -> T,
        all: impl Fn(&mut dyn Iterator<Item = T>) -> T,
        any: impl Fn(&mut dyn Iterator<Item = T>) -> T,
        not: impl Fn(T) -> T,
    ) -> T {
        let mut v: Vec<T> = Vec::with_capacity(self.nodes.len());
        for n in &self.nodes {
            let r = match n {
                Node::Leaf(i) => leaf(*i),
                Node::Fn(Op::All, k) => all(&mut k.iter().map(|i| v[*i as usize].clone())),
                Node::Fn(Op::Any, k) => any(&mut k.iter().map(|i| v[*i as usize].clone())),
                Node::Fn(Op::Not, k) => not(v[k[0] as usize].clone()),
            };
            v.push(r);
        }
        v.pop().unwrap()
    }

    pub fn depth(&self) -> usize {
        let mut d: Vec<usize> = Vec::with_capacity(self.nodes.len());
        for n in &self.nodes {
            d.push(match n {
                Node::Leaf(_) => 0,
                Node::Fn(_, k) => 1 + k.iter().map(|i| d[*i as usize]).max().unwrap_or(0),
            });
        }
        *d.last().unwrap()
    }
    pub fn max_fanout(&self) -> usize {
        self.nodes
            .iter()
            .map(|n| match n {
                Node::Leaf(_) => 0,
                Node::Fn(_, k) => k.len(),
            })
            .max()
            .unwrap_or(0)
    }
}
