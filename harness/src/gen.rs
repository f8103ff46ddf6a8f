//! Workload generation: texts of every shape the monitors run over.
use crate::model::WS;
use crate::rng::Rng;
use std::collections::BTreeSet;

pub const TARGET_KEYS: &[&str] = &[
    "target_abi", "target_arch", "target_os", "target_family", "target_env", "target_vendor",
    "target_endian", "target_pointer_width", "target_has_atomic", "target_feature", "panic",
    "feature",
];
pub const BARE: &[&str] = &["unix", "windows", "test", "debug_assertions", "proc_macro"];
const NEAR: &[&str] = &[
    "All", "ALL", "alll", "al", "all_", "_all", "all1", "anyx", "an", "ANY", "Any", "not_", "nott",
    "no", "Not", "_", "__", "_1", "a", "Z", "z9", "cfg", "cfg_", "true", "false", "Unix", "unix_",
    "unixx", "uni", "window", "windows_", "Windows", "tests", "tes", "test_", "debug_assertion",
    "proc_macros", "proc", "features", "Feature", "feature_", "panics", "pani", "target",
    "target_", "target_foo", "target_Os", "target_oss", "target_o", "target_arch_", "target_thread_local",
    "target_object_format", "target_has_atomic_load_store", "target_has_atomic_", "target_has",
    "target_pointer", "target_pointer_widths", "Target_os", "targetos", "target_os_", "xtarget_os",
    "target_endianness", "overflow_checks", "ub_checks", "miri", "doc", "doctest", "sanitize",
    "relocation_model", "version", "accessible", "abi", "arch", "os", "family", "env", "vendor",
    "endian", "pointer_width", "has_atomic", "tokio_unstable", "loom", "r", "b", "x64",
];
const VALS: &[&str] = &[
    "", " ", "  ", "a", "linux", "Linux", "linux ", " linux", "unix", "windows", "wasm", "none",
    "unknown", "big", "little", "Big", "LITTLE", "big ", "ptr", "Ptr", "ptr ", "8", "16", "32",
    "64", "128", "0", "1", "255", "256", "257", "65535", "65536", "65537", "08", "064", "+64",
    "-1", "6 4", "64 ", " 64", "1e1", "0x40", "99999999999999999999", "４", "٣", "00", "7", "10",
    "all", "any", "not", "all(", "any()", "not(a)", "(", ")", ",", "=", "cfg(", "cfg(x)", "a,b",
    "a = b", "\\", "\\n", "'", "\n", "\t", "\r\n", "\u{0}", "\u{7f}", "é", "e\u{301}", "ß", "İ", "💩",
    "\u{feff}", "\u{200b}", "\u{a0}", "\u{2028}", "日本語", "sse4.1", "sse4.2", "crt-static", "+avx",
    "unwind", "abort", "gnu", "musl", "msvc", "eabihf", "x86_64", "x86", "apple", "pc", "macos",
    "a\"", "r#", "//", "/*", "#", "[", "]", "{", "}", ";", ":", "|", "&", "!", "<", ">",
];

/// Characters that some Unicode-aware function treats in a way of its own:
/// marks, joiners, spaces of all kinds, digits that are not ASCII, letters
/// whose case or normal form has another length, edges of encoded lengths
pub const SPECIAL: &[char] = &[
    '\0', '\u{1}', '\u{7}', '\u{8}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{1b}', '\u{1f}', ' ', '!', '#', '$', '%', '&', '\'', '(', ')', '*', '+', ',',
    '-', '.', '/', '0', '9', ':', ';', '<', '=', '>', '?', '@', 'A', 'Z', '[', '\\', ']', '^', '_', '`', 'a', 'z', '{', '|', '}', '~', '\u{7f}',
    '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', '\u{b2}', '\u{b5}', '\u{df}', '\u{e9}', '\u{ff}', '\u{130}', '\u{131}', '\u{149}', '\u{17f}', '\u{1c5}', '\u{300}', '\u{301}', '\u{34f}', '\u{37e}',
    '\u{3c2}', '\u{587}', '\u{5d0}', '\u{661}', '\u{6f1}', '\u{7ff}', '\u{800}', '\u{e33}', '\u{1100}', '\u{1680}', '\u{180e}', '\u{1e9e}', '\u{2000}', '\u{2003}', '\u{200a}', '\u{200b}',
    '\u{200c}', '\u{200d}', '\u{200e}', '\u{200f}', '\u{201c}', '\u{201d}', '\u{2028}', '\u{2029}', '\u{202a}', '\u{202e}', '\u{202f}', '\u{205f}', '\u{2060}', '\u{2066}', '\u{2069}', '\u{2126}', '\u{212a}',
    '\u{212b}', '\u{2160}', '\u{3000}', '\u{4e00}', '\u{ac00}', '\u{d7ff}', '\u{e000}', '\u{f8ff}', '\u{fb00}', '\u{fb01}', '\u{fe0f}', '\u{feff}', '\u{ff02}', '\u{ff08}', '\u{ff09}', '\u{ff0c}', '\u{ff11}',
    '\u{ff1d}', '\u{ff21}', '\u{fff9}', '\u{fffc}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{1d400}', '\u{1d7d8}', '\u{1f1e6}', '\u{1f3fb}', '\u{1f468}', '\u{1f4a9}', '\u{e0001}', '\u{e0100}', '\u{f0000}', '\u{10ffff}',
];

/// Strings one edit away
pub fn near(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![s.to_uppercase(), format!("{s}{s}"), format!("_{s}"), format!("{s}_"), format!(" {s}"), format!("{s} "), format!("{s}s"), format!("{s}0"), format!("no{s}")];
    if s.contains('_') {
        v.push(s.replace('_', "-"));
        v.push(s.replace('_', ""));
    }
    for i in 0..c.len() {
        let with = |x: &[char]| -> String { c[..i].iter().chain(x).chain(&c[i + 1..]).collect() };
        v.push(with(&[]));
        v.push(with(&[c[i], c[i]]));
        v.push(with(&[c[i], '_']));
        let up = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
        v.push(with(&[up]));
        v.push(with(&[if c[i] == 'e' { 'o' } else { 'e' }]));
        if i > 0 {
            v.push(c[..i].iter().collect());
            v.push(c[i..].iter().collect());
        }
    }
    v.retain(|x| x != s);
    v
}

/// Texts that no random choice decides: special characters at every place of
/// strings of every length, every key with every value of the dictionary,
/// neighbours of all names, all short identifiers and short values
/// Every number of waiting results up to a few hundred, and around larger
/// round numbers, in front of every kind of function
pub fn stacks() -> Vec<String> {
    let mut v = vec![];
    let sizes = (0..=140usize).chain([191, 192, 193, 199, 200, 201, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025]);
    for n in sizes {
        let mut k = 0usize;
        let mut wait = |f: &str| -> String {
            (0..n).fold(String::new(), |mut s, i| {
                k += 1;
                use std::fmt::Write;
                let g = match f {
                    "" => ["all", "any", "not"][(i + n) % 3],
                    f => f,
                };
                let _ = write!(s, "{g}(w{k}),");
                s
            })
        };
        for last in ["not(u)", "all(u)", "any(u)", "not(not(u))", "all(u,f)", "any(u,t,f)", "u", "all(any(u),not(t),f)"] {
            v.push(format!("any({}{last})", wait("all")));
            v.push(format!("all({}{last})", wait("")));
            if n % 7 == 3 || n > 180 {
                v.push(format!("not(all({}{last},x))", wait("any")));
            }
        }
        // The same number of levels, with a result waiting on each
        for f in ["all", "any"] {
            let g = if f == "all" { "any" } else { "all" };
            let open: String = (0..n).map(|i| format!("{}(not(w{i}),", if i % 2 == 0 { f } else { g })).collect();
            v.push(format!("{open}not(u){}", ")".repeat(n)));
            let open: String = (0..n).map(|i| format!("{f}({g}(w{i}),")).collect();
            v.push(format!("{open}u{}", ",y)".repeat(n)));
            let open: String = (0..n).map(|i| format!("not({f}({g}(),not(w{i}),")).collect();
            v.push(format!("{open}u{}", "))".repeat(n)));
        }
    }
    v
}

pub fn systematic(d: &Dict) -> Vec<String> {
    let mut v = vec![];
    // Strings of special characters
    for &c in SPECIAL.iter().chain(&d.chars) {
        if c == '"' {
            continue;
        }
        for n in [1usize, 2, 7, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1025] {
            let w = |k: usize| -> String { (0..n - 1).map(|i| (b'a' + (i % 26) as u8) as char).enumerate().flat_map(|(i, x)| if i == k { vec![c, x] } else { vec![x] }).collect() };
            for s in [format!("{c}{}", w(n)), format!("{}{c}", w(n)), w(n / 2), c.to_string().repeat(n.min(300))] {
                v.push(format!("all(k=\"{s}\", b, target_os=\"{s}\",not(a))"));
                if n < 40 {
                    v.push(format!("feature=\"{s}\""));
                    v.push(format!("any(x, k=\"{s}"));
                }
            }
            v.push(format!("all(x, {}{c})", w(n)));
            v.push(format!("any({}{c}, y)", " ".repeat(n)));
        }
        v.push(format!("target_has_atomic=\"8{c}\""));
        v.push(format!("target_has_atomic=\"{c}8\""));
        v.push(format!("target_pointer_width=\"3{c}2\""));
        v.push(format!("target_pointer_width=\"64{c}\""));
        v.push(format!("target_endian=\"big{c}\""));
        v.push(format!("target_endian=\"{c}little\""));
        v.push(format!("cfg({c}unix)"));
        v.push(format!("{c}cfg(unix){c}"));
        v.push(format!("cfg{c}(unix)"));
        v.push(format!("not{c}(unix)"));
        v.push(format!("all(unix{c})"));
        v.push(format!("any(a,{c}b)"));
        v.push(format!("a{c}=\"b\""));
        v.push(format!("a={c}\"b\"{c}"));
    }
    // Every key with every value
    let keys: BTreeSet<&str> = TARGET_KEYS.iter().chain(BARE).copied().chain(["k", "cfg", "target_thread_local"]).collect();
    for k in &keys {
        for x in &d.vals {
            v.push(format!("{k}=\"{x}\""));
        }
    }
    for k in &d.keys {
        for x in ["", "x", "linux", "64", "big", "ptr", "test"] {
            v.push(format!("all({k}=\"{x}\")"));
        }
        v.push(k.clone());
        v.push(format!("not({k})"));
        v.push(format!("all({k},{k}=\"unix\")"));
    }
    // Neighbours
    for k in keys.iter().copied().chain(["all", "any", "not"]) {
        for x in near(k) {
            v.push(x.clone());
            v.push(format!("{x}(a)"));
            v.push(format!("{x}=\"linux\""));
            v.push(format!("target_os=\"{x}\""));
            v.push(format!("all({x},any({x}=\"{x}\"))"));
        }
    }
    for k in ["big", "little", "ptr", "unwind", "abort", "unix", "windows", "linux", "gnu", "x86_64", "128", "none"] {
        for x in near(k) {
            for key in TARGET_KEYS {
                v.push(format!("{key}=\"{x}\""));
            }
        }
    }
    // Numbers
    for key in ["target_has_atomic", "target_pointer_width", "feature", "target_os"] {
        for n in (0..300).chain([511, 512, 999, 1000, 1023, 4095, 32767, 32768, 65534, 65535, 65536, 65537, 100_000, 1 << 24, u64::from(u32::MAX), u64::from(u32::MAX) + 1, u64::MAX]) {
            for s in [format!("{n}"), format!("0{n}"), format!("000{n}"), format!("+{n}"), format!("-{n}"), format!("{n}u8"), format!("{n} "), format!("{n}_"), format!("{n:x}"), format!("{n:#x}"), format!("{n}.0")] {
                v.push(format!("{key}=\"{s}\""));
            }
        }
    }
    // Short identifiers, many to a text
    const S: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
    const C: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
    let mut ids: Vec<String> = S.iter().map(|a| (*a as char).to_string()).collect();
    for a in S {
        for b in C {
            ids.push(format!("{}{}", *a as char, *b as char));
        }
    }
    for a in S {
        for b in C.iter().step_by(3) {
            for c in C {
                ids.push(format!("{}{}{}", *a as char, *b as char, *c as char));
            }
        }
    }
    ids.retain(|i| !["all", "any", "not"].contains(&i.as_str()));
    for (i, c) in ids.chunks(7).enumerate() {
        v.push(match i % 3 {
            0 => format!("all({})", c.join(",")),
            1 => format!("any( {} = \"\" )", c.join("=\"\", ")),
            _ => format!("any({}=\"{}\")", c.join(","), c[0]),
        });
    }
    // Short values
    for a in (0u8..128).filter(|b| *b != b'"') {
        let mut t = vec![];
        for b in (0u8..128).filter(|b| *b != b'"') {
            t.push(format!("k=\"{}{}\"", a as char, b as char));
        }
        for c in t.chunks(8) {
            v.push(format!("all({})", c.join(",")));
        }
    }
    v
}

pub struct Dict {
    /// Unusual characters written in the sources
    pub chars: Vec<char>,
    pub keys: Vec<String>,
    pub vals: Vec<String>,
    /// Sizes worth trying for operand counts, depths, lengths
    pub sizes: Vec<usize>,
}

fn collect_rs(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        v.sort();
        for p in v {
            if p.is_dir() {
                collect_rs(&p, out);
            } else if p.extension().is_some_and(|e| e == "rs") {
                out.push(p);
            }
        }
    }
}

impl Dict {
    /// Only the built-in vocabulary
    pub fn small() -> Self {
        Dict {
            chars: vec![],
            keys: NEAR.iter().filter(|k| !["all", "any", "not"].contains(*k)).map(|s| s.to_string()).collect(),
            vals: VALS.iter().filter(|v| !v.contains('"')).map(|s| s.to_string()).collect(),
            sizes: vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 18],
        }
    }

    /// Built-in vocabulary plus every string and small integer literal of the
    /// sources under test, so that special-cased values are among the inputs.
    pub fn load() -> Self {
        let repo = std::env::var("VH_REPO").unwrap_or_else(|_| "/repo".into());
        let mut keys: BTreeSet<String> = NEAR.iter().map(|s| s.to_string()).collect();
        let mut vals: BTreeSet<String> = VALS.iter().filter(|v| !v.contains('"')).map(|s| s.to_string()).collect();
        let mut sizes: BTreeSet<usize> = BTreeSet::new();
        let mut chars: BTreeSet<char> = BTreeSet::new();
        for p in 0..=16 {
            for d in [-1i64, 0, 1, 2] {
                let n = (1i64 << p) + d;
                if n > 0 {
                    sizes.insert(n as usize);
                }
            }
        }
        for n in [3, 5, 6, 7, 10, 11, 12, 20, 24, 50, 99, 100, 101, 200, 300, 500, 1000, 1001, 3000, 10000] {
            sizes.insert(n);
        }
        let mut files = Vec::new();
        collect_rs(&std::path::Path::new(&repo).join("src"), &mut files);
        for f in files {
            let Ok(src) = std::fs::read_to_string(&f) else { continue };
            let big = f.ends_with("builtins.rs");
            // Strings: a rough scan is enough for a dictionary
            for line in src.lines() {
                let line = line.trim_start();
                if line.starts_with("//") {
                    continue;
                }
                if !big {
                    // Characters beyond ASCII, plain or escaped
                    chars.extend(line.chars().filter(|c| !c.is_ascii()));
                    for (i, _) in line.match_indices("\\u{") {
                        let h: String = line[i + 3..].chars().take_while(|c| *c != '}').filter(|c| *c != '_').collect();
                        chars.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                    }
                    for (i, _) in line.match_indices("\\x") {
                        chars.extend(line.get(i + 2..i + 4).and_then(|h| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32));
                    }
                }
                let mut rest = line;
                while let Some(i) = rest.find('"') {
                    let tail = &rest[i + 1..];
                    let Some(j) = tail.find('"') else { break };
                    let lit = &tail[..j];
                    if lit.len() <= 64 {
                        vals.insert(lit.to_owned());
                        if lit.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_')
                            && lit.bytes().next().is_some_and(|b| !b.is_ascii_digit())
                            && !big
                        {
                            keys.insert(lit.to_owned());
                        }
                    }
                    rest = &tail[j + 1..];
                }
                if big {
                    continue;
                }
                let b = line.as_bytes();
                let mut i = 0;
                while i < b.len() {
                    if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
                        let st = i;
                        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                            i += 1;
                        }
                        let t = line[st..i].replace('_', "");
                        let n = if let Some(h) = t.strip_prefix("0x") {
                            usize::from_str_radix(h, 16).ok()
                        } else {
                            let d: String = t.chars().take_while(char::is_ascii_digit).collect();
                            d.parse().ok()
                        };
                        if let Some(n) = n {
                            if n <= 100_000 {
                                for d in [-1i64, 0, 1, 2] {
                                    let m = n as i64 + d;
                                    if m > 0 {
                                        sizes.insert(m as usize);
                                    }
                                }
                                vals.insert(n.to_string());
                            }
                        }
                    } else {
                        i += 1;
                    }
                }
            }
        }
        keys.retain(|k| !["all", "any", "not"].contains(&k.as_str()));
        vals.retain(|v| !v.contains('"'));
        Dict {
            chars: chars.into_iter().collect(),
            keys: keys.into_iter().collect(),
            vals: vals.into_iter().collect(),
            sizes: sizes.into_iter().collect(),
        }
    }

    pub fn small_size(&self, r: &mut Rng, max: usize) -> usize {
        let n = self.sizes.partition_point(|s| *s <= max);
        self.sizes[r.below(n)]
    }
}

pub fn rand_char(r: &mut Rng) -> char {
    match r.below(10) {
        0..=4 => (r.range(0x20, 0x7e) as u8) as char,
        5 => *r.pick(SPECIAL),
        6 => *r.pick(WS),
        7 => char::from_u32(r.range(0x80, 0x7ff) as u32).unwrap(),
        8 => char::from_u32(r.range(0x800, 0xd7ff) as u32).unwrap(),
        _ => char::from_u32(r.range(0xe000, 0x10ffff) as u32).unwrap_or('\u{fffd}'),
    }
}

pub fn rand_ident(r: &mut Rng, len: usize) -> String {
    const S: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
    const C: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
    let mut s = String::with_capacity(len);
    s.push(*r.pick(S) as char);
    while s.len() < len {
        s.push(*r.pick(C) as char);
    }
    if ["all", "any", "not"].contains(&s.as_str()) {
        s.push('_');
    }
    s
}

pub fn rand_value(r: &mut Rng, d: &Dict) -> String {
    match r.below(20) {
        0..=11 => r.pick(&d.vals).clone(),
        12..=13 => {
            let n = r.range(1, 12);
            rand_ident(r, n)
        }
        14..=17 => {
            let n = r.range(0, 12);
            (0..n).map(|_| rand_char(r)).filter(|c| *c != '"').collect()
        }
        18 => r.below(70000).to_string(),
        _ => {
            let m = if r.chance(1, 40) { 70000 } else { 600 };
            let n = d.small_size(r, m);
            let c = if d.chars.is_empty() || r.chance(2, 3) { *r.pick(SPECIAL) } else { *r.pick(&d.chars) };
            let mut s: String = (0..n).map(|_| if r.chance(1, 8) { c } else { 'v' }).collect();
            if r.chance(1, 2) {
                s.push(c);
            }
            s.replace('"', "é")
        }
    }
}

/// A leaf that is well-formed on its own
pub fn leaf_ok(r: &mut Rng, d: &Dict) -> String {
    let kv = |k: &str, v: &str| format!("{k}={}", format_args!("\"{v}\""));
    match r.below(20) {
        0..=1 => r.pick(BARE).to_string(),
        2..=4 => loop {
            let k = if r.chance(1, 2) {
                r.pick(&d.keys).clone()
            } else {
                let m = if r.chance(1, 30) { 70000 } else { 600 };
                let n = if r.chance(1, 30) { d.small_size(r, m) } else { r.range(1, 10) };
                rand_ident(r, n)
            };
            if crate::model::classify(&k, None).is_ok() {
                return k;
            }
        },
        5..=8 => loop {
            let k = if r.chance(1, 2) {
                r.pick(&d.keys).clone()
            } else {
                let n = r.range(1, 10);
                rand_ident(r, n)
            };
            let v = rand_value(r, d);
            if crate::model::classify(&k, Some(&v)).is_ok() {
                return kv(&k, &v);
            }
        },
        9 => kv("target_endian", r.pick(&["big", "little"])),
        10 => {
            let v = match r.below(4) {
                0 => "ptr".to_owned(),
                1 => r.pick(&["8", "16", "32", "64", "128"]).to_string(),
                2 => r.below(65536).to_string(),
                _ => r.pick(&["0", "65535", "255", "256", "257", "1", "32768"]).to_string(),
            };
            kv("target_has_atomic", &v)
        }
        11 => {
            let v = match r.below(3) {
                0 => r.pick(&["16", "32", "64", "128"]).to_string(),
                1 => r.below(256).to_string(),
                _ => r.pick(&["0", "255", "127", "128", "1"]).to_string(),
            };
            kv("target_pointer_width", &v)
        }
        _ => loop {
            let k = *r.pick(TARGET_KEYS);
            let v = rand_value(r, d);
            if crate::model::classify(k, Some(&v)).is_ok() {
                return kv(k, &v);
            }
        },
    }
}

/// Any key with or without any value; often ill-formed
pub fn leaf_any(r: &mut Rng, d: &Dict) -> String {
    let k = match r.below(4) {
        0 => r.pick(&d.keys).clone(),
        1 => r.pick(TARGET_KEYS).to_string(),
        2 => r.pick(BARE).to_string(),
        _ => {
            let n = r.range(1, 8);
            rand_ident(r, n)
        }
    };
    if r.chance(1, 2) {
        k
    } else {
        format!("{k}=\"{}\"", rand_value(r, d))
    }
}

/// Abstract tokens as strings; a text is a token list plus a layout
pub type Toks = Vec<String>;

fn push_leaf(out: &mut Toks, l: String) {
    // key [= value]; values may contain '='
    match l.split_once('=') {
        Some((k, v)) => {
            out.push(k.to_owned());
            out.push("=".into());
            out.push(v.to_owned());
        }
        None => out.push(l),
    }
}

/// Random expression by size budget, iteratively
pub fn rand_expr(r: &mut Rng, d: &Dict, budget: usize, out: &mut Toks) {
    let leafgen = |r: &mut Rng| leaf_ok(r, d);
    enum W {
        E(usize),
        T(&'static str),
    }
    let trailing = r.below(4);
    let mut st = vec![W::E(budget)];
    while let Some(w) = st.pop() {
        match w {
            W::T(t) => out.push(t.into()),
            W::E(b) => {
                if b <= 1 && !r.chance(1, 12) {
                    push_leaf(out, leafgen(r));
                    continue;
                }
                match r.below(9) {
                    0..=1 => {
                        out.extend(["not".to_owned(), "(".into()]);
                        st.push(W::T(")"));
                        if r.below(4) < trailing {
                            st.push(W::T(","));
                        }
                        st.push(W::E(b.saturating_sub(1)));
                    }
                    k => {
                        out.extend([if k % 2 == 0 { "all" } else { "any" }.to_owned(), "(".into()]);
                        st.push(W::T(")"));
                        let n = if b <= 1 {
                            0
                        } else {
                            match r.below(10) {
                                0 => 0,
                                1 => 1,
                                2..=6 => r.range(2, 4),
                                7..=8 => r.range(2, 9),
                                _ => b.min(40),
                            }
                        };
                        // Split the rest of the budget unevenly
                        let mut parts = vec![0usize; n];
                        for _ in 0..b.saturating_sub(1).min(4000) {
                            if n > 0 {
                                let i = if r.chance(1, 2) { r.below(n) } else { r.below(n).min(r.below(n)) };
                                parts[i] += 1;
                            }
                        }
                        if n > 0 && r.below(4) < trailing {
                            st.push(W::T(","));
                        }
                        for (i, p) in parts.into_iter().enumerate() {
                            if i > 0 {
                                st.push(W::T(","));
                            }
                            st.push(W::E(p));
                        }
                    }
                }
            }
        }
    }
}

/// One function with `n` operands, leaves and small functions mixed by `mix`
pub fn wide(r: &mut Rng, d: &Dict, n: usize, out: &mut Toks) {
    let mix = r.below(6);
    let f = if r.chance(1, 2) { "all" } else { "any" };
    out.extend([f.to_owned(), "(".into()]);
    let pool: Vec<String> = (0..8).map(|_| leaf_ok(r, d)).collect();
    let cut = r.below(n + 1);
    for i in 0..n {
        if i > 0 {
            out.push(",".into());
        }
        let func = match mix {
            0 => false,
            1 => true,
            2 => i < cut,
            3 => i >= cut,
            4 => i == cut,
            _ => r.chance(1, 2),
        };
        if func {
            match r.below(5) {
                0 => out.extend(["any", "(", ")"].map(str::to_owned)),
                1 => out.extend(["all", "(", ")"].map(str::to_owned)),
                2 => {
                    out.extend(["not", "("].map(str::to_owned));
                    push_leaf(out, r.pick(&pool).clone());
                    out.push(")".into());
                }
                _ => {
                    out.extend([if r.chance(1, 2) { "any" } else { "all" }, "("].map(str::to_owned));
                    let m = r.range(1, 3);
                    for j in 0..m {
                        if j > 0 {
                            out.push(",".into());
                        }
                        push_leaf(out, r.pick(&pool).clone());
                    }
                    out.push(")".into());
                }
            }
        } else if r.chance(1, 4) {
            out.push(format!("k{i}"));
        } else {
            push_leaf(out, r.pick(&pool).clone());
        }
    }
    if r.chance(1, 4) {
        out.push(",".into());
    }
    out.push(")".into());
}

/// A chain of `n` nested functions with leaves on either side
pub fn deep(r: &mut Rng, d: &Dict, n: usize, out: &mut Toks) {
    let style = r.below(6);
    let pool: Vec<String> = (0..8).map(|_| leaf_ok(r, d)).collect();
    let mut after: Vec<bool> = Vec::with_capacity(n);
    for i in 0..n {
        let f = match style {
            0 => "all",
            1 => "any",
            2 => "not",
            3 => ["all", "any"][i % 2],
            4 => ["all", "not", "any", "not"][i % 4],
            _ => *r.pick(&["all", "any", "not"]),
        };
        out.extend([f.to_owned(), "(".into()]);
        if f != "not" && r.chance(1, 3) {
            push_leaf(out, r.pick(&pool).clone());
            out.push(",".into());
        }
        after.push(f != "not" && r.chance(1, 3));
    }
    push_leaf(out, r.pick(&pool).clone());
    for a in after.into_iter().rev() {
        if a {
            out.push(",".into());
            push_leaf(out, r.pick(&pool).clone());
        }
        out.push(")".into());
    }
}

/// A valid expression whose size distribution has a long tail
pub fn valid(r: &mut Rng, d: &Dict) -> Toks {
    let mut t = Toks::new();
    match r.below(100) {
        0..=9 => push_leaf(&mut t, leaf_ok(r, d)),
        10..=59 => {
            let n = r.range(1, 14);
            rand_expr(r, d, n, &mut t)
        }
        60..=84 => {
            let n = r.range(8, 60);
            rand_expr(r, d, n, &mut t)
        }
        85..=90 => {
            let n = d.small_size(r, 40);
            wide(r, d, n, &mut t)
        }
        91..=94 => {
            let n = d.small_size(r, 40);
            deep(r, d, n, &mut t)
        }
        95..=96 => {
            let n = d.small_size(r, 700);
            wide(r, d, n, &mut t)
        }
        97 => {
            let n = d.small_size(r, 700);
            deep(r, d, n, &mut t)
        }
        _ => {
            let n = r.range(60, 500);
            rand_expr(r, d, n, &mut t)
        }
    }
    if r.chance(1, 20) {
        t.push(",".into());
    }
    t
}

#[derive(Clone, Copy, Debug)]
pub enum Layout {
    Compact,
    Spaced,
    Pretty,
    Wild,
    Sparse,
}
pub const LAYOUTS: &[Layout] =
    &[Layout::Compact, Layout::Spaced, Layout::Pretty, Layout::Wild, Layout::Sparse];

fn wordy(s: &str) -> bool {
    s.bytes().next_back().is_some_and(|b| b.is_ascii_alphanumeric() || b == b'_')
}
fn wordy_start(s: &str) -> bool {
    s.bytes().next().is_some_and(|b| b.is_ascii_alphanumeric() || b == b'_')
}

/// Text of a token list; returns also where each token starts
pub fn layout(r: &mut Rng, toks: &Toks, l: Layout) -> (String, Vec<usize>) {
    let mut s = String::new();
    let mut at = Vec::with_capacity(toks.len());
    let mut depth = 0usize;
    let gap = |r: &mut Rng, s: &mut String, l: Layout| match l {
        Layout::Wild => {
            for _ in 0..r.below(4) {
                s.push(*r.pick(WS));
            }
        }
        Layout::Sparse => {
            if r.chance(1, 6) {
                for _ in 0..r.range(1, 3) {
                    s.push(*r.pick(WS));
                }
            }
        }
        _ => {}
    };
    gap(r, &mut s, l);
    // Sometimes a gap is long
    let long = if r.chance(1, 24) { r.below(toks.len() + 1) } else { usize::MAX };
    if long == 0 {
        run(r, &mut s);
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 && i == long {
            run(r, &mut s);
        }
        if i > 0 {
            let p = &toks[i - 1];
            match l {
                Layout::Compact => {}
                Layout::Spaced => s.push(' '),
                Layout::Pretty => {
                    if p == "(" {
                        depth += 1;
                    }
                    if t == ")" {
                        depth = depth.saturating_sub(1);
                    }
                    if p == "(" || p == "," || t == ")" {
                        s.push('\n');
                        for _ in 0..depth.min(12) {
                            s.push_str("  ");
                        }
                    } else if p == "=" || t == "=" {
                        s.push(' ');
                    }
                }
                Layout::Wild | Layout::Sparse => gap(r, &mut s, l),
            }
            let last_is_word = s.chars().next_back().is_some_and(|c| c.is_ascii_alphanumeric() || c == '_');
            if wordy(p) && wordy_start(t) && last_is_word {
                s.push(if matches!(l, Layout::Wild) { *r.pick(WS) } else { ' ' });
            }
        }
        at.push(s.len());
        s.push_str(t);
    }
    gap(r, &mut s, l);
    if long == toks.len() && long > 0 {
        run(r, &mut s);
    }
    (s, at)
}

/// A long run of white space, with lengths around the limits of small integers and pages
fn run(r: &mut Rng, s: &mut String) {
    let around: &[usize] = if r.chance(1, 12) {
        &[1000, 4096, 8192, 16384, 32768, 65536, 70000]
    } else {
        &[8, 16, 32, 64, 100, 128, 256, 512]
    };
    let n = (*r.pick(around) + r.below(3)).saturating_sub(1);
    if r.chance(1, 3) {
        for _ in 0..n {
            s.push(*r.pick(WS));
        }
    } else {
        let c = if r.chance(1, 2) { ' ' } else { *r.pick(WS) };
        for _ in 0..n {
            s.push(c);
        }
    }
}

pub fn text(r: &mut Rng, toks: &Toks) -> String {
    let l = *r.pick(LAYOUTS);
    let (s, _) = layout(r, toks, l);
    if r.chance(1, 6) { format!("cfg({s})") } else { s }
}

pub fn rand_tok(r: &mut Rng, d: &Dict) -> String {
    match r.below(14) {
        0 => "=".into(),
        1..=2 => "(".into(),
        3..=4 => ")".into(),
        5..=6 => ",".into(),
        7 => "all".into(),
        8 => "any".into(),
        9 => "not".into(),
        10 => format!("\"{}\"", rand_value(r, d)),
        11 => r.pick(&d.keys).clone(),
        12 => r.pick(BARE).to_string(),
        _ => r.pick(TARGET_KEYS).to_string(),
    }
}

/// Token-level damage
pub fn mutate_toks(r: &mut Rng, d: &Dict, t: &mut Toks) {
    for _ in 0..r.range(1, 3) {
        let n = t.len();
        if n == 0 {
            t.push(rand_tok(r, d));
            continue;
        }
        let i = r.below(n);
        match r.below(9) {
            0..=1 => {
                t.remove(i);
            }
            2 => {
                let x = t[i].clone();
                t.insert(i, x);
            }
            3 => {
                let j = r.below(n);
                t.swap(i, j);
            }
            4..=5 => t[i] = rand_tok(r, d),
            6 => {
                let x = rand_tok(r, d);
                t.insert(i, x);
            }
            7 => t.truncate(i),
            _ => {
                // an ill-formed leaf
                let mut l = Toks::new();
                push_leaf(&mut l, leaf_any(r, d));
                t.splice(i..i + usize::from(r.chance(1, 2)), l);
            }
        }
    }
}

/// Character-level damage
pub fn mutate_chars(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 3) {
        let n = c.len();
        let i = r.below(n + 1);
        match r.below(8) {
            0..=1 if n > 0 => {
                c.remove(i.min(n - 1));
            }
            2 => c.insert(i, rand_char(r)),
            3 => c.insert(i, *r.pick(&['"', '(', ')', ',', '=', ' ', '\n', 'é', '\'', '#', '-', '.', '\\', '/', '9'])),
            4 if n > 0 => c[i.min(n - 1)] = rand_char(r),
            5 if n > 0 => {
                let j = i.min(n - 1);
                c[j] = *r.pick(&['"', '(', ')', ',', '=', ' ', '!', '|', '&', '1', '_', 'É']);
            }
            6 => c.truncate(i),
            7 if n > 0 => {
                let j = r.below(n);
                let (a, b) = (i.min(j), i.max(j));
                let piece: Vec<char> = c[a..b].to_vec();
                if piece.len() < 200 {
                    c.splice(a..a, piece);
                }
            }
            _ => {}
        }
    }
    c.into_iter().collect()
}

/// Random tokens that mostly follow the grammar
pub fn soup(r: &mut Rng, d: &Dict) -> Toks {
    let n = r.range(1, 24);
    let mut t = Toks::new();
    let mut st = 0; // 0 pred, 1 after key, 2 value, 3 list, 4 after pred
    let mut open = 0usize;
    for _ in 0..n {
        if r.chance(1, 14) {
            t.push(rand_tok(r, d));
            continue;
        }
        match st {
            0 => match r.below(8) {
                0..=2 => {
                    let k = if r.chance(1, 2) { rand_ident(r, 2) } else { r.pick(TARGET_KEYS).to_string() };
                    t.push(k);
                    st = 1;
                }
                3 => {
                    t.push(r.pick(BARE).to_string());
                    st = 4;
                }
                4..=6 => {
                    t.push(r.pick(&["all", "any", "not"]).to_string());
                    st = 3;
                }
                _ => {
                    t.push(")".into());
                    open = open.saturating_sub(1);
                    st = 4;
                }
            },
            1 => match r.below(4) {
                0..=1 => {
                    t.push("=".into());
                    st = 2;
                }
                2 => {
                    t.push(",".into());
                    st = 0;
                }
                _ => {
                    t.push(")".into());
                    open = open.saturating_sub(1);
                    st = 4;
                }
            },
            2 => {
                t.push(format!("\"{}\"", r.pick(&d.vals)));
                st = 4;
            }
            3 => {
                t.push("(".into());
                open += 1;
                st = 0;
            }
            _ => {
                if r.chance(1, 2) {
                    t.push(",".into());
                    st = 0;
                } else {
                    t.push(")".into());
                    open = open.saturating_sub(1);
                }
            }
        }
    }
    if r.chance(2, 3) {
        for _ in 0..open {
            t.push(")".into());
        }
    }
    t
}

/// The general random text: valid, damaged, or noise
pub fn any_text(r: &mut Rng, d: &Dict) -> String {
    match r.below(100) {
        0..=39 => {
            let t = valid(r, d);
            text(r, &t)
        }
        40..=64 => {
            let mut t = valid(r, d);
            mutate_toks(r, d, &mut t);
            text(r, &t)
        }
        65..=79 => {
            let t = valid(r, d);
            let s = text(r, &t);
            mutate_chars(r, &s)
        }
        80..=92 => {
            let t = soup(r, d);
            text(r, &t)
        }
        93..=95 => {
            let mut l = Toks::new();
            push_leaf(&mut l, leaf_any(r, d));
            text(r, &l)
        }
        96..=97 => {
            let n = r.range(0, 30);
            (0..n).map(|_| rand_char(r)).collect()
        }
        _ => {
            let n = r.range(0, 16);
            (0..n).map(|_| *r.pick(&['(', ')', ',', '=', '"', 'a', ' ', 'l', 'é', '_', '1'])).collect()
        }
    }
}

/// Large and extreme texts, by index (`None` when exhausted). Sizes up to
/// `max` operands or levels.
pub fn extreme(d: &Dict, seed: u64, i: usize, max: usize) -> Option<String> {
    let sizes: Vec<usize> = d.sizes.iter().copied().filter(|s| *s <= max && *s >= 16).collect();
    let shapes = 11;
    let k = i / shapes;
    let n = *sizes.get(k)?;
    let mut r = Rng::new(crate::rng::mix(seed ^ 0xE47 ^ (i as u64) << 8));
    let r = &mut r;
    let mut t = Toks::new();
    match i % shapes {
        0..=2 => wide(r, d, n, &mut t),
        3 => deep(r, d, n, &mut t),
        4 => {
            // wide list inside a list, after and before siblings
            t.extend(["any", "(", "x", ",", "not", "("].map(str::to_owned));
            wide(r, d, n, &mut t);
            t.extend([")", ",", "y", ")"].map(str::to_owned));
        }
        5 => {
            // long identifiers and values pushing offsets up
            t.extend(["all", "("].map(str::to_owned));
            for j in 0..5 {
                let v: String = (0..n).map(|c| if (c + j) % 7 == 0 { 'é' } else { 'w' }).collect();
                push_leaf(&mut t, format!("key{j}=\"{v}\""));
                t.push(",".into());
                t.push(rand_ident(r, n));
                t.push(",".into());
                push_leaf(&mut t, leaf_ok(r, d));
                t.push(",".into());
            }
            t.push(")".into());
        }
        6 => {
            // only empty functions / only leaves, exact count
            let f = r.pick(&["any", "all"]).to_string();
            t.extend(["all".to_owned(), "(".into()]);
            for j in 0..n {
                if j > 0 {
                    t.push(",".into());
                }
                if k % 2 == 0 {
                    t.extend([f.clone(), "(".into(), ")".into()]);
                } else {
                    t.push(format!("k{j}"));
                }
            }
            t.push(")".into());
        }
        8 => {
            // Exactly this many bytes
            let mut fill = |m: usize| -> String { if k % 2 == 0 { rand_ident(r, m.max(1)) } else { (0..m).map(|_| *r.pick(&[' ', 'x', '-', '.'])).collect() } };
            let (a, b) = match i / shapes % 4 {
                0 => ("all(unix,k=\"", "\",not(b))"),
                1 => ("cfg(any(x,feature=\"", "\"))"),
                2 => ("all(unix,k=\"", "\",not(b,c))"),
                _ => ("any(a,b,target_os=\"", "\",a b)"),
            };
            return Some(format!("{a}{}{b}", fill(n.saturating_sub(a.len() + b.len()))));
        }
        9 | 10 => {
            // Deep and wide at once: the nested one first, last, in the
            // middle or anywhere
            let depth = 1 + d.small_size(r, n.min(3000));
            let width = 1 + (n / depth).min(40_000);
            let at = r.below(4);
            let fs = r.below(3);
            let mut tail: Vec<usize> = vec![];
            for _ in 0..depth {
                let f = match fs {
                    0 => "all",
                    1 => "any",
                    _ => *r.pick(&["all", "any", "not"]),
                };
                t.extend([f.to_owned(), "(".into()]);
                let before = match at {
                    _ if f == "not" => 0,
                    0 => 0,
                    1 => width,
                    2 => width / 2,
                    _ => r.below(width + 1),
                };
                for j in 0..before {
                    if j % 7 == 3 {
                        t.extend(["any", "(", ")"].map(str::to_owned));
                    } else {
                        t.push(format!("k{j}"));
                    }
                    t.push(",".into());
                }
                tail.push(if f == "not" { 0 } else { width - before });
            }
            push_leaf(&mut t, leaf_ok(r, d));
            for after in tail.into_iter().rev() {
                for j in 0..after {
                    t.push(",".into());
                    if j % 5 == 2 {
                        t.extend(["not", "(", "z", ")"].map(str::to_owned));
                    } else {
                        push_leaf(&mut t, if j % 3 == 0 { format!("q{j}=\"v\"") } else { format!("p{j}") });
                    }
                }
                t.push(")".into());
            }
        }
        _ => {
            // white space in bulk
            let ws: String = (0..n).map(|_| *r.pick(WS)).collect();
            return Some(format!("{ws}all({ws}a{ws}={ws}\"b\"{ws},{ws}unix{ws}){ws}"));
        }
    }
    Some(text(r, &t))
}

/// Texts in which something has the length, count, depth or place `n`, for
/// every `n`, by kind (`None` when exhausted)
pub fn length(n: usize, kind: usize) -> Option<String> {
    let many = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(",");
    let f = ["all", "any"][n % 2];
    let g = ["any", "all"][n % 2];
    let x = "x".repeat(n);
    Some(match kind {
        // Operands
        0 => format!("all({})", many(&|j| format!("k{j}"))),
        1 => format!("not(any({}))", many(&|j| format!("k{}=\"v{j}\"", j % 7))),
        2 => format!("{f}(u,{g}({}),v)", many(&|j| if j % 3 == 2 { format!("not(k{j})") } else { format!("k{j}") })),
        3 => format!("cfg({f}({}))", many(&|j| if j % 4 == 1 { "unix".to_owned() } else { format!("{g}(k{j})") })),
        // Too many operands, at a place
        4 => format!("{f}(a,not({}))", many(&|j| format!("k{j}"))),
        5 => format!("{f}({},not())", many(&|j| if j % 5 == 0 { format!("{g}(k{j})") } else { format!("k{j}") })),
        // Keys and values
        6 => format!("{f}(a{x},not(b=\"{x}\"),c)"),
        7 => format!("{f}(target_os=\"{x}\",a{x}=\"b\",target_feature=\"+{x}\",not(windows))"),
        // White space
        8 => {
            let w: String = (0..n).map(|j| WS[(j * 7 + n) % WS.len()]).collect();
            let w2 = " ".repeat(n);
            let mut p = [""; 9];
            p[n % 9] = &w;
            p[(n / 9) % 9] = &w2;
            format!("{}{f}{}({}a{},{}b{}={}\"c\"{},not(d){})", p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8])
        }
        // Depth
        9 => format!("{}z{}", (0..n).map(|j| format!("{}(", ["not", "all", "any", "not"][(j + n) % 4])).collect::<String>(), ")".repeat(n)),
        10 => format!("{}z{}", format!("{f}({g}(a),").repeat(n), ",b)".repeat(n)),
        // Faults at a place
        11 => match n % 6 {
            0 => format!("all(k=\"{x}\",a b)"),
            1 => format!("all(k=\"{x}\",not(b,c))"),
            2 => format!("all(k=\"{x}\",target_pointer_width=\"none\")"),
            3 => format!("all(k=\"{x}\",b=\"c)"),
            4 => format!("all(a{x},unix=\"\")"),
            _ => format!("all(k=\"{x}\",target_endian=\"mixed\"),b"),
        },
        12 => match n % 5 {
            0 => format!("{}a)", "any(".repeat(n + 1)),
            1 => format!("{}a{}", "any(".repeat(n), ")".repeat(n + 1)),
            2 => format!("{}a{},b", "any(".repeat(n), ")".repeat(n)),
            3 => format!("{}a,,b{}", "all(".repeat(n), ")".repeat(n)),
            _ => format!("{}a \u{e9}{}", "not(".repeat(n), ")".repeat(n)),
        },
        13 => format!("{x}"),
        _ => return None,
    })
}

/// Texts of `n` operands or levels, and texts longer than 2^24 bytes (`None`
/// when exhausted).
pub fn giant(n: usize, i: usize) -> Option<String> {
    let long = (1usize << 24) + 5;
    let many = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(",");
    Some(match i {
        0 => format!("all({})", many(&|j| format!("k{j}"))),
        1 => format!("any({},)", many(&|j| format!("k{}=\"v{}\"", j % 7, j % 5))),
        2 => format!("{}a{}", "not(".repeat(n), ")".repeat(n)),
        3 => format!("{}z{}", (0..n).map(|j| format!("{}(k{},", if j % 3 == 0 { "any" } else { "all" }, j % 11)).collect::<String>(), ")".repeat(n)),
        4 => format!("any(q,all({}),r)", many(&|j| (if j % 2 == 0 { "any()" } else { "all()" }).to_owned())),
        5 => format!("{}z{}", "all(".repeat(n), (0..n).map(|j| format!(",k{})", j % 11)).collect::<String>()),
        6 => format!("all(k=\"{}\",b,not(target_os=\"linux\"),c=\"d\")", "w".repeat(long)),
        7 => format!("any({},b,not(target_os=\"linux\"),c=\"d\")", "w".repeat(long)),
        8 => format!("all(a,{}b,not(target_os=\"linux\"),c=\"d\")", "\u{2003}".repeat(long / 3 + 1)),
        9 => format!("all({},not())", many(&|j| format!("k{j}"))),
        10 => format!("all({},unix=\"\")", many(&|j| format!("not(k{j})"))),
        11 => format!("all(k=\"{}\",b,not(a,b),c=\"d\")", "é".repeat(long / 2)),
        12 => format!("all(a,{}target_pointer_width=\"x\")", " ".repeat(long)),
        13 => format!("{}a b{}", "any(".repeat(n), ")".repeat(n)),
        _ => return None,
    })
}

/// Deeply or widely ill-formed or valid texts for totality
pub fn hostile(n: usize) -> Vec<(&'static str, String)> {
    let rep = |s: &str| s.repeat(n);
    let mut v = vec![
        ("not(not(...a...))", format!("{}a{}", rep("not("), rep(")"))),
        ("all(all(...", format!("{}{}", rep("all("), rep(")"))),
        ("any(any(... a", format!("{}a{}", rep("any("), rep(",)"))),
        ("unclosed all(", rep("all(")),
        ("unclosed any(a,", rep("any(a,")),
        ("unopened )", rep(")")),
        ("keywords", rep("all ")),
        ("( only", rep("(")),
        (", only", rep(",")),
        ("= only", rep("=")),
        ("quotes", rep("\"")),
        ("quoted pairs", format!("all({})", rep("\"\","))),
        ("wide keys", format!("all({})", rep("a,"))),
        ("wide kv", format!("any({})", rep("a=\"b\","))),
        ("wide fns", format!("any({})", rep("all(),"))),
        ("wide nots", format!("all({})", rep("not(a),"))),
        ("not of many", format!("not({})", rep("a,"))),
        ("roots", rep("a,")),
        ("root fns", rep("any(),")),
        ("left deep", format!("{}a{}", rep("all("), rep(",b)"))),
        ("right deep", format!("{}a{}", rep("all(b,"), rep(")"))),
        ("both deep", format!("{}a{}", rep("all(b,any(c),"), rep(",any(d),e)"))),
        ("long ident", rep("a")),
        ("long value", format!("a=\"{}\"", rep("é"))),
        ("long open value", format!("a=\"{}", rep("é"))),
        ("whitespace", rep("\u{2003}")),
        ("whitespace then error", format!("{}é", rep(" \u{3000}"))),
        ("emoji", rep("💩")),
        ("nul", rep("\0")),
        ("digits", rep("9")),
        ("width digits", format!("target_pointer_width=\"{}\"", rep("9"))),
        ("atomic digits", format!("target_has_atomic=\"{}\"", rep("0"))),
        ("late bad leaf", format!("all({}unix=\"\")", rep("a,"))),
        ("late bad char", format!("all({}é)", rep("a,"))),
        ("late arity", format!("all({}not())", rep("not(a),"))),
        ("cfg nest", format!("{}a{}", rep("cfg("), rep(")"))),
        ("wrapped", format!("cfg({}a{})", rep("not("), rep(")"))),
        ("cfg( only", rep("cfg(")),
        ("deep bad leaf", format!("{}unix=\"\"{}", rep("all("), rep(")"))),
        ("deep bad char", format!("{}é{}", rep("any("), rep(")"))),
        ("deep bad arity", format!("{}not(a,b){}", rep("all("), rep(")"))),
        ("deep missing comma", format!("{}a b{}", rep("not("), rep(")"))),
        ("deep bad width", format!("{}target_pointer_width=\"x\"{}", rep("any(a,"), rep(")"))),
        ("bad leaf coming up", format!("{}a{}target_nope=\"x\")", rep("all("), rep(")"))),
        ("one ) too many", format!("{}a{}", rep("all("), rep(")") + ")")),
        ("one ) too few", format!("{}a{}", rep("all(any("), rep(")") + &"))".repeat((n / 2).max(1) - 1))),
        ("second root after depth", format!("{}a{}, b", rep("any("), rep(")"))),
        ("nots of pairs", format!("{}a,b{}", rep("not("), rep(")"))),
    ];
    v.push(("mixed commas", format!("any({})", rep("all(a,),not(b,),"))));
    v
}
