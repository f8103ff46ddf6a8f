#!/usr/bin/env python3
"""Mutation experiment.
mutate.py gen N SEED FILE...   small changes at random places that compile and
                               pass the tests, as /tmp/scratch/mut/<k>.diff
mutate.py run [k...]           run the checks on each until one catches it"""
import concurrent.futures as cf, glob, json, os, queue, random, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedtool
M = "/tmp/scratch/mut"
ORDER = {
    "src/expr.rs": "C16 C13 C01 C02 C03 C05 C12 C07",
    "src/expr/parser.rs": "C04 C10 C05 C01 C06 C03 C07 C11 C12",
    "src/expr/lexer.rs": "C09 C04 C10 C05 C06 C07 C11 C12",
    "src/error.rs": "C11 C07 C10 C17",
    "src/targets.rs": "C17 C13 C15 C14 C16",
    "src/targets/builtins.rs": "C14 C15 C18 C16 C13 C17",
    "update/src/main.rs": "C21 C22",
}
SUBS = [
    (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.\.=", ".."), (r"(?<=\w)\.\.(?=\w)", "..="), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])1(?![\w.])", "0"),
    (r"(?<![\w.])(\d\d+|[2-9])(?![\w.])", lambda m: str(int(m.group(1)) + 1)), (r"(?<![\w.])(\d\d+|[2-9])(?![\w.])", lambda m: str(int(m.group(1)) - 1)),
    (r" \+ ", " - "), (r" - ", " + "), (r"\+=", "-="), (r" > ", " >= "), (r" < ", " <= "), (r"!(?=\w)", ""), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
    (r"\.is_empty\(\)", ".len() == 1"), (r"\| [\w:]+(\([^()]*\))?(?=\s*[|)\n=])", ""), (r"[\w:]+(\([^()]*\))? \|(?!\|)", ""), (r"if ", "if !"), (r"\.rev\(\)", ""),
    (r"starts_with", "ends_with"), (r"ends_with", "starts_with"), (r"\.find\(", ".rfind("), (r"\.rfind\(", ".find("), (r"\bSome\(\w+\) =>", "None =>"), (r"\.take\(\)", ".clone()"),
    (r"\.first\(", ".last("), (r"\.last\(", ".first("), (r"\bAll\b", "Any"), (r"\bAny\b", "All"), (r"\bstart\b", "end"), (r"\bend\b", "start"), (r"top", "bottom"), (r"\.and\(", ".or("), (r"\.or\(", ".and("),
    (r"break", "continue"), (r"continue", "break"), (r'"([a-z_]{2,})"', lambda m: '"%s"' % m.group(1)[:-1]), (r"little", "big"), (r"big", "little"),
    (r"\b(unix|wasm|windows)\b", lambda m: {"unix": "wasm", "wasm": "unix", "windows": "unix"}[m.group(1)]),
    (r"::None\b", "::Some"), (r"None", 'Some(Default::default())'), (r"\b(8|16|32|64|128)\b", lambda m: str(int(m.group(1)) * 2 % 255)), (r"sort_unstable\(\);", "reverse();"), (r"\.dedup\(\)", ".len()"),
    (r"_16", ""), (r"Some\(Env::\w+\)", "None"), (r"Some\(Abi::\w+\)", "None"), (r"env: None", "env: Some(Env::gnu)"), (r"abi: None", "abi: Some(Abi::eabi)"), (r"Vendor::\w+", "Vendor::pc"), (r"Panic::abort", "Panic::unwind"), (r"Panic::unwind", "Panic::abort"), (r"Os::\w+", "Os::linux"), (r"Arch::\w+", "Arch::x86_64"), (r"atomic_8_16_32_64_ptr", "atomic_8_16_32_64_128_ptr"), (r"atomic_8_16_32_ptr", "atomic_8_16_32_64_ptr"),
]


def body(f):
    s = open("/repo/" + f).read()
    lim = s.find("#[cfg(test)]")
    return s, (lim if lim > 0 else len(s))


def candidate(rnd, files):
    f = rnd.choice(files)
    s, lim = body(f)
    lines = s[:lim].split("\n")
    for _ in range(2000):
        i = rnd.randrange(len(lines))
        l = lines[i]
        if not l.strip() or l.strip().startswith("//") or l.strip().startswith("#["):
            continue
        if rnd.random() < 0.12 and l.strip().endswith(";") and not l.strip().startswith(("use ", "let ", "}", "const ", "pub ")):
            new = re.match(r"\s*", l).group(0) + "();"
        else:
            pat, rep = rnd.choice(SUBS)
            ms = list(re.finditer(pat, l))
            if not ms:
                continue
            m = rnd.choice(ms)
            new = l[:m.start()] + (rep(m) if callable(rep) else rep) + l[m.end():]
        if new == l:
            continue
        return f, i, l, new
    return None


def gen(n, seed, files):
    rnd = random.Random(seed)
    seen, out = set(), []
    k0 = len(glob.glob(M + "/*.diff"))
    q = queue.Queue()
    for w in range(4):
        q.put(w)

    def one(c):
        f, i, old, new = c
        w = q.get()
        try:
            d = M + "/g%d/repo" % w
            seedtool.fresh(d)
            p = os.path.join(d, f)
            ls = open(p).read().split("\n")
            assert ls[i] == old
            ls[i] = new
            open(p, "w").write("\n".join(ls))
            diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
            try:
                ok, o = seedtool.tests_pass(d, M + "/g%d/target" % w)
            except subprocess.TimeoutExpired:
                ok = False
            return c, diff if ok else None
        finally:
            q.put(w)
    made = 0
    with cf.ThreadPoolExecutor(4) as ex:
        while made < n:
            cs = []
            while len(cs) < 16:
                c = candidate(rnd, files)
                if c and c not in seen:
                    seen.add(c)
                    cs.append(c)
            for c, diff in ex.map(one, cs):
                if diff and made < n:
                    open(M + "/%03d.diff" % (k0 + made), "w").write(diff)
                    print(k0 + made, c[0], c[1] + 1, "|", c[2].strip(), "=>", c[3].strip(), flush=True)
                    made += 1


def run(ks):
    for k in ks:
        p = M + "/%03d.diff" % int(k)
        f = re.search(r"^--- a/(.*)$", open(p).read(), re.M).group(1)
        ch = [l for l in open(p).read().splitlines() if re.match(r"[-+][^-+]", l)]
        res = None
        tried = []
        for prop in ORDER[f].split():
            _, r = seedtool.check("m", [prop], 1, "quick", p)
            tried.append(prop + ":" + r[prop][0])
            if r[prop][0] == "CAUGHT":
                res = prop
                break
        print(k, f, "CAUGHT by " + res if res else "MISSED", tried[-3:] if res else tried, "\n   ", "\n    ".join(ch), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:])
    else:
        run(sys.argv[2:] or sorted(os.path.basename(x)[:-5] for x in glob.glob(M + "/*.diff")))
