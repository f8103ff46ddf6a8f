"""C21 and C22: the update tool run against compilers that are shell scripts
with prepared answers, in a scratch copy of the crate."""
import hashlib, json, os, random, re, shutil, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor

import check as ck
import rustcfacts as rf

FAKE = r'''#!/bin/sh
# A compiler with prepared answers
D=%s
q= ; t= ; tc= ; v=
while [ $# -gt 0 ]; do
  case "$1" in
    +*) tc="$1";;
    --version|-V) q=version;;
    -vV|-Vv) q=version; v=1;;
    --verbose|-v) v=1;;
    --print) shift; q="$1";;
    --print=*) q="${1#--print=}";;
    --target) shift; t="$1";;
    --target=*) t="${1#--target=}";;
    *) echo "error: unrecognized option $1" >&2; exit 1;;
  esac
  shift
done
echo "$q $t $tc" >> "$D/log"
case "$q" in
  version) f=version;;
  target-list) f=list;;
  cfg) f="cfg.$t";;
  *) echo "error: unknown query $q" >&2; exit 1;;
esac
if [ -f "$D/fault.$f" ]; then . "$D/fault.$f"; fi
if [ ! -f "$D/$f" ]; then echo "error: could not find specification for target $t" >&2; exit 1; fi
cat "$D/$f"
'''

KEYWORDS = set("abstract as async await become box break const continue crate do dyn else enum extern false final fn for gen if impl in "
               "let loop macro match mod move mut override priv pub ref return self static struct super trait true try type typeof union "
               "unsafe unsized use virtual where while yield new new_const as_str contains iter".split())


VERSION_TAILS = [" (05f9846f8 2025-03-31)", "", " (05f9846f8 2025-03-31) (Arch Linux rust 1:1.87.0-1)", " (built from a source tarball)",
                 " (05f9846f8 2025-03-31) (built from a source tarball)", " (a b c d e f)"]


class World:
    """One copy of the crate and one fake compiler, reused by a thread"""

    def __init__(self, base, n, tool):
        self.d = os.path.join(base, f"w{n}")
        self.crate = os.path.join(self.d, "crate")
        self.fake = os.path.join(self.d, "fake")
        self.tool = tool
        os.makedirs(os.path.join(self.d, "bin"))
        os.makedirs(self.fake)
        os.makedirs(self.crate)
        for x in ("src", "README.md", "Cargo.toml", "clippy.toml"):
            p = os.path.join(ck.REPO, x)
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(self.crate, x))
            elif os.path.exists(p):
                shutil.copy(p, self.crate)
        # Cargo wants the targets the manifest names
        for x in ("benches", "examples", "tests"):
            if os.path.isdir(os.path.join(ck.REPO, x)):
                shutil.copytree(os.path.join(ck.REPO, x), os.path.join(self.crate, x))
        self.builtins = os.path.join(self.crate, "src", "targets", "builtins.rs")
        self.readme = os.path.join(self.crate, "README.md")
        self.b0 = open(self.builtins, "rb").read()
        self.r0 = open(self.readme, "rb").read()
        # The scenarios' answers to compile against
        self.mtime = time.time()

    def reset(self, readme=None):
        if os.path.isdir(self.readme):
            shutil.rmtree(self.readme)
        open(self.builtins, "wb").write(self.b0)
        open(self.readme, "wb").write(self.r0 if readme is None else readme)
        for _ in range(50):
            shutil.rmtree(self.fake, ignore_errors=True)
            if not os.path.exists(self.fake):
                break
            time.sleep(.01)
        os.makedirs(self.fake, exist_ok=True)

    def answers(self, version, targets, order=None, rnd=None):
        """targets: {triple: text of --print cfg}"""
        w = lambda n, s: open(os.path.join(self.fake, n), "wb").write(s if isinstance(s, bytes) else s.encode())
        # Compilers built without git, by distributions, from tarballs
        w("version", f"rustc {version}" + (rnd.choice(VERSION_TAILS) if rnd else VERSION_TAILS[0]) + "\n")
        w("list", "".join(t + "\n" for t in (order or sorted(targets))))
        for t, s in targets.items():
            w("cfg." + t, s)
        for n in ("rustc", "fakec"):
            p = os.path.join(self.d, "bin", n)
            if os.path.lexists(p):
                os.remove(p)
            with open(p, "w") as f:
                f.write(FAKE % self.fake)
            os.chmod(p, 0o755)

    def fault(self, q, script):
        with open(os.path.join(self.fake, "fault." + q), "w", encoding="utf-8") as f:
            f.write(script)

    def run(self, how=0):
        e = ck.env()
        if how == 0:
            e["RUSTC"] = os.path.join(self.d, "bin", "fakec")
        elif how == 1:
            e["PATH"] = os.path.join(self.d, "bin") + ":" + e["PATH"]
        else:
            e["RUSTC"] = os.path.join(self.d, "bin", "nothing-here")
        p = subprocess.Popen([self.tool], cwd=self.crate, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            so, se = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            raise ck.NoAnswer("the update tool did not end in 120 s")
        # Compilers it left running would write into the next run's answers
        for _ in range(100):
            try:
                os.killpg(p.pid, 9)
            except (ProcessLookupError, PermissionError):
                break
            time.sleep(.005)
        log = os.path.join(self.fake, "log")
        q = open(log).read().splitlines() if os.path.exists(log) else []
        return p.returncode, se.decode("utf-8", "replace"), q

    def snapshot(self):
        h = {}
        for d, _, fs in os.walk(self.crate):
            for f in fs:
                p = os.path.join(d, f)
                h[os.path.relpath(p, self.crate)] = hashlib.sha256(open(p, "rb").read()).hexdigest()
        return h


def build_tool():
    """The tool of the tree under test, built from a copy of it"""
    t = os.path.join(ck.target_dir(), "update")
    src = os.path.join(ck.target_dir(), "update-src")
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree(os.path.join(ck.REPO, "update"), src, ignore=shutil.ignore_patterns("target"))
    rc, so, se = ck.run(["cargo", "build", "--offline", "--release"], 300, env=ck.env(CARGO_TARGET_DIR=t), cwd=src)
    if rc:
        ck.log(se[-3000:])
        raise ck.NoAnswer("the update tool does not build")
    name = re.search(r'^name\s*=\s*"([^"]+)"', open(os.path.join(src, "Cargo.toml")).read(), re.M).group(1)
    return os.path.join(t, "release", name)


# ------------------------------------------------------------- what compilers say

def facts_text(f, rnd=None):
    """What rustc --print cfg prints for a description"""
    l = ["debug_assertions"]
    l.append(f'panic="{f["panic"]}"')
    l.append(f'target_abi="{f["abi"] or ""}"')
    l.append(f'target_arch="{f["arch"]}"')
    l.append(f'target_endian="{f["endian"]}"')
    l.append(f'target_env="{f["env"] or ""}"')
    l += [f'target_family="{x}"' for x in f["families"]]
    l += [f'target_has_atomic="{x}"' for x in f["has_atomics"]]
    l.append(f'target_os="{f["os"] or "none"}"')
    l.append(f'target_pointer_width="{f["pointer_width"]}"')
    l.append(f'target_vendor="{f["vendor"] or ""}"')
    if rnd:
        if f["abi"] is None and rnd.random() < .3:
            l = [x for x in l if not x.startswith("target_abi=")]
        if f["os"] is None and rnd.random() < .3:
            l = [x for x in l if not x.startswith("target_os=")]
        if rnd.random() < .5:
            l += rnd.sample(["ub_checks", "overflow_checks", "target_thread_local", "unix", "windows", 'fmt_debug="full"', "target_has_atomic",
                             'relocation_model="pic"', 'target_has_atomic_equal_alignment="8"', "target_has_atomic_equal_alignment", 'target_has_atomic_load_store="128"',
                             'target_has_atomic_load_store="ptr"', "target_has_atomic_load_store", 'relocation_model="static"'], rnd.randint(1, 6))
        feats = ["sse", "sse4.1", "crt-static", "fxsr", "a=b", "x87", "é"]
        l += [f'target_feature="{x}"' for x in rnd.sample(feats, rnd.randint(0, 4))]
        k = rnd.random()
        if k < .4:
            rnd.shuffle(l)
        elif k < .8:
            l.sort()
    return "".join(x + "\n" for x in l)


def ident(rnd, dash=False):
    while True:
        n = rnd.choice([1, 2, 3, 5, 8, 13])
        s = rnd.choice("abcdefghijklmnopqrstuvwxyz") + "".join(rnd.choice("abcdefghijklmnopqrstuvwxyz0123456789" + ("-" if dash else "")) for _ in range(n - 1))
        if s not in KEYWORDS and s.replace("-", "_") not in KEYWORDS and not s.endswith("-") and s != "none":
            return s


def pool(rnd, real, dash, n):
    """Values no two of which need the same identifier"""
    seen = {}
    for v in [x for x in real if rnd.random() < .3] + [ident(rnd, dash) for _ in range(n)]:
        seen.setdefault(v.replace("-", "_"), v)
    return sorted(seen.values())


def world(rnd, rows, n=None):
    """A random compiler: {triple: facts}"""
    vals = lambda k: sorted({r[k] for r in rows if r[k]})
    p = {"arch": pool(rnd, [x for x in vals("arch") if "-" not in x], False, 4), "os": pool(rnd, vals("os"), True, 3), "env": pool(rnd, vals("env"), True, 3),
         "vendor": pool(rnd, vals("vendor"), True, 3), "abi": pool(rnd, vals("abi"), True, 3)}
    fam = ["unix", "windows", "wasm"] + [ident(rnd) for _ in range(2)]
    atom = ["8", "16", "32", "64", "128", "ptr"] + rnd.sample(["1", "256", "512", "1024", "65535", "24", "0", "9"], 3)
    panics = ["unwind", "abort"] + [ident(rnd) for _ in range(rnd.choice([0, 0, 1]))]
    n = n or rnd.choice([1, 2, 3, 5, 8, 13, 21, 40])
    out = {}
    while len(out) < n:
        k = rnd.random()
        if k < .5:
            t = rnd.choice(rows)["triple"]
        elif k < .6:
            t = "aarch64-apple-watchos"
        elif out and k < .8:
            t = rnd.choice(sorted(out)) + rnd.choice(["-x", "_y", ".z", "0", "a", "-eabi"])
        else:
            t = "-".join(ident(rnd, False) + rnd.choice(["", "", "_1", ".main", "64"]) for _ in range(rnd.choice([2, 3, 3, 4])))
        o = lambda key, q: None if rnd.random() < q else rnd.choice(p[key])
        out[t] = {"triple": t, "arch": rnd.choice(p["arch"]), "os": o("os", .3), "env": o("env", .4), "vendor": o("vendor", .1), "abi": o("abi", .5),
                  "families": sorted(rnd.sample(fam, rnd.choice([0, 1, 1, 1, 2, 3]))), "has_atomics": rnd.sample(atom, rnd.choice([0, 0, 1, 2, 3, 4, 5, 6, len(atom)])),
                  "pointer_width": rnd.choice([16, 32, 64, 64, 32, 0, 128, 255, 8]), "endian": rnd.choice(["little", "little", "big"]), "panic": rnd.choice(panics)}
    return out


# --------------------------------------------------------------------------- C21

def cover(rnd, rows):
    """Rows that between them have every value of the table: the crate's own
    code names some of the constants, and every real compiler has those"""
    rows = list(rows)
    rnd.shuffle(rows)
    have, out = set(), {}
    for r in rows:
        k = set(const_wants({0: r}))
        if not k <= have:
            have |= k
            out[r["triple"]] = r
    return out


def const_wants(facts):
    """The constants a table of these facts must have"""
    w = {}
    u = lambda s: s.replace("-", "_")
    for f in facts.values():
        for t, k in (("Os", "os"), ("Abi", "abi"), ("Env", "env"), ("Vendor", "vendor"), ("Arch", "arch"), ("Panic", "panic")):
            if f[k]:
                w[t, u(f[k])] = [f[k]]
        for x in f["families"]:
            w["Family", u(x)] = [x]
        if f["families"]:
            fs = sorted(f["families"])
            w["Families", "_".join(fs)] = fs
        if f["has_atomics"]:
            at = sorted(f["has_atomics"], key=lambda a: 1 << 20 if a == "ptr" else int(a))
            w["HasAtomics", "atomic_" + "_".join(at)] = at
    return w


def dump_program(consts):
    l = ["use cfg_expr::targets::*;",
         "fn at(x: &HasAtomic) -> String { match x { HasAtomic::IntegerSize(n) => n.to_string(), HasAtomic::Pointer => \"ptr\".into(), _ => \"?\".into() } }",
         "fn js(s: &str) -> String { format!(\"{s:?}\") }",
         "fn opt(s: Option<&str>) -> String { s.map_or(\"null\".into(), js) }",
         "fn set(v: Vec<String>) -> String { format!(\"[{}]\", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(\",\")) }",
         "fn main() {",
         "  println!(\"version {}\", rustc_version());",
         "  for t in ALL_BUILTINS {",
         "    println!(\"target {{\\\"triple\\\":{},\\\"os\\\":{},\\\"abi\\\":{},\\\"arch\\\":{},\\\"env\\\":{},\\\"vendor\\\":{},\\\"families\\\":{},\\\"has_atomics\\\":{},"
         "\\\"pointer_width\\\":{},\\\"endian\\\":{},\\\"panic\\\":{}}}\", js(t.triple.as_str()), opt(t.os.as_ref().map(|x| x.as_str())), opt(t.abi.as_ref().map(|x| x.as_str())),"
         " js(t.arch.as_str()), opt(t.env.as_ref().map(|x| x.as_str())), opt(t.vendor.as_ref().map(|x| x.as_str())), set(t.families.iter().map(|f| f.as_str().to_owned()).collect()),"
         " set(t.has_atomics.iter().map(at).collect()), t.pointer_width, js(if t.endian == Endian::big { \"big\" } else { \"little\" }), js(t.panic.as_str()));",
         "    println!(\"found {} {}\", t.triple.as_str(), get_builtin_target_by_triple(t.triple.as_str()).is_some_and(|u| u.triple == t.triple));",
         "    println!(\"members {} {}\", t.triple.as_str(), t.families.iter().all(|f| t.families.contains(f)) && t.has_atomics.iter().all(|a| t.has_atomics.contains(*a)));",
         "  }"]
    for t, n in sorted(consts):
        if t == "Families":
            e = f"set({t}::{n}.iter().map(|x| x.as_str().to_owned()).collect())"
        elif t == "HasAtomics":
            e = f"set({t}::{n}.iter().map(at).collect())"
        else:
            e = f"set(vec![{t}::{n}.as_str().to_owned()])"
        l.append(f'  println!("const {t} {n} {{}}", {e});')
    return "\n".join(l + ["}"]) + "\n"


def compile_dump(w, consts):
    """(ok, output or errors)"""
    d = os.path.join(w.d, "dump")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "consts"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
                f'[dependencies]\ncfg-expr = {{ path = {json.dumps(w.crate)} }}\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\n')
    shutil.copy(os.path.join(ck.VERIF, "data", "consts.lock"), os.path.join(d, "Cargo.lock"))
    with open(os.path.join(d, "src", "main.rs"), "w", encoding="utf-8") as f:
        f.write(dump_program(consts))
    # Cargo goes by time stamps: leave it no doubt
    w.mtime += 2
    for f in (w.builtins, w.readme, os.path.join(d, "src", "main.rs")):
        if os.path.isfile(f):
            os.utime(f, (w.mtime, w.mtime))
    t = os.path.join(w.d, "target")
    for x in ("deps", ".fingerprint", "build"):
        p = os.path.join(t, "debug", x)
        if os.path.isdir(p):
            for y in os.listdir(p):
                if "cfg_expr" in y or "cfg-expr" in y or y.startswith("consts"):
                    q = os.path.join(p, y)
                    shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
    rc, so, se = ck.run(["cargo", "build", "--offline", "-j", "2"], 300, env=ck.env(CARGO_TARGET_DIR=t), cwd=d)
    if rc:
        return False, se
    rc, so, se = ck.run([os.path.join(t, "debug", "consts")], 60)
    if rc:
        return False, f"the program that lists the table ends with {rc}\n{se[-1500:]}"
    return True, so


def parse_dump(so):
    v, rows, found, members, consts = None, [], {}, {}, {}
    for l in so.splitlines():
        k, rest = l.split(" ", 1)
        if k == "version":
            v = rest
        elif k == "target":
            rows.append(json.loads(rest))
        elif k in ("found", "members"):
            t, b = rest.rsplit(" ", 1)
            (found if k == "found" else members)[t] = b == "true"
        elif k == "const":
            t, n, j = rest.split(" ", 2)
            consts[t, n] = json.loads(j)
    return v, rows, found, members, consts


def compare(version, facts, so):
    """What is wrong with the table, as text"""
    v, rows, found, members, consts = parse_dump(so)
    bad = []
    if v != version:
        bad.append(f"the table names version {v}, the compiler said {version}")
    names = [r["triple"] for r in rows]
    if sorted(names) != sorted(facts):
        bad.append(f"targets {sorted(set(facts) - set(names))} are missing, {sorted(set(names) - set(facts))} are extra, or repeated")
    if names != sorted(names, key=lambda s: s.encode()):
        bad.append("the table is not in the order lookup needs")
    for r in rows:
        f = facts.get(r["triple"])
        if f is None:
            continue
        for k in f:
            if k in ("families", "has_atomics"):
                if sorted(r[k]) != sorted(f[k]):
                    bad.append(f"{r['triple']}: {k} {r[k]}, the compiler said {f[k]}")
            elif r[k] != f[k]:
                bad.append(f"{r['triple']}: {k} {r[k]!r}, the compiler said {f[k]!r}")
        if not found.get(r["triple"]):
            bad.append(f"{r['triple']} is not found by looking it up")
        if not members.get(r["triple"]):
            bad.append(f"{r['triple']}: a family or atomic it lists is not found in the set")
    for (t, n), want in const_wants(facts).items():
        if sorted(consts.get((t, n), [])) != sorted(want):
            bad.append(f"{t}::{n} is {consts.get((t, n))}, expected {want}")
    return bad, len(consts)


def readmes(rnd, r0, old, k):
    """A README, and what is to come of it for a new version"""
    if k == 0:
        t = r0.decode()
    else:
        t = "\n".join(rnd.sample(["# x", "Some [text](http://a) `[1]: y`.", "é ünï [a]: http://b", "no version", "v0.9", "```rust\nlet a: [u8; 1];\n```", "<a>\t</a>"], rnd.randint(0, 6)))
        for _ in range(rnd.randint(0, 3)):
            t += f"\nTargets of [{old}] and {old}-blue, ({old}).\n\n" + rnd.choice(["", "tail\r\n", "é\n"])
        t += f"\n[{old}]: https://blog/{rnd.choice(['x', old])}" + rnd.choice(["\n", "", "\n\nafter\n"])
    return t.encode(), lambda new: t.replace(old, new).encode()


VERSIONS = ["1.87.0", "1.100.0", "2.0.0", "1.88.0-nightly", "1.9.3-beta.1", "1.87.0-dev", "1.86.1"]


def c21(tier):
    th = tier == "thorough"
    count = 1500 if th else 100
    base = os.path.join(ck.target_dir(), f"c21-{os.getpid()}")
    os.makedirs(base)
    tool = build_tool()
    local = threading.local()
    lock = threading.Lock()
    obs = {"compilers": 0, "targets": 0, "queries answered": 0, "constants checked": 0, "fields checked": 0, "runs with the version of the table": 0}
    distinct = set()
    samples = []
    nw = [0]

    def mine():
        if not hasattr(local, "w"):
            with lock:
                nw[0] += 1
                n = nw[0]
            local.w = World(base, n, tool)
        return local.w

    try:
        w = mine()
        ok, so = compile_dump(w, [])
        if not ok:
            ck.log(so[-2000:])
            raise ck.NoAnswer("a copy of the crate does not build")
        v0, rows, *_ = parse_dump(so)
        current = {r["triple"]: r for r in rows}
        m = re.findall(r"\[([^\[\]]+)\]:", w.r0.decode())
        if not m:
            raise ck.NoAnswer("no version in the README")
        old = m[-1]

        def one(i):
            rnd = random.Random(ck.SEED * 1_000_003 + i)
            w = mine()
            if i == 0:
                facts, version = current, v0        # the answers behind the table
            else:
                facts, version = {**cover(rnd, rows), **world(rnd, rows, n=len(rows) if i == 1 else None)}, rnd.choice(VERSIONS)
                # What the random ones took from the cover goes under new names
                facts.update({f"zz{k}-{t}": {**f, "triple": f"zz{k}-{t}"} for k, (t, f) in enumerate(cover(rnd, rows).items()) if facts.get(t) != f})
            readme, after = readmes(rnd, w.r0, old, 0 if i < 3 else rnd.randint(0, 1))
            w.reset(readme)
            texts = {t: facts_text(f, rnd if i else None) for t, f in facts.items()}
            w.answers(version, texts, rnd=rnd if i else None)
            # Warnings and delays are no failures
            for t in rnd.sample(sorted(texts), min(len(texts), rnd.choice([0, 1, 3]))) if i else []:
                w.fault("cfg." + t, rnd.choice(["echo 'warning: unstable' >&2\n", "head -c 300000 /dev/zero | tr '\\0' w >&2\n", "printf '\\377\\n' >&2\n", "sleep .0%d\n" % rnd.randint(1, 9)]))
            if i % 5 == 2:
                w.fault(rnd.choice(["version", "list"]), rnd.choice(["echo 'warning: x' >&2\n", "head -c 300000 /dev/zero | tr '\\0' w >&2\n", "sleep .05\n"]))
            rc, se, q = w.run(how=i % 2)
            case = f"compiler {i} of seed {ck.SEED}, version {version}\n" + "\n".join(f"--- {t}\n{s}" for t, s in list(texts.items())[:6])
            if rc:
                return [f"the tool fails with {rc}: {se[-1500:]}"], case
            got = open(w.readme, "rb").read()
            if got != after(version):
                return [f"README: expected {after(version)[:1500]!r}\ngot {got[:1500]!r}"], case
            wants = const_wants(facts)
            ok, so = compile_dump(w, wants)
            if not ok:
                return ["the crate does not compile with the generated table, or lacks a constant:\n" + so[-2500:]], case
            bad, nc = compare(version, facts, so)
            with lock:
                obs["compilers"] += 1
                obs["targets"] += len(facts)
                obs["queries answered"] += len(q)
                obs["constants checked"] += nc
                obs["fields checked"] += 11 * len(facts)
                obs["runs with the version of the table"] += i == 0
                distinct.update(hashlib.sha1(s.encode()).digest() for s in texts.values())
                if len(samples) < 3 and i:
                    samples.append(next(iter(texts.values())))
            return bad, case

        worst = None
        with ThreadPoolExecutor(ck.CORES) as p:
            for bad, case in p.map(one, range(count)):
                if bad and (worst is None or len(case) < len(worst[1])):
                    worst = bad, case
        if worst:
            raise ck.Violation(ck.replay("C21", "update", "\n".join(worst[0][:20]) + f"\n\n{worst[1]}\nreplay: VERIF_SEED={ck.SEED} python3 check.py C21 {tier}"))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if not obs["targets"]:
        raise ck.NoAnswer("nothing observed")
    f = {"label": "update", "evaluations": obs["fields checked"] + obs["constants checked"], "distinct_nontrivial": len(distinct), "samples": samples, "observed": obs,
         "rule": "the real tool run against scripted compilers reporting random sets of targets, the full-size set and the answers behind the current "
         "table; the generated table compiled into a copy of the crate, dumped and compared field by field with what the compiler said; distinct cfg answers"}
    return [f], ["compilers answer like rustc: a sorted list of distinct targets, the keys the tool knows, names that are identifiers (with hyphens in os, abi, env, vendor)"], None


# --------------------------------------------------------------------------- C22

def cfg_faults(rnd, text):
    """(name, shell script) that spoil a --print cfg query"""
    drop = lambda key: "".join(l + "\n" for l in text.splitlines() if not l.startswith(key + "="))
    lines = text.splitlines()

    def with_line(x):
        k = rnd.randint(0, len(lines))
        return "\n".join(lines[:k] + [x] + lines[k:]) + "\n"
    say = lambda s: "cat <<'END_OF_ANSWER'\n" + s + "END_OF_ANSWER\nexit 0\n"
    bad_atomic = rnd.choice(["", "x", "-8", "8 ", "65536", "Ptr", "8.0", "ptr8", "0x8", "8,16", "é", "99999999999"])
    unknown = rnd.choice(["foo", "target_foo", "target_oss", "panics", "target_has_atomics", "", "Target_os", " target_os", "target", "feature", "é", "target_has_atomic_primitive_alignment"])
    half = "".join(l + "\n" for l in lines[:len(lines) // 2])
    return rnd.choice([
        ("exit", f"echo error >&2; exit {rnd.choice([1, 2, 101, 255])}\n"),
        ("exit after a full answer", f"cat \"$D/$f\"; exit {rnd.choice([1, 101])}\n"),
        ("exit after half an answer", "cat <<'END_OF_ANSWER'\n" + half + "END_OF_ANSWER\nexit 1\n"),
        ("exit, error text not UTF-8", "printf '\\377\\376' >&2; exit 1\n"),
        ("killed", f"kill -{rnd.choice(['KILL', 'SEGV', 'TERM', 'ABRT'])} $$\n"),
        ("killed after a full answer", f"cat \"$D/$f\"; kill -{rnd.choice(['KILL', 'SEGV', 'TERM'])} $$; sleep 5\n"),
        ("not UTF-8", "cat \"$D/$f\"; printf 'target_feature=\"\\377\"\\n'; exit 0\n"),
        ("not UTF-8", "printf '\\200\\n'; cat \"$D/$f\"; exit 0\n"),
        ("not UTF-8", "cat \"$D/$f\"; printf 'unix\\303'; exit 0\n"),
        ("unknown key", say(with_line(f'{unknown}="x"'))),
        ("unknown key", say(with_line(f'{unknown}="8"'))),
        ("malformed atomic", say(with_line(f'target_has_atomic="{bad_atomic}"'))),
        ("no architecture", say(drop("target_arch"))),
        ("no pointer width", say(drop("target_pointer_width"))),
        ("no endianness", say(drop("target_endian"))),
        ("no panic strategy", say(drop("panic"))),
        ("empty answer", "exit 0\n"),
    ])


def plain_faults(rnd):
    return rnd.choice([
        ("exit", f"echo error >&2; exit {rnd.choice([1, 101])}\n"),
        ("exit after a full answer", "cat \"$D/$f\"; exit 1\n"),
        ("killed", "kill -KILL $$\n"),
        ("killed after a full answer", f"cat \"$D/$f\"; kill -{rnd.choice(['KILL', 'SEGV'])} $$; sleep 5\n"),
        ("not UTF-8", "cat \"$D/$f\"; printf '\\377\\n'; exit 0\n"),
        ("not UTF-8", "printf '\\377 '; cat \"$D/$f\"; exit 0\n"),
    ])


def c22(tier):
    th = tier == "thorough"
    count = 30_000 if th else 3000
    base = os.path.join(ck.target_dir(), f"c22-{os.getpid()}")
    os.makedirs(base)
    tool = build_tool()
    local = threading.local()
    lock = threading.Lock()
    nw = [0]
    kinds = {}
    places = set()
    obs = {"faulted runs": 0, "queries answered": 0, "runs without fault": 0, "faults": kinds}
    samples = []
    version, rows = rf.table(ck.build("release"))
    if not rows:
        raise ck.NoAnswer("no table")
    end = time.time() + (700 if th else 400)

    def mine():
        if not hasattr(local, "w"):
            with lock:
                nw[0] += 1
                n = nw[0]
            local.w = World(base, n, tool)
        return local.w

    def one(i):
        if time.time() > end:
            return None
        rnd = random.Random(ck.SEED * 7_000_003 + i)
        w = mine()
        w.reset()
        n = len(rows) if i % 150 == 1 else rnd.choice([1, 1, 2, 2, 3, 5, 8])
        facts = world(rnd, rows, n=n)
        texts = {t: facts_text(f, rnd) for t, f in facts.items()}
        names = sorted(facts)
        w.answers(rnd.choice(VERSIONS), texts, rnd=rnd)
        how = rnd.choice([0, 0, 1])
        done = []
        nf = 0 if i % 100 == 0 else rnd.choice([1, 1, 1, 1, 2, 3])
        certain = False
        for _ in range(nf):
            k = rnd.random()
            if k < .70:
                t = rnd.choice([names[0], names[-1], rnd.choice(names)])
                name, script = cfg_faults(rnd, texts[t])
                w.fault("cfg." + t, script)
                at = "first" if t == names[0] else "last" if t == names[-1] else "middle"
                place = f"{name}, cfg of the {at} target"
                if len(names) == 1:
                    place = f"{name}, cfg of the only target"
            elif k < .85:
                q = rnd.choice(["version", "list"])
                if rnd.random() < .25:
                    # Every later query cannot be started
                    name = "cannot be started any more"
                    w.fault(q, "cat \"$D/$f\"; rm -f %s; exit 0\n" % " ".join(os.path.join(w.d, "bin", x) for x in ("rustc", "fakec")))
                    if how == 1:
                        how = 0     # or the system's compiler would answer
                else:
                    name, script = plain_faults(rnd)
                    w.fault(q, script)
                place = f"{name}, {q}"
            elif k < .88:
                how = 2
                place = name = "cannot be started, version"
            else:
                name = rnd.choice(["missing", "empty", "no end of version", "no start of version", "empty version", "not UTF-8", "a directory"])
                place = "README " + name
                if os.path.isdir(w.readme):
                    pass
                elif name == "missing" or not os.path.exists(w.readme):
                    if os.path.exists(w.readme):
                        os.remove(w.readme)
                elif name == "a directory":
                    os.remove(w.readme)
                    os.mkdir(w.readme)
                else:
                    open(w.readme, "wb").write({"empty": b"", "no end of version": b"# x [1.86.0] y\n", "no start of version": b"# x 1.86.0]: y\n",
                                                "empty version": re.sub(rb"\[[^\[\]]*\]:", b"[]:", w.r0),
                                                "not UTF-8": w.r0 + b"\xff\n"}[name])
            done.append(place)
        before = w.snapshot()
        rc, se, q = w.run(how)
        after = w.snapshot()
        with lock:
            obs["queries answered"] += len(q)
            if nf == 0:
                obs["runs without fault"] += 1
            else:
                obs["faulted runs"] += 1
                for p in done:
                    kinds[p] = kinds.get(p, 0) + 1
                places.add(tuple(sorted(done)) + (len(names), how))
                if len(samples) < 6 and nf > 1:
                    samples.append("; ".join(done))
        case = f"run {i} of seed {ck.SEED}: {len(names)} targets, faults: {'; '.join(done)}\nstderr: {se[-800:]}\n"
        for p in sorted(os.listdir(w.fake)):
            if p.startswith("fault."):
                case += f"--- {p}\n{open(os.path.join(w.fake, p), errors='replace').read()[:800]}\n"
        if nf == 0:
            if rc:
                raise ck.NoAnswer(f"the tool fails without a fault: {se[-500:]}")
            return None
        if rc == 0:
            return "the tool reports success", case
        changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        if changed:
            return f"the tool fails with {rc}, but changed {changed}", case
        return None

    try:
        worst = None
        with ThreadPoolExecutor(ck.CORES) as p:
            for r in p.map(one, range(count)):
                if r and (worst is None or len(r[1]) < len(worst[1])):
                    worst = r
        if worst:
            raise ck.Violation(ck.replay("C22", "faults", f"{worst[0]}\n{worst[1]}\nreplay: VERIF_SEED={ck.SEED} python3 check.py C22 {tier}"))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if not obs["faulted runs"]:
        raise ck.NoAnswer("nothing observed")
    f = {"label": "faults", "evaluations": obs["faulted runs"], "distinct_nontrivial": len(places), "samples": samples, "observed": obs,
         "rule": "the real tool run against scripted compilers that fail at chosen queries, singly and several at once, or with an unusable README; "
         "exit status and a digest of every file of the crate before and after; distinct (faults, places, number of targets, way of finding the compiler)"}
    return [f], ["faults of rustfmt and of writing files are outside the property"], None
