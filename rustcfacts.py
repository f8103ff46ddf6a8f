"""What the installed rustc says about its targets, and C14."""
import json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor

import check as ck

KEYS = {"target_os": "os", "target_abi": "abi", "target_env": "env", "target_vendor": "vendor", "target_arch": "arch",
        "target_endian": "endian", "target_pointer_width": "pointer_width", "panic": "panic"}
TOOLCHAIN = "stable"


def rustc(*args, toolchain=TOOLCHAIN, timeout=120, **kw):
    e = ck.env()
    return subprocess.run(["rustc", f"+{toolchain}", *args], capture_output=True, text=True, timeout=timeout, env=e, **kw)


def target_list(toolchain=TOOLCHAIN):
    r = rustc("--print", "target-list", toolchain=toolchain)
    if r.returncode:
        raise ck.NoAnswer("rustc --print target-list: " + r.stderr)
    return r.stdout.split()


def cfg_of(t, toolchain=TOOLCHAIN):
    """Fields of a target in the form of the table: empty is absent, os none is absent"""
    r = rustc("--print", "cfg", "--target", t, toolchain=toolchain)
    if r.returncode:
        raise ck.NoAnswer(f"rustc --print cfg --target {t}: {r.stderr}")
    f = {"triple": t, "os": None, "abi": None, "env": None, "vendor": None, "families": [], "has_atomics": []}
    for l in r.stdout.splitlines():
        if "=" not in l:
            continue
        k, v = l.split("=", 1)
        v = v.strip('"')
        if k == "target_family":
            f["families"].append(v)
        elif k == "target_has_atomic":
            f["has_atomics"].append(v)
        elif k in KEYS:
            f[KEYS[k]] = v
    for k in ("abi", "env", "vendor"):
        f[k] = f[k] or None
    if f["os"] == "none":
        f["os"] = None
    f["pointer_width"] = int(f["pointer_width"])
    f["families"].sort()
    f["has_atomics"].sort()
    return f


def all_facts(triples, toolchain=TOOLCHAIN):
    with ThreadPoolExecutor(ck.CORES) as p:
        return {f["triple"]: f for f in p.map(lambda t: cfg_of(t, toolchain), triples)}


def table(binary):
    rc, out, err = ck.run([binary, "dump-table"], 60, env=ck.env(), cwd=ck.VERIF)
    if rc != 0:
        raise ck.NoAnswer("dump-table failed: " + err[-500:])
    lines = out.splitlines()
    version = lines[0].split(" ", 1)[1]
    rows = [json.loads(l) for l in lines[1:]]
    return version, rows


def norm(row):
    r = dict(row)
    r["families"] = sorted(r["families"])
    r["has_atomics"] = sorted(r["has_atomics"])
    return r


CONST_TYPES = ["Abi", "Arch", "Vendor", "Os", "Family", "Families", "Env", "HasAtomics", "Panic"]


def consts_in_source():
    """Names found in the sources, so that constants added later are checked too"""
    out = {t: set() for t in CONST_TYPES}
    for d, _, fs in os.walk(os.path.join(ck.REPO, "src")):
        for f in fs:
            if f.endswith(".rs"):
                src = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
                for name, ty in re.findall(r"pub\s+const\s+([A-Za-z_][A-Za-z0-9_]*)\s*:\s*(?:super::)?([A-Z][A-Za-z]*)\s*=", src):
                    if ty in out:
                        out[ty].add(name)
    return out


def const_values(wanted, where=None, dep=None):
    """Compile a program that prints each constant; drop those that do not
    exist. Returns {type: {name: value or list}} and the missing ones."""
    d = where or os.path.join(ck.target_dir(), "consts")
    dep = dep or ck.REPO
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    with open(os.path.join(d, "Cargo.toml"), "w") as w:
        w.write('[package]\nname = "consts"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
                f'[dependencies]\ncfg-expr = {{ path = {json.dumps(dep)} }}\n[profile.dev]\nopt-level = 0\ndebug = 0\n')
    shutil.copy(os.path.join(ck.VERIF, "data", "consts.lock"), os.path.join(d, "Cargo.lock"))
    wanted = {t: set(ns) for t, ns in wanted.items()}
    missing = []
    for _ in range(6):
        with open(os.path.join(d, "src", "main.rs"), "w") as w:
            w.write("use cfg_expr::targets::*;\n#[allow(non_upper_case_globals)]\nfn main() {\n")
            for t in sorted(wanted):
                for n in sorted(wanted[t]):
                    if t == "Families":
                        e = f"{t}::{n}.iter().map(|x| x.0.to_string()).collect::<Vec<_>>()"
                    elif t == "HasAtomics":
                        e = (f"{t}::{n}.iter().map(|x| match x {{ HasAtomic::IntegerSize(n) => n.to_string(), "
                             f"HasAtomic::Pointer => \"ptr\".into(), _ => \"?\".into() }}).collect::<Vec<String>>()")
                    else:
                        e = f"vec![{t}::{n}.0.to_string()]"
                    w.write(f'    println!("{t} {n} {{:?}}", {e});\n')
            w.write("}\n")
        e = ck.env(CARGO_TARGET_DIR=os.path.join(d, "target"))
        rc, out, err = ck.run(["cargo", "build", "--offline", "--message-format", "short"], 300, env=e, cwd=d)
        if rc == 0:
            break
        bad = set(re.findall(r"no associated (?:item|function or constant|function, method, or constant)[^`]*named `([A-Za-z0-9_]+)` found for (?:struct|type) `(?:cfg_expr::targets::)?([A-Za-z]+)`", err))
        if not bad:
            ck.log(err[-3000:])
            raise ck.NoAnswer("the program listing the constants does not build")
        for n, t in bad:
            wanted[t].discard(n)
            missing.append(f"{t}::{n}")
    rc, out, err = ck.run([os.path.join(d, "target", "debug", "consts")], 60)
    if rc != 0:
        raise ck.NoAnswer("the program listing the constants failed: " + err[-500:])
    vals = {t: {} for t in wanted}
    for l in out.splitlines():
        t, n, v = l.split(" ", 2)
        vals[t][n] = json.loads(v)
    return vals, missing


def spelled(t, n):
    """Whether value v is what constant n of type t spells"""
    def f(v):
        if t in ("Families", "HasAtomics"):
            want = n.removeprefix("atomic_") if t == "HasAtomics" else n
            if "_".join(x.replace("-", "_") for x in v) != want:
                return False
            return len(set(v)) == len(v)
        return len(v) == 1 and v[0].replace("-", "_") == n
    return f


def c14(tier):
    data = json.load(open(os.path.join(ck.VERIF, "data", "c14.json")))
    b = ck.build("release")
    version, rows = table(b)
    bad = []
    checked = 0
    listed = set(target_list())
    names = [r["triple"] for r in rows]
    if version != data["version"]:
        bad.append(f"the table names rustc {version}, it is that of {data['version']}")
    for t in sorted(set(data["triples"]) - set(names)):
        bad.append(f"target {t} of rustc {data['version']} is not in the table")
    for t in sorted(set(names) - set(data["triples"])):
        bad.append(f"target {t} is in the table but not among those of rustc {data['version']}")
    for t in sorted(set(n for n in names if names.count(n) > 1)):
        bad.append(f"target {t} is in the table more than once")
    toolchains = [TOOLCHAIN] + (["1.98.1", "nightly"] if tier == "thorough" else [])
    drifted = []
    frags = []
    for tc in toolchains:
        avail = set(target_list(tc))
        live = all_facts([n for n in sorted(set(names)) if n in avail], tc)
        samples = []
        n_ok = 0
        for row in rows:
            t = row["triple"]
            r = norm(row)
            if len(set(row["families"])) != len(row["families"]) or len(set(row["has_atomics"])) != len(row["has_atomics"]):
                bad.append(f"{t}: a set with repetitions")
            src = live.get(t) or data["gone"].get(t)
            if src is None:
                if t in data["triples"]:
                    raise ck.NoAnswer(f"nothing known about {t}")
                continue
            drift = data["drift"].get(t, {}) if t in live else {}
            for k in src:
                checked += 1
                if k in drift:
                    # What rustc said at the table's version, and says now
                    then, now = drift[k]
                    if src[k] != now:
                        if tc == TOOLCHAIN:
                            raise ck.NoAnswer(f"{t} {k}: rustc says {src[k]!r}, recorded {now!r}")
                        continue
                    if r[k] != then:
                        bad.append(f"{t}: {k} is {r[k]!r}, rustc {data['version']} says {then!r}")
                    drifted.append(f"{t} {k}")
                elif r[k] != src[k]:
                    if tc == TOOLCHAIN or (data["facts"].get(t, src)[k] == src[k]):
                        bad.append(f"{t}: {k} is {r[k]!r}, rustc says {src[k]!r}")
                else:
                    n_ok += 1
            if len(samples) < 4:
                samples.append(json.dumps(src))
        frags.append({"label": "table against rustc +" + tc, "evaluations": sum(len(x) for x in live.values()),
                      "distinct_nontrivial": n_ok, "rule": "every field of every table row compared with rustc --print cfg of "
                      "that triple; distinct (target, field) pairs that rustc confirmed, plus constants", "samples": samples,
                      "observed": {"targets": len(live), "targets rustc no longer has": len(set(data['gone']) & set(names)),
                                   "fields that changed since": len(set(drifted))}})
    wanted = {t: set(data["consts"].get(t, {})) | consts_in_source()[t] for t in CONST_TYPES}
    vals, missing = const_values(wanted)
    n = 0
    for t in vals:
        for name, v in vals[t].items():
            n += 1
            rec = data["consts"].get(t, {}).get(name)
            if rec is not None and v != rec:
                bad.append(f"{t}::{name} is {v}, expected {rec}")
            elif not spelled(t, name)(v):
                bad.append(f"{t}::{name} is {v}")
    frags.append({"label": "constants", "evaluations": n, "distinct_nontrivial": n, "rule": "", "samples": [],
                  "observed": {"constants": n, "missing": len(missing)}})
    if bad:
        raise ck.Violation(ck.replay("C14", "table", "\n".join(bad) + "\n\nreplay: python3 check.py C14 quick"))
    return frags, ["rustc " + rustc("--version").stdout.strip() + " and the ledger data/c14.json of what changed since the table's version"], None


def c18(tier):
    """Expressions judged by the library and by rustc for each target"""
    data = json.load(open(os.path.join(ck.VERIF, "data", "c14.json")))
    b = ck.build("release")
    base = os.path.join(ck.target_dir(), f"c18-{os.getpid()}")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    try:
        return c18_in(tier, data, b, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def c18_in(tier, data, b, d):
    live = set(target_list())
    triples = [t for t in data["triples"] if t in live and t not in data["drift"]]
    be = ck.env(RUSTC_BOOTSTRAP="1")

    def feats(t):
        r = subprocess.run(["rustc", f"+{TOOLCHAIN}", "--print", "cfg", "--target", t], capture_output=True, text=True, env=be, timeout=120)
        if r.returncode:
            raise ck.NoAnswer(r.stderr)
        return sorted(l.split('"')[1] for l in r.stdout.splitlines() if l.startswith("target_feature="))

    host = "x86_64-unknown-linux-gnu"
    with ThreadPoolExecutor(ck.CORES) as p:
        fs = dict(zip(triples, p.map(feats, triples)))
    rounds = 30 if tier == "thorough" else 1
    count = 3000
    total = {"expressions": 0, "holding": 0, "not holding": 0, "rejected by the library": 0, "targets": 0, "rustc runs": 0}
    distinct = set()
    samples = []
    for rnd in range(rounds):
        jobs = [(t, (i + rnd) % 2, 0) for i, t in enumerate(triples)]
        if host in triples:
            jobs.append((host, rnd % 2, 1))
        with open(os.path.join(d, "facts"), "w") as w:
            for t, dbg, pm in jobs:
                w.write(f"{t} {dbg} {pm} {','.join(fs[t])}\n")
        seed = ck.SEED * 1000 + rnd
        rc, out, err = ck.run([b, "c18-generate", "--dir", d, "--facts", os.path.join(d, "facts"), "--seed", str(seed),
                               "--count", str(count)], 300, env=ck.env(), cwd=ck.VERIF)
        if rc != 0:
            raise ck.NoAnswer("c18-generate: " + err[-500:])
        cfgs = [x for l in open(os.path.join(d, "cfgs"), encoding="utf-8").read().split("\n") if l for x in ("--cfg", l)]
        bad = []

        def one(j):
            n, (t, dbg, pm) = j
            src = os.path.join(d, f"{n}.rs")
            if not os.path.exists(src):
                return None     # a target the table no longer has
            cmd = ["rustc", f"+{TOOLCHAIN}", "-Zunpretty=expanded", "--cap-lints", "allow", "--edition", "2021",
                   "--crate-type", "proc-macro" if pm else "lib",
                   "--target", t, f"-Cdebug-assertions={'yes' if dbg else 'no'}", *cfgs, src]
            gated = set()
            for _ in range(5):
                r = subprocess.run(cmd, capture_output=True, env=be, timeout=300)
                se = r.stderr.decode("utf-8", "replace")
                if r.returncode == 0:
                    return n, t, r.stdout.decode("utf-8", "replace"), None, gated
                # Items that rustc gates are none of its syntax
                text = open(src, encoding="utf-8", newline="").read()
                starts = [(text.count("\n", 0, m.start()) + 1, m) for m in re.finditer(r"^#\[cfg\(", text, re.M)]
                errs = re.findall(r"^error(?:\[(E\d+)\])?: (.*)\n\s*--> [^\n]*?:(\d+):\d+", se, re.M)
                if not errs:
                    return n, t, "", ("", se[:2000]), gated
                cut = []
                for code, msg, line in errs:
                    i = max(k for k, (l, _) in enumerate(starts) if l <= int(line))
                    a = starts[i][1].start()
                    z = starts[i + 1][1].start() if i + 1 < len(starts) else len(text)
                    if code != "E0658":
                        return n, t, "", (text[a:z], msg), gated
                    cut.append((a, z))
                for a, z in sorted(set(cut), reverse=True):
                    gated.add(int(re.search(r"mod m(\d+) \{\}\s*$", text[a:z]).group(1)))
                    text = text[:a] + text[z:]
                open(src, "w", encoding="utf-8", newline="").write(text)
            return n, t, "", ("", "too many errors"), gated

        with ThreadPoolExecutor(ck.CORES) as p:
            results = list(p.map(one, enumerate(jobs)))
        for res in results:
            if res is None:
                continue
            n, t, out, error, gated = res
            total["targets"] = max(total["targets"], len(jobs))
            total["rustc runs"] += 1
            if error:
                if error[0]:
                    bad.append((len(error[0]), f"target {t}\nrustc rejects an accepted expression: {error[1]}\n{error[0]}"))
                    continue
                raise ck.NoAnswer(f"rustc fails for {t}: {error[1]}")
            alive = {int(m) for m in re.findall(r"\bmod m(\d+)\b", out)}
            for i, l in enumerate(open(os.path.join(d, f"{n}.want"), encoding="utf-8").read().split("\n")):
                if not l or i in gated:
                    continue
                v, text = l.split(" ", 1)
                if v == "-":
                    total["rejected by the library"] += 1
                    continue
                if v == "!":
                    bad.append((len(text), f"target {t}\nexpression {text}\nthe library panics"))
                    continue
                total["expressions"] += 1
                total["holding" if i in alive else "not holding"] += 1
                if len(distinct) < 3_000_000:
                    distinct.add(hash((t, text)))
                if len(samples) < 6 and i > 2000 and 30 < len(text) < 200:
                    samples.append(f"{t}: {text} is {i in alive}")
                if (v == "1") != (i in alive):
                    bad.append((len(text), f"target {t}\nexpression {text}\nthe library says {v == '1'}, rustc says {i in alive}\n"
                                f"--cfg arguments: {cfgs}"))
        if bad:
            bad.sort()
            raise ck.Violation(ck.replay("C18", "rustc", bad[0][1] + f"\n\n{len(bad)} disagreements; replay: put the expression on an item, "
                                         "#[cfg(<expression>)], and compile it with rustc for the target; python3 check.py C18 quick repeats all"))
    frag = {"label": "rustc", "evaluations": total["expressions"], "distinct_nontrivial": len(distinct),
            "rule": "items under #[cfg(E)] compiled by the installed rustc for every target without drift since the table's version: "
            "every value of every target_ key one by one, and random expressions over target, feature, flag and key-value predicates; "
            "which items survive is compared with eval against the built-in target; distinct (target, expression) pairs",
            "samples": samples, "observed": total}
    if not total["holding"] or not total["not holding"]:
        raise ck.NoAnswer("nothing observed")
    return [frag], [rustc("--version").stdout.strip(), "targets whose facts changed since the table's version are left out (data/c14.json)"], None
