"""Checks under sanitizers and the Miri interpreter: C08, and the data-race
half of C19."""
import os, re, shutil, subprocess, time
import json
from concurrent.futures import ThreadPoolExecutor
import check as ck

HOST = "x86_64-unknown-linux-gnu"
UB = re.compile(r"error: Undefined Behavior|error: memory leaked|ERROR: AddressSanitizer|ERROR: LeakSanitizer|WARNING: MemorySanitizer|"
                r"unsafe precondition|error: the evaluated program (?:leaked|aborted|deadlocked)|Data race detected|WARNING: ThreadSanitizer|"
                r"definitely lost: [1-9]|ERROR SUMMARY: [1-9]|^UNSOUND", re.M)


def corpus(b, out, count, max=1000, every=8, small=False, seed=None, long=False):
    cmd = [b, "corpus", "--out", out, "--count", str(count), "--max", str(max), "--every", str(every), "--seed", str(ck.SEED if seed is None else seed)]
    rc, so, se = ck.run(cmd + (["--small"] if small else []) + (["--long"] if long else []), 120, env=ck.env(), cwd=ck.VERIF)
    if rc:
        raise ck.NoAnswer("corpus: " + se[-500:])
    return int(so)


def text_at(path, i):
    b = open(path, "rb").read()
    at = 0
    k = 0
    while at < len(b):
        nl = b.index(b"\n", at)
        n = int(b[at:nl])
        if k == i:
            return b[nl + 1:nl + 1 + n].decode("utf-8", "replace")
        at = nl + 2 + n
        k += 1
    return None


def split(path, n, limit=None):
    """Deal the texts of a corpus to n files"""
    b = open(path, "rb").read()
    outs = [open(f"{path}.{i}", "wb") for i in range(n)]
    at = k = 0
    while at < len(b) and (limit is None or k < limit):
        nl = b.index(b"\n", at)
        end = nl + 2 + int(b[at:nl])
        outs[k % n].write(b[at:end])
        at = end
        k += 1
    for o in outs:
        o.close()
    return [o.name for o in outs]


def parts(cmd, n, corpus_path, env, timeout, label, prop, accept=(0,)):
    """Run n parts of a workload at once; returns what they reported"""
    ps = []
    d = os.path.join(ck.target_dir(), f"{prop}-{label}-{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    for i in range(n):
        so, se = open(os.path.join(d, f"{i}.out"), "wb"), open(os.path.join(d, f"{i}.err"), "wb")
        mine = ["--part", str(i), "--parts", str(n), "--corpus", corpus_path] if isinstance(corpus_path, str) else ["--corpus", corpus_path[i]]
        ps.append(subprocess.Popen(cmd + mine, stdout=so, stderr=se, env=env, cwd=ck.HARNESS,
                                   start_new_session=True))
    end = time.time() + timeout
    late = False
    for p in ps:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            late = True
            os.killpg(p.pid, 9)
            p.wait()
    tot = {"texts": 0, "distinct": 0, "accepted": 0, "bytes": 0, "longest": 0, "targets": 0}
    for i, p in enumerate(ps):
        so = open(os.path.join(d, f"{i}.out"), errors="replace").read()
        se = open(os.path.join(d, f"{i}.err"), errors="replace").read()
        m = re.search(r"^mem texts=(\d+) distinct=(\d+) accepted=(\d+) bytes=(\d+) longest=(\d+) targets=(\d+)$", so, re.M)
        if UB.search(se) or UB.search(so) or p.returncode in (-11, -6, -7, -4, 134, 139):
            at = re.findall(r"^@(\d+)$", se, re.M)
            t = text_at(corpus_path if isinstance(corpus_path, str) else corpus_path[i], int(at[-1])) if at else None
            err = re.sub(r"^@\d+\n", "", se, flags=re.M)
            k = UB.search(err)
            err = err[k.start():] if k else err[-6000:]
            raise ck.Violation(ck.replay(prop, label, f"tool {label}\nwhile at text {json.dumps(t, ensure_ascii=False)}\n{so[-500:]}\n{err[:6000]}\n\n"
                                         f"status {p.returncode}; replay: VERIF_SEED={ck.SEED} python3 check.py {prop} quick"))
        if p.returncode not in accept or not m:
            if late and p.returncode == -9:
                raise ck.NoAnswer(f"{label}: timeout after {timeout} s")
            ck.log(se[-3000:])
            raise ck.NoAnswer(f"{label}: exit {p.returncode} without a report")
        for k, v in zip(tot, m.groups()):
            tot[k] = max(tot[k], int(v)) if k == "longest" else tot[k] + int(v)
    shutil.rmtree(d, ignore_errors=True)
    return tot


def frag(label, tot, rule, samples=()):
    return {"label": label, "evaluations": tot["texts"] + tot["targets"], "distinct_nontrivial": tot["distinct"], "rule": rule,
            "samples": list(samples), "observed": tot}


def miri(cp, seconds, label, flags, features=(), prop="C08"):
    e = ck.env(CARGO_TARGET_DIR=os.path.join(ck.target_dir(), "miri"), MIRIFLAGS="-Zmiri-disable-isolation " + flags, RUSTFLAGS="")
    e.pop("RUSTFLAGS")
    base = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--manifest-path", os.path.join(ck.HARNESS, "Cargo.toml")]
    if features:
        base += ["--features", ",".join(features)]
    # Once alone, so that the sysroot and the build are there; text 0 only
    per = 3 * seconds + 1000
    files = split(cp, ck.CORES, per * ck.CORES)
    open(cp + ".none", "w").close()
    rc, so, se = ck.run(base + ["--", "mem", "--lite", "--corpus", cp + ".none", "--targets", "0"], 400, env=e, cwd=ck.HARNESS)
    if rc and not UB.search(se):
        ck.log(se[-3000:])
        raise ck.NoAnswer("miri does not run")
    return parts(base + ["--", "mem", "--lite", "--targets", "1", "--millis", str(seconds * 1000), "--seed", str(ck.SEED)],
                 ck.CORES, files, e, seconds + 240, label, prop)


def c08(tier):
    th = tier == "thorough"
    b = ck.build("release")
    d = os.path.join(ck.target_dir(), f"c08-{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    frags = []
    rule = ("texts of every kind and made-up targets through every public operation, with heap-allocated values, panicking and "
            "re-entrant closures, clones and drops in several orders and threads; watched by the named tool; distinct texts")
    try:
        big = os.path.join(d, "big")
        n = corpus(b, big, 400_000 if th else 100_000, 8000 if th else 1100, 8)
        samples = [text_at(big, i) for i in range(3, 3000, 500)]
        samples = [s for s in samples if s and len(s) < 200]
        # AddressSanitizer and LeakSanitizer, with overflow checks, debug
        # assertions and the checked preconditions of unsafe std functions
        a = ck.build("checked", ("lexicon",), toolchain="nightly", sub="asan", rustflags="-Zsanitizer=address", target=HOST)
        e = ck.env(ASAN_OPTIONS="exitcode=77:detect_leaks=1:detect_stack_use_after_return=1", LSAN_OPTIONS="exitcode=78")
        cmd = [a, "mem", "--targets", "10000" if th else "2000", "--seed", str(ck.SEED), "--millis", "160000"]
        try:
            tot = parts(cmd, ck.CORES, big, e, 800, "asan", "C08")
        except ck.NoAnswer as x:
            # A sandbox that forbids LeakSanitizer to stop its own threads
            ck.log(f"without leak detection: {x}")
            e["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=0:detect_stack_use_after_return=1"
            tot = parts(cmd, ck.CORES, big, e, 800, "asan", "C08")
        frags.append(frag("AddressSanitizer, LeakSanitizer", tot, rule, samples))
        small = os.path.join(d, "small")
        corpus(b, small, 30_000, small=True)
        frags.append(frag("Miri, stacked borrows", miri(small, 110 if th else 100, "miri", ""), rule))
        if th:
            small2 = os.path.join(d, "small2")
            corpus(b, small2, 30_000, small=True, seed=ck.SEED + 1000)
            frags.append(frag("Miri, tree borrows, targets feature", miri(small2, 80, "miri-tree", "-Zmiri-tree-borrows", ("lexicon",)), rule))
            mid = os.path.join(d, "mid")
            corpus(b, mid, 100_000, 2000, 8)
            m = ck.build("release", ("lexicon",), toolchain="nightly", sub="msan", target=HOST, extra=("-Zbuild-std",),
                         rustflags="-Zsanitizer=memory -Zsanitizer-memory-track-origins")
            frags.append(frag("MemorySanitizer", parts([m, "mem", "--targets", "2000", "--millis", "70000", "--seed", str(ck.SEED)], ck.CORES, mid,
                                                       ck.env(MSAN_OPTIONS="exitcode=79"), 800, "msan", "C08"), rule))
            v = ["valgrind", "-q", "--error-exitcode=80", "--leak-check=full", "--errors-for-leak-kinds=definite", "--num-callers=30"]
            frags.append(frag("valgrind memcheck", parts(v + [ck.build("release", ("lexicon",)), "mem", "--targets", "200", "--millis", "70000",
                                                              "--seed", str(ck.SEED)], ck.CORES, mid, ck.env(), 900, "memcheck", "C08"), rule))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return frags, ["rustc nightly's Miri and sanitizers; the standard library outside generic code is not instrumented by AddressSanitizer"], None


PROBE = '''use cfg_expr::{expr::*, targets::*, *};
fn ok<T: Send + Sync>() {}
pub fn probe() {
    ok::<%s>();
}
'''
SHARED = ["Expression", "ParseError", "error::Reason", "Predicate<'static>", "TargetPredicate", "TargetInfo", "Families", "HasAtomics",
          "HasAtomic", "Endian", "Triple", "Os", "Arch", "Env", "Vendor", "Abi", "Family", "Panic", "lexer::Lexer<'static>",
          "lexer::Token<'static>", "lexer::LexerToken<'static>"]


def send_sync():
    """Compile a program per type that needs it to be Send and Sync"""
    d = os.path.join(ck.target_dir(), f"probe-{os.getpid()}")
    t = os.path.join(ck.target_dir(), "probe-target")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    with open(os.path.join(d, "Cargo.toml"), "w") as w:
        w.write('[package]\nname = "consts"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
                f'[dependencies]\ncfg-expr = {{ path = {json.dumps(ck.REPO)} }}\n')
    shutil.copy(os.path.join(ck.VERIF, "data", "consts.lock"), os.path.join(d, "Cargo.lock"))
    n = 0
    try:
        for ty in SHARED:
            open(os.path.join(d, "src", "lib.rs"), "w").write(PROBE % ty)
            e = ck.env(CARGO_TARGET_DIR=t)
            rc, so, se = ck.run(["cargo", "check", "--offline", "--message-format", "short"], 300, env=e, cwd=d)
            if rc == 0:
                n += 1
            elif re.search(r"E0277.*cannot be (sent|shared) between threads", se):
                raise ck.Violation(ck.replay("C19", "send-sync", f"{ty} cannot be sent to or shared with another thread\n\n{PROBE % ty}\n{se[-1500:]}"))
            else:
                ck.log(se[-1500:])
                raise ck.NoAnswer(f"the program that shares {ty} does not build")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return n


def c19(tier):
    th = tier == "thorough"
    frags = []
    shared = send_sync()
    for profile, scale in (("release", 100), ("checked", 30)):
        frags.append(ck.worker(ck.build(profile), "C19", tier, profile, scale, text=False))
    t = ck.build("release", toolchain="nightly", sub="tsan", target=HOST, extra=("-Zbuild-std",), rustflags="-Zsanitizer=thread")
    e = ck.env(TSAN_OPTIONS="exitcode=66:halt_on_error=1")
    d = os.path.join(ck.target_dir(), f"c19-{os.getpid()}")
    for k in range(3 if th else 1):
        out = d + ".json"
        seed = ck.SEED + 100 * k
        cmd = [t, "run", "C19", "--light", "--tier", tier, "--seed", str(seed), "--threads", str(ck.CORES), "--out", out,
               "--replays", ck.REPLAYS, "--label", "tsan"]
        rc, so, se = ck.run(cmd, 800, env=e, cwd=ck.VERIF)
        if rc and "unexpected memory mapping" in se:
            rc, so, se = ck.run(["setarch", "-R"] + cmd, 800, env=e, cwd=ck.VERIF)
        if UB.search(se):
            raise ck.Violation(ck.replay("C19", "tsan", f"{se[UB.search(se).start():][:6000]}\n\nreplay: {' '.join(cmd)}"))
        m = re.search(r"VIOLATION property=C19 replay=(.*)", so)
        if m:
            raise ck.Violation(m.group(1))
        if rc:
            ck.log(se[-2000:])
            raise ck.NoAnswer(f"tsan: exit {rc}")
        f = json.load(open(out))
        f["label"] = f"ThreadSanitizer {k}"
        frags.append(f)
        os.remove(out)
    frags.append(worlds(tier))
    if th:
        small = d + ".corpus"
        corpus(ck.build("release"), small, 20_000, small=True)
        for k in range(2):
            frags.append(frag(f"Miri, data races, {k}", miri(small, 50, f"miri{k}", f"-Zmiri-seed={k} -Zmiri-preemption-rate=0.05", prop="C19"), ""))
        os.remove(small)
    return frags, ["ThreadSanitizer sees the races of the interleavings that ran"], {"types shown to be Send and Sync": shared}


# What a process can be told about the world around it; results must not notice
WORLDS = [("as it is", "-", {}, {}), ("another run of it", "-", {}, {})] + [
    (f"every environment variable is {a!r}", "env=" + (a or "-"), {}, {})
    for a in ("1", "0", "", "true", "debug", "full", "windows", "x86_64-pc-windows-msvc", "/nowhere", "\xff", "18446744073709551615")] + [
    ("a build script's environment", "-", dict(
        CARGO_CFG_TARGET_OS="windows", CARGO_CFG_UNIX="", CARGO_CFG_TARGET_ARCH="arm", CARGO_CFG_TARGET_POINTER_WIDTH="16", TARGET="thumbv6m-none-eabi",
        CARGO_CFG_TARGET_ENDIAN="big", HOST="aarch64-apple-darwin", PROFILE="debug", DEBUG="true", OPT_LEVEL="0", CARGO_FEATURE_STD="1", OUT_DIR="/nowhere",
        CARGO_MANIFEST_DIR="/", RUSTC="/nowhere", RUST_LOG="trace", CFG_EXPR_STRICT="1", RUSTFLAGS="--cfg foo"), {}),
    ("a Turkish locale", "-", dict(LANG="tr_TR.UTF-8", LC_ALL="tr_TR.UTF-8", LANGUAGE="tr", TZ="Asia/Kathmandu", COLUMNS="10", TERM="dumb"), {}),
    ("1970", "clock=zero", {}, {}), ("2150", "clock=far", {}, {}), ("a clock that leaps", "clock=jump", {}, {}), ("a clock that runs back", "clock=back", {}, {}),
    ("files that cannot be opened", "file", {}, {}), ("random bytes 0", "random=0", {}, {}), ("random bytes 255", "random=255", {}, {}),
    ("another process, processor and host", "id", {}, {}), ("another directory and no input", "-", {}, dict(cwd="/", stdin=subprocess.DEVNULL)),
    ("memory filled on use", "-", dict(MALLOC_PERTURB_="165", MALLOC_ARENA_MAX="1"), {}),
    ("memory filled and mapped", "-", dict(MALLOC_PERTURB_="90", MALLOC_MMAP_THRESHOLD_="64", MALLOC_TOP_PAD_="0"), {}),
]


def worlds(tier):
    """The same questions in processes that differ in nothing but the world around them"""
    b = ck.build("release")
    d = os.path.join(ck.target_dir(), f"c19-world-{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    try:
        so = os.path.join(d, "world.so")
        rc, _, se = ck.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(ck.VERIF, "data", "world.c"), "-ldl"], 60, env=ck.env())
        if rc:
            ck.log(se)
            raise ck.NoAnswer("the shim does not build")
        cp, out = os.path.join(d, "corpus"), os.path.join(d, "digest")
        n = corpus(b, cp, 80_000 if tier == "thorough" else 25_000, 1500, 40)
        ref, seen, asked = None, set(), [0] * 5
        one = f"{min(os.sched_getaffinity(0))}"
        all_ = WORLDS + [("one processor", "-", {}, dict(pre=["taskset", "-c", one])), ("addresses that do not vary", "-", {}, dict(pre=["setarch", "-R"]))]
        for name, conf, env, how in all_:
            how = dict(how)
            cmd = how.pop("pre", []) + [b, "digest", "--corpus", cp, "--seed", str(ck.SEED), "--threads", str(ck.CORES), "--out", out]
            e = ck.env(LD_PRELOAD=so, WORLD=conf, **env)
            rc, _, se = ck.run(cmd, 300, env=e, **{"cwd": ck.VERIF, **how})
            m = re.search(r"WORLD asked (\d+) (\d+) (\d+) (\d+) (\d+)", se)
            if not m and cmd[0] == "setarch":
                continue  # a sandbox that does not allow it
            if rc == 0 and not m:
                raise ck.NoAnswer("the shim was not loaded: " + se[-300:])
            replay = f"replay: VERIF_SEED={ck.SEED} python3 check.py C19 quick; the world was: {name} ({conf} {env})"
            if rc:
                if ref is None:
                    raise ck.NoAnswer(f"the digest of the unchanged world: exit {rc} {se[-300:]}")
                raise ck.Violation(ck.replay("C19", "world", f"the process dies with status {rc} in another world\n{se[-1500:]}\n{replay}"))
            asked = [a + int(x) for a, x in zip(asked, m.groups())]
            got = open(out).read().split()
            seen.update(got)
            if ref is None:
                ref = got
            bad = [i for i in range(max(len(ref), len(got))) if ref[i:i + 1] != got[i:i + 1]]
            if bad:
                t = [text_at(cp, i) for i in bad[:300] if i < n]
                t = min((x for x in t if x is not None), key=len, default="a lookup or match")
                raise ck.Violation(ck.replay("C19", "world", f"{len(bad)} results change with the world around the process: {name}\namong them for: {t[:2000]}\n{replay}"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"label": "worlds", "evaluations": len(all_) * len(ref), "distinct_nontrivial": len(seen), "samples": [w[0] for w in all_[2:8]],
            "rule": "complete traces of the same texts, lookups and matches in processes whose environment, clock, random source, files, processor, "
            "addresses and memory contents differ; distinct traces",
            "observed": {"worlds": len(all_), "texts": n, "questions to the environment, clock, files, random source, system": asked}}


# The build configurations whose results must be the same
BUILDS = [("release", ()), ("dev", ()), ("checked", ()), ("o3", ()), ("small", ()), ("release", ("lexicon",)), ("dev", ("lexicon",))]


# Machines of another word size and byte order, interpreted by Miri
MACHINES = ["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"]


def machines(tier, d):
    """Complete traces of texts on interpreted machines, compared with this one's"""
    b = ck.build("release")
    cp, out = os.path.join(d, "small"), os.path.join(d, "ref")
    each = max(1, ck.CORES // len(MACHINES))
    seconds = 150 if tier == "thorough" else 45
    corpus(b, cp, each * (4 * seconds + 200), small=True, long=True)
    files = split(cp, each)
    open(cp + ".none", "w").close()
    ref = []
    for f in files:
        rc, _, se = ck.run([b, "digest-some", "--corpus", f, "--seed", str(ck.SEED), "--millis", "600000", "--out", out], 600, env=ck.env(), cwd=ck.VERIF)
        if rc:
            raise ck.NoAnswer(f"digest: exit {rc} {se[-500:]}")
        ref.append([l.split()[1] for l in open(out)])
    jobs = []
    for m in MACHINES:
        e = ck.env(CARGO_TARGET_DIR=os.path.join(ck.target_dir(), "miri-" + m), MIRIFLAGS="-Zmiri-disable-isolation")
        base = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--manifest-path", os.path.join(ck.HARNESS, "Cargo.toml"),
                "--target", m, "--", "digest-some", "--seed", str(ck.SEED)]
        # Once alone, so that the sysroot and the build are there
        rc, _, se = ck.run(base + ["--corpus", cp + ".none", "--out", out + ".none"], 400, env=e, cwd=ck.HARNESS)
        if rc:
            ck.log(se[-3000:])
            raise ck.NoAnswer(f"miri does not run for {m}")
        for k in range(each):
            o = f"{out}.{m}.{k}"
            jobs.append((m, k, o, base + ["--millis", str(1000 * seconds), "--corpus", files[k], "--out", o], e))
    done = {m: 0 for m in MACHINES}
    seen = set()
    with ThreadPoolExecutor(len(jobs)) as ex:
        rs = list(ex.map(lambda j: ck.run(j[3], seconds + 300, env=j[4], cwd=ck.HARNESS), jobs))
    for (m, k, o, cmd, _), (rc, _, se) in zip(jobs, rs):
        if rc:
            if UB.search(se) or "panicked at" in se or "abnormal termination" in se:
                raise ck.Violation(ck.replay("C20", m, f"a machine like {m} stops where this one does not\n{se[-3000:]}\nreplay: {' '.join(cmd)}"))
            ck.log(se[-2000:])
            raise ck.NoAnswer(f"miri for {m}: exit {rc}")
        for l in open(o).read().splitlines():
            i, h = l.split()
            done[m] += 1
            seen.add(h)
            if ref[k][int(i)] != h:
                raise ck.Violation(ck.replay("C20", m, f"a machine like {m} gives another result for\n{text_at(files[k], int(i))}\nreplay: {' '.join(cmd)}"))
    return {"label": "machines", "evaluations": sum(done.values()), "distinct_nontrivial": len(seen),
            "samples": [s for s in (text_at(cp, i) for i in range(2, 400, 97)) if s],
            "rule": "complete traces of texts on interpreted machines with 32-bit words and with big-endian words, compared with those of the "
            "release build here; distinct traces", "observed": {f"texts on {m}": k for m, k in done.items()}}


def c20(tier):
    th = tier == "thorough"
    d = os.path.join(ck.target_dir(), f"c20-{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    rounds = 2 if th else 1
    count = 300_000 if th else 120_000
    obs = {"texts": 0, "builds": len(BUILDS), "differences": 0}
    samples = []
    seen = set()
    try:
        bins = [(p, f, ck.build(p, f)) for p, f in BUILDS]
        other = machines(tier, d)
        for k in range(rounds):
            seed = ck.SEED + 1000 * k
            cp = os.path.join(d, "corpus")
            n = corpus(bins[0][2], cp, count, 70_000, 8 if th else 16, seed=seed)
            samples = samples or [s for s in (text_at(cp, i) for i in range(2, 3000, 701)) if len(s) < 200]
            ref = None
            for p, f, b in bins:
                out = os.path.join(d, "digest")
                cmd = [b, "digest", "--corpus", cp, "--seed", str(seed), "--threads", str(ck.CORES), "--out", out]
                rc, so, se = ck.run(cmd, 600, env=ck.env(), cwd=ck.VERIF)
                name = p + ("+" + f[0] if f else "")
                if rc < 0 or rc in (134, 139):
                    if ref is None:
                        raise ck.NoAnswer(f"the reference build dies with {rc}")
                    raise ck.Violation(ck.replay("C20", name, f"the {name} build dies with status {rc} on texts the release build survives\n{se[-2000:]}\n"
                                                 f"replay: VERIF_SEED={ck.SEED} python3 check.py C20 quick"))
                if rc:
                    raise ck.NoAnswer(f"{name}: exit {rc} {se[-500:]}")
                got = open(out).read().split()
                if ref is None:
                    ref = got
                    seen.update(got)
                    obs["texts"] += n
                    continue
                bad = [i for i in range(max(len(ref), len(got))) if i >= len(ref) or i >= len(got) or ref[i] != got[i]]
                if bad:
                    best = min(bad[:4000], key=lambda i: len(text_at(cp, i) or "") if len(bad) < 200 else i)
                    tr = [ck.run([x, "trace", "--corpus", cp, "--seed", str(seed), "--index", str(best)], 100, env=ck.env(), cwd=ck.VERIF)[1] for x in (bins[0][2], b)]
                    raise ck.Violation(ck.replay("C20", name, f"{len(bad)} results differ between the release and the {name} build, among them\n"
                                                 f"--- release\n{tr[0][:3000]}\n--- {name}\n{tr[1][:3000]}\n"
                                                 f"replay: VERIF_SEED={ck.SEED} python3 check.py C20 quick"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    f = {"label": "builds", "evaluations": obs["texts"] * len(BUILDS), "distinct_nontrivial": len(seen), "samples": samples,
         "rule": "texts of every kind, extreme sizes and made-up targets, each through every operation on every build; the complete traces "
         "(tokens, errors, predicates, evaluations, lookups, matches, renderings) compared; distinct traces",
         "observed": {**obs, "configurations": ", ".join(p + ("+" + x[0] if x else "") for p, x in BUILDS)}}
    return [f, other], ["the rustc installed here; other machines only as Miri interprets them"], None
