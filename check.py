#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] - decide one property on /repo's tree.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Anything else: no answer (build failure, harness error, nothing observed).
"""
import hashlib, json, os, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(EVID, "replays")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CORES = max(2, min(8, os.cpu_count() or 8))


class NoAnswer(Exception):
    pass


class Violation(Exception):
    """str: path of the replay file"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building

def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "update"), os.path.join(REPO, ".cargo"), os.path.join(HARNESS, "src")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "Cargo.toml"), os.path.join(HARNESS, "Cargo.lock")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x != "target")
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0")
        try:
            h.update(open(f, "rb").read())
        except OSError:
            pass
        h.update(b"\0")
    return h.hexdigest()[:16]


_target = None


def target_dir():
    """One build directory per content of the sources, so that no stale
    artefact can stand in for the tree under test, whatever its time stamps."""
    global _target
    if _target is None:
        base = os.path.join(VERIF, "target")
        os.makedirs(base, exist_ok=True)
        _target = os.path.join(base, tree_hash())
        os.makedirs(_target, exist_ok=True)
        os.utime(_target)
        olds = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
        for o in olds[:-4]:
            shutil.rmtree(o, ignore_errors=True)
    return _target


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "CARGO_BUILD_TARGET", "RUSTC_BOOTSTRAP"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", VH_REPO=REPO, CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    e.update({k: str(v) for k, v in kw.items()})
    return e


def run(cmd, timeout, **kw):
    """subprocess.run in its own process group; the group is ended on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise NoAnswer(f"timeout after {timeout} s: {cmd}")
    return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def build(profile="release", features=(), bin="vh", toolchain=None, extra=(), sub=None, rustflags=None, target=None):
    t = target_dir() if sub is None else os.path.join(target_dir(), sub)
    cmd = ["cargo"] + ([f"+{toolchain}"] if toolchain else [])
    cmd += ["build", "--offline", "--locked", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--bin", bin]
    cmd += ["--profile", profile] + (["--features", ",".join(features)] if features else []) + list(extra)
    if target:
        cmd += ["--target", target]
    # Builds with and without features must not overwrite each other
    t = t + ("-" + "-".join(features) if features else "")
    e = env(CARGO_TARGET_DIR=t)
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    rc, out, err = run(cmd, 700, env=e, cwd=HARNESS)
    if rc != 0:
        log(err[-6000:])
        raise NoAnswer("the harness does not build against this tree")
    d = {"dev": "debug"}.get(profile, profile)
    p = os.path.join(t, target, d, bin) if target else os.path.join(t, d, bin)
    return p


# ------------------------------------------------------------------ running

def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))


def worker(binary, prop, tier, label, scale=100, seconds=600, extra=(), seed=None, timeout=800, rlimit=True, wenv=None, text=True):
    """Run one worker; returns its evidence fragment"""
    seed = SEED if seed is None else seed
    os.makedirs(REPLAYS, exist_ok=True)
    out = os.path.join(target_dir(), f"out-{prop}-{label}-{os.getpid()}.json")
    cmd = [binary, "run", prop, "--tier", tier, "--seed", str(seed), "--threads", str(CORES), "--out", out,
           "--replays", REPLAYS, "--label", label, "--scale", str(scale), "--seconds", str(seconds), *extra]
    kw = dict(env=wenv or env(), cwd=VERIF)
    if rlimit:
        kw["preexec_fn"] = limits
    rc, so, se = run(cmd, timeout, **kw)
    if se.strip():
        log(se[-4000:])
    if rc == 1:
        for line in so.splitlines():
            if line.startswith("VIOLATION property="):
                raise Violation(line.split("replay=", 1)[1])
        raise NoAnswer(f"worker exit 1 without a violation: {se[-500:]}")
    if rc < 0 or rc in (134, 139):
        if text:
            crash(binary, prop, tier, label, scale, seed, rc, kw, cmd)
        raise NoAnswer(f"worker died with {rc}")
    if rc != 0:
        raise NoAnswer(f"worker exit {rc}: {se[-500:]}")
    with open(out) as f:
        frag = json.load(f)
    os.remove(out)
    print_known(so)
    return frag


KNOWN = []


def print_known(so):
    for line in so.splitlines():
        if line.startswith("KNOWN-FINDING:") and line not in KNOWN:
            KNOWN.append(line)


def crash(binary, prop, tier, label, scale, seed, rc, kw, cmd):
    """The worker was ended by a signal. Repeat it writing down every input,
    then confirm the input alone in a fresh process."""
    if -rc == signal.SIGKILL:
        raise NoAnswer("worker was killed (memory?)")
    tr = os.path.join(target_dir(), f"trace-{prop}-{os.getpid()}")
    try:
        run(cmd + ["--trace", tr], 850, **kw)
    except NoAnswer:
        pass
    for i in range(CORES):
        f = f"{tr}.{i}"
        if not os.path.exists(f):
            continue
        r2, so, se = run([binary, "replay", prop, f, "--seed", str(seed)], 300, **kw)
        if r2 < 0 or r2 in (134, 139, 1):
            os.makedirs(REPLAYS, exist_ok=True)
            base = os.path.join(REPLAYS, f"{prop}-{label}-{seed}")
            shutil.copy(f, base + ".input")
            with open(base + ".txt", "w") as w:
                w.write(f"property {prop}\nseed {seed}\nbuild {label}\nviolation: the process died with status {rc} "
                        f"(replay alone: {r2})\n{se[-1500:]}\ninput in {base}.input\n"
                        f"replay: {binary} replay {prop} {base}.input --seed {seed}\n")
            log(open(base + ".txt").read())
            raise Violation(base + ".txt")
    raise NoAnswer(f"worker died with status {rc}, and no single input reproduces it")


def replay(prop, label, text):
    """Writes down a violation found outside the worker"""
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, f"{prop}-{label}-{SEED}.txt")
    with open(p, "w") as w:
        w.write(f"property {prop}\nseed {SEED}\n{text}\n")
    log(text[:4000])
    return p


# ------------------------------------------------------------------ evidence

def evidence(prop, tier, frags, t0, assumptions, extra=None, violations=0):
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
    for f in frags:
        cov["evaluations"] += f["evaluations"]
        # Distinct cases are counted per build; the same case on another
        # build is not another case
        cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], f["distinct_nontrivial"])
        cov["rule"] = cov["rule"] or f["rule"]
        if len(cov["samples"]) < 8:
            cov["samples"] += f["samples"][:8]
    cov["runs"] = [{k: v for k, v in f.items() if k not in ("rule", "samples")} for f in frags]
    if extra:
        cov.update(extra)
    e = {"property": prop, "tier": tier, "seed": SEED, "level": "exploration", "coverage": cov,
         "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{prop}.tmp")
    with open(tmp, "w") as w:
        json.dump(e, w, indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))


TEXT_PROPS = {
    # builds besides plain release, with the share of the random streams
    "C01": [("checked", 10)], "C02": [], "C03": [("checked", 10)], "C04": [("checked", 5)],
    "C05": [("checked", 5)], "C06": [], "C07": [("checked", 100)], "C09": [("checked", 5)],
    "C10": [("checked", 5)], "C11": [], "C12": [],
}


def text_prop(prop, tier):
    frags = []
    for profile, scale in [("release", 100)] + TEXT_PROPS[prop]:
        b = build(profile)
        frags.append(worker(b, prop, tier, profile, scale, seconds=(450 if profile == "release" else 200) if tier == "thorough" else 300,
                            timeout=800))
    return frags, ["the reference model of the cfg language in harness/src/model.rs",
                   "held on the executions observed, nothing is claimed beyond them"], None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    try:
        if prop in TEXT_PROPS:
            frags, assumptions, extra = text_prop(prop, tier)
        elif prop in ("C13", "C15", "C17"):
            frags = [worker(build(pr, features=fe), prop, tier, name, text=False, seconds=250 if tier == "thorough" else 150)
                     for name, pr, fe in (("release", "release", ()), ("checked", "checked", ()), ("lexicon", "release", ("lexicon",)))]
            assumptions, extra = ["held on the executions observed, nothing is claimed beyond them"], None
        elif prop == "C16":
            frags = [worker(build(features=("lexicon",)), prop, tier, "lexicon", text=False,
                            extra=("--known", os.path.join(VERIF, "known-findings.txt")))]
            assumptions, extra = ["the built-in descriptions, which C14 compares with rustc"], None
        elif prop == "C14":
            import rustcfacts
            frags, assumptions, extra = rustcfacts.c14(tier)
        elif prop == "C18":
            import rustcfacts
            frags, assumptions, extra = rustcfacts.c18(tier)
        elif prop in ("C08", "C19", "C20"):
            import sanitize
            frags, assumptions, extra = getattr(sanitize, prop.lower())(tier)
        elif prop in ("C21", "C22"):
            import updatetool
            frags, assumptions, extra = getattr(updatetool, prop.lower())(tier)
        elif prop == "C23":
            import cost
            frags, assumptions, extra = cost.c23(tier)
        else:
            raise NoAnswer(f"unknown property {prop}")
        for k in KNOWN:
            print(k)
        evidence(prop, tier, frags, t0, assumptions, extra)
        n = sum(f["evaluations"] for f in frags)
        print(f"{prop}: held on {n} executions, {max(f['distinct_nontrivial'] for f in frags)} distinct and "
              f"non-trivial, {time.time() - t0:.1f} s")
        return 0
    except Violation as v:
        for k in KNOWN:
            print(k)
        evidence(prop, tier, [{"evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped at the violation",
                               "samples": [str(v)], "label": "violation"}], t0, [], None, 1)
        print(f"VIOLATION property={prop} replay={v}")
        return 1
    except NoAnswer as n:
        log(f"{prop}: no answer: {n}")
        return 2


if __name__ == "__main__":
    # One copy of this module, shared with the modules that import it
    sys.path.insert(0, VERIF)
    import check
    sys.exit(check.main())
