#!/usr/bin/env python3
"""seedtool.py make|check [id...]  - develop the planted bugs under /verif/seeded.

make:  from SPECS (tools/seedspecs*.py) write seeded/<id>/, after confirming in
       a scratch copy of /repo that the change compiles, passes the existing
       tests, and that the demonstration passes without and fails with it.
check: apply each patch to a copy of /repo and run the property's quick check
       (VH_REPO=copy), report whether it was caught.
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, time
V = "/verif"
SC = "/tmp/scratch/seed"

DEMO = '''#!/bin/bash
# Run with cwd at the repository: exit 0 if the behaviour is right.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/cfgdemo.XXXXXX) || exit 3
trap 'rm -rf -- "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
cfg-expr = {{ path = "$repo"{feat} }}
{extradep}
[profile.dev]
debug = 0
[workspace]
EOF
export CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true
cd "$w" || exit 3
{run}
'''
RUN = 'timeout 280 cargo run -q --offline{release} 2>"$w/err"\nrc=$?\ntail -n 20 "$w/err" >&2\nexit $rc'


def specs():
    out = {}
    for f in sorted(glob.glob(V + "/tools/seedspecs*.py")):
        s = importlib.util.spec_from_file_location("x", f)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        for b in m.SPECS:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def fresh(d):
    os.makedirs(d, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "/repo/", d + "/"], check=True)
    for r in ("src", "update/src", "tests"):
        for dd, _, ff in os.walk(os.path.join(d, r)):
            for f in ff:
                os.utime(os.path.join(dd, f))


def tests_pass(d, td):
    e = dict(os.environ, CARGO_TARGET_DIR=td, CARGO_NET_OFFLINE="true")
    for extra in ([], ["--all-features"]):
        r = subprocess.run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "-q"] + extra, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
        if r.returncode:
            return False, r.stdout[-3000:]
    r = subprocess.run(["cargo", "build", "--manifest-path", "update/Cargo.toml", "--offline", "-q"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout[-3000:]


def make(b):
    d = SC + "/w/repo"
    fresh(d)
    for f, old, new in b["edits"]:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "edit matches %d times: %r" % (s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True, check=True).stdout
    ok, o = tests_pass(d, SC + "/w/target")
    if not ok:
        return "tests fail with the change:\n" + o
    dd = SC + "/stage/" + b["id"]
    shutil.rmtree(dd, ignore_errors=True)
    os.makedirs(dd)
    if "demo_sh" in b:
        open(dd + "/demo.sh", "w").write(b["demo_sh"])
    else:
        feat = ', features = ["targets"]' if b.get("lexicon") else ""
        run = b.get("run") or RUN.format(release=" --release" if b.get("release") else "")
        open(dd + "/demo.sh", "w").write(DEMO.format(feat=feat, extradep=b.get("dep", ""), run=run))
        open(dd + "/main.rs", "w").write(b["main"].lstrip("\n"))
    for n, t in b.get("files", {}).items():
        open(os.path.join(dd, n), "w").write(t)
    os.chmod(dd + "/demo.sh", 0o755)
    r1 = subprocess.run(["bash", dd + "/demo.sh"], cwd=d, capture_output=True, text=True, timeout=320)
    fresh(d)
    t = time.time()
    r0 = subprocess.run(["bash", dd + "/demo.sh"], cwd=d, capture_output=True, text=True, timeout=320)
    t = time.time() - t
    if r0.returncode != 0:
        return "demo fails on the clean tree: " + r0.stdout[-500:] + r0.stderr[-1500:]
    if r1.returncode == 0:
        return "demo passes with the change: " + r1.stdout[-500:] + r1.stderr[-500:]
    if "error: could not compile" in r1.stderr or "error[E" in r1.stderr:
        return "demo does not compile with the change: " + r1.stderr
    open(dd + "/patch.diff", "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dd + "/meta.json", "w"), indent=1)
    a = subprocess.run(["git", "apply", "--check", dd + "/patch.diff"], cwd=d, capture_output=True, text=True)
    if a.returncode:
        return "patch does not apply: " + a.stderr
    dest = V + "/seeded/" + b["id"]
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree(dd, dest)
    return "ok (demo %.0f s; with the change: rc %d %s)" % (t, r1.returncode, (r1.stderr.strip().splitlines() or [""])[-1][:150])


def check(i, props=None, worker=0, tier="quick", patch=None, seed=1):
    """run checks on a patched copy bound over /repo (and a copy of /verif
    over /verif) in a mount namespace of its own"""
    base = SC + "/c%d" % worker
    d, v = base + "/repo", base + "/verif"
    fresh(d)
    os.makedirs(v, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "/target", "--exclude", "/seeded", "--exclude", "/evidence", V + "/", v + "/"], check=True)
    os.makedirs(v + "/evidence", exist_ok=True)
    if patch is None:
        m = json.load(open(V + "/seeded/%s/meta.json" % i))
        patch = V + "/seeded/%s/patch.diff" % i
    else:
        m = {"property": props[0]}
    if patch:
        subprocess.run(["git", "apply", patch], cwd=d, check=True)
    res = {}
    for p in props or [m["property"]]:
        t = time.time()
        try:
            r = subprocess.run(["unshare", "-m", "--propagation", "private", "bash", "-c", "mount --bind %s /repo && mount --bind %s /verif && cd /verif && exec timeout -k 5 900 python3 check.py %s %s" % (d, v, p, tier)],
                               env=dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier), capture_output=True, text=True)
            o = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % p)]
            res[p] = ("CAUGHT" if r.returncode == 1 and o else "quiet" if r.returncode == 0 and "VIOLATION" not in r.stdout else "rc%d" % r.returncode, round(time.time() - t), (o or [l for l in (r.stdout + r.stderr).strip().splitlines()][-2:]))
        except Exception as e:
            res[p] = ("ERR", 0, [repr(e)])
    return m["property"], res


def pool(jobs, workers=2):
    """jobs: (id, props); yields results"""
    import concurrent.futures as cf, queue
    q = queue.Queue()
    for w in range(workers):
        q.put(w + int(os.environ.get("SEED_WORKER", "0")))

    def one(j):
        w = q.get()
        try:
            return j[0], check(j[0], j[1], w)
        finally:
            q.put(w)
    with cf.ThreadPoolExecutor(workers) as ex:
        for f in cf.as_completed([ex.submit(one, j) for j in jobs]):
            yield f.result()


if __name__ == "__main__":
    S = specs()
    what, ids = sys.argv[1], sys.argv[2:]
    if what == "make":
        ids = ids or [i for i in S if not os.path.isdir(V + "/seeded/" + i)]
        for i in ids:
            print(i, "->", make(S[i]), flush=True)
    elif what in ("check", "cross"):
        ids = ids or sorted(os.listdir(V + "/seeded"))
        allp = ["C%02d" % k for k in range(1, 24)] if what == "cross" else None
        for i, (p, r) in pool([(i, allp) for i in ids]):
            print(i, p, {k: x[0] for k, x in r.items()} if what == "cross" else r, flush=True)
