"""C23: instructions (callgrind) and bytes (counting allocator) of each public
operation as functions of the length of the text."""
import os, re, shutil, subprocess, time

import check as ck

OPS = ["lex", "parse", "list", "eval", "eval3", "evalfp", "clone", "compare", "render", "drop"]


def lines_of(out):
    """[(shape, length, op, numbers)] in order"""
    shape = length = None
    res = []
    for l in out.splitlines():
        k, _, rest = l.partition(" ")
        if k == "shape":
            shape = rest
        elif k == "length":
            length = int(rest)
        elif k in OPS:
            res.append((shape, length, k, [int(x) for x in rest.split()]))
    return res


def instructions(b, n, seed, d):
    """{(shape, op): (length, instructions)}"""
    ps = []
    for i in range(ck.CORES):
        o = os.path.join(d, f"cg-{n}-{i}")
        os.makedirs(o)
        cmd = ["valgrind", "--tool=callgrind", f"--callgrind-out-file={o}/o"]
        for op in OPS:
            cmd += [f"--dump-before=measured_{op}", f"--dump-after=measured_{op}"]
        cmd += [b, "cost", "--n", str(n), "--seed", str(seed), "--part", str(i), "--parts", str(ck.CORES)]
        ps.append((o, cmd, subprocess.Popen(cmd, stdout=open(o + ".out", "w"), stderr=open(o + ".err", "w"), env=ck.env(), cwd=ck.VERIF, start_new_session=True)))
    res = {}
    end = time.time() + 600
    stuck = False
    for o, cmd, p in ps:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            stuck = True
            os.killpg(p.pid, 9)
            p.wait()
    for o, cmd, p in ps:
        if p.returncode:
            if stuck:
                last = lines_of(open(o + ".out").read() + "\n")
                raise ck.Violation(ck.replay("C23", "callgrind", f"with {n} repetitions the operations do not end within 600 s; last begun: {last[-1:] }\n"
                                             f"replay: {' '.join(cmd)}"))
            ck.log(open(o + ".err").read()[-2000:])
            raise ck.NoAnswer(f"callgrind: exit {p.returncode}")
        ran = lines_of(open(o + ".out").read())
        dumps = []
        for f in os.listdir(o):
            m = re.fullmatch(r"o\.(\d+)", f)
            if m:
                t = open(os.path.join(o, f)).read()
                g = re.search(r"Trigger: --dump-after=measured_(\w+)", t)
                if g:
                    dumps.append((int(m.group(1)), g.group(1), int(re.search(r"^totals: (\d+)", t, re.M).group(1))))
        dumps.sort()
        if [x[2] for x in ran] != [x[1] for x in dumps]:
            raise ck.NoAnswer(f"callgrind saw {len(dumps)} operations of {len(ran)}")
        for (shape, length, op, _), (_, _, cost) in zip(ran, dumps):
            res[shape, op] = (length, cost)
        shutil.rmtree(o)
    return res


def memory(b, n, seed, d):
    """{(shape, op): (length, [peak, total, calls, CPU microseconds])}"""
    cmd = [b, "cost", "--n", str(n), "--seed", str(seed)]
    ps = []
    for i in range(ck.CORES):
        out = os.path.join(d, f"mem-{n}-{i}.out")
        c = cmd + ["--part", str(i), "--parts", str(ck.CORES)]
        ps.append((out, c, subprocess.Popen(c, stdout=open(out, "w"), stderr=subprocess.DEVNULL, env=ck.env(), cwd=ck.VERIF, preexec_fn=ck.limits)))
    res = {}
    end = time.time() + 120
    for out, c, p in ps:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            last = lines_of(open(out).read())
            shape = [l for l in open(out).read().splitlines() if l.startswith("shape")]
            for _, _, q in ps:
                q.kill()
                q.wait()
            # A second or two is what this takes
            raise ck.Violation(ck.replay("C23", "time", f"with {n} repetitions the operations do not end within 120 s; in {shape[-1:]} after {last[-1:]}\nreplay: {' '.join(c)}"))
        if p.returncode:
            raise ck.NoAnswer(f"cost: exit {p.returncode}")
        for s, l, op, v in lines_of(open(out).read()):
            res[s, op] = (l, v)
    return res


def c23(tier):
    th = tier == "thorough"
    b = ck.build("release")
    bc = ck.build("release", ("counting",))
    d = os.path.join(ck.target_dir(), f"c23-{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    bad = []
    samples = []
    obs = {"instruction pairs": 0, "memory pairs": 0, "worst instruction ratio per length ratio": 0.0, "worst memory ratio per length ratio": 0.0, "longest operation, microseconds": 0}
    cells = set()
    try:
        for seed, small in ([(ck.SEED, 4000)] if not th else [(ck.SEED, 1000), (ck.SEED, 4000), (ck.SEED + 1, 16_000), (ck.SEED + 2, 60_000)]):
            one, four = instructions(b, small, seed, d), instructions(b, 4 * small, seed, d)
            for k in sorted(set(one) & set(four)):
                (l1, c1), (l4, c4) = one[k], four[k]
                if l4 < 2 * l1 or l1 < small // 40:
                    continue
                q = (c4 / max(c1, 20 * l1, 20_000)) / (l4 / l1)
                obs["instruction pairs"] += 1
                cells.add(k)
                obs["worst instruction ratio per length ratio"] = max(obs["worst instruction ratio per length ratio"], round(q, 3))
                if len(samples) < 6 and obs["instruction pairs"] % 53 == 1:
                    samples.append(f"{k[1]} of {k[0]}: {l1} bytes {c1} instructions, {l4} bytes {c4} instructions")
                if q > 1.5:
                    bad.append((q, f"{k[1]} of \"{k[0]}\": {c1} instructions for {l1} bytes, but {c4} for {l4}"))
            if bad:
                break
            for small_m in (small, 10 * small):
                m1, m4 = memory(bc, small_m, seed, d), memory(bc, 4 * small_m, seed, d)
                for k in sorted(set(m1) & set(m4)):
                    (l1, v1), (l4, v4) = m1[k], m4[k]
                    if l4 < 2 * l1:
                        continue
                    obs["memory pairs"] += 1
                    for what, a, z in zip(("peak bytes", "bytes in all", "allocations"), v1, v4):
                        q = z / max(a, 16 * l1 if what != "allocations" else l1, 65536) / (l4 / l1)
                        obs["worst memory ratio per length ratio"] = max(obs["worst memory ratio per length ratio"], round(q, 3))
                        if q > 2.2:
                            bad.append((q, f"{k[1]} of \"{k[0]}\": {a} {what} for {l1} bytes, but {z} for {l4}"))
                    # Processor time, for what only sets in at large sizes: far
                    # beyond what caches and noise explain
                    if v4[3] > 1_000_000 and v4[3] / l4 > 20 * max(v1[3] / l1, 0.02):
                        bad.append((v4[3] / l4 / max(v1[3] / l1, 0.02), f"{k[1]} of \"{k[0]}\": {v1[3]} microseconds for {l1} bytes, but {v4[3]} for {l4}"))
                    obs["longest operation, microseconds"] = max(obs["longest operation, microseconds"], v4[3])
                if bad:
                    break
            if bad:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if bad:
        bad.sort(reverse=True)
        raise ck.Violation(ck.replay("C23", "cost", "\n".join(x[1] for x in bad[:20]) + f"\n\n{len(bad)} in all\nreplay: VERIF_SEED={ck.SEED} python3 check.py C23 {tier}"))
    if not cells:
        raise ck.NoAnswer("nothing observed")
    f = {"label": "cost", "evaluations": obs["instruction pairs"] + obs["memory pairs"], "distinct_nontrivial": len(cells), "samples": samples, "observed": obs,
         "rule": "each operation on each family of texts at n and 4n repetitions: instructions counted by callgrind may grow by at most 1.5 times the growth "
         "of the text, bytes and allocations counted by the allocator by at most 2.2 times, processor time of an operation beyond a second per byte by at most 20 times; distinct (family, operation) pairs"}
    return [f], ["growth between the lengths measured speaks for growth beyond them"], None
