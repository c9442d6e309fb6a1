#!/usr/bin/env python3
"""C02: every state and transition of the nominal string under Miri.

usage: miri.py quick|thorough | build | replay FILE
"""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "out", "C02")
BASE = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
# name, cargo features, interpreter flags; each variant has its own target
# directory, since the same one cannot be built two ways at once.
VARIANTS = {
    "alloc": ("alloc", BASE + " -Zmiri-disable-stacked-borrows"),
    "alloc-tree-borrows": ("alloc", BASE + " -Zmiri-tree-borrows"),
    "no-alloc": ("", BASE + " -Zmiri-disable-stacked-borrows"),
    "no-alloc-tree-borrows": ("", BASE + " -Zmiri-tree-borrows"),
}
PLANS = {
    # variant, cases, shards
    "quick": [("alloc", "quick", 16), ("alloc-tree-borrows", "small", 8), ("no-alloc", "small", 8)],
    "thorough": [("alloc-tree-borrows", "quick", 32), ("no-alloc-tree-borrows", "quick", 16), ("alloc", "thorough", 160), ("no-alloc", "thorough", 48)],
}
BOUNDS = {
    "quick": "Both directions, five building styles, 30 lengths from 0 to 256 (all from 0 to 9 and from 54 to 63), every operation; every second push after every push at ten lengths; labels of every distinct algorithm at up to 30 values; sets of 15 sizes from 1 to 1000 at the values next to their size; every method of 57 digit collections, also with positions beyond their end; 28 systems from three threads at once (data races); collections that re-enter the formatter or panic; a subset under Tree Borrows and without alloc.",
    "thorough": "The quick cases under Tree Borrows with and without alloc; then, with and without alloc: 70 lengths, every operation, every second operation, third operations at ten lengths, every built-in system at about 300 values each.",
}
CAP = {"quick": 780, "thorough": 5400}
CPUS = os.cpu_count() or 8


def command(variant, cases, shard, shards):
    features, flags = VARIANTS[variant]
    cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", os.path.join(ROOT, "miri", "Cargo.toml"),
           "--target-dir", os.path.join(ROOT, "target-miri", features or "none")]
    if features:
        cmd += ["--features", features]
    cmd += ["--", cases, str(shard), str(shards)]
    env = dict(os.environ, MIRIFLAGS=flags, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    return cmd, env


def build():
    """Compiles both configurations and the interpreter's standard library."""
    seen = set()
    for variant, (features, _) in VARIANTS.items():
        if features in seen:
            continue
        seen.add(features)
        d = os.path.join(ROOT, "target-miri", features or "none")
        if os.path.isdir(d):
            # cargo goes by file times; what counts here is the content.
            subprocess.run(["cargo", "+nightly", "clean", "-q", "--offline", "--manifest-path", os.path.join(ROOT, "miri", "Cargo.toml"),
                            "--target-dir", os.path.join(d, "miri"), "-p", "nominals", "-p", "nommiri"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cmd, env = command(variant, "quick", 0, 0)
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:])
            sys.stderr.write("error: the build under Miri failed\n")
            sys.exit(3)


def run(job):
    variant, cases, shard, shards, deadline = job
    left = deadline - time.time()
    res = {"variant": variant, "cases": cases, "shard": shard, "shards": shards, "ok": False, "counts": {}, "last": "", "ub": "", "note": ""}
    if left < 5:
        res["note"] = "not started: out of time"
        return res
    cmd, env = command(variant, cases, shard, shards)
    try:
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=left)
        out, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = e.stdout or b"", e.stderr or b"", None
    out = out.decode("utf-8", "replace")
    err = err.decode("utf-8", "replace")
    lines = [l for l in out.splitlines() if l]
    where = [l for l in lines if l.startswith(("STATE", "SYSTEM ", "DYN", "COLLECTION", "THREADS"))]
    res["where"] = where
    res["last"] = where[-1] if where else ""
    res["states"] = len(where)
    m = re.findall(r"^COUNT (\d+)", out, re.M)
    if m:
        res["count"] = int(m[-1])
    if rc == 0 and m:
        res["ok"] = True
    elif rc == 7:
        res["ub"] = next((l for l in lines if l.startswith("BAD-")), "bad text")
    elif "Undefined Behavior" in err:
        res["ub"] = err[:4000]
    elif rc is None:
        res["note"] = "stopped: out of time"
    else:
        res["note"] = f"ended with {rc}: " + err[:1500]
    return res


def violation(r):
    path = os.path.join(OUT, "replay.json")
    with open(path, "w") as f:
        json.dump({"property": "C02", "variant": r["variant"], "cases": r["cases"], "shard": r["shard"], "shards": r["shards"],
                   "case": r["last"], "what": r["ub"], "how": f"cd /verif && ./replay.sh {path}"}, f, indent=1, ensure_ascii=False)
    print("undefined behaviour or invalid text in the case", r["last"], "of", r["variant"])
    print(r["ub"])
    print(f"VIOLATION property=C02 replay={path}")


def check(tier):
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    build()
    deadline = t0 + CAP[tier]
    jobs = [(v, c, s, n, deadline) for v, c, n in PLANS[tier] for s in range(n)]
    done = []
    with cf.ThreadPoolExecutor(CPUS) as pool:
        futures = [pool.submit(run, j) for j in jobs]
        for f in cf.as_completed(futures):
            r = f.result()
            done.append(r)
            if r["ub"]:
                for g in futures:
                    g.cancel()
                subprocess.run(["pkill", "-f", os.path.join(ROOT, "target-miri")], check=False)
                break
    bad = [r for r in done if r["ub"]]
    incomplete = [f"{r['variant']} {r['cases']} shard {r['shard']} of {r['shards']}, at {r['last']!r}: {r['note']}" for r in done if not r["ok"] and not r["ub"]]
    states = sum(r.get("states", 0) for r in done)
    runs = sum(r.get("count", 0) for r in done)
    per = {}
    for r in done:
        p = per.setdefault(f"{r['variant']}/{r['cases']}", {"shards_done": 0, "states": 0, "executions": 0})
        p["shards_done"] += r["ok"]
        p["states"] += r.get("states", 0)
        p["executions"] += r.get("count", 0)
    samples = [r["where"][len(r["where"]) // 2] for r in done if r.get("where")][:12]
    ev = {
        "property": "C02", "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": states, "transitions": runs, "traces_validated_against_impl": runs, "samples": samples,
            "rule": "a state is a nominal string of one direction, building style and length (or a batch of values of one system); "
                    "a transition is one operation, or history of two or three, applied to it; each is executed on the real code by Miri",
            "bounds": BOUNDS[tier], "per_variant": per, "incomplete": incomplete, "exhaustive": not incomplete and not bad,
        },
        "assumptions": ["Miri finds the undefined behaviour of an execution it interprets", "leaks are not judged here", "panics are judged by C21"],
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    with open(os.path.join(ROOT, "evidence", "C02.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if bad:
        violation(bad[0])
        return 1
    if tier == "quick" and incomplete and not runs:
        print("error: nothing was explored:", *incomplete[:3], sep="\n", file=sys.stderr)
        return 3
    for i in incomplete[:5]:
        print("note: not completed:", i)
    print(f"C02: held on {states} states, {runs} transitions, in {time.time() - t0:.1f} s")
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    os.makedirs(OUT, exist_ok=True)
    build()
    got = run((r["variant"], r["cases"], r["shard"], r["shards"], time.time() + 3000))
    if got["ub"]:
        violation(got)
        return 1
    print("the case no longer fails", got["note"])
    return 0


def main():
    what = sys.argv[1] if len(sys.argv) > 1 else "quick"
    if what == "build":
        return build() or 0
    if what == "replay":
        return replay(sys.argv[2])
    return check("thorough" if what == "thorough" else "quick")


sys.exit(main())
