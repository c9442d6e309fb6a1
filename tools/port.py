#!/usr/bin/env python3
"""C23: the same results on a 32-bit and on a big-endian target as on this one.

usage: port.py quick|thorough | build | replay FILE
"""
import concurrent.futures as cf
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "out", "C23")
TARGETS = {"i686-unknown-linux-gnu": "32-bit, little-endian", "s390x-unknown-linux-gnu": "64-bit, big-endian", "powerpc-unknown-linux-gnu": "32-bit, big-endian"}
FLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows"
I, S = "i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"
PLANS = {
    # target, cargo features, cases, shards
    "quick": [(I, "alloc", "quick", 16), (S, "alloc", "quick", 16)],
    "thorough": [(I, "", "quick", 8), (S, "", "quick", 8), (I, "alloc", "thorough", 64), (S, "alloc", "thorough", 64)],
}
BOUNDS = {
    "quick": "28 digit collections (length, flags and digits at the start, the end and around position 256) and 60 numbering systems at about 75 values each (0 to 12, powers of ten, the limits of the integer types, "
             "the edges of the systems; from 70,000 on only where labels stay short), as u128 and as usize; nominal strings of both directions, four building styles and 20 lengths from 0 to 256, "
             "each of 15 operations, and pairs of operations at six lengths; comparisons of texts that differ at one of eleven places; with alloc; on a 32-bit and on a big-endian target.",
    "thorough": "The quick cases also without alloc; then about 1400 values per system in all six unsigned types, all pairs of operations, and all lengths from 0 to 66, with alloc; on a 32-bit and on a big-endian target.",
}
CAP = {"quick": 780, "thorough": 5400}
# CPU seconds after which a state that has a result here counts as not ending there; it takes the
# interpreter ten (quick) or a hundred (thorough) at most.
LONGEST = {"quick": 120, "thorough": 2400}
CPUS = os.cpu_count() or 8
MANIFEST = os.path.join(ROOT, "port", "Cargo.toml")


def tdir(target, features):
    return os.path.join(ROOT, "target-port", target + "-" + (features or "none"))


def env():
    e = dict(os.environ, MIRIFLAGS=FLAGS, CARGO_NET_OFFLINE="true", XDG_CACHE_HOME=os.path.join(ROOT, "target-port", "cache"))
    for k in ("RUSTFLAGS", "MIRI_SYSROOT", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def common(target, features):
    c = ["-q", "--offline", "--manifest-path", MANIFEST, "--target-dir", tdir(target, features)]
    return c + (["--features", features] if features else [])


def command(target, features, cases, shard, shards):
    return ["cargo", "+nightly", "miri", "run", *common(target, features), "--target", target, "--", cases, str(shard), str(shards)]


def go(cmd, timeout=None):
    return subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)


def native(features, cases):
    """The lines of this machine."""
    cmd = ["cargo", "+nightly", "run", *common("native", features), "--", cases, "0", "1"]
    clean("native", features)
    r = go(cmd)
    if r.returncode != 0 or not r.stdout.endswith("END\n"):
        sys.stderr.write(r.stderr[-6000:] + "\nerror: the native run failed\n")
        sys.exit(3)
    return key(r.stdout)


def key(text):
    """Which case a line is about -> the line."""
    got = {}
    whole = text[: text.rfind("\n") + 1]
    for l in whole.splitlines():
        m = re.match(r"(LABELS .*? \d+\.\.=\d+|COLLECTION .*? (?=\d+ [0-9a-f]{16}$)|ORDER \S+|STATE reverse=\w+ style=\d+ len=\d+) ?(.*)", l)
        if m:
            got[m.group(1).strip()] = m.group(2)
    return got


def clean(target, features):
    d = tdir(target, features)
    if os.path.isdir(d):
        # cargo goes by file times; what counts here is the content.
        for args in ([], ["--target", target]) if target != "native" else ([],):
            subprocess.run(["cargo", "+nightly", "clean", *common(target, "")[:4], "--target-dir", d, "-p", "nominals", "-p", "nomport", *args],
                           env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        d = os.path.join(d, "miri")
        if target != "native" and os.path.isdir(d):
            subprocess.run(["cargo", "+nightly", "clean", *common(target, "")[:4], "--target-dir", d, "--target", target, "-p", "nominals", "-p", "nomport"],
                           env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def build(target, features):
    """None, or why the library doesn't build for the target."""
    clean(target, features)
    r = go(command(target, features, "quick", 0, 0))
    if r.returncode == 0:
        return None
    if re.search(r"could not compile `nom(inals|port)`", r.stderr):
        return r.stderr[-4000:]
    sys.stderr.write(r.stderr[-6000:] + f"\nerror: the build for {target} failed\n")
    sys.exit(3)


def cpu(group):
    """CPU seconds of the processes of a group."""
    total = 0
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open(f"/proc/{p}/stat") as f:
                    st = f.read().rsplit(")", 1)[1].split()
                if int(st[2]) == group:
                    total += int(st[11]) + int(st[12])
            except (OSError, IndexError, ValueError):
                pass
    return total / os.sysconf("SC_CLK_TCK")


def watch(cmd, left, longest):
    """Runs it; output, errors, exit code or None, and whether one state took too long."""
    end = time.time() + left
    hang, size, since, gone = False, -1, 0.0, False
    with tempfile.TemporaryFile() as o, tempfile.TemporaryFile() as e:
        p = subprocess.Popen(cmd, env=env(), stdin=subprocess.DEVNULL, stdout=o, stderr=e, start_new_session=True)
        while True:
            try:
                p.wait(2)
                break
            except subprocess.TimeoutExpired:
                now, used = os.fstat(o.fileno()).st_size, cpu(p.pid)
                if now != size:
                    size, since = now, used
                hang = used - since > longest
                gone = time.time() > end
                if hang or gone:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
        o.seek(0)
        e.seek(0)
        return o.read().decode("utf-8", "replace"), e.read().decode("utf-8", "replace"), None if gone or hang else p.returncode, hang


def run(job):
    target, features, cases, shard, shards, deadline = job
    res = {"target": target, "features": features, "cases": cases, "shard": shard, "shards": shards, "ok": False, "count": 0, "bad": "", "note": "", "got": {}}
    left = deadline - time.time()
    if left < 5:
        res["note"] = "not started: out of time"
        return res
    out, err, rc, hang = watch(command(target, features, cases, shard, shards), left, LONGEST[cases])
    res["got"] = key(out)
    m = re.search(r"^COUNT (\d+)\nEND$", out, re.M)
    if rc == 0 and m:
        res["ok"], res["count"] = True, int(m.group(1))
    elif hang:
        at = re.findall(r"^AT (.*)$", out, re.M)
        res["bad"] = f"no result within {LONGEST[cases]} CPU seconds at: {at[-1] if at else '?'}"
    elif "Undefined Behavior" in err:
        res["bad"] = "undefined behaviour\n" + err[:4000]
    elif "abnormal termination" in err:
        res["bad"] = "the program was aborted\n" + err[:4000]
    elif rc is None:
        res["note"] = "stopped: out of time"
    else:
        res["note"] = f"ended with {rc}: " + err[:1500]
    return res


def judge(r, here):
    """The first case of the run that differs from this machine's, or ''."""
    for k, v in r["got"].items():
        if here.get(k) != v:
            return f"{k}\n here: {here.get(k)}\n there: {v}"
    return r["bad"]


def violation(target, features, cases, shard, shards, what):
    path = os.path.join(OUT, "replay.json")
    with open(path, "w") as f:
        json.dump({"property": "C23", "target": target, "features": features, "cases": cases, "shard": shard, "shards": shards,
                   "what": what, "how": f"cd /verif && ./replay.sh {path}"}, f, indent=1, ensure_ascii=False)
    print(f"a result depends on the platform: {target} ({TARGETS[target]}), features [{features}]")
    print(what)
    print(f"VIOLATION property=C23 replay={path}")


def dirs():
    for d in (OUT, os.path.join(ROOT, "evidence"), os.path.join(ROOT, "target-port", "cache")):
        os.makedirs(d, exist_ok=True)


def check(tier):
    t0 = time.time()
    dirs()
    plan = PLANS[tier]
    here, bad = {}, []
    with cf.ThreadPoolExecutor(4) as pool:
        # The interpreter's standard libraries share a place, hence one target after another there.
        for f, c in sorted({(f, c) for _, f, c, _ in plan}):
            here[f, c] = native(f, c)
        built = {(t, f): pool.submit(build, t, f) for t, f in sorted({(t, f) for t, f, _, _ in plan})}
        for (t, f), b in built.items():
            why = b.result()
            if why:
                bad.append((t, f, "quick", 0, 0, "the library doesn't build there\n" + why))
    deadline = t0 + CAP[tier]
    done = []
    if not bad:
        jobs = [(t, f, c, s, n, deadline) for t, f, c, n in plan for s in range(n)]
        with cf.ThreadPoolExecutor(CPUS) as pool:
            futures = [pool.submit(run, j) for j in jobs]
            for fu in cf.as_completed(futures):
                r = fu.result()
                done.append(r)
                what = judge(r, here[r["features"], r["cases"]])
                if what:
                    bad.append((r["target"], r["features"], r["cases"], r["shard"], r["shards"], what))
                    for g in futures:
                        g.cancel()
                    subprocess.run(["pkill", "-f", os.path.join(ROOT, "target-port") + "/[is]"], check=False)
                    break
    # Everything this machine says must be said there too.
    if not bad:
        for t, f, c, n in plan:
            rs = [r for r in done if (r["target"], r["features"], r["cases"]) == (t, f, c)]
            if all(r["ok"] for r in rs):
                miss = set(here[f, c]) - set().union(*(r["got"] for r in rs))
                if miss:
                    bad.append((t, f, c, 0, n, "no result for " + sorted(miss)[0]))
    incomplete = [f"{r['target']} {r['cases']} shard {r['shard']} of {r['shards']}: {r['note']}" for r in done if not r["ok"] and not r["bad"]]
    states, calls = sum(len(r["got"]) for r in done), sum(r["count"] for r in done)
    per = {}
    for r in done:
        p = per.setdefault(f"{r['target']} [{r['features']}] {r['cases']}", {"shards_done": 0, "states": 0, "calls": 0})
        p["shards_done"] += r["ok"]
        p["states"] += len(r["got"])
        p["calls"] += r["count"]
    samples = [k + " " + v for r in done[:12] for k, v in list(r["got"].items())[:1]]
    ev = {
        "property": "C23", "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": states, "transitions": calls, "traces_validated_against_impl": calls, "samples": samples,
            "rule": "a state is a batch of up to 16 values of one system, a digit collection, or a nominal string of one direction, building style and length; "
                    "a transition is one call, executed on the real code natively and by Miri on the other targets; the results of each state are compared",
            "bounds": BOUNDS[tier], "per_target": per, "incomplete": incomplete, "exhaustive": not incomplete and not bad,
        },
        "assumptions": ["Miri interprets a program as its target would run it", "values beyond 32 bits are not tried as usize"],
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    with open(os.path.join(ROOT, "evidence", "C23.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if bad:
        violation(*bad[0])
        return 1
    if not states:
        print("error: nothing was explored:", *incomplete[:3], sep="\n", file=sys.stderr)
        return 3
    for i in incomplete[:5]:
        print("note: not completed:", i)
    print(f"C23: held on {states} states, {calls} transitions, in {time.time() - t0:.1f} s")
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    dirs()
    here = native(r["features"], r["cases"])
    why = build(r["target"], r["features"])
    what = "the library doesn't build there\n" + why if why else ""
    if not what and r["shards"]:
        got = run((r["target"], r["features"], r["cases"], r["shard"], r["shards"], time.time() + 3000))
        what = judge(got, here)
        if not what and got["note"]:
            print(got["note"])
    if what:
        violation(r["target"], r["features"], r["cases"], r["shard"], r["shards"], what)
        return 1
    print("the case no longer fails")
    return 0


def main():
    what = sys.argv[1] if len(sys.argv) > 1 else "quick"
    if what == "build":
        dirs()
        native("alloc", "quick")
        return any([build(I, "alloc"), build(S, "alloc")])
    if what == "replay":
        return replay(sys.argv[2])
    return check("thorough" if what == "thorough" else "quick")


sys.exit(main())
