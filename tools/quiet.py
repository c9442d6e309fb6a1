#!/usr/bin/env python3
"""quiet.py [-c C01,C02] [names...]: applies each behaviour-preserving change of
tools/refactorings to a copy of /repo and runs the checks of a copy of /verif on
it. Every check must stay quiet."""
import subprocess, sys, glob, os, time, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/quiet"
args = sys.argv[1:]
checks = [f"C{i:02}" for i in range(1, 26)]
if args[:1] == ["-c"]:
    checks = args[1].split(",")
    args = args[2:]
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
subprocess.run(["git", "clone", "-q", "/repo", f"{W}/repo"], check=True)
shutil.copytree(V, f"{W}/verif", ignore=shutil.ignore_patterns("target", "target-*", "out", "seeded", ".git", "evidence"))
for f in ("tools/build.sh", "harness/Cargo.toml", "miri/Cargo.toml", "port/Cargo.toml"):
    p = f"{W}/verif/{f}"
    t = open(p).read()
    assert "/repo" in t, f
    open(p, "w").write(t.replace("/repo", f"{W}/repo"))
bad = 0
for d in sorted(glob.glob(f"{V}/tools/refactorings/*.diff")):
    name = os.path.basename(d)[:-5]
    if args and name not in args:
        continue
    subprocess.run(["git", "-C", f"{W}/repo", "checkout", "-q", "--", "."], check=True)
    if subprocess.run(["git", "-C", f"{W}/repo", "apply", d]).returncode:
        print(name, "does not apply", flush=True)
        bad += 1
        continue
    t = time.time()
    alarms = []
    for c in checks:
        if c == "C02" and len(args) != 1 and "nominalstring.rs" not in open(d).read():
            continue  # slow, and these touch no unsafe code
        r = subprocess.run([f"{W}/verif/run.sh", c, "quick"], cwd=f"{W}/verif", capture_output=True, text=True)
        if r.returncode or "VIOLATION" in r.stdout:
            alarms.append((c, r.returncode, (r.stdout + r.stderr)[-600:]))
    print(name, "quiet" if not alarms else "ALARM", f"{time.time() - t:.0f}s", flush=True)
    for a in alarms:
        print("   ", *a, flush=True)
    bad += len(alarms)
shutil.rmtree(W)
sys.exit(bool(bad))
