#!/usr/bin/env python3
"""Systematic mutants of the crate, run against the checks in scratch copies.

mutate.py list | run [workers] [file...]   (scratch: /tmp/mut, results: out/mutants.json)

Every site of a fixed list of mutation operators in the non-test code of every
source file is one mutant. A mutant that builds and passes the crate's own
tests is run against the checks, the likeliest first, until one catches it.
Survivors are equivalent changes or gaps; they are looked at by hand.
"""
import json, os, queue, re, shutil, subprocess, sys, threading, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
FILES = ["nominalstring.rs", "digital.rs", "enumerated.rs", "additive.rs", "hebrew.rs", "ethiopic.rs", "chinese.rs", "lib.rs"]
FIRST = {
    "nominalstring.rs": ["C01", "C15n", "C17", "C19"],
    "digital.rs": ["C03", "C04", "C05", "C12", "C22", "C21", "C14"],
    "enumerated.rs": ["C05", "C13"], "additive.rs": ["C06", "C07", "C21"], "hebrew.rs": ["C08"],
    "ethiopic.rs": ["C09"], "chinese.rs": ["C11", "C10"], "lib.rs": ["C13", "C19"],
}
REST = ["C13", "C19", "C14", "C21", "C20", "C16", "C17", "C15n", "C12", "C22", "C01", "C05", "C06"]

def code_lines(text):
    """Line numbers that are neither comments nor tests."""
    keep, skip, depth = [], False, 0
    pending = False
    for i, l in enumerate(text.splitlines()):
        s = l.strip()
        if not skip and (s == "#[test]" or s == "#[cfg(test)]"):
            skip, depth, pending = True, 0, True
            continue
        if skip:
            depth += l.count("{") - l.count("}")
            if "{" in l:
                pending = False
            if not pending and depth <= 0:
                skip = False
            continue
        if s.startswith("//") or s.startswith("#") or not s or s.startswith("use ") or s.startswith("pub use"):
            continue
        keep.append(i)
    return keep

OPS = [
    (r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > ", " < "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"(?<![\w)])!(?=[\w(*])", [""]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" % ", [" / "]), (r" / ", [" % "]), (r" & ", [" | "]), (r" \| ", [" & "]),
    (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" /= ", [" %= "]), (r" %= ", [" /= "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bOutOfBounds\(", ["OutOfMemory("]), (r"\bOutOfMemory\(", ["OutOfBounds("]), (r"Error::NoZeroSymbol", ["Error::OutOfBounds(nominal)"]),
    (r"\.min\(", [".max("]), (r"\bbreak\b", ["continue"]), (r"\bcontinue\b", ["break"]),
    (r"try_push_front\(", ["try_push("]), (r"\.try_push\(", [".try_push_front("]), (r"new_reverse\(", ["new("]), (r"\bis_none\(", ["is_some("]),
    (r"SIMPLIFIED_ORDINARY", ["TRADITIONAL_ORDINARY", "SIMPLIFIED_FINANCIAL"]), (r"TRADITIONAL_ORDINARY", ["SIMPLIFIED_ORDINARY", "TRADITIONAL_FINANCIAL"]),
    (r"SIMPLIFIED_LARGE", ["TRADITIONAL_LARGE"]), (r"TRADITIONAL_LARGE", ["SIMPLIFIED_LARGE"]),
    (r"new_length\b", ["inline_len"]), (r"inline_len\b", ["new_length"]),
    (r"\bself\.a\b", ["self.b"]), (r"\bself\.b\b", ["self.a"]),
    (r"\bfirst\b", ["second"]), (r"\bsecond\b", ["first"]), (r"\bhundreds\b", ["tens"]), (r"\btens\b", ["hundreds"]),
]

def mutants(f, text):
    lines = text.splitlines()
    out = []
    for i in code_lines(text):
        l = lines[i]
        if re.match(r'\s*\(.*, [\d_]+(u32)?\),$', l) and i % 6:
            continue  # rows of tables: every sixth
        code = re.sub(r"//.*", "", l)
        def add(new, what):
            if new != l:
                out.append((i, new, what))
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    add(code[:m.start()] + r + code[m.end():], f"{m.group().strip()} -> {r.strip()}")
        for m in re.finditer(r"(?<![\w.{\\'])(\d[\d_]*)(?=(u8|u32|u128|_u8|_u128|usize)?\b)(?!')", code):
            n = int(m.group(1).replace("_", "") or 0)
            for k in (n + 1, n - 1):
                if k >= 0:
                    add(code[:m.start()] + str(k) + code[m.end():], f"{n} -> {k}")
        s = code.strip()
        if s.endswith(";") and not s.startswith(("let ", "const ", "static ", "type ", "pub const", "fn ", "mod ", "extern", "}", ")", ".")) and "(" in s + "(" and s.count("(") == s.count(")"):
            add(re.match(r"\s*", l).group() + ";", "deleted: " + s[:50])
        # Tables: neighbours exchanged (a few sites per line).
        ch = list(re.finditer(r"'(\\u\{[0-9A-Fa-f]+\}|[^'\\])'", code))
        if len(ch) >= 2:
            for k in range(0, len(ch) - 1, 5):
                a, b = ch[k], ch[k + 1]
                add(code[:a.start()] + b.group() + code[a.end():b.start()] + a.group() + code[b.end():], f"swap {a.group()} {b.group()}")
        st = list(re.finditer(r'"[^"]*"', code))
        if len(st) == 1 and "include_str" not in code and "expect" not in code:
            m = st[0]
            if len(m.group()) > 3:
                add(code[:m.start()] + '"' + m.group()[2:] + code[m.end():], "shortened " + m.group())
    return out

def all_mutants(files):
    r = []
    for f in files:
        text = open(f"/repo/src/{f}").read() if False else subprocess.run(["git", "-C", "/repo", "show", f"HEAD:src/{f}"], capture_output=True, text=True).stdout
        seen = set()
        for i, new, what in mutants(f, text):
            if (i, new) in seen:
                continue
            seen.add((i, new))
            r.append((f, i, new, what))
    return r

def sh(cmd, cwd, t, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=t)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, "timeout"

def worker(k, jobs, res, lock, path):
    repo, v, t = f"{W}/repo{k}", f"{W}/v{k}", f"{W}/t{k}"
    for d in (repo, v):
        shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    os.makedirs(v)
    shutil.copytree(f"{ROOT}/harness", f"{v}/harness", ignore=shutil.ignore_patterns("target"))
    toml = open(f"{v}/harness/Cargo.toml").read().replace('path = "/repo"', f'path = "{repo}"')
    open(f"{v}/harness/Cargo.toml", "w").write(toml)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", NOM_ROOT=v, VERIF_SEED="1", CARGO_BUILD_JOBS="4")
    while True:
        try:
            f, i, new, what = jobs.get_nowait()
        except queue.Empty:
            break
        key = f"{f}:{i + 1}:{what}:{new.strip()}"
        src = f"{repo}/src/{f}"
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."])
        lines = open(src).read().split("\n")
        lines[i] = new
        open(src, "w").write("\n".join(lines))
        verdict = None
        rc, out = sh(["cargo", "test", "-q", "--offline", "--target-dir", f"{t}-test", "--lib"], repo, 60, env)
        if rc != 0:
            verdict = "no build" if "error" in (out or "") and "test result" not in out else "own tests"
        else:
            order = []
            for c in FIRST[f] + REST:
                if c not in order:
                    order.append(c)
            bins = {}
            for c in order:
                feat = "c15" if c == "C15n" else "alloc,all"
                td = f"{t}-na" if c == "C15n" else t
                if feat not in bins:
                    rc, out = sh(["cargo", "build", "-q", "--release", "--offline", "--target-dir", td, "--features", feat], f"{v}/harness", 300, env)
                    bins[feat] = rc == 0
                    if rc != 0:
                        verdict = f"no build {feat}"
                        break
                rc, out = sh([f"{td}/release/nomcheck", "check", c[:3], "quick"], v, 300, env)
                if rc == 1 and "VIOLATION" in out:
                    verdict = "caught " + c[:3]
                    break
                if rc != 0:
                    verdict = f"odd {c} {rc} {out[-200:]}"
                    break
        with lock:
            res[key] = verdict or "SURVIVED"
            json.dump(res, open(path, "w"), indent=0, ensure_ascii=False)
            if not verdict or verdict.startswith("odd"):
                print(key, verdict or "SURVIVED", flush=True)

def main():
    files = [a for a in sys.argv[2:] if a.endswith(".rs")] or FILES
    m = all_mutants(files)
    if sys.argv[1:2] == ["list"]:
        for f, i, new, what in m:
            print(f"{f}:{i + 1}: {what}")
        print(len(m))
        return
    n = next((int(a) for a in sys.argv[2:] if a.isdigit()), 2)
    path = f"{ROOT}/out/mutants.json"
    res = json.load(open(path)) if os.path.exists(path) else {}
    jobs = queue.Queue()
    for x in m:
        if f"{x[0]}:{x[1] + 1}:{x[3]}:{x[2].strip()}" not in res:
            jobs.put(x)
    print(jobs.qsize(), "to run", flush=True)
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(k, jobs, res, lock, path)) for k in range(n)]
    [x.start() for x in ts]
    [x.join() for x in ts]
    c = {}
    for v in res.values():
        c[v.split(" ")[0]] = c.get(v.split(" ")[0], 0) + 1
    print(c)

main()
