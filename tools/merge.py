#!/usr/bin/env python3
"""merge.py <property>: puts what the build without debug assertions covered into the evidence file."""
import json, os, sys
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence")
main = os.path.join(D, f"{sys.argv[1]}.json")
with open(main) as f:
    ev = json.load(f)
ev["coverage"]["without_debug_assertions"] = "not run"
for v in ("alloc-plain", "no-alloc-plain"):
    p = os.path.join(D, f"{sys.argv[1]}.{v}.json")
    if os.path.exists(p):
        with open(p) as f:
            second = json.load(f)
        keep = ("build", "states", "transitions", "traces_validated_against_impl", "exhaustive", "spaces")
        ev["coverage"]["without_debug_assertions"] = dict({k: second["coverage"][k] for k in keep}, wall_s=second["wall_s"])
        ev["wall_s"] = round(ev["wall_s"] + second["wall_s"], 3)
        os.remove(p)
with open(main, "w") as f:
    json.dump(ev, f, indent=1, ensure_ascii=False)
