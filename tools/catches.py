#!/usr/bin/env python3
"""Runs checks against planted bugs: catches.py [-a] [id ...]. With -a every check, not only the property's own.
Applies each patch to /repo, runs, and undoes it."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = '-a' in args
args = [a for a in args if a != '-a']
ids = args or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
allp = [f'C{i:02}' for i in range(1, 26)]
log = os.path.join(ROOT, 'out', 'catches.json')
res = json.load(open(log)) if os.path.exists(log) else {}
def git(*a):
    subprocess.run(['git', '-C', '/repo', *a], check=True)
assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain']), 'repo not clean'
for id in ids:
    d = os.path.join(ROOT, 'seeded', id)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    props = [prop] + ([p for p in allp if p != prop and p != 'C02'] if every else [])
    got = {}
    git('apply', os.path.join(d, 'patch.diff'))
    try:
        for p in props:
            t = time.time()
            r = subprocess.run([os.path.join(ROOT, 'run.sh'), p, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=ROOT)
            v = f'VIOLATION property={p} ' in r.stdout
            got[p] = 'caught' if r.returncode == 1 and v else 'missed' if r.returncode == 0 else f'error {r.returncode}'
            if p == prop or got[p].startswith('error'):
                line = [l for l in r.stdout.splitlines() if l][-3:]
                print(id, p, got[p], f'{time.time() - t:.0f}s', ' / '.join(line)[:300], flush=True)
    finally:
        git('checkout', '-q', '--', '.')
    if every:
        print('   also caught by', [p for p in props[1:] if got[p] == 'caught'], flush=True)
    res.setdefault(id, {}).update(got)
    json.dump(res, open(log, 'w'), indent=1)
