#!/usr/bin/env python3
"""Builds /verif/seeded from tools/seeds/*.py and confirms every planted bug.

usage: mkseeds.py [id ...]      (all without arguments)

Each seed file defines SEEDS: dicts with id, property, file, edits [(old, new)],
demo (Rust), mode (alloc | noalloc | miri), needs, breaks.
"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
DEMO_SH = r'''#!/bin/bash
# Run in the repository: exit 0 if the demonstration passes.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
nominals = { path = "$repo", default-features = false%FEATURES% }
[profile.dev]
debug = false
[workspace]
EOF
cd "$d" || exit 3
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
%RUN%
'''

def demo_sh(mode):
    feats = '' if mode == 'noalloc' else ', features = ["alloc"]'
    run = 'timeout 200 cargo run -q --offline'
    if mode == 'miri':
        run = 'MIRIFLAGS="-Zmiri-disable-isolation" timeout 280 cargo +nightly miri run -q --offline'
    if mode == 'miri-release':
        run = 'MIRIFLAGS="-Zmiri-disable-isolation" timeout 280 cargo +nightly miri run -q --offline --release'
    if mode in ('miri32', 'miribe'):
        # The other platform, interpreted.
        target = {'miri32': 'i686', 'miribe': 's390x'}[mode] + '-unknown-linux-gnu'
        run = 'export XDG_CACHE_HOME="$d/cache"\nmkdir -p "$d/cache"\nMIRIFLAGS="-Zmiri-disable-isolation" timeout 290 cargo +nightly miri run -q --offline --target ' + target
    if mode == 'release':
        run += ' --release'
    return DEMO_SH.replace('%FEATURES%', feats).replace('%RUN%', run)

def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)

def main():
    want = sys.argv[1:]
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, 'seeds', '*.py'))):
        seeds += runpy.run_path(f)['SEEDS']
    # These change lines of our own repairs only: they do not count.
    seeds = [s for s in seeds if s["id"] not in ("c06-zero-only", "c16-roman-u64", "c22-restrict-u32")]
    assert len({s['id'] for s in seeds}) == len(seeds)
    bad = 0
    work = tempfile.mkdtemp(prefix='seeds-')
    repo = os.path.join(work, 'repo')
    subprocess.run(['cp', '-a', '/repo', repo], check=True)
    try:
        for s in seeds:
            if want and s['id'] not in want:
                continue
            d = os.path.join(ROOT, 'seeded', s['id'])
            if os.path.isdir(d):
                shutil.rmtree(d)
            sh('git checkout -q -- .', repo)
            problem = None
            for file, old, new in s['edits']:
                p = os.path.join(repo, 'src', file)
                t = open(p, encoding='utf-8').read()
                if t.count(old) != 1:
                    problem = f'{file}: found {t.count(old)} times: {old[:60]!r}'
                    break
                open(p, 'w', encoding='utf-8').write(t.replace(old, new))
            if not problem:
                diff = sh('git diff', repo).stdout
                os.makedirs(d)
                open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
                open(os.path.join(d, 'demo.rs'), 'w', encoding='utf-8').write(s['demo'])
                sp = os.path.join(d, 'demo.sh')
                open(sp, 'w').write(demo_sh(s.get('mode', 'alloc')))
                os.chmod(sp, 0o755)
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                          open(os.path.join(d, 'meta.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
                r = sh('cargo test --workspace --all-features --offline 2>&1 && cargo check -q --lib --no-default-features --offline', repo)
                if r.returncode:
                    problem = 'build or tests fail: ' + r.stdout.decode()[-1500:]
                else:
                    r1 = sh(f'bash {sp}', repo)
                    sh('git checkout -q -- .', repo)
                    r0 = sh(f'bash {sp}', repo)
                    if r0.returncode != 0:
                        problem = 'demo fails on the clean tree: ' + r0.stdout.decode()[-1500:]
                    elif r1.returncode == 0:
                        problem = 'demo passes with the bug'
                    elif b'error[E' in r1.stdout or b'could not compile' in r1.stdout:
                        problem = 'demo does not compile with the bug: ' + r1.stdout.decode()[-1500:]
            if problem:
                bad += 1
                print('BAD ', s['id'], problem)
                if os.path.isdir(d):
                    shutil.rmtree(d)
            else:
                print('good', s['id'], s['property'])
            sys.stdout.flush()
    finally:
        shutil.rmtree(work)
    return bad != 0

sys.exit(main())
