#!/usr/bin/env python3
"""Plant a bug: tools/seed.py SPEC.py [ids...]   (SPEC defines SEEDS, a list of dicts)
Each: id, property, edits=[(file under src, old, new)], needs, breaks, demo (Rust source), cfg (opt).
Works in a scratch copy of /repo; keeps the bug in seeded/<id> only when it builds, passes the
existing tests, and its demonstration passes without it and fails with it."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = '/tmp/seedrepo'
DEMO = '''#!/bin/bash
# exit 0: the property holds on the demonstrated case; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.98.0
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
rustc --edition 2021 -O -A warnings --crate-type rlib --crate-name rcgal %(cfg)s src/lib.rs -o "$work/librcgal.rlib" || exit 3
rustc --edition 2021 -O -A warnings "$here/demo.rs" --extern rcgal="$work/librcgal.rlib" -o "$work/demo" || exit 3
timeout 120 "$work/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def reset():
    sh(f'git -C {SC} checkout -q -- . && git -C {SC} checkout -q --detach $(git -C /repo rev-parse HEAD)')
def main():
    spec = runpy.run_path(sys.argv[1])['SEEDS']; want = sys.argv[2:]
    if not os.path.isdir(SC): sh(f'git -C /repo worktree add --detach {SC} HEAD')
    base = open('/opt/vp/BASELINE.json').read()
    for s in spec:
        if want and s['id'] not in want: continue
        reset()
        d = f'{V}/seeded/{s["id"]}'; t = f'/tmp/seedwork/{s["id"]}'
        sh(f'rm -rf {t}; mkdir -p {t}')
        if 'demo_sh' in s: open(t+'/demo.sh','w').write(s['demo_sh'])
        else:
            open(t+'/demo.rs','w').write(s['demo'].lstrip('\n'))
            open(t+'/demo.sh','w').write(DEMO % {'cfg': s.get('cfg','')})
        for n,c in s.get('files',{}).items(): open(f'{t}/{n}','w').write(c)
        os.chmod(t+'/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(t+'/meta.json','w'), indent=1)
        r = sh(f'bash {t}/demo.sh', cwd=SC)
        if r.returncode: print(s['id'], 'DEMO FAILS UNPATCHED', r.returncode, r.stdout[-600:], r.stderr[-900:]); continue
        ok = True
        for f, old, new in s['edits']:
            p = f'{SC}/src/{f}'; x = open(p).read()
            if x.count(old) != 1: print(s['id'], 'EDIT matches', x.count(old), repr(old[:60])); ok = False; break
            open(p,'w').write(x.replace(old,new))
        if not ok: continue
        open(t+'/patch.diff','w').write(sh(f'git -C {SC} diff').stdout)
        # must touch an original line
        orig = False
        for l in sh(f'git -C {SC} diff -U0').stdout.split('\n'):
            if l.startswith('--- a/'): cur = l[6:]
            if l.startswith('@@'):
                a = l.split()[1][1:].split(','); st = int(a[0]); n = int(a[1]) if len(a)>1 else 1
                if n:
                    b = sh(f'git -C {SC} blame -s -L {st},{st+n-1} HEAD -- {cur}').stdout
                    if any(x.startswith('^') for x in b.split('\n') if x): orig = True
        env = dict(os.environ, RUSTUP_TOOLCHAIN='1.98.0', CARGO_TARGET_DIR='/tmp/seedtarget', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1')
        try: r = sh('timeout 120 cargo test --offline --locked -- --test-threads 8', cwd=SC, env=env)
        except Exception as e: print(e); continue
        if r.returncode: print(s['id'], 'TESTS FAIL', [l for l in r.stdout.split('\n') if 'FAILED' in l or 'panicked' in l or 'failed' in l][:6], r.stderr[-700:] if 'error' in r.stderr else ''); continue
        if 'wasm' in json.dumps(s['edits']):
            r = sh('cargo build --lib --offline --locked --target wasm32-unknown-unknown', cwd=SC, env=env)
            if r.returncode: print(s['id'], 'WASM BUILD FAILS', r.stderr[-900:]); continue
        r = sh(f'bash {t}/demo.sh', cwd=SC)
        if r.returncode in (0,3): print(s['id'], 'DEMO DOES NOT FAIL PATCHED', r.returncode, r.stdout[-300:], r.stderr[-300:]); continue
        sh(f'rm -rf {d}; mkdir -p {V}/seeded; cp -r {t} {d}')
        print(s['id'], 'KEPT' + ('' if orig else ' (BUT TOUCHES NO ORIGINAL LINE)'), '|', (r.stdout+r.stderr).strip().split('\n')[-1][:150] if 'panicked' not in r.stderr else [l for l in r.stderr.split('\n') if l.strip()][1:3])
    reset()
main()
