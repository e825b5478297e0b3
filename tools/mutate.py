#!/usr/bin/env python3
"""Systematic small changes of /repo's source, to find what the checks do not see.
tools/mutate.py list                 print all changes
tools/mutate.py run OUT [W] [REGEX]  try them in scratch copies below /tmp/mut with W workers
Each change that compiles and passes the existing tests is shown to the quick checks (most relevant
first) until one reports a violation; OUT gets one JSON line per change."""
import json, os, random, re, subprocess, sys, threading, time, glob, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
SWAPS = [('<=', '<'), ('>=', '>'), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'),
         (' < ', ' > '), (' > ', ' < '), (' < ', ' <= '), (' > ', ' >= '), (' + ', ' - '), (' - ', ' + '), (' * ', ' / '), (' / ', ' * '),
         ('true', 'false'), ('false', 'true'), ('source', 'target'), ('target', 'source'), ('left', 'right'), ('right', 'left'),
         ('.x()', '.y()'), ('.y()', '.x()'), ('.sin()', '.cos()'), ('.cos()', '.sin()'), ('prev', 'next'), ('next', 'prev'),
         ('first', 'last'), ('last', 'first'), ('OnLeft', 'OnRight'), ('Inside', 'Outside'), ('Outside', 'Inside'), ('CounterClockwise', 'Clockwise'),
         ('break', 'continue'), ('is_some()', 'is_none()'), ('is_none()', 'is_some()'), ('zero()', 'pi()'), ('pi()', 'zero()'),
         ('from_f64(2.0)', 'from_f64(1.0)'), ('from_f64(2.0)', 'from_f64(4.0)'), ('Greater', 'Less'), ('Less', 'Greater'),
         ('.source()', '.target()'), ('.target()', '.source()'), ('any(', 'all('), ('all(', 'any('), ('contains_p', 'source_is_p')]
def body(path):
    """lines before the test module, with their numbers"""
    out = []
    for i, l in enumerate(open(path).read().split('\n')):
        if l.strip() == '#[cfg(test)]': break
        out.append((i, l))
    return out
def mutants():
    seen = set()
    for path in sorted(glob.glob(R + '/src/**/*.rs', recursive=True)):
        rel = os.path.relpath(path, R)
        lines = body(path)
        def emit(i, new, what):
            k = (rel, i, new)
            if k in seen: return
            seen.add(k)
            return dict(file=rel, line=i, new=new, what=what)
        for i, l in lines:
            s = l.strip()
            if not s or s.startswith(('//', 'use ', 'pub use', 'mod ', 'pub mod', '#[', 'impl', 'pub fn', 'fn ', 'pub struct', 'pub enum', 'pub trait')): continue
            for a, b in SWAPS:
                for m in re.finditer(r'(?<!\w)' + re.escape(a) + r'(?!\w)' if a[0].isalpha() else re.escape(a), l):
                    if a in ('<', '>') : continue
                    st = m.start()
                    if a in ('<=', '>=', '==', '!=') and l[st-1:st] in '<>=!': continue
                    if a == '==' and 'fn ' in l: continue
                    x = emit(i, l[:st] + b + l[m.end():], f'{a.strip()} -> {b.strip()}')
                    if x: yield x
            for w in ('source', 'target', 'left', 'right', 'upper', 'lower', 'prev', 'next'):
                other = dict(source='target', target='source', left='right', right='left', upper='lower', lower='upper', prev='next', next='prev')[w]
                for m in re.finditer(w, l):
                    x = emit(i, l[:m.start()] + other + l[m.end():], f'{w} -> {other}')
                    if x: yield x
            for m in re.finditer(r'(?<![\w.])(\d+)(\.\d+)?(?![\w.])', l):
                v = m.group(0)
                for n in {'0': ['1'], '1': ['0', '2'], '2': ['1', '3'], '0.0': ['1.0'], '1.0': ['2.0', '0.0'], '2.0': ['1.0', '3.0']}.get(v, []):
                    x = emit(i, l[:m.start()] + n + l[m.end():], f'{v} -> {n}')
                    if x: yield x
            m = re.match(r'(\s*(?:\} else )?if )(.+)( \{)$', l)
            if m and not m.group(2).startswith('let '):
                for c in ('true', 'false', f'!({m.group(2)})'):
                    x = emit(i, f'{m.group(1)}{c}{m.group(3)}', f'if {c if len(c) < 6 else "negated"}')
                    if x: yield x
            if s.endswith(';') and not s.startswith(('let ', 'return', 'break', 'continue')) and s.count('(') == s.count(')'):
                x = emit(i, re.match(r'\s*', l).group(0) + '{}', 'statement removed')
                if x: yield x
            if s == 'return;' :
                x = emit(i, l.replace('return;', '{}'), 'return removed')
                if x: yield x
            m = re.search(r'(\w+)\.equals\(([^()]+(?:\(\))?)\)', l)
            if m:
                x = emit(i, l[:m.start()] + f'({m.group(1)} == {m.group(2)})' + l[m.end():], 'equals -> ==')
                if x: yield x
            m = re.search(r'\(([^(),]+), ([^(),]+)\)', l)
            if m:
                x = emit(i, l[:m.start()] + f'({m.group(2)}, {m.group(1)})' + l[m.end():], 'arguments swapped')
                if x: yield x
            m = re.search(r'\(([^(),]+\(\)), ([^(),]+\(\))\)', l)
            if m:
                x = emit(i, l[:m.start()] + f'({m.group(2)}, {m.group(1)})' + l[m.end():], 'arguments swapped')
                if x: yield x
GEO = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C23 C24 C25'.split()
def order(f):
    if '/wasm' in f: return ['C22']
    pref = []
    for k, c in [('data_structure', 'C21 C02 C15'), ('sweep', 'C01 C03 C02 C16'), ('line_segment_2_line', 'C04'), ('line_segment_2_circle', 'C05'), ('circle_segment_2_circle', 'C05'),
                 ('line_segment_2_arc', 'C06'), ('arc_segment_2_arc', 'C06'), ('circle_segment_2_arc', 'C06'), ('segment_2_segment_2', 'C07 C05 C06'), ('ray', 'C08 C09'),
                 ('line_2', 'C08 C09 C20 C13'), ('location/point_2_line', 'C09'), ('circle', 'C10 C05'), ('location/point_2_arc', 'C10'), ('triangle', 'C11 C17'), ('polygon', 'C12 C17 C18 C16'),
                 ('projection', 'C13'), ('hull', 'C14'), ('earcut', 'C15'), ('arc_segment', 'C19 C10'), ('vector', 'C20'), ('point_2.rs', 'C20 C18'), ('vertex', 'C24 C20'), ('edge', 'C24'), ('face', 'C24'), ('number', 'C20')]:
        if k in f: pref += c.split()
    rest = [c for c in GEO if c not in pref]
    # the costly checks only for what the sweep is made of
    rest = ['C23', 'C25', 'C16', 'C07'] if 'sweep' in f else [c for c in rest if c not in ('C01', 'C02', 'C03', 'C14', 'C23')]
    seen = []
    for c in pref + rest:
        if c not in seen: seen.append(c)
    return seen
def sh(c, t, **k):
    try:
        p = subprocess.run(['timeout', '-k', '5', str(t), 'bash', '-c', c], capture_output=True, text=True, **k)
        return p.returncode, p.stdout + p.stderr
    except Exception as e: return 99, str(e)
ENV = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='1.98.0', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', HOME='/root')
def worker(w, jobs, out, lock):
    D = f'/tmp/mut/w{w}'
    sh(f'rm -rf {D}/repo {D}/mc; mkdir -p {D}/out {D}/repo; cp -a {V}/mc {D}/mc; cp -a {R}/src {R}/Cargo.* {D}/repo/; sed -i "s#/repo\\"#{D}/repo\\"#" {D}/mc/*/Cargo.toml; ln -sfn {D}/repo/src/wasm {D}/mc/wasm/src/wasm; ln -sfn {D}/repo/src/wasm.rs {D}/mc/wasm/src/wasm.rs', 60)
    base = {}
    while True:
        with lock:
            if not jobs: break
            m = jobs.pop()
        f = f'{D}/repo/{m["file"]}'
        if f not in base: base[f] = open(f).read()
        ls = base[f].split('\n'); m['old'] = ls[m['line']]; ls[m['line']] = m['new']
        open(f, 'w').write('\n'.join(ls))
        t0 = time.time(); r = None; by = None
        wasm = '/wasm' in m['file'] or m['file'].endswith('wasm.rs')
        if not wasm:
            rc, o = sh(f'rustc --edition 2021 -A warnings --test --crate-name rcgal {D}/repo/src/lib.rs -o {D}/t', 120, env=ENV)
            if rc: r = 'no build'
            else:
                rc, o = sh(f'{D}/t --test-threads 4', 60, env=ENV)
                if rc: r = 'tests'
        if r is None:
            r = 'SURVIVED'; built = {}
            for c in order(m['file']):
                crate = {'C21': 'ds', 'C22': 'wasm'}.get(c, 'geo')
                env = dict(ENV, CARGO_TARGET_DIR=f'{D}/target-{crate}', MC_OUT=f'{D}/out', MC_KNOWN=f'{V}/known_findings.txt', MC_MEM_MB='6000', VERIF_SEED='1', VERIF_TIER='quick')
                if crate == 'ds': env['RUSTFLAGS'] = '--cfg rcgal_verif'
                if crate not in built:
                    sh(f'rm -rf {D}/target-{crate}/release/.fingerprint/rcgal-* {D}/target-{crate}/release/.fingerprint/mc{crate}-*', 20)
                    rc, o = sh(f'taskset -c {2*w},{2*w+1} cargo build --release --offline --manifest-path {D}/mc/{crate}/Cargo.toml', 300, env=env)
                    built[crate] = rc
                    if rc: r = 'no build'; break
                rc, o = sh(f'taskset -c {2*w},{2*w+1} {D}/target-{crate}/release/mc{crate} {c}', 600, env=env)
                if rc == 1 and f'VIOLATION property={c}' in o: r = 'caught'; by = c; break
                if rc != 0: r = f'ODD {c} rc={rc} {o[-300:]}'; break
        open(f, 'w').write(base[f])
        m.update(result=r, by=by, secs=round(time.time() - t0, 1))
        with lock:
            open(out, 'a').write(json.dumps(m) + '\n')
if __name__ == '__main__':
    ms = list(mutants())
    if sys.argv[1] == 'list':
        for m in ms: print(m['file'], m['line'] + 1, m['what'], '|', m['new'].strip())
        print(len(ms)); sys.exit()
    out = sys.argv[2]; W = int(sys.argv[3]) if len(sys.argv) > 3 else 4; rx = sys.argv[4] if len(sys.argv) > 4 else '.'
    done = set()
    if os.path.exists(out): done = {(d['file'], d['line'], d['new']) for d in map(json.loads, open(out))}
    jobs = [m for m in ms if re.search(rx, m['file']) and (m['file'], m['line'], m['new']) not in done]
    random.Random(7).shuffle(jobs)
    print(len(jobs), 'to do')
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(w, jobs, out, lock)) for w in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
