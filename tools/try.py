#!/usr/bin/env python3
"""Try out changes before they become planted bugs: try.py WORKERS LIST.py [name...]
LIST.py sets `bugs`: a list of (name, property, [(file, old, new), ...]). Each is applied to a copy, which must
pass the repository's tests; then the property's check runs there. Leaves /repo and /verif alone."""
import os, queue, runpy, shutil, subprocess, sys, threading
V = '/verif'
base = '/dev/shm/try'
bugs = runpy.run_path(sys.argv[2])['bugs']
names = sys.argv[3:]
q = queue.Queue()
for b in bugs:
    if not names or b[0] in names: q.put(b)
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
lock = threading.Lock()
def say(*a):
    with lock: print(*a, flush=True)
def work(n):
    d = f'{base}/w{n}'
    sh(f'{V}/tools/copy.sh {d}')
    while True:
        try: name, p, edits = q.get_nowait()
        except queue.Empty: return
        sh(f'cd {d}/repo && git checkout -q -- .')
        ok = True
        for f, old, new in edits:
            s = open(f'{d}/repo/{f}').read()
            if s.count(old) < 1: say(name, 'TEXT NOT FOUND', f, old[:60]); ok = False; break
            open(f'{d}/repo/{f}', 'w').write(s.replace(old, new, 1))
        if not ok: continue
        r = sh(f'cd {d}/repo && rm -rf target/debug/.fingerprint/subtile-*; CARGO_TARGET_DIR=target cargo test --offline --workspace 2>&1')
        if r.returncode: say(name, p, 'TESTS FAIL', r.stdout[-1500:]); continue
        hit = []
        flags = f'--no-default-features --features {p}'
        for mode, env, out, arg in (('normal', '', 'target', ''), ('guided', 'CARGO_TARGET_DIR=target/guided RUSTC_WRAPPER=$PWD/wrap.sh ', 'target/guided', '--guided')):
            r = sh(f'cd {d}/harness && rm -rf {out}/release/.fingerprint/subtile-*; {env}cargo build --release --offline --quiet {flags}')
            if r.returncode: say(name, 'does not build', r.stderr[-800:]); break
            r = sh(f'cd {d} && VERIF_SEED=1 VERIF_TIER=quick timeout 900 harness/{out}/release/vh check {p} {arg}')
            hit.append(f'{mode}:' + {0: 'missed', 1: 'CAUGHT'}.get(r.returncode, f'rc{r.returncode}'))
            if r.returncode == 1: hit.append(r.stdout.strip().splitlines()[0][:150])
        say(name, p, *hit)
ts = [threading.Thread(target=work, args=(n,)) for n in range(int(sys.argv[1]))]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(base)
