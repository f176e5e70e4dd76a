#!/usr/bin/env python3
"""Run checks against the planted bugs in copies: matrix.py WORKERS [--all] [--normal | --guided] [id...]
--normal: without the guided search; --guided: only it. Leaves /repo and /verif alone; prints for each bug the checks that report it."""
import json, os, subprocess, sys, threading, queue, shutil, time
V = '/verif'
workers = int(sys.argv[1])
args = sys.argv[2:]
every = '--all' in args
modes = [m for m in ('normal', 'guided') if '--' + m in args] or ['normal', 'guided']
GUIDED = 'CARGO_TARGET_DIR=target/guided RUSTC_WRAPPER=$PWD/wrap.sh '
ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(f'{V}/seeded'))
props = [f'C{i:02}' for i in range(1, 36)]
base = '/dev/shm/matrix'
q = queue.Queue()
for i in ids: q.put(i)
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
lock = threading.Lock()
def work(n):
    d = f'{base}/w{n}'
    sh(f'{V}/tools/copy.sh {d}')
    while True:
        try: id = q.get_nowait()
        except queue.Empty: return
        p = json.load(open(f'{V}/seeded/{id}/meta.json'))['property']
        r = sh(f'cd {d}/repo && git checkout -q -- . && git apply {V}/seeded/{id}/patch.diff')
        if r.returncode: print(id, 'does not apply', r.stderr); continue
        r = sh(f'cd {d}/harness && rm -rf target/release/.fingerprint/subtile-* target/guided/release/.fingerprint/subtile-*; '
               + ' && '.join((GUIDED if m == 'guided' else '') + 'cargo build --release --offline --quiet' + ('' if every else f' --no-default-features --features {p}') for m in modes))
        if r.returncode: print(id, 'does not build', r.stderr[-500:]); continue
        hit = []
        for c in props if every else [p]:
            for m in modes:
                t = time.time()
                r = sh(f'cd {d} && VERIF_SEED=1 VERIF_TIER=quick harness/target/' +
                       (f'guided/release/vh check {c} --guided' if m == 'guided' else f'release/vh check {c}'))
                if r.returncode == 0: continue
                if r.returncode == 1 and f'VIOLATION property={c}' in r.stdout: hit.append(c + ('+' if m == 'guided' else ''))
                else: hit.append(f'{c}:{m}:rc{r.returncode}')
                break
        with lock: print(id, p, 'CAUGHT' if p in hit or p + '+' in hit else 'MISSED', *hit, flush=True)
ts = [threading.Thread(target=work, args=(n,)) for n in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(base)
