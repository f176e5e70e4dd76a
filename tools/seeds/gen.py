#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from seeds.py and confirm each seed in a scratch copy.
usage: gen.py [id...]: those named, or all that are not there yet"""
import os, sys, subprocess, shutil, json
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from seeds import SEEDS
import seeds_b, seeds_c, seeds_d, seeds_e
OUT = os.path.join(os.path.dirname(os.path.dirname(H)), 'seeded')
WT = '/dev/shm/seedwt'
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def fresh():
    if not os.path.isdir(WT):
        sh(f'cp -a /repo {WT}')
    sh(f'git -C {WT} checkout -q -- . && git -C {WT} fetch -q /repo HEAD && git -C {WT} reset -q --hard FETCH_HEAD')
def tests():
    sh(f'rm -rf {WT}/target/debug/.fingerprint/subtile-*')
    r = sh('cargo test --workspace --offline 2>&1', cwd=WT, env={**os.environ, 'CARGO_TARGET_DIR': WT + '/target'}, timeout=600)
    ok = {l.split()[1] for l in r.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('... ok')}
    return ok, r.stdout
ids = sys.argv[1:]
base = json.load(open('/opt/vp/BASELINE.json'))
fresh()
base_ok, _ = tests()
print('baseline', len(base_ok))
bad = []
for (id, prop, needs, breaks, edits, demo) in SEEDS:
    if (ids and id not in ids) or (not ids and os.path.isdir(f"{OUT}/{id}")): continue
    d = f'{OUT}/{id}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    fresh()
    err = None
    for (f, old, new) in edits:
        p = f'{WT}/{f}'; t = open(p).read()
        if t.count(old) != 1:
            # replace the last one (image decoder comes last)
            if t.count(old) == 0: err = f'no match in {f}: {old[:60]!r}'; break
            i = t.rindex(old); t = t[:i] + new + t[i+len(old):]
        else: t = t.replace(old, new)
        open(p, 'w').write(t)
    if err: print(id, 'EDIT', err); bad.append(id); continue
    open(f'{d}/patch.diff', 'w').write(sh(f'git -C {WT} diff').stdout)
    shutil.copy(f'{H}/common.rs', d); shutil.copy(f'{H}/demo.sh', d); os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/demo.rs', 'w').write('mod common;\nuse common::*;\n\nfn main() {' + demo.replace('\n', '\n') + '}\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    ok, out = tests()
    miss = base_ok - ok
    r1 = sh(f'{d}/demo.sh', cwd=WT)
    sh(f'git -C {WT} checkout -q -- .')
    r0 = sh(f'{d}/demo.sh', cwd=WT)
    good = not miss and r1.returncode not in (0, 3, 4) and r0.returncode == 0
    print(id, 'OK' if good else 'BAD', 'missing', sorted(miss)[:3], 'patched', r1.returncode, 'clean', r0.returncode, flush=True)
    if not good:
        bad.append(id)
        if miss: print(out[-1500:])
        print((r1.stderr + r1.stdout)[-800:]); print('CLEAN', (r0.stderr + r0.stdout)[-1200:])
fresh()
print('bad:', bad)
