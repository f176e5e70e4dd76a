#!/usr/bin/env python3
"""Run checks against planted bugs: run_seeded.py [--all] [id...]
Applies each patch to /repo, runs the check of its property (or, with --all, every check),
and undoes it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
all_checks = '--all' in args
ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(f'{V}/seeded'))
props = [f'C{i:02}' for i in range(1, 34)]
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
assert not sh('git -C /repo status --porcelain').stdout
res = {}
for id in ids:
    p = json.load(open(f'{V}/seeded/{id}/meta.json'))['property']
    r = sh(f'git -C /repo apply {V}/seeded/{id}/patch.diff')
    assert r.returncode == 0, r.stderr
    try:
        out = []
        for c in (props if all_checks else [p]):
            t = time.time()
            r = sh(f'cd {V} && VERIF_SEED=1 VERIF_TIER=quick ./check.sh {c}')
            caught = r.returncode == 1 and f'VIOLATION property={c}' in r.stdout
            if caught or (c == p) or r.returncode not in (0, 1):
                out.append(c + ('' if caught else f':rc{r.returncode}') + ('' if c != p else '*'))
            if c == p and not caught:
                print('   ', (r.stdout + r.stderr)[-300:].replace('\n', ' | '))
            el = time.time() - t
        print(id, p, 'CAUGHT' if any(o == p + '*' for o in out) else 'MISSED', ' '.join(out), flush=True)
    finally:
        sh('git -C /repo checkout -- .')
