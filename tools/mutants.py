#!/usr/bin/env python3
"""Mutation testing of the checks, in copies: mutants.py WORKERS MAX_PER_FILE SEED [file-substring...]
Small syntactic changes of /repo's sources that compile and pass its tests are run against the
checks that concern the file; survivors are printed, for a look at what they change."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time
W, MAXF, SEED = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
only = sys.argv[4:]
BASE = '/dev/shm/mut'
OUT = f'{BASE}/results-{SEED}.jsonl'
MAP = [
    ('vobsub/mpeg2', ['C03', 'C01', 'C04', 'C06', 'C02', 'C05', 'C29', 'C30']),
    ('vobsub/img', ['C02', 'C11', 'C12', 'C01', 'C06', 'C05', 'C03', 'C30']),
    ('vobsub/sub', ['C05', 'C04', 'C02', 'C03', 'C06', 'C01', 'C29', 'C30']),
    ('vobsub/palette', ['C08', 'C07', 'C12', 'C11']),
    ('vobsub/idx', ['C07', 'C08', 'C10']),
    ('vobsub/probe', ['C09', 'C10']),
    ('vobsub/decoder', ['C29', 'C04', 'C02', 'C01']),
    ('vobsub/mod', ['C05', 'C06', 'C01', 'C10', 'C07', 'C11']),
    ('pgs/pgs_image', ['C14', 'C20', 'C13', 'C21', 'C12', 'C30', 'C29']),
    ('pgs/', ['C14', 'C15', 'C17', 'C19', 'C18', 'C16', 'C13', 'C10', 'C29', 'C30']),
    ('image/', ['C22', 'C27', 'C21', 'C12', 'C11']),
    ('content/', ['C28', 'C05', 'C02', 'C11']),
    ('time/', ['C23', 'C24', 'C25', 'C04', 'C15']),
    ('srt', ['C25', 'C26']), ('webvtt', ['C25', 'C26']),
    ('', ['C25', 'C10']),
]
def sites(path):
    src = open(path).read()
    cut = src.find('#[cfg(test)]')
    body = src if cut < 0 else src[:cut]
    out = []
    off = 0
    for line in body.splitlines(keepends=True):
        s = line.strip()
        if not s or s.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'trace!', 'debug!', 'warn!')):
            off += len(line); continue
        code = line.split('//')[0]
        strs = [(m.start(), m.end()) for m in re.finditer(r'b?"(?:[^"\\]|\\.)*"', code)]
        def add(a, b, new):
            if any(x <= a < y for x, y in strs): return
            out.append((off + a, off + b, new))
        for pat, news in [
            (r' == ', [' != ']), (r' != ', [' == ']), (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']),
            (r' <= ', [' < ']), (r' >= ', [' > ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
            (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']), (r' / ', [' * ']), (r' % ', [' / ']),
            (r' << ', [' >> ']), (r' >> ', [' << ']), (r' \| ', [' & ']), (r' & ', [' | ']),
            (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']),
            (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
            (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']), (r'\.rev\(\)', ['']),
            (r'\.is_none\(\)', ['.is_some()']), (r'\.is_some\(\)', ['.is_none()']),
            (r'\.is_empty\(\)', ['.is_empty() == false']),
            (r'\bif !', ['if ']), (r'\bif (?!let|!)', ['if !']),
            (r'\.\.=', ['..']), (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;']),
            (r'saturating_', ['wrapping_']), (r'checked_sub', ['checked_add']),
            (r'be_u', ['le_u']), (r'from_be', ['from_le']),
            (r'\(0, 0\)', ['(1, 0)']),
        ]:
            for m in re.finditer(pat, code):
                for n in news: add(m.start(), m.end(), n)
        for m in re.finditer(r'(?<![\w.\'#])(0x[0-9A-Fa-f_]+|0b[01_]+|\d[\d_]*)(?:(_?)(u8|u16|u32|u64|i64|usize))?(?![\w.]*\w|\.\d)', code):
            t = m.group(1).replace('_', '')
            try: v = int(t, 0)
            except ValueError: continue
            for n in {v + 1, v - 1 if v else v + 1}:
                add(m.start(1), m.end(1), str(n))
        if re.match(r'^\s+[^/\s].*;\s*$', code) and not re.match(r'\s*(let|return|use|type|const|static|pub|impl|fn|\})', code) and code.count('(') == code.count(')') and code.count('{') == code.count('}'):
            add(len(code) - len(code.lstrip()), len(code.rstrip()), ';')
        off += len(line)
    return src, out
def sh(c, cwd, t=600):
    try:
        return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired as e:
        subprocess.run(f"pkill -f {cwd}", shell=True)
        return None
random.seed(SEED)
work = queue.Queue()
todo = []
for d, _, fs in os.walk('/repo/src'):
    for f in sorted(fs):
        p = os.path.relpath(os.path.join(d, f), '/repo')
        if only and not any(o in p for o in only): continue
        src, ss = sites('/repo/' + p)
        random.shuffle(ss)
        todo += [(p, s) for s in ss[:MAXF]]
random.shuffle(todo)
for t in todo: work.put(t)
print(len(todo), 'mutants', flush=True)
lock = threading.Lock()
def worker(k):
    r = f'{BASE}/w{k}'
    if not os.path.exists(r):
        os.makedirs(r)
    subprocess.run(f'/verif/tools/copy.sh {r}', shell=True, check=True)
    while True:
        try: p, (a, b, new) = work.get_nowait()
        except queue.Empty: return
        orig = open('/repo/' + p).read()
        line = orig.count('\n', 0, a) + 1
        desc = {'file': p, 'line': line, 'was': orig.splitlines()[line - 1].strip(), 'change': f'{orig[a:b]!r} -> {new!r}'}
        t0 = time.time()
        open(f'{r}/repo/{p}', 'w').write(orig[:a] + new + orig[b:])
        try:
            x = sh('cargo build --offline -q && timeout 60 cargo test --offline -q', r + '/repo', 300)
            if x is None or x.returncode: desc['result'] = 'build/tests'; continue
            x = sh('cargo build --release --offline -q', r + '/harness', 600)
            if x is None or x.returncode: desc['result'] = 'harness build'; continue
            checks = next(c for s, c in MAP if s in p)
            desc['result'] = 'SURVIVED'
            for c in checks:
                x = sh(f'VERIF_SEED=1 VERIF_TIER=quick timeout 600 target/release/vh check {c}', r + '/harness', 700)
                if x is None: desc['result'] = 'timeout ' + c; break
                if x.returncode == 1: desc['result'] = 'caught ' + c; break
                if x.returncode: desc['result'] = f'rc{x.returncode} {c} ' + x.stdout[-200:]; break
        finally:
            open(f'{r}/repo/{p}', 'w').write(orig)
            desc['s'] = round(time.time() - t0)
            with lock:
                open(OUT, 'a').write(json.dumps(desc) + '\n')
                if desc['result'] not in ('build/tests', 'harness build') and not desc['result'].startswith('caught'):
                    print(json.dumps(desc), flush=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
for t in ts: t.start(); time.sleep(1)
for t in ts: t.join()
