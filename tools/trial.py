#!/usr/bin/env python3
"""Runs checks against changed copies of /repo, without touching /repo or /verif.

usage: trial.py [--dir DIR] [--jobs N] [--seed S] [--props own|all|C01,C02] [--thorough] [ID...]
DIR (default /verif/seeded) holds one folder per change with patch.diff and meta.json.
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, threading, queue, time
ap = argparse.ArgumentParser()
ap.add_argument('--dir', default='/verif/seeded'); ap.add_argument('--jobs', type=int, default=3)
ap.add_argument('--seed', default='1'); ap.add_argument('--props', default='own'); ap.add_argument('--thorough', action='store_true')
ap.add_argument('ids', nargs='*')
A = ap.parse_args()
ALL = [c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, executable='/bin/bash', **k)
todo = queue.Queue()
for d in sorted(glob.glob(A.dir + '/*/patch.diff')):
    i = d.split('/')[-2]
    if A.ids and i not in A.ids: continue
    try: own = json.load(open(os.path.dirname(d) + '/meta.json'))['property']
    except FileNotFoundError: own = None
    todo.put((i, d, own))
lock = threading.Lock(); res = []
def work(n):
    base = f'/tmp/tr/{n}'
    os.makedirs(base + '/verif', exist_ok=True); os.makedirs(base + '/repo', exist_ok=True)
    while True:
        try: i, d, own = todo.get_nowait()
        except queue.Empty: return
        sh(f'rsync -a --delete --exclude build --exclude seeded --exclude .git --exclude evidence --exclude out /verif/ {base}/verif/')
        sh(f'rsync -rlpc --delete --exclude target --exclude .git /repo/ {base}/repo/')
        sh(f'sed -i "s#/repo/#{base}/repo/#g" {base}/verif/sim/Cargo.toml {base}/verif/build.sh; mkdir -p {base}/verif/evidence')
        p = sh(f'cd {base}/repo && patch -p1 -s < {d}')
        if p.returncode: print(i, 'patch failed', p.stdout); continue
        props = [own] if A.props == 'own' else ALL if A.props == 'all' else A.props.split(',')
        for c in props:
            t = time.time()
            r = sh(f'bash check.sh {c} {"--thorough" if A.thorough else "--quick"}', cwd=base + '/verif', env={**os.environ, 'VERIF_SEED': A.seed, 'SIMCHECK_JOBS': str(max(2, 8 // A.jobs))})
            v = re.search(r'VIOLATION property=(\S+) replay=(\S+)', r.stdout)
            state = 'caught' if r.returncode == 1 and v else 'quiet' if r.returncode == 0 else f'ERROR {r.returncode} {r.stderr[-300:]}'
            note = ''
            if v:
                try: note = ' | '.join(l.strip() for l in open(v[2]).read().splitlines() if l.startswith('#'))[:260]
                except OSError: pass
                m = re.search(r'replay-\d+-(\d+)', v[2]); note = (f'run {m[1]} ' if m else '') + note
            with lock:
                res.append((i, c, state)); print(f'{i:26} {c} {state:7} {time.time()-t:5.0f}s {note}', flush=True)
th = [threading.Thread(target=work, args=(n,)) for n in range(A.jobs)]
[t.start() for t in th]; [t.join() for t in th]
print(sum(s == 'caught' for _, _, s in res), 'caught of', len(res))
