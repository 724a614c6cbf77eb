#!/usr/bin/env python3
"""Development aid: apply seeds in a scratch copy of /repo and list every property whose check would alarm."""
import os, subprocess, sys, json, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, B = '/tmp/tryrepo', '/tmp/trybuild'
os.environ['FXDEV_REPO'] = S; os.environ['FXDEV_BUILD'] = B
import os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec'))
def sh(c): return subprocess.run(c, shell=True, text=True, capture_output=True)
if not os.path.isdir(S): sh(f'git clone -q /repo {S}')
sh(f'git -C {S} fetch -q origin HEAD; git -C {S} reset -q --hard FETCH_HEAD')
if not os.path.isdir(B): sh(f'cp -a {V}/build {B}')
import build, check
v = '-v' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(os.path.join(V, 'seeded')+''))
for i in ids:
    p = i if i.endswith('.diff') else f'{V}/seeded/{i}/patch.diff'
    mj = os.path.join(os.path.dirname(p), 'meta.json')
    meta = json.load(open(mj)) if os.path.exists(mj) else {'property': ''}
    sh(f'git -C {S} checkout -q -- .')
    r = sh(f'git -C {S} apply {p}')
    if r.returncode: print(i, 'does not apply', r.stderr); continue
    try: fs, st = check.gather('try', False)
    except build.TreeError as e: print(i, 'TREE', str(e)[:500]); continue
    c = collections.Counter(); u = collections.Counter()
    kn = {(a, b) for a, b, _ in check.known()}
    for f in fs:
        for q in f.props:
            if (q, f.key()) in kn: continue
            (u if f.rule.startswith('undecided') else c)[q] += 1
    hit = meta['property'] in c
    print(i, 'CAUGHT' if hit else ('ELSEWHERE' if c else 'MISSED'), dict(c), ('undecided ' + str(dict(u))) if u else '', flush=True)
    if v:
        for f in fs[:12]: print('   ', sorted(f.props), f.rule, f.where, f.text[:300])
sh(f'git -C {S} checkout -q -- .')
