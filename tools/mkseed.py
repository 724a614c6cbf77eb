#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/<id>.seed and confirms it in a scratch copy of /repo.

A .seed file: sections starting with a line '%% <name>'; 'meta' (json with property, needs, what_it_breaks and
optionally features), 'edit <file>' (old text, a line '====', new text; may repeat) and 'main' (Rust program that
exits non-zero when the bug shows)."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = '/tmp/seedrepo'; SRC = os.environ.get('FXDEV_REPO', '/repo')
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat >"$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
fieldx = { path = "$repo/fieldx", features = [%s] }
parking_lot = "0.12"
tokio = { version = "1.39", default-features = false, features = ["sync", "macros", "rt", "rt-multi-thread", "time"] }
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
%s[patch.crates-io]
fieldx_aux = { path = "$repo/fieldx_aux" }
fieldx_derive = { path = "$repo/fieldx_derive" }
fieldx_derive_support = { path = "$repo/fieldx_derive_support" }
fieldx = { path = "$repo/fieldx" }
END
cd "$work" || exit 2
export CARGO_TARGET_DIR="$work/target" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
timeout 200 cargo build -q --offline 2>"$work/err" || { tail -n 40 "$work/err"; exit 1; }
timeout 60 "$work/target/debug/demo"
'''

def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)

def scratch():
    if not os.path.isdir(S):
        sh(f'cp -a /repo {S}')
    sh(f'git -C {S} fetch -q {SRC} HEAD && git -C {S} reset -q --hard FETCH_HEAD')

def parse(path):
    cur = None; out = {'edits': []}
    for line in open(path).read().split('\n'):
        m = re.match(r'%% (\w+)\s*(.*)', line)
        if m:
            cur = [m.group(1), m.group(2), []]
            out['edits' if cur[0] == 'edit' else cur[0]] = out['edits'] + [cur] if cur[0] == 'edit' else cur
        elif cur is not None:
            cur[2].append(line)
    meta = json.loads('\n'.join(out['meta'][2])); main = '\n'.join(out['main'][2]).strip() + '\n'
    edits = []
    for _, f, ls in out['edits']:
        old, new = '\n'.join(ls).split('\n====\n')
        edits.append((f.strip(), old.strip('\n'), new.strip('\n')))
    return meta, edits, main

def errs(t):
    m = re.findall(r'^error[\s\S]*?(?:\n\n|\Z)', t, re.M)
    return '\n'.join(m)[:900] or t[-500:]

def norm(s): return re.sub(r'\s+', ' ', s).strip()

def apply(edits):
    for f, old, new in edits:
        p = f'{S}/{f}'; t = open(p).read()
        # whitespace-insensitive search
        pat = r'\s+'.join(re.escape(w) for w in old.split())
        ms = list(re.finditer(pat, t))
        assert len(ms) == 1, (f, old, len(ms))
        t = t[:ms[0].start()] + new.strip() + t[ms[0].end():]
        open(p, 'w').write(t)

def tests():
    # the test script works on /repo; run the same configurations in the scratch copy
    r = sh(f"sed 's#/repo#{S}#g' /opt/vp/test.sh >/tmp/seed_test.sh; sed 's#/repo#{S}#g' /opt/vp/env.sh >/tmp/seed_env.sh; sed -i 's#/opt/vp/env.sh#/tmp/seed_env.sh#' /tmp/seed_test.sh; bash /tmp/seed_test.sh /tmp/seed_out.json")
    base = json.load(open('/opt/vp/BASELINE.json')); out = json.load(open('/tmp/seed_out.json'))
    return base, out, r.stdout

def passed(o):
    for k in ('passed', 'pass'):
        if k in o and isinstance(o[k], list): return set(map(str, o[k]))
    raise SystemExit('format ' + str(list(o)[:5]))

def main():
    ids = sys.argv[1:]
    quick = '--no-tests' in ids; ids = [i for i in ids if not i.startswith('--')]
    for i in ids:
        meta, edits, prog = parse(f'{V}/tools/seeds/{i}.seed')
        scratch()
        d = f'{V}/seeded/{i}'; os.makedirs(d, exist_ok=True)
        feats = meta.pop('features', ['sync', 'async', 'serde'])
        open(f'{d}/main.rs', 'w').write(prog)
        open(f'{d}/demo.sh', 'w').write(DEMO % (', '.join(f'"{x}"' for x in feats), meta.pop('deps', ''))); os.chmod(f'{d}/demo.sh', 0o755)
        json.dump(meta, open(f'{d}/meta.json', 'w'), indent=1)
        r0 = sh(f'{d}/demo.sh', cwd=S)
        try: apply(edits)
        except AssertionError as e: print(i, 'EDIT FAILS', e); continue
        open(f'{d}/patch.diff', 'w').write(sh(f'git -C {S} diff').stdout)
        r1 = sh(f'{d}/demo.sh', cwd=S)
        ok = r0.returncode == 0 and r1.returncode != 0
        msg = ''
        if ok and not quick:
            base, out, log = tests()
            miss = set(base['stable']) - passed(out)
            if miss: ok = False; msg = f'tests fail: {sorted(miss)[:5]} {len(miss)}'
        print(i, 'OK' if ok else 'BAD', 'clean', r0.returncode, 'patched', r1.returncode, msg, flush=True)
        if not ok or '-v' in sys.argv:
            print('--- clean\n', errs(r0.stdout), '\n--- patched\n', errs(r1.stdout))
        sh(f'git -C {S} checkout -q -- .')
        if not ok: shutil.rmtree(d)
main()
