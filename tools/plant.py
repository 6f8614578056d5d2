#!/usr/bin/env python3
"""Confirms a planted change and files it under seeded/.

usage: plant.py SPEC.py [ID...]     SPEC.py defines BUGS, a list of dicts:
  id, property, needs, breaks, edits=[(file, old, new[, count])], kind='lib'|'cli', demo=source text
Everything happens in /tmp/pl (a copy of /repo); nothing is kept unless the tests pass with the
change, the demonstration fails with it and passes without it.
"""
import json, os, runpy, shutil, subprocess, sys, stat
PL = '/tmp/pl'
LIB_SH = '''#!/bin/bash
# Exit 0 when the repository in the current directory behaves, nonzero when it does not.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nrusty-chromaprint = { path = "%s/chromaprint" }\\n[workspace]\\n[profile.release]\\noverflow-checks = true\\n' "$R" > "$T/Cargo.toml"
cd "$T" || exit 2
cargo build --release --offline --quiet || exit 2
timeout 200 ./target/release/demo
'''
CLI_SH = '''#!/bin/bash
# Exit 0 when the repository in the current directory behaves, nonzero when it does not.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cargo build --release --offline --quiet -p fpcalc -p compare --target-dir "$T/t" || exit 2
if [ -f "$D/faults.c" ]; then gcc -shared -fPIC -o "$T/faults.so" "$D/faults.c" -ldl || exit 2; fi
cd "$T" || exit 2
T=$T timeout 200 python3 "$D/demo.py" "$T/t/release/fpcalc" "$T/t/release/compare"
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def fresh():
    sh(f'rsync -a --delete --exclude target /repo/ {PL}/repo/') if shutil.which('rsync') else None
    if not shutil.which('rsync'):
        os.makedirs(f'{PL}/repo', exist_ok=True)
        sh(f'cd /repo && git ls-files -z | xargs -0 cp -a --parents -t {PL}/repo; cp -a /repo/.git {PL}/repo/ 2>/dev/null; cd {PL}/repo && git checkout -q -- .')
def main():
    spec = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json'))['passed'])
    for b in spec['BUGS']:
        if want and b['id'] not in want: continue
        out = f"/verif/seeded/{b['id']}"
        if os.path.exists(out) and not want: continue
        fresh()
        ok = True
        for e in b['edits']:
            p = f'{PL}/repo/' + e[0]
            s = open(p).read()
            n = e[3] if len(e) > 3 else 1
            if s.count(e[1]) != n:
                print(b['id'], 'edit does not apply', e[0], repr(e[1][:60]), s.count(e[1])); ok = False; break
            open(p, 'w').write(s.replace(e[1], e[2]))
        if not ok: continue
        diff = sh('git diff', cwd=f'{PL}/repo').stdout
        t = sh('. /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=f'{PL}/repo', executable='/bin/bash', env={**os.environ, 'CARGO_TARGET_DIR': f'{PL}/target'})
        bad = [l for l in t.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l]
        good = sum(1 for l in t.stdout.splitlines() if l.startswith('test ') and l.endswith('... ok'))
        if bad or good < 48:
            print(b['id'], 'TESTS', good, bad[:4], t.stderr[-1500:] if good == 0 else ''); continue
        d = f'{PL}/demo'
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        lib = b['kind'] == 'lib'
        open(d + '/demo.sh', 'w').write(LIB_SH if lib else CLI_SH)
        open(d + ('/main.rs' if lib else '/demo.py'), 'w').write((spec.get('LIB_PRE', '') if lib else spec.get('CLI_PRE', '')) + b['demo'])
        if b.get('faults'): open(d + '/faults.c', 'w').write(spec['FAULTS'])
        os.chmod(d + '/demo.sh', 0o755)
        bad = sh(f'bash {d}/demo.sh', cwd=f'{PL}/repo')
        good = sh(f'bash {d}/demo.sh', cwd='/repo')
        if bad.returncode in (0, 2) or good.returncode != 0:
            print(b['id'], 'DEMO patched', bad.returncode, bad.stdout[-300:], bad.stderr[-600:], 'clean', good.returncode, good.stdout[-300:], good.stderr[-600:]); continue
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        print(b['id'], 'kept:', (bad.stdout + bad.stderr).strip().splitlines()[-1:][0][:150] if (bad.stdout + bad.stderr).strip() else bad.returncode, flush=True)
main()
