#!/usr/bin/env python3
"""seed.py FILE.py ...: makes /verif/seeded/<id>/ from bug descriptions and confirms each one in a
scratch copy of /repo (/tmp/sr): compiles, the stable tests pass, the demonstration passes without
the change and fails with it.  A description is a Python file defining
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (main.rs)."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = '/tmp/sr'
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory's repository and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ublox = { path = "$repo/ublox", default-features = false, features = ["std", "alloc"@SF@] }
@SD@chrono = { version = "0.4.19", default-features = false }
T
cd "$w" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" cargo run --offline --quiet
'''
# for the derive macros: the definitions in main.rs compile, with those under cfg(bad) they must not
DERIVE = DEMO.split('[dependencies]')[0].replace('and runs it', '; the part under cfg(bad) must be refused') + '''[dependencies]
ublox_derive = { path = "$repo/ublox_derive" }
bitflags = "2.3.1"
T
cd "$w" && export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
cargo check --offline --quiet || { echo "the good definitions do not compile"; exit 1; }
if RUSTFLAGS="--cfg bad" cargo check --offline --quiet 2> "$w/err"; then echo "the bad definition compiles"; exit 1; fi
grep -q "could not compile .demo" "$w/err" || { cat "$w/err"; exit 1; }
'''
def sh(c, cwd=None, t=900):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode('utf8', 'replace')
def tests():
    js = '/tmp/seedwork/t.json'
    log = '/tmp/seedwork/cargo-0.log'
    sh("bash -c '. /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline --features ublox/alloc -- --test-threads 8 > %s 2>&1'" % log, SR)
    sh('python3 /opt/vp/results.py %s "cargo:%s"' % (js, log))
    r = json.load(open(js)); st = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [x for x in st if x not in r['passed']]
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    d = V + '/seeded/' + g['ID']
    os.makedirs(d, exist_ok=True)
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', SR)
    ok = True
    for (fn, old, new) in g['EDITS']:
        p = SR + '/' + fn
        s = open(p).read()
        if s.count(old) != 1: print(g['ID'], 'edit matches', s.count(old), 'times:', old[:60]); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    if not ok: continue
    rc, diff = sh('git diff', SR)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/main.rs', 'w').write(g['DEMO'])
    open(d + '/demo.sh', 'w').write(DERIVE if g.get('DERIVE') else DEMO.replace('@SF@', ', "serde"' if g.get('SERDE') else '').replace('@SD@', 'serde_json = "1.0.85"\n' if g.get('SERDE') else '')); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    bad = tests()
    rc1, o1 = sh(d + '/demo.sh', SR)
    sh('git checkout -q -f .', SR)
    rc0, o0 = sh(d + '/demo.sh', SR)
    good = not bad and rc0 == 0 and rc1 != 0
    print(g['ID'], 'OK' if good else 'NOT CONFIRMED', 'tests failing:', bad, 'demo without:', rc0, 'with:', rc1)
    if not good: print('--- without\n', o0[-1500:] if rc0 else '', '--- with\n', o1[-700:])
    elif 'error' in o1 and 'panicked' not in o1: print(o1[-800:])
