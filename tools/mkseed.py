"""mkseed.py SPEC.py : create /verif/seeded/<id> from a spec (ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN) and confirm the demonstration both ways in a scratch copy"""
import sys, os, subprocess, json, shutil, tempfile, runpy
m = runpy.run_path(sys.argv[1])
V = '/verif'
d = os.path.join(V, 'seeded', m['ID'])
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix='seed')
try:
    subprocess.check_call('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm base' % (w, w), shell=True)
    for f, old, new in m['EDITS']:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    open(os.path.join(d, 'patch.diff'), 'w').write(subprocess.check_output(['git', '-C', w, 'diff'], text=True))
    if 'MAIN' in m:
        open(os.path.join(d, 'main.rs'), 'w').write(m['MAIN'])
        shutil.copy(V + '/harness/Cargo.lock', d)
        open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# exit 0 when the behaviour is as specified (run with cwd = the repository)
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$D/main.rs" "$W/src/main.rs"
cp "$D/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<EOF
[package]
name = "harness"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
cryptovampire = { path = "$R/crates/cryptovampire" }
utils = { path = "$R/crates/utils", features = ["serde"] }
logic_formula = { path = "$R/crates/logic_formula", features = ["serde"] }
itertools = "0.13"
tempfile = "3.10"
log = { version = "0.4", features = ["release_max_level_warn"] }
clap = { version = "4.5", features = ["derive"] }
EOF
cd "$W"
CARGO_TARGET_DIR="$W/target" CARGO_INCREMENTAL=0 RUSTC_WRAPPER= cargo run --release --offline --quiet 2> "$W/err" || { s=$?; tail -n 20 "$W/err" >&2; exit $s; }
''')
    else:
        open(os.path.join(d, 'demo.sh'), 'w').write(m['DEMO'])
    json.dump(dict(property=m['PROPERTY'], needs=m['NEEDS'], what_it_breaks=m['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=w, capture_output=True, text=True)
    print(m['ID'], 'clean exit', r0.returncode, '| patched exit', r1.returncode, '|', (r1.stdout + r1.stderr)[-300:].replace('\n', ' '))
    if r0.returncode:
        print(r0.stderr[-2000:])
    ok = r0.returncode == 0 and r1.returncode not in (0, 101) or (r1.returncode == 101 and 'error' not in r1.stderr)
    print('DEMO', 'ok' if r0.returncode == 0 and r1.returncode != 0 and 'could not compile' not in r1.stderr else 'BAD')
finally:
    shutil.rmtree(w)
