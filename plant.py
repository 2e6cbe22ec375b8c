#!/usr/bin/env python3
"""Development helper: turns a bug description into seeded/<id>/ after confirming it.
usage: plant.py SPEC.py  (SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO=rust main.rs or SH=shell)"""
import sys, os, subprocess, json, re
BASE = '9de3416'
R = '/repo'; V = '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO_SH = r'''#!/bin/bash
# exit 0: the property holds on this example; nonzero: it does not
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf -- "$T"' EXIT
mkdir "$T/src" && cp "$D/demo.rs" "$T/src/main.rs" && cp "$R/Cargo.lock" "$T/" || exit 99
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
nom-exif = { path = "$R", features = ["tokio"] }
bytes = "1"
tokio = { version = "1", features = ["rt", "macros", "io-util", "fs"] }
[workspace]
X
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo build -q --offline 2> "$T/log" || { cat "$T/log"; exit 99; }
cd "$R" && timeout 120 "$T/target/debug/demo"
'''
def main(spec):
    s = {}
    exec(open(spec).read(), s)
    i = s['ID']; d = f'{V}/seeded/{i}'
    assert sh(f'git -C {R} status --porcelain').stdout.strip() == '', 'repo dirty'
    try:
        for f, a, b in s['EDITS']:
            p = f'{R}/{f}'; t = open(p).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(p, 'w').write(t.replace(a, b))
        diff = sh(f'git -C {R} diff').stdout
        # removed lines must be original
        ok = True
        for f in {e[0] for e in s['EDITS']}:
            rem = []
            ln = 0
            for l in sh(f'git -C {R} diff -U0 {f}').stdout.splitlines():
                m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
                if m:
                    n = int(m[2] or 1); rem += list(range(int(m[1]), int(m[1]) + n))
            bl = sh(f'git -C {R} blame -s HEAD -- {f}').stdout.splitlines()
            for r in rem:
                orig = bl[r-1].startswith('^') or bl[r-1].startswith(BASE)
                print('   ', 'orig' if orig else 'MINE', bl[r-1][:110])
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        if 'DEMO' in s:
            open(f'{d}/demo.rs', 'w').write(s['DEMO']); open(f'{d}/demo.sh', 'w').write(DEMO_SH)
        else:
            open(f'{d}/demo.sh', 'w').write(s['SH'])
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump(dict(property=s['PROP'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(f'{d}/meta.json', 'w'), indent=1)
        if '--no-test' not in sys.argv:
            r = sh(f'{V}/t.sh'); print('tests:', r.stdout.strip()[-300:])
        r = sh(f'bash {d}/demo.sh', cwd=R); print('demo with bug:', r.returncode, (r.stdout + r.stderr)[-400:].strip())
        for p in [s['PROP']] + s.get('ALSO', []):
            if '--no-check' in sys.argv: break
            r = sh(f'{V}/check.sh {p} quick', cwd=V); print('check', p, r.returncode, (r.stdout + r.stderr)[-500:].strip())
    finally:
        sh(f'git -C {R} checkout -- .')
    r = sh(f'bash {d}/demo.sh', cwd=R); print('demo clean:', r.returncode, (r.stdout + r.stderr)[-400:].strip())
for spec in [a for a in sys.argv[1:] if not a.startswith('-')]:
    print('==', spec); main(spec)
