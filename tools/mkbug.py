#!/usr/bin/env python3
"""mkbug.py SPEC.py...: creates seeded/<id>/ from a spec defining ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (main.rs), FEATURES
(or BUGS, a list of dictionaries with these keys)."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def load(spec):
    g = {}
    exec(open(spec).read(), g)
    return g['BUGS'] if 'BUGS' in g else [g]
only = set(filter(None, os.environ.get('ONLY', '').split()))
for g in [b for s in sys.argv[1:] for b in load(s)]:
    if only and g['ID'] not in only: continue
    g = dict(dict(FEATURES=[], DEPS='', PROFILE=''), **g)
    d = os.path.join(V, 'seeded', g['ID'])
    os.makedirs(d, exist_ok=True)
    w = '/tmp/mkbug-wt'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, old, new in g['EDITS']:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (g['ID'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w, 'diff'])
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    shutil.rmtree(w)
    open(os.path.join(d, 'main.rs'), 'w').write(g['DEMO'])
    feats = ', features = [%s]' % ', '.join('"%s"' % x for x in g['FEATURES']) if g['FEATURES'] else ''
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# Builds and runs main.rs against the speedy crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
speedy = { path = "$repo"%s }
%s
%s
T
cd "$d" && CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable cargo run --offline --quiet
''' % (feats, g['DEPS'], g['PROFILE']))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('wrote', d)
