#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from spec*.py: each seed is an edit of /repo's sources and a demonstration."""
import difflib, glob, json, os, re, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, '..', '..', 'seeded')
SEEDS = []

def seed(id, needs, breaks, edits, demo, kind='rustc', flags=''):
    SEEDS.append(dict(id=id, needs=needs, breaks=breaks, edits=edits, demo=demo, kind=kind, flags=flags))

HEAD = '''#!/bin/bash
# Exits 0 if the property holds for the case shown in the file beside this script.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf -- "$tmp"' EXIT
export RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true
'''
RUSTC = HEAD + '''rustc --edition 2021 --cap-lints allow %(flags)s --crate-type lib --crate-name dynamixel2 \\
	--cfg 'feature="std"' --cfg 'feature="alloc"' --out-dir "$tmp" "$repo/src/lib.rs"
rustc --edition 2021 --cap-lints allow %(flags)s --extern dynamixel2="$tmp/libdynamixel2.rlib" -o "$tmp/demo" "$here/demo.rs"
timeout 120 "$tmp/demo"
'''
CARGO = HEAD + '''mkdir "$tmp/src"
cp "$here"/*.rs "$tmp/src"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
dynamixel2 = { path = "$repo", features = ["log"] }
serial2 = "*"
log = "*"
[[bin]]
name = "demo"
path = "src/demo.rs"
[workspace]
END
cp "$repo/Cargo.lock" "$tmp/" 2>/dev/null || true
(cd "$tmp" && cargo build --offline -q --target-dir "$tmp/target")
timeout 120 python3 "$here/run.py" "$tmp/target/debug/demo"
'''
TOOL = HEAD + '''cargo build --offline -q -p dynamixel2-cli --target-dir "$tmp/target"
timeout 120 python3 "$here/run.py" "$tmp/target/debug/dynamixel2" "$tmp"
'''

# Another byte order and pointer width.
MIRI = HEAD + '''mkdir "$tmp/src"
cp "$here"/*.rs "$tmp/src"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
dynamixel2 = { path = "$repo", default-features = false, features = ["std"] }
[[bin]]
name = "demo"
path = "src/demo.rs"
[workspace]
END
cp "$repo/Cargo.lock" "$tmp/" 2>/dev/null || true
export MIRI_SYSROOT="$tmp/sysroot" MIRIFLAGS=-Zmiri-disable-isolation
cargo +nightly miri setup --target mips-unknown-linux-gnu > "$tmp/log" 2>&1
cd "$tmp"
timeout 200 cargo +nightly miri run --offline -q --target mips-unknown-linux-gnu --target-dir "$tmp/target"
'''

def patch(edits):
    files = {}
    for path, old, new in edits:
        text = files.setdefault(path, [None, None])
        if text[0] is None:
            text[0] = text[1] = open('/repo/' + path).read()
        assert text[1].count(old) == 1, f'{path}: {text[1].count(old)} times: {old}'
        text[1] = text[1].replace(old, new)
    out = ''
    for path, (a, b) in files.items():
        out += f'diff --git a/{path} b/{path}\n'
        out += ''.join(l if l.endswith('\n') else l + '\n\\ No newline at end of file\n'
            for l in difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + path, 'b/' + path))
    return out

def main():
    for f in sorted(glob.glob(os.path.join(HERE, 'spec*.py'))):
        exec(compile(open(f).read(), f, 'exec'), globals())
    only = sys.argv[1:]
    for s in SEEDS:
        if only and s['id'] not in only:
            continue
        d = os.path.join(OUT, s['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        def put(name, text, mode=0o644):
            with open(os.path.join(d, name), 'w') as f:
                f.write(text)
            os.chmod(os.path.join(d, name), mode)
        put('patch.diff', patch(s['edits']))
        put('meta.json', json.dumps({'property': s['id'].split('-')[0], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
        if s['kind'] in ('rustc', 'miri'):
            put('demo.sh', MIRI if s['kind'] == 'miri' else RUSTC % s, 0o755)
            put('common.rs', open(os.path.join(HERE, 'common.rs')).read())
            put('demo.rs', 'mod common;\nuse common::*;\nuse dynamixel2::instructions::*;\nuse dynamixel2::*;\nuse std::time::Duration;\n\n' + s['demo'].strip('\n') + '\n')
        elif s['kind'] == 'cargo':
            put('demo.sh', CARGO, 0o755)
            if 'mod common' in s['demo'][0]:
                put('common.rs', open(os.path.join(HERE, 'common.rs')).read())
            put('demo.rs', s['demo'][0].strip('\n') + '\n')
            put('run.py', s['demo'][1].strip('\n') + '\n')
        elif s['kind'] == 'tool':
            put('demo.sh', TOOL, 0o755)
            put('run.py', s['demo'].strip('\n') + '\n')
        elif s['kind'] == 'sh':
            put('demo.sh', HEAD + s['demo'].strip('\n') + '\n', 0o755)
            put('common.rs', open(os.path.join(HERE, 'common.rs')).read())
    print(len(SEEDS), 'seeds')
main()
