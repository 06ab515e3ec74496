#!/usr/bin/env python3
"""Turns the planted bugs described in tools/seeds/*.py into seeded/<id>/.

Each bug is a call bug(id, prop, needs, breaks, edits, demo, ...). For every id
given (default: all whose description changed) the edits are made in a scratch
copy of /repo, which must build and pass its tests, and the demonstration must
exit 0 without and nonzero with the change. Only then is seeded/<id>/ written.
"""
import sys, os, subprocess, json, shutil, glob, hashlib, tempfile
ROOT = '/verif'
W = '/tmp/seedw'
BUGS = {}
DEMO = r'''#!/bin/bash
# Builds a small program against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cat >"$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
sparsetools = { path = "$repo"%(feat)s }
num-complex = "0.4"
num-traits = "0.2"
TOML
cd "$t" || exit 99
unset RUSTC_WRAPPER CARGO_BUILD_RUSTC_WRAPPER
export CARGO_TARGET_DIR=$t/target CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0%(env)s
cargo build --offline -q 2>build.log || { cat build.log; exit 98; }
timeout %(tmo)d "$t/target/debug/demo"
'''

def bug(id, prop, needs, breaks, edits, demo, eigs=False, tmo=120, env='', prelude=''):
    BUGS[id] = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, eigs=eigs, tmo=tmo, env=env)

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def scratch():
    if not os.path.isdir(W):
        os.makedirs(W)
        sh(f'cp -a /repo {W}/repo')
    sh(f'cd {W}/repo && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd')

ENV = '. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; ' % W

def tests():
    r = sh(ENV + f'cd {W}/repo && timeout 600 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8', executable='/bin/bash')
    ok = 0
    bad = []
    for l in r.stdout.splitlines():
        if l.startswith('test ') and l.endswith('... ok'): ok += 1
        elif l.startswith('test ') and 'FAILED' in l: bad.append(l)
    if 'error: could not compile' in r.stdout or 'error[' in r.stdout:
        return None, r.stdout[-3000:]
    return (ok, bad), r.stdout[-1500:]

def make(b):
    d = f'{ROOT}/seeded/{b["id"]}'
    scratch()
    tmp = f'{W}/demo'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    feat = ', features = ["eigs"]' if b['eigs'] else ''
    env = ('\n' + b['env']) if b['env'] else ''
    open(f'{tmp}/demo.sh', 'w').write(DEMO % dict(feat=feat, tmo=b['tmo'], env=env)); os.chmod(f'{tmp}/demo.sh', 0o755)
    open(f'{tmp}/main.rs', 'w').write(b['demo'].lstrip('\n'))
    r = sh(f'cd {W}/repo && {tmp}/demo.sh')
    if r.returncode != 0:
        print(b['id'], 'DEMO FAILS ON CLEAN TREE', r.returncode, r.stdout[-1500:]); return False
    for f, old, new in b['edits']:
        p = f'{W}/repo/src/{f}'
        s = open(p).read()
        if s.count(old) != 1:
            print(b['id'], 'EDIT DOES NOT MATCH ONCE', s.count(old), f, old[:80]); return False
        open(p, 'w').write(s.replace(old, new))
    t, out = tests()
    if t is None: print(b['id'], 'DOES NOT COMPILE', out); return False
    if t[1] or t[0] < 29: print(b['id'], 'TESTS FAIL', t, ''); return False
    r = sh(f'cd {W}/repo && {tmp}/demo.sh')
    if r.returncode in (0, 98, 99): print(b['id'], 'DEMO PASSES WITH THE CHANGE', r.returncode, r.stdout[-800:]); return False
    diff = sh(f'cd {W}/repo && git diff').stdout
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(f'{d}/patch.diff', 'w').write(diff)
    shutil.copy(f'{tmp}/demo.sh', d); shutil.copy(f'{tmp}/main.rs', d)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    open(f'{d}/.spec', 'w').write(spec(b)) if False else None
    print(b['id'], 'ok, demo rc', r.returncode, r.stdout.strip().splitlines()[-1:][:1])
    return True

def spec(b): return hashlib.sha256(repr(sorted(b.items())).encode()).hexdigest()

def main():
    for f in sorted(glob.glob(f'{ROOT}/tools/seeds/*.py')):
        exec(compile(open(f).read(), f, 'exec'), {'bug': bug})
    ids = sys.argv[1:] or [i for i in BUGS if not os.path.exists(f'{ROOT}/seeded/{i}/meta.json')]
    for i in ids: make(BUGS[i])
main()
