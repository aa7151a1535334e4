"""Makes a seeded bug: edits of a scratch copy of /repo, a demonstration, and the confirmation of both."""
import json, os, re, shutil, subprocess, sys, tempfile

V = '/verif'


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


DEMO = '''#!/bin/bash
# runs the program beside this file against the crate in the current directory
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
sed "s#REPO#$repo#; s#HERE#$here#" "$here/manifest.txt" > "$t/Cargo.toml"
for l in "$repo/%s" "$here/lock.txt"; do [ -f "$l" ] && cp "$l" "$t/Cargo.lock" && break; done
cd "$t"
CARGO_TARGET_DIR="$t/target" timeout 280 cargo run --offline -q %s
'''
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%s
[workspace]
%s'''
DEPS = {
    'pir': 'getrandom = "0.2"\nkeyword-pir-lwe = { path = "REPO" }\nbincode = "1"\nbase64 = "0.13"\nserde_json = "1"\n',
    'bff': 'xorf = { path = "REPO/bff-modp" }\n',
    'cli': 'pi-rs-cli-utils = { path = "REPO/pi-rs-cli-utils" }\n',
}
LOCK = {'pir': 'Cargo.lock', 'bff': 'bff-modp/Cargo.lock', 'cli': 'Cargo.lock'}


def make(id, prop, edits, demo, needs, breaks, kind='pir', flags='', patch='', files={}, test=True):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seed-')
    r = t + '/repo'
    try:
        sh(['cp', '-a', '/repo', r], '/')
        for f, a, b in edits:
            p = r + '/' + f
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        diff = sh('git diff', r).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.rs', 'w').write(demo)
        shutil.copy('/repo/' + LOCK[kind], d + '/lock.txt')
        for n, s in files.items():
            os.makedirs(os.path.dirname(d + '/' + n), exist_ok=True)
            open(d + '/' + n, 'w').write(s)
        open(d + '/manifest.txt', 'w').write(TOML % (DEPS[kind], patch))
        open(d + '/demo.sh', 'w').write(DEMO % (LOCK[kind], flags))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        good = sh(d + '/demo.sh', '/repo')
        bad = sh(d + '/demo.sh', r)
        print(id, 'good', good.returncode, 'bad', bad.returncode)
        if good.returncode:
            print(good.stdout[-1500:])
        print('   ', bad.stdout.strip()[-200:])
        if test:
            # the test suite, in the copy
            for dd in ('.', 'bff-modp'):
                o = sh('. /opt/vp/env.sh; timeout 300 cargo test --offline --no-fail-fast -- --test-threads 8 %s 2>&1 | grep -E "^test |test result|error" ' % ('--skip bfusep32:: --skip fuse8:: --skip fuse16:: --skip xor8:: --skip xor16::' if dd != '.' else ''), r + '/' + dd, timeout=900)
                fails = [l for l in o.stdout.splitlines() if 'FAILED' in l or 'error' in l]
                print('    tests', dd, o.stdout.count(' ok\n'), 'ok', fails[:5])
    finally:
        shutil.rmtree(t, ignore_errors=True)
