"""Make and confirm planted bugs:  mkseeds.py FILE [ID ...]

FILE defines SEEDS: a list of dicts id, property, needs, breaks, edits [(file, old, new)], main (the demonstration's
main.rs).  Works in a scratch copy of /repo; a seed is written to /verif/seeded/<id> only if the change builds, passes the
stable tests, touches only lines of the original repository, and the demonstration tells both trees apart."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, VP = '/tmp/sw', '/tmp/vpsw'
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory, in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) && trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src" && cp "$here/main.rs" "$W/src/main.rs" || exit 2
cat > "$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[dependencies]
firrtl-ast = { path = "$PWD" }
num-bigint = "0.4"

[workspace]
EOF
cp Cargo.lock "$W/" 2>/dev/null
cd "$W" && CARGO_TARGET_DIR="$W/target" timeout 250 cargo run -q --offline
'''


def sh(cmd, cwd=W, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def prepare():
    if not os.path.exists(W):
        shutil.copytree('/repo', W, symlinks=True)
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq')
    os.makedirs(VP, exist_ok=True)
    for f in os.listdir('/opt/vp'):
        if f.endswith('.sh'):
            open(VP + '/' + f, 'w').write(open('/opt/vp/' + f).read().replace('/repo', W).replace('/opt/vp/env.sh', VP + '/env.sh'))


def tests():
    sh('bash %s/test.sh /tmp/sw-out.json' % VP)
    out = open('/tmp/sw/target/vp-test.log').read()
    ok = set(re.findall(r'^test (\S+) \.\.\. ok', out, re.M))
    want = {s.split('::', 1)[1] for s in json.load(open('/opt/vp/BASELINE.json'))['stable']}
    return want - ok


def run_demo(d):
    return sh('bash %s/demo.sh' % d, timeout=400)


def main():
    import importlib.util
    spec = importlib.util.spec_from_file_location('seeds', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = sys.argv[2:]
    prepare()
    for s in m.SEEDS:
        if only and s['id'] not in only:
            continue
        d = V + '/seeded/' + s['id']
        if not only and os.path.exists(d):
            continue
        sh('git checkout -q -- .')
        tmp = '/tmp/seed-' + s['id']
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + '/demo.sh', 'w').write(DEMO)
        open(tmp + '/main.rs', 'w').write(s['main'].lstrip())
        os.chmod(tmp + '/demo.sh', 0o755)
        r = run_demo(tmp)
        if r.returncode != 0:
            print(s['id'], 'DEMO FAILS ON CLEAN TREE', (re.findall(r'error.*(?:\n.*){4}', r.stderr) or [r.stderr[-300:]])[0])
            continue
        bad = None
        for f, old, new in s['edits']:
            p = W + '/' + f
            t = open(p).read()
            if t.count(old) != 1:
                bad = '%s: %d matches of %r' % (f, t.count(old), old[:60])
                break
            open(p, 'w').write(t.replace(old, new))
        if bad:
            print(s['id'], bad)
            continue
        diff = sh('git diff').stdout
        # lines of my own commits must stay untouched
        own = []
        for f in set(e[0] for e in s['edits']):
            bl = sh('git blame -s HEAD -- ' + f).stdout.splitlines()
            for h in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh('git diff -U0 -- ' + f).stdout, re.M):
                a, n = int(h.group(1)), int(h.group(2) or 1)
                own += [bl[i] for i in range(a - 1, a - 1 + n) if not bl[i].startswith('^')]
        if own:
            print(s['id'], 'touches lines of fixes:', own)
            continue
        b = sh('bash %s/build.sh' % VP)
        if b.returncode != 0:
            print(s['id'], 'DOES NOT BUILD', (re.findall(r'error.*(?:\n.*){4}', b.stdout + b.stderr) or [b.stderr[-300:]])[0])
            continue
        t = tests()
        if t:
            print(s['id'], 'TESTS FAIL', sorted(t))
            continue
        r = run_demo(tmp)
        if r.returncode == 0:
            print(s['id'], 'DEMO DOES NOT NOTICE')
            continue
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        shutil.rmtree(tmp)
        print(s['id'], 'ok:', [l for l in r.stderr.splitlines() if 'warning' not in l and ('panicked' in l or 'error' in l)][:1])
    sh('git checkout -q -- .')


main()
