#!/usr/bin/env python3
"""seed.py SPEC.py [ID..]: makes and confirms planted bugs (development only).
SPEC.py defines BUGS = {id: dict(property, file, edits=[(old,new)], demo, deps, needs, what)}"""
import os, subprocess, sys, json, shutil
V = '/verif'
spec = {}
exec(open(sys.argv[1]).read(), spec)
ids = sys.argv[2:] or list(spec['BUGS'])
def sh(c, cwd, timeout=900):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
DEMO = '''#!/bin/bash
# builds main.rs beside this file against the crates in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" && cp "$here/main.rs" "$t/src/main.rs" && cp Cargo.lock "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
matchit = { path = "$PWD/matchit" }
rapiddlt = { path = "$PWD/rapiddlt" }
zerocopy = "0.7.32"
EOF
cd "$t" && CARGO_NET_OFFLINE=true timeout 250 cargo run --offline -q 2>&1
'''
for i in ids:
    b = spec['BUGS'][i]
    d = '%s/seeded/%s' % (V, i)
    os.makedirs(d, exist_ok=True)
    w = '/tmp/seedwork/repo'
    shutil.rmtree(w, ignore_errors=True)
    sh('cp -a /repo %s' % w, '/tmp')
    ok = True
    for f, old, new in b['edits']:
        t = open(w + '/' + f).read()
        if t.count(old) != 1:
            print(i, 'old text occurs', t.count(old), 'times:', old[:60]); ok = False
        t = t.replace(old, new, 1)
        open(w + '/' + f, 'w').write(t)
    if not ok: continue
    rc, diff = sh('git diff', w)
    open(d + '/patch.diff', 'w').write(diff)
    # removed lines have to be of the original commit
    for f in {e[0] for e in b['edits']}:
        rc, u = sh('git diff -U0 -- %s' % f, w)
        for l in u.splitlines():
            if l.startswith('@@'):
                a = l.split()[1][1:].split(',')
                n = int(a[1]) if len(a) > 1 else 1
                if n:
                    rc, o = sh('git blame -s -L %s,+%d HEAD -- %s' % (a[0], n, f), w)
                    if any(not x.startswith('^') for x in o.splitlines()): print(i, 'NOT ORIGINAL:', o)
    if 'demo_sh' in b:
        open(d + '/demo.sh', 'w').write(b['demo_sh'])
    else:
        open(d + '/demo.sh', 'w').write(DEMO)
        open(d + '/main.rs', 'w').write(b['demo'])
    for n, t in b.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what']), open(d + '/meta.json', 'w'), indent=1)
    rc0, o0 = sh('bash %s/demo.sh' % d, '/repo', 300)
    rc1, o1 = sh('bash %s/demo.sh' % d, w, 300)
    # tests in the scratch copy
    rcb, ob = sh('bash /tmp/seedwork/vp/test.sh /tmp/seedwork/out.json', w)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    r = json.load(open('/tmp/seedwork/out.json')) if os.path.exists('/tmp/seedwork/out.json') else {}
    passed = set(r.get('passed', r.get('pass', [])))
    fails = sorted(stable - passed)
    print(i, 'demo clean', rc0, 'patched', rc1, 'build', rcb, 'stable fails', fails, '' if rc0 == 0 else o0[-500:], '' if rc1 else o1[-300:])
    print('    ', o1.strip()[-200:])
shutil.rmtree('/tmp/seedwork/repo', ignore_errors=True)
