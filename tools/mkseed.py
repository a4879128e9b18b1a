#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a specification and validates it in a scratch copy.
usage: mkseed.py SPEC.py [ID...]   SPEC.py defines seeds = {id: dict(prop, file|files, edits=[(old,new)], pkg, demo, needs, breaks)}"""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {'os': os, 'V': V}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
def sh(cmd, cwd, t=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
DEMO = '''#!/bin/bash
# Runs the demonstration beside this file against the package it belongs to.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf -- "$T"' EXIT
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$D" > "$T/o.json"
go test -overlay "$T/o.json" -vet=off -count=1 -timeout 250s -run 'TestZZDemo' ./PKG/
'''
for sid, sp in ns['seeds'].items():
    if want and sid not in want: continue
    d = os.path.join(os.environ.get('SEEDS', os.path.join(V, 'seeded')), sid)
    tmp = tempfile.mkdtemp(prefix='seed')
    w = os.path.join(tmp, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', w])
        for f, old, new in sp['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            n = s.count(old)
            assert n == 1 or sp.get('all'), (sid, f, old, n)
            assert n >= 1, (sid, f, old)
            open(p, 'w').write(s.replace(old, new))
        rc, diff = sh(['git', 'diff'], w)
        rc, fm = sh(['gofmt', '-l', 'pkg', 'cmd'], w)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo_test.go', 'w').write(sp['demo'])
        open(d + '/demo.sh', 'w').write(sp.get('sh', DEMO).replace('PKG', sp['pkg']))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({"property": sp['prop'], "needs": sp['needs'], "what_it_breaks": sp['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        for x in sp.get('extra', []):
            subprocess.check_call(['cp', '-a', x, d])
            shutil.rmtree(d + '/stubs/go-ethereum', ignore_errors=True)
        ok = True
        env = dict(os.environ)
        def build_test(msg):
            global ok
            # the build scripts work on /repo: run the same commands in the copy
            rc, o = sh(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; cd %s && go build $PKGS && go test -vet=off -count=1 ./pkg/curve ./pkg/crypto/...' % w], w)
            if rc: print(sid, msg, 'BUILD/TEST FAILS', o[-600:]); ok = False
        build_test('patched')
        rc, o = sh(['bash', d + '/demo.sh'], w)
        if rc == 0: print(sid, 'DEMO PASSES WITH PATCH', o[-300:]); ok = False
        po = o
        sh(['git', 'checkout', '--', '.'], w)
        rc, o = sh(['bash', d + '/demo.sh'], w)
        if rc != 0: print(sid, 'DEMO FAILS ON CLEAN', o[-900:]); ok = False
        print(sid, sp['prop'], 'ok' if ok else 'BAD', '|', [l for l in po.splitlines() if l.strip()][:3])
        if not ok:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp)
