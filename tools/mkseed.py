#!/usr/bin/env python3
"""Makes planted bugs under /verif/seeded from a spec file and confirms each one.
spec: python file defining SEEDS = [dict(id, prop, pkg, edits=[(file, old, new)], test, needs, breaks, race=False)]
usage: mkseed.py spec.py [id...]"""
import sys, os, json, subprocess, shutil, tempfile, runpy
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeds = runpy.run_path(sys.argv[1])['SEEDS']
want = set(sys.argv[2:])
DEMO = '''#!/bin/sh
# Runs the demonstration test against the package in the current directory's repository.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 2
printf '{"Replace":{"%%s/%(full)s/zz_seed_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$D" > "$T/o.json"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=
cd %(mod)s || exit 2
timeout 200 go test -overlay "$T/o.json" %(race)s-run TestSeedDemo -count=1 -timeout 100s -vet=off ./%(pkg)s
rc=$?
rm -rf "$T"
exit $rc
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = subprocess.run(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],stdout=subprocess.PIPE,text=True).stdout.strip()
ok = 0
for s in seeds:
    if want and s['id'] not in want: continue
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        r = os.path.join(tmp, 'repo')
        sh('cp -a /repo %s' % r, '/')
        sh('git checkout -q -- . ', r)
        d = os.path.join(here, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(d+'/demo_test.go.txt','w').write(s['test'])
        open(d+'/demo.sh','w').write(DEMO % dict(mod=s.get('mod','.'), pkg=s['pkg'], full=(s['mod']+'/'+s['pkg'] if s.get('mod') else s['pkg']), race='-race ' if s.get('race') else ''))
        os.chmod(d+'/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d+'/meta.json','w'), indent=1)
        a = sh('bash %s/demo.sh' % d, r)
        if a.returncode != 0:
            print(s['id'], 'BAD: demo fails on the unchanged tree\n', a.stdout[-1500:]); continue
        bad = False
        for f, old, new in s['edits']:
            t = open(os.path.join(r, f)).read()
            if t.count(old) != 1:
                print(s['id'], 'BAD: edit matches', t.count(old), 'times:', old); bad = True; break
            open(os.path.join(r, f),'w').write(t.replace(old, new))
        if bad: continue
        diff = sh('git diff', r).stdout
        open(d+'/patch.diff','w').write(diff)
        # tests
        tj = os.path.join(tmp,'t.json')
        # run the repository's tests in the copy
        t = sh('for m in . types/uuid transport/wasmrs/cmd/wasmrs; do (cd $m && P=$(go list -e ./... | grep -v greeter/client) && (go build $(echo "$P" | grep -v wasmrs/testing) || echo FAIL-build) && go test -vet=off $P 2>&1 | grep -v "no test files"); done', r)
        b2 = sh('bash %s/demo.sh' % d, r)
        if 'FAIL' in t.stdout:
            print(s['id'], 'BAD: existing tests fail\n', t.stdout[-1500:]); continue
        if b2.returncode == 0:
            print(s['id'], 'BAD: demo passes with the patch'); continue
        if 'build failed' in b2.stdout:
            print(s['id'], 'BAD: does not build\n', b2.stdout[-1500:]); continue
        # changed lines must be original lines
        for f,_,_ in s['edits']: pass
        print(s['id'], 'ok'); ok += 1
    finally:
        shutil.rmtree(tmp)
print(ok, 'good')
