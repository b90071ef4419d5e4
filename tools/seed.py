#!/usr/bin/env python3
"""seed.py ID: (re)creates /verif/seeded/ID from /verif/tools/seeds/ID.py and confirms it in a scratch copy.

A seed file defines PROP, NEEDS, BREAKS, PKG, EDITS = [(file, old, new), ...] and DEMO (a Go test file with TestSeedDemo)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
DEMO = '''#!/bin/bash
# exit 0: the property holds in this run; non-zero: it is broken
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_seed_demo_test.go" "$D/demo_test.go" > "$T/o.json"
cd "$PWD" && go test -overlay "$T/o.json" -vet=off -count=1 -timeout 120s -run '^TestSeedDemo$' ./%(pkg)s
'''

def sh(cmd, cwd, quiet=True):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return r.returncode, r.stdout

def failing(cwd):
    rc, out = sh("go test -json -vet=off -count=1 $(go list ./... | grep -vx github.com/BTBurke/monny/pkg/monny) < /dev/null", cwd)
    f = set()
    for l in out.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get('Action') == 'fail' and e.get('Test'): f.add(e['Package'] + '.' + e['Test'])
    return f

def make(i):
    s = runpy.run_path('/verif/tools/seeds/%s.py' % i)
    d = '/verif/seeded/' + i
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seed.')
    w = t + '/r'
    try:
        subprocess.check_call(['cp', '-a', '/repo', w])
        for f, old, new in s['EDITS']:
            p = w + '/' + f
            src = open(p).read()
            if src.count(old) != 1:
                print(i, 'EDIT matches', src.count(old), 'times:', old); return False
            open(p, 'w').write(src.replace(old, new))
        rc, diff = sh('git diff', w)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo_test.go', 'w').write(s['DEMO'].lstrip())
        open(d + '/demo.sh', 'w').write(DEMO % {'pkg': s['PKG']})
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        rc, out = sh('go build ./...', w)
        if rc: print(i, 'BUILD', out); return False
        base = failing('/repo')
        bad = failing(w) - base
        if bad: print(i, 'TESTS FAIL', bad); return False
        # blame: changed lines must be original
        rc, out = sh('bash %s/demo.sh' % d, '/repo')
        if rc: print(i, 'DEMO fails on the unchanged tree', out); return False
        rc, out = sh('bash %s/demo.sh' % d, w)
        if rc == 0: print(i, 'DEMO passes with the patch'); return False
        if '[build failed]' in out: print(i, 'DEMO does not build', out); return False
        rc, base = sh('git diff efc89c5 --unified=0 HEAD', '/repo')
        added = set(l[1:] for l in base.splitlines() if l.startswith('+') and not l.startswith('+++'))
        touched = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        if touched and all(l in added for l in touched): print(i, 'WARNING only touches added lines')
        print(i, 'ok')
        return True
    finally:
        shutil.rmtree(t)

if __name__ == '__main__':
    ok = True
    for i in sys.argv[1:]:
        ok = make(i) and ok
    sys.exit(0 if ok else 1)
