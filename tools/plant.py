#!/usr/bin/env python3
"""Turn a plant description into /verif/seeded/<id>/ after confirming it.

A description is a Python file defining
  prop, needs, breaks, edits=[(file, old, new), ...], pkg, test (Go test source)
The change must build, keep the stable tests and fail the demonstration; the
demonstration must pass without it. Everything runs in scratch copies.
usage: plant.py DESCRIPTION.py ...
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile

VERIF, REPO = '/verif', '/repo'
DEMO = '''#!/bin/bash
# run in the repository; exit 0 if the property holds for this example
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=
cat > "$t/o.json" <<END
{"Replace":{"$r/go.mod":"$d/go.mod.txt","$r/go.sum":"$d/go.sum.txt","$r/%(pkg)s/zz_demo_test.go":"$d/demo_test.go.txt"}}
END
timeout 200 go test -vet=off -count=1 -timeout 180s -overlay "$t/o.json" -run '^TestDemo$' ./%(pkg)s > "$t/log" 2>&1
rc=$?
tail -n 25 "$t/log"
exit $rc
'''


def run(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def tests(repo, work):
    """the stable tests, run in the copy"""
    vp = os.path.join(work, 'vp')
    shutil.copytree('/opt/vp', vp)
    for f in ('env.sh', 'test.sh', 'build.sh', 'gomod/overlay.json'):
        p = os.path.join(vp, f)
        s = open(p).read().replace('/opt/vp', vp).replace('/repo', repo)
        open(p, 'w').write(s)
    b = run(['bash', vp + '/build.sh'])
    if b.returncode:
        return 'build: ' + b.stdout[-800:]
    run(['bash', vp + '/test.sh', work + '/t.json'], timeout=900)
    base = json.load(open('/opt/vp/BASELINE.json'))
    got = json.load(open(work + '/t.json'))
    miss = set(base['stable']) - set(got['passed'])
    return 'fails: ' + ', '.join(miss) if miss else ''


def plant(path):
    m = runpy.run_path(path)
    name = os.path.basename(path)[:-3]
    work = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = work + '/repo'
        run(['cp', '-a', REPO, repo])
        for f, old, new in m['edits']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return '%s: text occurs %d times: %r' % (f, s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new))
        diff = run(['git', '-C', repo, 'diff']).stdout
        # only lines of the original repository may be changed
        for f in {e[0] for e in m['edits']}:
            blame = run(['git', '-C', repo, 'blame', '-s', 'HEAD', '--', f]).stdout.splitlines()
            for l in run(['git', '-C', repo, 'diff', '-U0', '--', f]).stdout.splitlines():
                h = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
                if h:
                    a, n = int(h[1]), int(h[2] or 1)
                    for k in range(a, a + n):
                        if not blame[k - 1].startswith('^'):
                            return 'changes a line that is not of the original repository: ' + blame[k - 1]
        d = work + '/demo'
        os.mkdir(d)
        shutil.copy('/opt/vp/gomod/go.mod', d + '/go.mod.txt')
        shutil.copy('/opt/vp/gomod/go.sum', d + '/go.sum.txt')
        open(d + '/demo.sh', 'w').write(DEMO % m)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo_test.go.txt', 'w').write(m['test'].lstrip())
        r = run(['bash', d + '/demo.sh'], cwd=repo, timeout=300)
        if r.returncode == 0:
            return 'the demonstration passes with the change'
        if 'build failed' in r.stdout or 'setup failed' in r.stdout:
            return 'does not build: ' + r.stdout
        why = r.stdout
        t = tests(repo, work)
        if t:
            return t
        run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        r = run(['bash', d + '/demo.sh'], cwd=repo, timeout=300)
        if r.returncode:
            return 'the demonstration fails without the change: ' + r.stdout
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': m['prop'], 'needs': m['needs'], 'what_it_breaks': m['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        dst = os.path.join(VERIF, 'seeded', name)
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(d, dst)
        return 'ok  (' + ' | '.join(x.strip() for x in why.splitlines() if 'demo_test' in x or 'panic' in x or 'FAIL' in x)[:160] + ')'
    finally:
        shutil.rmtree(work, ignore_errors=True)


for p in sys.argv[1:]:
    print(os.path.basename(p)[:-3], plant(p), flush=True)
