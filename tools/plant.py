#!/usr/bin/env python3
"""Development tool (no check uses it): builds /verif/seeded/<id>/ from a bug spec,
after confirming the bug in a scratch copy of /repo.

A spec is a Python file defining BUGS, a list of dicts with
  id, prop, pkg, needs, what, edits=[(file, old, new), ...], demo (Go test source).
usage: plant.py SPEC.py [id ...]
"""
import importlib.util, json, os, shutil, subprocess, sys

BASE = '15cd4ca'
ENV = dict(os.environ, HOME='/root', GOROOT='/opt/veriftools/go1.26.10',
           PATH='/opt/veriftools/go1.26.10/bin:' + os.environ['PATH'], GOPATH='/root/go',
           GOCACHE='/root/.cache/go-build', GO111MODULE='on', GOTOOLCHAIN='local',
           GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')

DEMO_SH = '''#!/bin/bash
# Runs the demonstration test as an extra test file of package ./%(pkg)s (go test -overlay).
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOROOT=/opt/veriftools/go1.26.10 GOPATH=/root/go GOCACHE=/root/.cache/go-build
export PATH=/opt/veriftools/go1.26.10/bin:$PATH
export GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkgp)szz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
timeout 250 go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 200s%(flags)s -run '^TestDemo$' ./%(pkg)s
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def plant(b):
    d = '/tmp/plant_work'
    if os.path.isdir(d):
        shutil.rmtree(d)
    shutil.copytree('/repo', d, symlinks=True)
    out = '/tmp/plant_out/' + b['id']
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    open(out + '/demo_test.go', 'w').write(b['demo'].lstrip())
    pkg = b['pkg']
    open(out + '/demo.sh', 'w').write(DEMO_SH % {'pkg': pkg, 'pkgp': pkg + '/' if pkg else '', 'flags': b.get('flags', '')})
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']},
              open(out + '/meta.json', 'w'), indent=1)
    r = sh(['bash', out + '/demo.sh'], d)
    if r.returncode != 0:
        return 'DEMO FAILS CLEAN\n' + r.stdout[-3000:]
    for f, old, new in b['edits']:
        p = os.path.join(d, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            return 'EDIT matches %d times in %s: %r' % (n, f, old)
        open(p, 'w').write(s.replace(old, new))
    r = sh(['gofmt', '-l', '.'], d)
    pre = sh(['gofmt', '-l', '.'], '/repo').stdout
    if r.stdout != pre:
        return 'GOFMT ' + r.stdout
    diff = sh(['git', 'diff'], d).stdout
    open(out + '/patch.diff', 'w').write(diff)
    # the changed lines have to be lines of the original repository
    orig = changed = 0
    for l in sh(['git', 'diff', '-U0'], d).stdout.splitlines():
        if l.startswith('@@'):
            h = l.split()[1][1:]
            st, n = (h.split(',') + ['1'])[:2]
            st, n = int(st), int(n)
            for i in range(st, st + n):
                bl = sh(['git', 'blame', '-l', '-L', '%d,%d' % (i, i), 'HEAD', '--', cur], d).stdout
                mine = bl.split()[0].lstrip('^') in MINE
                changed += 1
                orig += not mine
        elif l.startswith('--- a/'):
            cur = l[6:]
    if orig == 0:
        return 'NO ORIGINAL LINES CHANGED (%d changed)' % changed
    r = sh(['go', 'build', './...'], d)
    if r.returncode:
        return 'BUILD\n' + r.stdout[-2000:]
    r = sh(['go', 'test', '-vet=off', '-count=1', './...'], d)
    if r.returncode:
        return 'TESTS FAIL\n' + '\n'.join(x for x in r.stdout.splitlines() if 'FAIL' in x)[:1500]
    r = sh(['bash', out + '/demo.sh'], d)
    if r.returncode == 0:
        return 'DEMO PASSES PATCHED'
    if 'TestDemo' not in r.stdout and 'panic' not in r.stdout:
        return 'DEMO FAILS ODDLY\n' + r.stdout[-2000:]
    shutil.rmtree(d)
    fin = '/verif/seeded/' + b['id']
    if os.path.isdir(fin):
        shutil.rmtree(fin)
    shutil.copytree(out, fin)
    return 'ok (%d/%d original lines)' % (orig, changed)

MINE = set(sh(['git', 'rev-list', BASE + '..HEAD'], '/repo').stdout.split())
spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
for b in m.BUGS:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
        continue
    print(b['id'], ':', plant(b), flush=True)
