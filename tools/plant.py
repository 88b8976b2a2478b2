#!/usr/bin/env python3
"""Development tool: writes /verif/seeded/<id> from a spec, and confirms it.

usage: plant.py SPECS.py ID...         write and confirm (builds, stable tests pass, demo 0 / nonzero)
       plant.py --check ID [PROP...]   run the checks against the planted bug (in a scratch copy)
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
ENV = '''export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
'''
DEMO = '''#!/bin/bash
# Exit 0 if the behaviour is right, nonzero if it is broken. Run in the repository.
here=$(cd "$(dirname "$0")" && pwd)
%swork=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cat > "$work/overlay.json" <<EOF
{"Replace": {"$PWD/%s/zz_demo_test.go": "$here/demo_test.go.txt"}}
EOF
go test -vet=off -count=1 %s-overlay "$work/overlay.json" -run '^TestDemo$' -timeout 200s ./%s
'''


def sh(cmd, cwd=None, **kw):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def copy(name):
    d = '/tmp/plant/' + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    sh('cp -a /repo ' + d)
    sh('git checkout -q -- . && git clean -fdq', d)
    return d


def test(d):
    rc, out = sh(ENV + 'go build ./... && GOOS=js GOARCH=wasm go build ./srpc ./rpcstream ./echo ./mock', d)
    if rc:
        return 'build: ' + out
    log = tempfile.mktemp()
    sh(ENV + 'go test -json -vet=off -count=1 -timeout 10m ./... > ' + log, d)
    ok = set()
    for l in open(log):
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get('Action') == 'pass' and j.get('Test'):
            ok.add(j['Package'] + '/' + j['Test'])
    os.unlink(log)
    bad = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in ok]
    return 'tests failed: %s' % bad if bad else ''


def plant(b):
    i = b['id']
    out = os.path.join(S, i)
    d = copy(i)
    for fn, old, new in b['edits']:
        t = open(os.path.join(d, fn)).read()
        if t.count(old) != 1:
            return 'edit of %s: %d matches' % (fn, t.count(old))
        open(os.path.join(d, fn), 'w').write(t.replace(old, new))
    sh(ENV + 'gofmt -w ' + ' '.join(e[0] for e in b['edits'] if e[0].endswith('.go')), d)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    _, diff = sh('git diff', d)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.sh', 'w').write(b.get('demo_sh') or DEMO % (ENV, b['pkg'], '-race ' if b.get('race') else '', b['pkg']))
    if b.get('demo'):
        open(out + '/demo_test.go.txt', 'w').write(b['demo'].strip() + '\n')
    for n, t in b.get('files', {}).items():
        os.makedirs(os.path.dirname(os.path.join(out, n)), exist_ok=True)
        open(os.path.join(out, n), 'w').write(t)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what']), open(out + '/meta.json', 'w'), indent=1)
    # which changed lines are of the original repository
    _, base = sh('git diff 20d173a HEAD -U0', d)
    added = {l[1:].strip() for l in base.splitlines() if l.startswith('+')}
    removed = [l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    if removed and all(l[1:].strip() in added for l in removed):
        print('WARNING', i, 'changes only lines of our own commits')
    t = test(d)
    if t:
        return t
    for k in range(3):
        rc, o = sh('bash %s/demo.sh' % out, d)
        if rc == 0:
            return 'demo passes with the bug'
    if '[build failed]' in o or 'setup failed' in o:
        return 'demo does not build: ' + o
    sh('git checkout -q -- .', d)
    for k in range(5):
        rc, o2 = sh('bash %s/demo.sh' % out, d)
        if rc:
            return 'demo fails without the bug: ' + o2
    sh('git apply %s/patch.diff' % out, d)
    print(i, 'confirmed:', [l for l in o.splitlines() if l.strip()][1:3])
    return ''


def check(i, props):
    d = '/tmp/plant/' + i
    if not os.path.isdir(d):
        d = copy(i)
        print(sh('git apply %s/%s/patch.diff' % (S, i), d)[1])
    props = props or [json.load(open('%s/%s/meta.json' % (S, i)))['property']]
    for p in props:
        rc, o = sh('VERIF_REPO=%s VERIF_SEED=%s bin/check %s quick' % (d, os.environ.get('VERIF_SEED', '1'), p), V)
        v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
        print(i, p, 'CAUGHT' if rc == 1 and v else 'MISSED rc=%d' % rc, o.splitlines()[-1][:150] if not v else v[0], flush=True)


if sys.argv[1] == '--check':
    check(sys.argv[2], sys.argv[3:])
else:
    specs = runpy.run_path(sys.argv[1])['B']
    for b in specs:
        if len(sys.argv) == 2 or b['id'] in sys.argv[2:]:
            e = plant(b)
            if e:
                print(b['id'], 'FAILED', e)
