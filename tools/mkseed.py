"""seed(id, prop, pkg, edits, demo, needs, breaks): plants a change in a scratch copy of /repo, confirms that it
builds, passes the stable tests and fails its demonstration (which passes without it), and stores it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off',
           CGO_ENABLED='1', GOFLAGS='-mod=mod', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
DEMO = '''#!/bin/bash
# Runs demo_test.go as an in-package test of %(pkg)s in the current directory (/repo).
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export PATH="/opt/veriftools/go1.27.3/bin:$PATH" HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
T=$(mktemp -d)
cp "$R/go.mod" "$T/zrep.mod"; cp "$R/go.sum" "$T/zrep.sum"
export GOFLAGS="-mod=mod -modfile=$T/zrep.mod"
cat > "$T/overlay.json" <<EOF
{"Replace": {"$R/%(pkg)s/zz_demo_test.go": "$D/demo_test.go"%(extra)s}}
EOF
timeout 250 go test -vet=off -overlay "$T/overlay.json" -run '^TestDemo$' -count=1 "./%(pkg)s"
'''
DEP = '''#!/bin/bash
# Builds the programs of the current directory (/repo) and runs demo.go against them on the loopback network.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export PATH="/opt/veriftools/go1.27.3/bin:$PATH" HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export TMPDIR="$T"
cp "$R/go.mod" "$T/zrep.mod"; cp "$R/go.sum" "$T/zrep.sum"
GOFLAGS="-mod=mod -modfile=$T/zrep.mod" go build -o "$T/zrep" ./cmd || exit 3
(cd "$D" && GOFLAGS= GO111MODULE=off go build -o "$T/demo" deploy.go demo.go) || exit 3
cd "$T" && timeout 250 "$T/demo" "$T/zrep"
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def seed(id, prop, pkg, edits, demo, needs, breaks):
    only = sys.argv[1:]
    if only and id not in only:
        return
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    s = tempfile.mkdtemp(prefix='mkseed')
    shutil.rmtree(s)
    try:
        subprocess.check_call(['cp', '-a', '/repo', s])
        run(['git', 'checkout', '-q', '--', '.'], s)
        extra = ', "$R/util/shuffle/shuffle_test.go": ""' if pkg == 'util/shuffle' else ''
        if pkg == 'dep':
            shutil.copy(V + '/tools/seeds/dep/deploy.go', d + '/deploy.go')
            open(d + '/demo.go', 'w').write(demo)
            open(d + '/demo.sh', 'w').write(DEP)
        else:
            open(d + '/demo_test.go', 'w').write(demo)
            open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=pkg, extra=extra))
        os.chmod(d + '/demo.sh', 0o755)
        a = run(['bash', d + '/demo.sh'], s)
        if a.returncode != 0:
            print(id, 'DEMO FAILS ON THE UNCHANGED TREE\n', a.stdout[-3000:]); return
        for f, old, new in edits:
            p = s + '/' + f
            t = open(p).read()
            if t.count(old) != 1:
                print(id, 'PATTERN occurs', t.count(old), 'times:', old); return
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(run(['git', 'diff'], s).stdout)
        # changed or removed lines must be original ones
        b = run(['bash', d + '/demo.sh'], s)
        if b.returncode == 0:
            print(id, 'DEMO PASSES WITH THE PATCH'); return
        pk = [x for x in run(['go', 'list', '-e', './...'], s).stdout.split() if x != 'zRep/util/shuffle']
        bb = run(['go', 'build'] + [x for x in run(['go', 'list', './...'], s).stdout.split() if x != 'zRep/test'], s)
        if bb.returncode:
            print(id, 'BUILD', bb.stdout[-2000:]); return
        t = run(['go', 'test', '-json', '-vet=off', '-count=1'] + pk, s).stdout
        ok = set()
        for l in t.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get('Action') == 'pass' and e.get('Test'): ok.add(e['Package'] + '/' + e['Test'])
        miss = [x for x in STABLE if x not in ok]
        if miss:
            print(id, 'STABLE TESTS FAIL', miss); return
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        tail = [l for l in b.stdout.splitlines() if 'demo_test' in l or 'panic' in l or 'FAIL' in l][:2]
        print(id, 'ok:', tail)
        c = run(['bash', V + '/run.sh', prop, 'quick'], V)if False else None
        r = subprocess.run(['bash', V + '/run.sh', prop, 'quick'], cwd=V, env=dict(os.environ, REPO=s), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print('   check', prop, 'exit', r.returncode, [l[:200] for l in r.stdout.splitlines() if 'VIOLATION' in l or 'INCONCL' in l][:3])
    finally:
        shutil.rmtree(s, ignore_errors=True)
