#!/usr/bin/env python3
"""mutbatch.py FILE [ids]: try every change listed in FILE (one python list M of
(id, checks, [(file, old, new), ...])) on scratch copies and say which checks report it."""
import sys, os, subprocess, shutil, concurrent.futures as cf
M = []
exec(open(sys.argv[1]).read())
want = set(sys.argv[2:])
tier = os.environ.get('TIER', 'quick')

def one(m):
    mid, checks, edits = m
    d = '/tmp/mb/' + mid
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    try:
        for f, o, n in edits:
            p = d + '/' + f
            s = open(p).read()
            if o not in s:
                return mid, 'PATTERN NOT FOUND ' + o[:60]
            open(p, 'w').write(s.replace(o, n, 1))
        b = subprocess.run('T=$PWD; . /opt/vp/env.sh; cd $T; go vet ./cmd/... ./primitive/... ./util/ >/dev/null 2>&1; go build ./cmd/... ./primitive/... ./util/... ./proto/... 2>&1 | tail -5', shell=True, cwd=d, capture_output=True, text=True)
        if b.stdout.strip():
            return mid, 'NOT COMPILING ' + b.stdout[:300]
        out = []
        for c in checks.split():
            r = subprocess.run(['/verif/run.sh', c, tier, '-j', '2'], env=dict(os.environ, REPO=d), capture_output=True, text=True)
            vs = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            note = [l for l in r.stdout.split('\n') if l.startswith('INCONCL') or 'could not' in l or l.startswith('NOTE')]
            out.append('%s:%s' % (c, 'caught' if r.returncode == 1 and vs else 'MISSED rc=%d %s' % (r.returncode, ' | '.join(note)[:200])))
        return mid, ' '.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)

os.makedirs('/tmp/mb', exist_ok=True)
sel = [m for m in M if not want or m[0] in want]
with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for mid, res in ex.map(one, sel):
        print(mid, res, flush=True)
