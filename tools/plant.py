#!/usr/bin/env python3
"""plant.py SPECFILE: plants the bugs described in a python file.

The file defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new[, count])], pkg, test)].
Each is applied to /repo, built, tested, demonstrated and undone; kept in /verif/seeded/<id>.
"""
import json, os, subprocess, sys, runpy
R = '/repo'
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
. /opt/vp/env.sh
export GOCACHE=/tmp/poodle_demo_gocache
T=$(mktemp -d)
printf '{"Replace":{"%%s":"%%s"}}' "$R/src/%(pkg)s/zz_demo_test.go" "$D/demo_test.go.txt" > "$T/overlay.json"
cd "$R/src/%(pkg)s" && timeout 250 go test -vet=off -overlay "$T/overlay.json" -run '^TestDemo$' -count=1 -timeout 240s .
'''
def main():
    ns = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    assert sh('git -C /repo status --porcelain --untracked-files=no').stdout == '', 'repo dirty'
    base = json.load(open('/opt/vp/BASELINE.json'))
    for b in ns['BUGS']:
        if only and b['id'] not in only: continue
        d = '/verif/seeded/' + b['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/demo_test.go.txt', 'w').write(b['test'])
        open(d + '/demo.sh', 'w').write(DEMO % b)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % d, cwd=R)
        msg = []
        if r0.returncode: msg.append('demo fails on the unchanged tree: ' + r0.stdout[-1500:])
        try:
            for e in b['edits']:
                f = R + '/src/' + e[0]
                s = open(f).read()
                n = e[3] if len(e) > 3 else 1
                if s.count(e[1]) < 1 or (n == 1 and s.count(e[1]) != 1):
                    msg.append('text occurs %d times in %s: %s' % (s.count(e[1]), e[0], e[1][:80])); continue
                if n == 1: s = s.replace(e[1], e[2])
                else:  # n-th occurrence, counted from 0 as -n-1... n=('k',k)
                    k = n[1]; p = s.split(e[1]); s = e[1].join(p[:k+1]) + e[2] + e[1].join(p[k+1:])
                open(f, 'w').write(s)
            open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
            r = sh('bash /opt/vp/build.sh')
            if r.returncode: msg.append('build fails: ' + r.stdout[-800:])
            sh('bash /opt/vp/test.sh /tmp/plant_out.json')
            o = json.load(open('/tmp/plant_out.json'))
            want = set(base['stable'])
            got = set(o.get('passed', []))
            if want - got: msg.append('tests fail: %s' % (want - got))
            r1 = sh('bash %s/demo.sh' % d, cwd=R)
            if r1.returncode == 0: msg.append('demo passes with the bug')
            c = sh('./check.sh %s quick' % b['property'], cwd='/verif')
            last = [l for l in c.stdout.split('\n') if 'VIOLATION' in l]
            cnt = [l for l in c.stdout.split('\n') if 'discharged' in l]
            res = 'rc=%d %s | %s' % (c.returncode, last[0] if last else 'NOT CAUGHT', cnt[0] if cnt else c.stdout[-300:])
        finally:
            sh('git -C /repo checkout -- .')
            sh('bash /opt/vp/build.sh')
        print(b['id'], 'OK' if not msg else 'BAD ' + '; '.join(msg), res, flush=True)
main()
