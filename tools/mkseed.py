#!/usr/bin/env python3
# Makes the planted bugs in /verif/seeded from the list in tools/seeds.py and tries them out on a copy of /repo.
# usage: mkseed.py [ID...]    (all that have no folder yet if none is given)
import json, os, shutil, subprocess, sys
sys.path.insert(0, '/verif/tools')
from seeds import SEEDS
W = '/tmp/seedw'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    ids = sys.argv[1:] or [s['id'] for s in SEEDS if not os.path.exists('/verif/seeded/%s/meta.json' % s['id'])]
    for s in SEEDS:
        if s['id'] not in ids: continue
        subprocess.run(['rm', '-rf', W]); sh('cp -a /repo ' + W)
        for f, old, new in s['edits']:
            p = os.path.join(W, f); t = open(p).read()
            n = t.count(old)
            if n != 1: print(s['id'], 'edit matches', n, 'times in', f, repr(old[:60])); break
            open(p, 'w').write(t.replace(old, new))
        else:
            d = '/verif/seeded/' + s['id']
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(sh('git diff', cwd=W).stdout)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            src = s['test']
            shutil.copy('/verif/replay/' + src, d + '/demo_test.go')
            pkg = [l for l in open('/verif/replay/' + src) if l.startswith('// package-dir: ')][0].split(': ')[1].strip()
            open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Runs tests of what a user relies on against the code in the current folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
cd "$repo" || exit 2
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$repo/%s/zz_demo_test.go" "$here/demo_test.go" > "$work/ov.json"
go test -overlay "$work/ov.json" -vet=off%s -count=1 -timeout 200s -run '%s' ./%s
''' % (pkg, s.get('flags', ''), s['run'], pkg))
            os.chmod(d + '/demo.sh', 0o755)
            if os.environ.get('WRITE'): continue
            env = '. /opt/vp/env.sh; cd %s; ' % W
            b = sh(env + 'go build ./... ', executable='/bin/bash')
            dm = [sh('bash %s/demo.sh' % d, cwd=W) for _ in range(3)]
            sh('git checkout -q .', cwd=W)
            dg = sh('bash %s/demo.sh' % d, cwd=W)
            sh('git apply %s/patch.diff' % d, cwd=W)
            t = sh(env + 'go test ./... 2>&1 | grep -v "no test files" | grep -v ^ok', executable='/bin/bash')
            sh('mkdir -p /tmp/w/sv; cp -r /verif/bounded /verif/replay /verif/known-findings.txt /tmp/w/sv/'); c = sh('/verif/bin/govc -repo %s -prop %s -verif /tmp/w/sv' % (W, s['property']))
            print(s['id'], 'build', b.returncode, 'demo patched', [x.returncode for x in dm], 'clean', dg.returncode, 'tests:', t.stdout.strip()[:300] or 'pass', '\n   check', c.returncode, [l for l in c.stdout.split('\n') if 'failed obl' in l or 'not checked' in l or 'VIOLATION' in l][:4])
            if b.returncode: print(b.stderr)
            if 0 in [x.returncode for x in dm]: print(dm[0].stdout[-600:])
            if dg.returncode: print(dg.stdout[-1500:])
    subprocess.run(['rm', '-rf', W])
main()
