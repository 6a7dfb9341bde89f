#!/usr/bin/env python3
# Tries the checks on edits that keep the behaviour (tools/benigns.py): all of them have to stay quiet.
# usage: benign.py [ID...]; PROPS="C01 ..." overrides the properties.
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, '/verif/tools')
from benigns import BENIGN
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, executable='/bin/bash', **k)
def one(b):
    id, props, edits = b
    W = '/tmp/benign/' + id; V = W + '.out'
    sh('mkdir -p /tmp/benign; rm -rf %s %s; cp -a /repo %s; mkdir -p %s; cp -r /verif/bounded /verif/replay /verif/known-findings.txt %s' % (W, V, W, V, V))
    out = []
    for f, old, new in edits:
        p = os.path.join(W, f); t = open(p).read(); n = t.count(old)
        if n == 0: return id + ': no match in ' + f + ' ' + repr(old[:60])
        open(p, 'w').write(t.replace(old, new))
    b = sh('. /opt/vp/env.sh; cd %s; gofmt -l goroutines prim pipelines/stagedpipe/*.go; go build ./... && go vet ./goroutines/... ./prim/... 2>&1 | head -0' % W)
    if b.returncode: return id + ': does not build: ' + b.stderr[:600]
    if os.environ.get('TEST'):
        t = sh('. /opt/vp/env.sh; cd %s; go test ./... 2>&1 | grep -v "no test files" | grep -v ^ok' % W)
        out.append('tests: ' + (t.stdout[:300] or 'pass'))
    for p in (os.environ.get('PROPS') or props).split():
        c = sh('timeout 900 /verif/bin/govc -repo %s -prop %s -verif %s -contracts /verif/contracts' % (W, p, V), cwd='/verif')
        if c.returncode: out.append('%s -> %d %s' % (p, c.returncode, '\n      '.join([l[:260] for l in (c.stdout + c.stderr).split('\n') if 'failed obl' in l or 'not checked' in l or 'VIOLATION' in l or 'panic' in l or 'roblem' in l][:6])))
    sh('rm -rf %s %s' % (W, V))
    return id + ': ' + ('\n   '.join(out) or 'quiet')
ids = sys.argv[1:]
with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
    for r in ex.map(one, [b for b in BENIGN if not ids or b[0] in ids]): print(r, flush=True)
