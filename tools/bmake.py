import sys,os,subprocess
sys.path.insert(0,'/verif/tools')
from benigns import BENIGN
W='/tmp/m'
subprocess.run('rm -rf /tmp/m; cp -a /repo /tmp/m',shell=True)
for id,props,edits in BENIGN:
    if id==sys.argv[1]:
        for f,o,n in edits:
            p=W+'/'+f;t=open(p).read();assert o in t;open(p,'w').write(t.replace(o,n))
