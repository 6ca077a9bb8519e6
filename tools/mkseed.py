#!/usr/bin/env python3
"""mkseed.py SPEC.py : plant a bug.  SPEC.py defines id, prop, edits=[(file,old,new)], demo (C text) or
demo_sh (text), needs, breaks.  Confirms in a scratch copy of /repo (via a git worktree state of /repo itself
is not touched): builds, demo passes before and fails after, stable tests pass; then writes seeded/<id>/."""
import sys,os,subprocess,json,shutil
g={}; exec(open(sys.argv[1]).read(),g)
fast='fast' in sys.argv[2:]
id=g['id']; d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
assert not sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip(), 'repo dirty'
DEMO='''#!/bin/bash
# run in /repo after the build: 0 if the library behaves, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -std=gnu99 -O1 -I"$PWD" "$d/demo.c" -o "$t/demo" -L"$PWD/bin/glnxa64" -lvl -lm -lpthread -Wl,-rpath,"$PWD/bin/glnxa64" || exit 3
timeout 60 "$t/demo"
'''
if 'demo' in g: open(d+'/demo.c','w').write(g['demo'].lstrip('\n')); open(d+'/demo.sh','w').write(DEMO)
else: open(d+'/demo.sh','w').write(g['demo_sh'].lstrip('\n'))
for n,t in g.get('files',{}).items(): open(d+'/'+n,'w').write(t.lstrip('\n'))
os.chmod(d+'/demo.sh',0o755)
json.dump({"property":g['prop'],"needs":g['needs'],"what_it_breaks":g['breaks']},open(d+'/meta.json','w'),indent=1)
sh('bash /opt/vp/build.sh')
r=sh(f'cd /repo && bash {d}/demo.sh'); assert r.returncode==0, 'demo fails on clean tree: '+r.stdout+r.stderr
try:
  for f,o,n in g['edits']:
    p='/repo/'+f; s=open(p).read(); assert s.count(o)==1,(f,s.count(o),o); open(p,'w').write(s.replace(o,n))
  diff=sh('git -C /repo diff').stdout; open(d+'/patch.diff','w').write(diff)
  r=sh('bash /opt/vp/build.sh'); assert r.returncode==0,'build '+r.stderr[-2000:]
  r=sh(f'cd /repo && bash {d}/demo.sh'); print('demo with bug: rc',r.returncode,r.stdout[-300:],r.stderr[-300:]); assert r.returncode!=0
  if not fast:
    sh('bash /opt/vp/test.sh /tmp/seed_o.json')
    st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ps=set(json.load(open('/tmp/seed_o.json'))['passed'])
    print('stable tests lost:',sorted(st-ps)); assert not st-ps
  r=sh(f'cd /verif && VP_BUILD=/tmp/seedb python3 lib/check.py {g["prop"]} quick'); print('check:',r.returncode,[l for l in r.stdout.split('\n') if 'VIOLATION' in l][:2])
finally:
  sh('git -C /repo checkout -- .'); 
  sh('bash /opt/vp/build.sh')
