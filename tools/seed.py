#!/usr/bin/env python3
"""Make a planted bug: seed.py ID < spec    (spec: sections '## name' followed by text)

Sections: property, file, old, new (file/old/new may repeat), needs, breaks, demo (C++), libs (optional).
The edit is made in /repo only long enough to produce the diff.
"""
import sys, os, subprocess, json, re, stat
sid=sys.argv[1]; spec=sys.stdin.read()
secs=re.split(r'^## (\w+)\n', spec, flags=re.M)[1:]
secs=[(secs[i],secs[i+1]) for i in range(0,len(secs),2)]
g=lambda n,d='':next((v.strip('\n') for k,v in secs if k==n),d)
def git(*a): return subprocess.run(['git','-C','/tmp/sr/edit',*a],capture_output=True,text=True,check=True).stdout
subprocess.run('[ -d /tmp/sr/edit ] || git clone -q /repo /tmp/sr/edit; git -C /tmp/sr/edit pull -q; git -C /tmp/sr/edit checkout -q -- .',shell=True,check=True)
try:
    f=None; old=None
    for k,v in secs:
        v=v.strip('\n')
        if k=='file': f='/tmp/sr/edit/src/archon/'+v.strip()
        if k=='old': old=v
        if k=='new':
            s=open(f).read(); assert s.count(old)==1,(f,s.count(old),old)
            open(f,'w').write(s.replace(old,v))
    diff=git('diff')
finally:
    git('checkout','--','.')
d='/verif/seeded/'+sid; os.makedirs(d,exist_ok=True)
open(d+'/patch.diff','w').write(diff)
open(d+'/demo.cpp','w').write(g('demo')+'\n')
libs=g('libs','core').split()
order=['render','display','font','image','util','math','check','cli','log','core']
libs=[l for l in order if l in libs]
extra=g('extra','-lpthread')
open(d+'/demo.sh','w').write(f'''#!/bin/bash
# Exit 0 if the property holds in this scenario, nonzero if not. Run in the repository root after the build.
d=$(cd "$(dirname "$0")" && pwd) || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
{g('compiler','g++ -std=c++20 -O1')} -Isrc -I_build/src "$d/demo.cpp" -o "$t/demo" {' '.join(f'_build/src/libarchon-{l}.a' for l in libs)} {extra} || exit 2
cd "$t" && timeout 120 ./demo
''')
os.chmod(d+'/demo.sh',0o755)
json.dump({"property":g('property'),"needs":g('needs').replace('\n',' '),"what_it_breaks":g('breaks').replace('\n',' ')},open(d+'/meta.json','w'),indent=1)
r=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
print(sid,'demo on unchanged tree:',r.returncode,(r.stdout+r.stderr)[:1500])
