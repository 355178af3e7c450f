"""mkseed.py NAME PROP FILE OLD NEW NEEDS BREAKS DEMO_CC  (development helper)"""
import sys,os,subprocess,json
R='/tmp/mkseed-repo'
subprocess.run(['rm','-rf','/tmp/mkseed-repo']); subprocess.run(['git','clone','-q','/repo','/tmp/mkseed-repo'],check=True)
def mk(name,prop,edits,needs,breaks,demo,srcs=(),gen=(),stubs=False,own=()):
    d='/verif/seeded/'+name; os.makedirs(d,exist_ok=True)
    for f,o,n in edits:
        p=R+'/'+f; s=open(p).read(); assert s.count(o)==1,(name,f,s.count(o)); open(p,'w').write(s.replace(o,n))
    diff=subprocess.run(['git','-C',R,'diff'],stdout=subprocess.PIPE).stdout.decode()
    subprocess.run(['git','-C',R,'checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    if stubs: subprocess.run(['rm','-rf',d+'/stubs']); subprocess.run(['cp','-r','/verif/stubs',d+'/stubs'],check=True)
    for f in own: subprocess.run(['cp','/verif/replay/'+f,d],check=True)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.cc','w').write(demo)
    sr=' '.join('src/'+s for s in srcs)
    g=' '.join('"$PWD/_build/gen/google/api/%s"'%x for x in gen)
    open(d+'/demo.sh','w').write('''#!/bin/bash
# Run with cwd = the checkout, after its build. Exit 0: the property holds on the demonstrated input.
set -u
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
clang++-18 -std=c++20 -O1 -g -w %s-Isrc/include -Isrc/include/grpc_transcoding -I_build/gen "$here/demo.cc" %s %s -o "$out/demo" -lprotobuf $(pkg-config --libs absl_strings absl_status absl_statusor) -lpthread || exit 2
timeout 60 "$out/demo"
'''%('-I"$here/stubs" ' if stubs else '',sr,g))
