#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: makes seeded/ID from a worktree edit. Reads a python spec on stdin defining
edits=[(file,old,new)...], needs, breaks, and either cc (C++ demo source) + libs, or sh (demo.sh text); optional files={}"""
import sys,os,json,subprocess,shutil,tempfile
sid,prop=sys.argv[1:3]
g={}; exec(sys.stdin.read(),g)
d="/verif/seeded/"+sid; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
wt=tempfile.mkdtemp(prefix="mkseed")
subprocess.check_call("git -C /repo archive HEAD | tar xf - -C "+wt,shell=True)
subprocess.check_call(["git","init","-q"],cwd=wt); subprocess.check_call("git add -f -A && git -c user.email=a -c user.name=a commit -qm x",cwd=wt,shell=True)
for f,a,b in g["edits"]:
    p=os.path.join(wt,f); s=open(p,errors="surrogateescape",newline="").read()
    if s.count(a)!=1: print("EDIT PROBLEM",sid,f,"matches:",s.count(a)); sys.exit(1)
    open(p,"w",errors="surrogateescape",newline="").write(s.replace(a,b))
diff=subprocess.check_output(["git","diff"],cwd=wt)
open(d+"/patch.diff","wb").write(diff)
shutil.rmtree(wt)
json.dump(dict(property=prop,needs=g["needs"],what_it_breaks=g["breaks"]),open(d+"/meta.json","w"),indent=1)
for n,t in g.get("files",{}).items(): open(d+"/"+n,"w").write(t)
if "cc" in g:
    open(d+"/demo.cc","w").write(g["cc"])
    libs={"timbase":"TimBase/libtimbase.so","dmi":"DMI/libdmi.so","octopussy":"OCTOPUSSY/liboctopussy.so","meq":"MEQ/libmeq.so","meqnodes":"MeqNodes/libmeqnodes.so","viscube":"VisCube/libviscube.so","appagent":"AppAgent/AppAgent/libappagent.so","octopython":"OCTOPython/octopython.so","meqserver":"MeqServer/libmeqserver.so"}
    ll=[libs[l] for l in g["libs"]]
    rp=":".join(sorted({"$B/"+os.path.dirname(x) for x in libs.values()}))
    extra=""
    if set(g["libs"])&{"meq","meqnodes","viscube","meqserver"}:
        extra=" ".join("-lcasa_"+c for c in "images mirlib coordinates lattices msfits ms fits measures tables scimath scimath_f casa".split())+" -llapack -lqdbm"
    if set(g["libs"])&{"octopython","meqserver"}: extra+=" -lpython3.12"
    sh=f'''#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken
H=$(cd "$(dirname "$0")" && pwd); B=$PWD/build/release
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -DHAVE_AIPSPP -DHAVE_QDBM -std=c++17 -D_GNU_SOURCE -include /opt/vp/cmake/compat.h -DIMPLICIT_CTDS_32BIT -DSTRIP_CUDA -DUSE_STD_COMPLEX -DMAKE_LOFAR_SYMBOLS_GLOBAL -DUSE_THREADS -fpermissive -w -O1 -DNDEBUG \\
  -I$B/include -I$B -I$B/TimBase -I$B/DMI -I$B/OCTOPUSSY -I$B/MEQ -I$B/MeqNodes -I$B/AppAgent/AppAgent -I$B/VisCube -I/usr/include/python3.12 -I/usr/include/casacore \\
  -o "$T/demo" "$H/demo.cc" -Wl,--no-as-needed {" ".join("$B/"+x for x in ll)} -Wl,--as-needed -Wl,-rpath,{rp} {extra} -ldl -lpthread || exit 3
cd "$T"
timeout {g.get("timeout",60)} ./demo
'''
else: sh=g["sh"]
open(d+"/demo.sh","w").write(sh)
os.chmod(d+"/demo.sh",0o755)
print("made",sid,len(diff),"bytes of patch")
