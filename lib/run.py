#!/usr/bin/env python3
"""Runs one check: builds what it needs from /repo, explores all scenarios, writes the evidence."""
import sys, os, json, subprocess, time, shutil, concurrent.futures as cf
HERE=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(HERE)
R="/repo"; B=R+"/build/release"
sys.path.insert(0,HERE)
NPROC=8
PY_INC="/usr/include/python3.12"
CASA=["images","mirlib","coordinates","lattices","msfits","ms","fits","measures","tables","scimath","scimath_f","casa"]
LIBS={ # name -> (ninja target, link items)
 "timbase":("timbase",["TimBase/libtimbase.so"]),
 "dmi":("dmi",["DMI/libdmi.so"]),
 "octopussy":("octopussy",["OCTOPUSSY/liboctopussy.so"]),
 "octopython":("octopython",["OCTOPython/octopython.so"]),
 "viscube":("viscube",["VisCube/libviscube.so"]),
 "meq":("meq",["MEQ/libmeq.so"]),
 "meqnodes":("meqnodes",["MeqNodes/libmeqnodes.so"]),
 "appagent":("appagent",["AppAgent/AppAgent/libappagent.so"]),
 "apputils":("apputils",["AppAgent/AppUtils/libapputils.so"]),
 "meqserver":("meqserver-lib",["MeqServer/libmeqserver.so"]),
}
ORDER=["meqserver","apputils","appagent","meqnodes","meq","viscube","octopython","octopussy","dmi","timbase"]
FLAGS=("-DHAVE_AIPSPP -DHAVE_QDBM -std=c++17 -D_GNU_SOURCE -include /opt/vp/cmake/compat.h -DIMPLICIT_CTDS_32BIT -DSTRIP_CUDA -DUSE_STD_COMPLEX "
       "-DMAKE_LOFAR_SYMBOLS_GLOBAL -DUSE_THREADS -fPIC -Wno-deprecated -fpermissive -w -O1 -g -DNDEBUG").split()

def log(*a): print(*a,file=sys.stderr,flush=True)

def build_repo(targets):
    t=time.time()
    r=subprocess.run(["bash","/opt/vp/build.sh"]+targets,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode:
        log(r.stdout[-4000:]); log("build of /repo failed"); sys.exit(2)
    log("repo build: %.1fs"%(time.time()-t))

def cxxflags():
    inc=["-I%s/lib"%V,"-I"+B+"/include","-I"+B]
    out=subprocess.run(["ninja","-C",B,"-t","commands","MEQ_tVellsSlicer"],stdout=subprocess.PIPE,text=True).stdout.splitlines()
    line=[l for l in out if "tVellsSlicer.cc" in l]
    for w in (line[0].split() if line else []):
        if w.startswith("-I") and w not in inc and "/test" not in w: inc.append(w)
        if w.startswith("-isystem"): pass
    import re
    if line:
        for m in re.findall(r"-isystem (\S+)",line[0]): inc+=["-isystem",m]
    for d in ["TimBase","DMI","OCTOPUSSY","MEQ","MeqNodes","MeqServer","VisCube","AppAgent/AppAgent","AppAgent/AppUtils","OCTOPython"]:
        inc.append("-I%s/%s"%(B,d))
    return FLAGS+inc

def build_harness(cid,spec):
    out=V+"/build/"+cid; os.makedirs(out,exist_ok=True)
    libs=[l for l in ORDER if l in spec["libs"]]
    build_repo([LIBS[l][0] for l in libs]+spec.get("targets",[]))
    fl=cxxflags()+spec.get("cxxflags",[])
    if "octopython" in libs: fl.append("-I"+PY_INC)
    t=time.time()
    objs=[]; jobs=[]
    for s in spec["src"]:
        src=os.path.join(V,s); o=os.path.join(out,os.path.basename(s)+".o"); objs.append(o)
        jobs.append(["g++"]+fl+(["-fsanitize=thread"] if s.endswith(".tsan.cc") else [])+["-c",src,"-o",o])
    for s in spec.get("tsan_src",[]):   # sources of /repo instrumented for the controlled scheduler
        o=os.path.join(out,os.path.basename(s)+".tsan.o"); objs.append(o)
        jobs.append(["g++"]+cxxflags()+["-fsanitize=thread","-c",os.path.join(R,s),"-o",o])
    def go(c): return subprocess.run(c,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    with cf.ThreadPoolExecutor(NPROC) as ex: res=list(ex.map(go,jobs))
    for r in res:
        if r.returncode: log(r.stdout[:6000]); log("harness compile failed"); sys.exit(2)
    link=["g++"]+spec.get("ldpre",[])+["-rdynamic","-o",out+"/harness"]+objs
    link+=["-Wl,--no-as-needed"]
    dirs=[]
    for l in libs:
        for i in LIBS[l][1]: link.append(B+"/"+i); dirs.append(os.path.dirname(B+"/"+i))
    # everything the libraries themselves need is found by rpath
    alld=sorted({os.path.dirname(B+"/"+i) for v in LIBS.values() for i in v[1]})
    link+=["-Wl,-rpath,"+":".join(alld),"-Wl,--as-needed"]
    if any(l in libs for l in("meq","meqnodes","viscube","meqserver","apputils")):
        link+=["-lcasa_"+c for c in CASA]+["-llapack","-lqdbm"]
    if "octopython" in libs or "meqserver" in libs: link+=["-lpython3.12","-lutil"]
    link+=["-ldl","-lpthread"]+spec.get("ldflags",[])
    r=go(link)
    if r.returncode: log(r.stdout[:6000]); log("harness link failed"); sys.exit(2)
    log("harness build: %.1fs"%(time.time()-t))
    return out+"/harness"

def known_findings(cid):
    d={}
    p=V+"/known_findings.jsonl"
    if os.path.exists(p):
        for l in open(p):
            l=l.strip()
            if not l: continue
            j=json.loads(l)
            if j.get("property")==cid and j.get("status")=="known": d[j["key"]]=j["what"]
    return d

def env():
    e=dict(os.environ)
    e["MALLOC_PERTURB_"]="165"
    e["MALLOC_ARENA_MAX"]="2"
    e["GLIBCXX_FORCE_NEW"]="1"
    e.pop("MC_REEXEC",None)
    return e

def finish(cid,tier,level,cov,assumptions,viols,known_hits,known,t0,extra_msgs=()):
    """writes evidence, prints verdict, returns exit code"""
    os.makedirs(V+"/evidence",exist_ok=True)
    ev=dict(property=cid,tier=tier,seed=int(os.environ.get("VERIF_SEED","1")),level=level,coverage=cov,
            assumptions=assumptions,wall_s=round(time.time()-t0,2),violations=len(viols))
    tmp=V+"/evidence/%s.json.tmp"%cid
    with open(tmp,"w") as f: json.dump(ev,f,indent=1)
    os.replace(tmp,V+"/evidence/%s.json"%cid)
    for k in known:
        if known_hits.get(k): print("KNOWN-FINDING: property=%s %s (%d executions)"%(cid,known[k],known_hits[k]))
    for m in extra_msgs: print(m)
    for path,msg in viols: print("VIOLATION property=%s replay=%s %s"%(cid,path,msg.replace("\n"," ")[:300]))
    if not viols: print("OK property=%s states=%s transitions=%s executions=%s wall=%.1fs"%(cid,cov.get("states"),cov.get("transitions"),cov.get("traces_validated_against_impl"),time.time()-t0))
    sys.stdout.flush()
    return 1 if viols else 0

def run_check(cid,spec,tier):
    t0=time.time()
    exe=build_harness(cid,spec)
    wd=V+"/build/"+cid+"/run"; shutil.rmtree(wd,ignore_errors=True); os.makedirs(wd)
    rp=V+"/replays/"+cid; shutil.rmtree(rp,ignore_errors=True); os.makedirs(rp)
    known=known_findings(cid)
    kf=wd+"/known"; open(kf,"w").write("\n".join(known)+"\n")
    jobs=[]
    for l in subprocess.run([exe,"--list"],stdout=subprocess.PIPE,text=True,env=env()).stdout.splitlines():
        n,sq,st=l.split(); ns=int(st if tier=="thorough" else sq)
        for i in range(ns): jobs.append((n,i,ns))
    if not jobs: log("no scenarios"); sys.exit(2)
    budget=spec.get("budget",{}).get(tier, 420 if tier=="quick" else 7200)
    hang=spec.get("hang",60)
    def go(j):
        n,i,ns=j; o="%s/%s.%d"%(wd,n,i); v="%s/%s-%d.json"%(rp,n,i)
        sd="%s/%s.%d.d"%(wd,n,i)
        if spec.get("shm") and os.access("/dev/shm",os.W_OK): sd="/dev/shm/vp%d.%s.%s.%d"%(os.getpid(),cid,n,i)
        shutil.rmtree(sd,ignore_errors=True); os.makedirs(sd)
        c=[exe,"--run",n,"--tier",tier,"--shard",str(i),str(ns),"--out",o,"--viol",v,"--known",kf,"--time",str(budget),"--hang",str(hang)]
        r=subprocess.run(c,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,errors="replace",env=env(),cwd=sd)
        shutil.rmtree(sd,ignore_errors=True)
        return j,o,v,r
    viols=[]; stats=[]; err=0
    with cf.ThreadPoolExecutor(spec.get("par",NPROC)) as ex:
        for j,o,v,r in ex.map(go,jobs):
            if r.returncode==1:
                m=""
                if os.path.exists(v):
                    d=json.load(open(v)); m="[%s] %s"%(d["key"],d["message"])
                else: open(v,"w").write(json.dumps(dict(scenario=j[0],choices=[],message=r.stderr[-500:])))
                viols.append((v,m))
            elif r.returncode!=0:
                log("scenario %s shard %d: exit %d\n%s"%(j[0],j[1],r.returncode,r.stderr[-2000:])); err=1
            else: stats.append(json.load(open(o)))
    states=set(); outs=set()
    import array
    for j in jobs:
        for suf,S in ((".hash",states),(".ohash",outs)):
            p="%s/%s.%d%s"%(wd,j[0],j[1],suf)
            if os.path.exists(p):
                a=array.array("Q"); a.frombytes(open(p,"rb").read()); S.update((j[0],x) for x in a)
    per={}
    hits={}
    for s in stats:
        d=per.setdefault(s["scenario"],dict(executions=0,operations=0,pruned=0,counters={},capped=False,wall_s=0))
        d["executions"]+=s["executions"]; d["operations"]+=s["ops"]; d["pruned"]+=s["pruned"]; d["capped"]|=s["capped"]; d["wall_s"]=round(max(d["wall_s"],s["wall"]),2)
        for k,n in s["counters"].items(): d["counters"][k]=d["counters"].get(k,0)+n
        for k,n in s["known"].items(): hits[k]=hits.get(k,0)+n
    for (n,_) in []: pass
    for n in per:
        per[n]["distinct_states"]=sum(1 for a,_ in states if a==n); per[n]["distinct_outcomes"]=sum(1 for a,_ in outs if a==n)
    samples=[]
    for s in stats:
        for x in s["samples"][:2]:
            if x and len(samples)<12: samples.append(dict(scenario=s["scenario"],trace=x))
    cov=dict(states=len(states),transitions=sum(s["ops"] for s in stats),traces_validated_against_impl=sum(s["executions"] for s in stats),
             distinct_outcomes=len(outs),exhaustive=not any(s["capped"] for s in stats) and not err,
             rule=spec["rule"],bounds=spec.get("bounds",{}).get(tier,spec.get("bounds",{}).get("quick","")),scenarios=per,samples=samples,known_findings=hits)
    shutil.rmtree(wd,ignore_errors=True)
    if err and not viols: sys.exit(2)
    return finish(cid,tier,"model_checking",cov,spec.get("assumptions",[]),viols,hits,known,t0)

if __name__=="__main__":
    from specs import SPECS
    if sys.argv[1]=="--setup":
        build_repo([]); sys.exit(0)
    cid=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get("VERIF_TIER","quick")
    if tier not in("quick","thorough"): tier="quick"
    spec=SPECS[cid]
    if "py" in spec:
        import importlib
        m=importlib.import_module(spec["py"]); sys.exit(m.run(cid,spec,tier))
    sys.exit(run_check(cid,spec,tier))
