#!/usr/bin/env python3
"""apply tools/refactors/NAME.py to a copy of /repo, compile every test in every standard, run checks (all or the given ones)"""
import sys, os, subprocess, json, time, glob, shutil
from concurrent.futures import ThreadPoolExecutor
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
name=sys.argv[1]; checks=[x for x in sys.argv[2:] if x.startswith("C")] or ["C%02d"%k for k in range(1,27)]
only=[x[2:] for x in sys.argv[2:] if x.startswith("f=")]
T="/tmp/ref_%s_%d"%(name, os.getpid()); R=T+"/repo"; V=T+"/verif"
ns={"I":"include/boost/metaparse/"}; exec(open("/verif/tools/refactors/%s.py"%name).read(), ns)
os.makedirs(T); shutil.copytree("/repo/include", R+"/include")
for x in ("doc","test","example"): os.symlink("/repo/"+x, R+"/"+x)
shutil.copytree("/verif", V, ignore=shutil.ignore_patterns(".git","build","evidence","seeded","__pycache__")); os.makedirs(V+"/evidence",exist_ok=True)
H="    namespace v1\n    {\n"; E="    }\n  }\n}\n\n#endif"
try:
    for f,b in ns.get("BODIES",[]):
        if only and not any(o in f for o in only): continue
        p=os.path.join(R,f); t=open(p).read(); i=t.index(H)+len(H); j=t.rindex("#endif")
        k=t.rindex("    }\n  }\n}",0,j)
        inc=""
        if isinstance(b,tuple): inc,b=b
        n=t.index("namespace")
        open(p,"w").write(t[:n]+inc+t[n:i]+b+t[k:])
    for f,o,n in ns.get("EDITS",[]):
        if only and not any(x in f for x in only): continue
        p=os.path.join(R,f); t=open(p).read()
        if t.count(o)!=1: print("NO MATCH (%d) %s: %r"%(t.count(o),f,o[:80])); continue
        open(p,"w").write(t.replace(o,n))
    for f,t in ns.get("NEW",{}).items(): open(os.path.join(R,f),"w").write(t)
    if "--no-tests" not in sys.argv:
        def one(a):
            t,s=a; c="g++ -w -fsyntax-only -std=c++%d -I%s/include -I/repo/test %s"
            r=sh(c%(s,R,t))
            if r.returncode and sh(c%(s,"/repo",t)).returncode==0: return os.path.basename(t),s,"\n".join([l[:300] for l in r.stderr.splitlines() if "error" in l][:3])
        with ThreadPoolExecutor(8) as ex: bad=[x for x in ex.map(one,[(t,s) for t in sorted(glob.glob("/repo/test/*.cpp")) for s in (98,11,14,17)]) if x]
        print("tests lost:", len(bad)); [print("   ",*b) for b in bad[:12]]; sys.stdout.flush()
        if bad: sys.exit(1)
    for c in checks:
        t=time.time(); r=sh("python3 mpv/check.py %s"%c, cwd=V, env=dict(os.environ,MPV_REPO=R))
        print(c, "quiet" if r.returncode==0 else "ALARM rc=%d"%r.returncode, "%ds"%(time.time()-t), "" if r.returncode==0 else "\n    "+"\n    ".join((r.stdout+r.stderr).strip().splitlines()[-8:])); sys.stdout.flush()
        e=json.load(open(V+"/evidence/%s.json"%c))["coverage"]
        u=[k for k in e if k.startswith("undecided") and e[k]]
        if u: print("    ", {k:(len(e[k]),e[k][:2]) for k in u})
finally:
    if "--keep" not in sys.argv: shutil.rmtree(T)
    else: print(T)
