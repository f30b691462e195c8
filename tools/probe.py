#!/usr/bin/env python3
"""probe.py FILE [ID...]: applies each edit of tools/probes/FILE.py to a copy of the headers, compiles the tests (all standards)
and runs the named checks against it.  Quick way to look for blind spots; what is worth keeping becomes a planted bug."""
import sys, os, subprocess, glob, shutil, time
from concurrent.futures import ThreadPoolExecutor
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ns = {"I": "include/boost/metaparse/"}; exec(open("/verif/tools/probes/%s.py" % sys.argv[1]).read(), ns)
ids = [a for a in sys.argv[2:] if not a.startswith("--")]
T = "/tmp/probe_%d" % os.getpid(); R = T + "/repo"; V = T + "/verif"
os.makedirs(R)
for x in ("doc", "test", "example"): os.symlink("/repo/" + x, R + "/" + x)
shutil.copytree("/verif", V, ignore=shutil.ignore_patterns(".git", "build", "evidence", "seeded", "__pycache__")); os.makedirs(V + "/evidence", exist_ok=True)
try:
    for p in ns["PROBES"]:
        i, checks, edits = p[0], p[1].split(), p[2]
        if ids and i not in ids: continue
        shutil.rmtree(R + "/include", ignore_errors=True); shutil.copytree("/repo/include", R + "/include")
        bad = False
        for f, o, n in edits:
            q = os.path.join(R, f); t = open(q).read()
            if t.count(o) != 1: print(i, "NO MATCH (%d) %s %r" % (t.count(o), f, o[:60])); bad = True; break
            open(q, "w").write(t.replace(o, n))
        if bad: continue
        if "--no-tests" not in sys.argv:
            def one(a):
                t, s = a; c = "g++ -w -fsyntax-only -std=c++%d -I%s/include -I/repo/test %s"
                r = sh(c % (s, R, t))
                if r.returncode and sh(c % (s, "/repo", t)).returncode == 0: return os.path.basename(t), s
            with ThreadPoolExecutor(8) as ex: lost = [x for x in ex.map(one, [(t, s) for t in sorted(glob.glob("/repo/test/*.cpp")) for s in (98, 11, 14, 17)]) if x]
            if lost: print(i, "killed by tests", lost[:2]); sys.stdout.flush(); continue
        for c in checks:
            r = sh("python3 mpv/check.py %s" % c, cwd=V, env=dict(os.environ, MPV_REPO=R))
            b = [l for l in r.stdout.splitlines() if "broken:" in l][:1]
            print(i, c, {0: "MISSED", 1: "caught"}.get(r.returncode, "BROKEN rc=%d %s" % (r.returncode, r.stderr[-200:])), "".join(b)[:160]); sys.stdout.flush()
finally: shutil.rmtree(T, ignore_errors=True)
