#!/usr/bin/env python3
"""seeded_table.py [ID...]: runs each planted bug's own check against a patched copy of the headers and prints a table row per bug"""
import sys, os, json, glob, subprocess, shutil
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
T = "/tmp/seedtab_%d" % os.getpid(); R = T + "/repo"; V = T + "/verif"
os.makedirs(R)
for x in ("doc", "test", "example"): os.symlink("/repo/" + x, R + "/" + x)
shutil.copytree("/verif", V, ignore=shutil.ignore_patterns(".git", "build", "evidence", "seeded", "__pycache__")); os.makedirs(V + "/evidence", exist_ok=True)
try:
    for d in sorted(glob.glob("/verif/seeded/*")):
        i = os.path.basename(d)
        if sys.argv[1:] and not any(i.startswith(a) for a in sys.argv[1:]): continue
        m = json.load(open(d + "/meta.json"))
        shutil.rmtree(R + "/include", ignore_errors=True); shutil.copytree("/repo/include", R + "/include")
        a = sh("patch -p1 -s < %s/patch.diff" % d, cwd=R)
        if a.returncode: print(i, "DOES NOT APPLY", a.stdout[:200]); continue
        r = sh("python3 mpv/check.py %s" % m["property"], cwd=V, env=dict(os.environ, MPV_REPO=R))
        b = [l.split("broken:")[1].split("[")[0].strip() for l in r.stdout.splitlines() if "broken:" in l][:1]
        print("| %s | %s | %s | %s |" % (i, m["property"], {0: "MISSED", 1: "caught"}.get(r.returncode, "rc=%d" % r.returncode), "".join(b)[:70].replace("|", "/"))); sys.stdout.flush()
finally: shutil.rmtree(T, ignore_errors=True)
