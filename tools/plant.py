#!/usr/bin/env python3
"""Plant bugs from tools/bugs/*.py: apply to /repo, save the patch, build, test, demo, run checks, undo.
usage: plant.py [--no-tests] [--all-checks] ID...   (no ID: all that have no seeded/ID yet)
Works on /repo's working tree and always restores it."""
import sys, os, subprocess, json, importlib.util, time, shutil, glob, tempfile
V = "/verif"; R = "/repo"; I = "include/boost/metaparse/"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def load():
    bugs = {}
    for f in sorted(glob.glob(V + "/tools/bugs/*.py")):
        ns = {"I": I}; exec(open(f).read(), ns)
        for b in ns["BUGS"]: bugs[b["id"]] = b
    return bugs
def restore(): sh("git -C %s checkout -- ." % R)
STD = "c++17"
def demo_files(b, d):
    os.makedirs(d, exist_ok=True)
    for n, t in b.get("files", {}).items(): open(os.path.join(d, n), "w").write(t)
    if "demo" in b: open(d + "/demo.cpp", "w").write(b["demo"].lstrip("\n"))
    s = b.get("sh")
    if not s:
        s = "".join('g++ -w -std=%s -ftemplate-depth=1024 -fsyntax-only -Iinclude %s "$d/demo.cpp" || exit 1\n' % (st, b.get("flags", "")) for st in b.get("stds", ["c++17"])) + "exit 0\n"
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nd=$(cd "$(dirname "$0")" && pwd)\n' + s)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
def main():
    a = sys.argv[1:]; notests = "--no-tests" in a; allc = "--all-checks" in a
    ids = [x for x in a if not x.startswith("--")]
    bugs = load()
    if not ids: ids = [i for i in bugs if not os.path.exists("%s/seeded/%s/patch.diff" % (V, i))]
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", []))) if False else None
    if sh("git -C %s status --porcelain" % R).stdout.strip(): sys.exit("/repo not clean")
    for i in ids:
        b = bugs[i]; d = tempfile.mkdtemp(prefix="plant."); demo_files(b, d)
        msg = []; ok = True
        r0 = sh("timeout 300 bash %s/demo.sh" % d, cwd=R)
        if r0.returncode: ok = False; msg.append("demo fails on clean: " + (r0.stdout + r0.stderr)[-1500:])
        try:
            for f, o, n in b["edits"]:
                p = os.path.join(R, f); t = open(p).read()
                if t.count(o) != 1: sys.exit("%s: %d matches in %s" % (i, t.count(o), f))
                open(p, "w").write(t.replace(o, n))
            diff = sh("git -C %s diff" % R).stdout
            r1 = sh("timeout 300 bash %s/demo.sh" % d, cwd=R)
            if r1.returncode == 0: ok = False; msg.append("demo passes with patch")
            if not notests and ok:
                rb = sh("bash /opt/vp/build.sh")
                if rb.returncode: ok = False; msg.append("build fails: " + (rb.stdout + rb.stderr)[-1500:])
                else:
                    sh("bash /opt/vp/test.sh /tmp/plant.out.json")
                    o = json.load(open("/tmp/plant.out.json")); B = json.load(open("/opt/vp/BASELINE.json"))
                    lost = missing(o, B)
                    if lost: ok = False; msg.append("tests lost: %s" % sorted(lost)[:8])
            res = {}
            if ok:
                checks = ["C%02d" % k for k in range(1, 99) if os.path.exists("%s/evidence/C%02d.json" % (V, k))] if allc else b.get("checks", [b["property"]])
                for c in checks:
                    t = time.time(); rc = sh("VERIF_TIER=quick VERIF_SEED=1 python3 -m mpv.check %s" % c, cwd=V)
                    v = [l for l in rc.stdout.splitlines() if l.startswith("VIOLATION")]
                    res[c] = (rc.returncode, len(v), round(time.time() - t), (rc.stdout + rc.stderr).strip().splitlines()[:4])
        finally: restore()
        if ok:
            t = "%s/seeded/%s" % (V, i)
            if os.path.exists(t): shutil.rmtree(t)
            demo_files(b, t); open(t + "/patch.diff", "w").write(diff)
        shutil.rmtree(d)
        print(i, "OK" if ok else "REJECTED", "; ".join(msg)); 
        for c, x in res.items() if ok else []:
            print("   ", c, "CAUGHT" if x[0] == 1 and x[1] else "missed" if x[0] == 0 else "?? rc=%d" % x[0], "%ds" % x[2], *(["\n      " + l[:220] for l in x[3]] if c == b["property"] else []))
        sys.stdout.flush()
def names(o):
    if isinstance(o, dict):
        for k in ("passed", "stable", "stable_passing", "pass", "tests"):
            if k in o:
                v = o[k]
                return set(v) if isinstance(v, list) else set(k2 for k2, s in v.items() if s in ("passed", "pass", True))
    raise SystemExit("unknown format %s" % list(o)[:5])
def missing(o, B): return names(B) - names(o)
main()
