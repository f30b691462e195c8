#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]
exit 0: every obligation discharged; 1: VIOLATION lines; 2: the analysis could not be carried out."""
import argparse, json, os, shutil, sys, time, traceback, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mpv import core, harvest
from mpv.registry import CHECKS

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.ints, self.chars = harvest.constants()
        self.workdir = os.path.join(core.VERIF, "build", prop)
        shutil.rmtree(self.workdir, ignore_errors=True)
        os.makedirs(self.workdir)
        self.extra = {}        # extra coverage numbers
        self.std_dependent = harvest.std_dependent() if tier == "quick" else []
        if self.std_dependent: self.extra["standard_dependent_headers"] = self.std_dependent
        self.findings = []     # Failure-like dicts from non-witness rules

def known():
    p = os.path.join(core.VERIF, "known-findings.jsonl")
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"): res.append(json.loads(l))
    return res

def where_defined(subject):
    """headers of the library whose name matches the subject template (for the report)"""
    import re
    names = [x for x in re.split(r"[^A-Za-z0-9_]+", subject) if x]
    out = []
    for h in harvest.headers():
        b = os.path.basename(h)[:-4]
        if b in names and "/v1/" in h: out.append(os.path.relpath(h, core.REPO))
    return out[:6]

def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop"); a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = a.parse_args()
    prop, tier = a.prop, a.tier
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    chk = CHECKS[prop]
    try:
        ctx = Ctx(prop, tier, seed)
        units, problems = [], []
        r = core.Result()
        ids = []
        controls = 0
        if chk.units:
            units = [u for f in chk.units for u in f(ctx)]
            if not units or any(not u.obs for u in units): raise core.Broken("no obligations generated")
            if ctx.std_dependent:
                for u in units:
                    if set(u.stds) & set(core.CPP11): u.stds = tuple(s for s in core.ALL if s in u.stds or s != 98)
            second = (98, 17) if ctx.thorough else chk.second
            r = core.run_units(units, ctx.workdir, second)
            controlled = [u for u in units if not any(f.unit == u.name and f.ob is u.obs[0] for f in r.failures)]
            for u in controlled[:1 if tier == "quick" else 99]:
                controls += 1
                if not core.control(u, ctx.workdir): raise core.Broken("positive control of %s was not rejected" % u.name)
            if chk.differential:
                # the claim is that the standards agree: an obligation that fails in all of them is not a difference
                by = {}
                for f in r.failures: by.setdefault((f.unit, f.ob.id), set()).add((f.std, f.tu.cc))
                nstd = {u.name: len(set(u.stds)) + len(set(u.stds) & set(second)) for u in units}
                same = {k for k, v in by.items() if len(v) == nstd[k[0]]}
                if same: ctx.extra["obligations_failing_alike_in_all_standards"] = len(same)
                r.failures = [f for f in r.failures if (f.unit, f.ob.id) not in same]
            for f in r.failures:
                ids.append(dict(id="%s/%s@c++%d%s" % (f.unit, f.ob.id, f.std, "(clang)" if f.tu.cc == core.CLANG else ""), what="%s: obligation %s does not hold (C++%d): %s" % (f.ob.subject, f.ob.cond if len(f.ob.cond) < 600 else f.ob.cond[:600] + "...", f.std, f.msg[:300]),
                                subject=f.ob.subject, frames=f.frames, replay=f.replay, cmd=" ".join(core.base_cmd(f.std, f.tu.unit.flags, f.tu.cc) + [f.replay or ""])))
        rules = []
        for f in chk.rules:
            res = f(ctx)   # -> dict(obligations, discharged, problems[...], info)
            rules.append(res)
            r.obligations += res["obligations"]; r.discharged += res["discharged"]
            ids += res["problems"]
        if r.obligations < chk.minimum:
            raise core.Broken("only %d obligations were analysed, expected at least %d" % (r.obligations, chk.minimum))
    except core.Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e)); return 2
    except Exception:
        traceback.print_exc(); print("ANALYSIS-BROKEN property=%s" % prop); return 2
    kf = [k for k in known() if k.get("property") == prop and k.get("status") == "known"]
    new, old = [], []
    for p in ids:
        m = [k for k in kf if k["id"] == p["id"]]
        (old if m else new).append((p, m[0] if m else None))
    for k in {id(k): k for _, k in old}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rep = None
    if new:
        rep = os.path.join(ctx.workdir, "violations.txt")
        with open(rep, "w") as fo:
            for p, _ in new:
                fo.write("obligation %s\n  %s\n  construct: %s (%s)\n  reproduce: %s\n  instantiation path: %s\n\n" % (
                    p["id"], p["what"], p.get("subject"), ", ".join(p.get("where") or where_defined(p.get("subject") or "")), p.get("cmd", ""), " <- ".join(p.get("frames", []))))
        for p, _ in new[:5]:
            print("  broken: %s  [%s]" % (p["id"], ", ".join(p.get("where") or where_defined(p.get("subject") or ""))))
        if len(new) > 5: print("  ... %d more, see %s" % (len(new) - 5, rep))
    wall = time.time() - t0
    cov = dict(explanation=chk.explanation, obligations=r.obligations, discharged=r.discharged,
               translation_units=r.tus, second_front_end_standards=list(((98, 17) if ctx.thorough else chk.second) if chk.units else ()), units={u.name: len(u.obs) for u in units},
               standards=sorted({s for u in units for s in u.stds}),
               library_headers_analysed=len(r.headers), positive_controls_rejected=controls,
               harvested_constants=len(ctx.ints), harvested_characters=len(ctx.chars),
               rules=[x.get("info") for x in rules],
               samples=[dict(id=u.obs[len(u.obs) // 2].id, about=u.obs[len(u.obs) // 2].subject, cond=u.obs[len(u.obs) // 2].cond[:400]) for u in units][:6],
               checker_cmd=" ".join(core.base_cmd(17)), trusted_base=["g++ 13 template instantiation", "Boost.MPL / Preprocessor of Boost 1.83", "the witness headers in /verif/witness"])
    cov.update(ctx.extra)
    ev = dict(property=prop, tier=tier, seed=seed, level=chk.level, coverage=cov, wall_s=round(wall, 2), violations=len(new),
              assumptions=chk.assumptions)
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d translation units, %.1fs" % (prop, r.obligations, r.discharged, r.tus, wall))
    if new:
        print("VIOLATION property=%s replay=%s" % (prop, rep)); return 1
    return 0
if __name__ == "__main__":
    sys.exit(main())
