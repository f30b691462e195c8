#!/usr/bin/env python3
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mpv.registry import CHECKS
m = dict(version=1, setup_cmd="python3 -m compileall -q mpv", checks=[], not_applicable=[],
         notes="All checks are static: they inspect /repo's headers through the compiler front end, clang-query and LLVM IR. No hooks in /repo.")
for k in sorted(CHECKS):
    c = CHECKS[k]
    m["checks"].append(dict(property=k, quick_cmd="python3 mpv/check.py %s --tier quick" % k, thorough_cmd="python3 mpv/check.py %s --tier thorough" % k,
                            evidence_file="evidence/%s.json" % k, technique=c.technique, level=c.level, level_note=c.note))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
