#!/usr/bin/env python3
"""Freezes, from the documentation of the pinned commit, which header documents which name and
the documented example programs.  Run once; the checks read data/api.json, not the documentation."""
import glob, json, os, re, subprocess
docs = "/repo/doc"
api, examples = [], []
for f in sorted(glob.glob(docs + "/*.qbk")):
    t = open(f).read()
    m = re.search(r"^\[section (\S+)\]", t, re.M)
    h = re.findall(r"\[h1 Header\]\s*((?:\s*#include <[^>]+>\s*)+)", t)
    if not m or not h: continue
    hs = [x for x in re.findall(r"<([^>]+)>", h[0])]
    kind = "macro" if "This is a macro" in t else "name"
    api.append(dict(section=m.group(1), headers=hs, kind=kind))
    e = re.search(r"\[h1 Example\]\n(.*?)(\n\[endsect\]|\Z)", t, re.S)
    if e:
        lines = e.group(1).split("\n"); code = []
        for l in lines:
            if l.startswith("  ") or not l.strip(): code.append(l[2:])
            elif code and any(c.strip() for c in code): break
        examples.append(dict(section=m.group(1), code="\n".join(code).strip() + "\n"))
base = "/repo/include/"
hs = [h[len(base):] for h in glob.glob(base + "boost/**/*.hpp", recursive=True)]
public = sorted(h for h in hs if "/v1/" not in h) + sorted(h for h in hs if re.search(r"/v1/(error/|util/)?[^/]+\.hpp$", h))
json.dump(dict(api=api, examples=examples, public_headers=public), open("data/api.json", "w"), indent=1)
for a in api: print(a["section"], a["kind"], a["headers"])
