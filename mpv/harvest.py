"""Lexical harvest of the constants that occur in the library's own code.
Only used to *add* witness points (n-1, n, n+1 of every literal), never to decide."""
import os, re
from . import core
TOK = re.compile(r"//[^\n]*|/\*.*?\*/|'(?:\\.|[^'\\])+'|\"(?:\\.|[^\"\\])*\"|\b0[xX][0-9a-fA-F]+\b|\b\d+\b", re.S)
SKIP = ("cpp11/impl/string.hpp",)
ESC = {"n": 10, "r": 13, "t": 9, "0": 0, "\\": 92, "'": 39, '"': 34, "v": 11, "f": 12, "a": 7, "b": 8}
def headers():
    for d, _, fs in os.walk(os.path.join(core.INC, "boost")):
        for f in sorted(fs):
            if f.endswith(".hpp"):
                yield os.path.join(d, f)
def constants():
    ints, chars = set(), set()
    for p in headers():
        if p.endswith(SKIP): continue
        txt = open(p, errors="replace").read()
        for line_block in [txt]:
            for m in TOK.finditer(line_block):
                t = m.group(0)
                if t.startswith(("//", "/*", '"')): continue
                if t.startswith("'"):
                    b = t[1:-1]
                    try:
                        if b.startswith("\\x"): chars.add(int(b[2:], 16) & 255)
                        elif b.startswith("\\") and b[1:].isdigit(): chars.add(int(b[1:], 8) & 255)
                        elif b.startswith("\\"): chars.add(ESC.get(b[1:], ord(b[-1])))
                        else: chars.add(ord(b) & 255)
                    except (ValueError, IndexError): pass
                else:
                    try: ints.add(int(t, 0) if not (t.startswith("0") and len(t) > 1 and t.isdigit()) else int(t, 8))
                    except ValueError: pass
    return ints, chars
def points(base, lo, hi, ints=None, extra=1):
    """base plus every harvested constant +-1, clipped to [lo, hi]"""
    ints = constants()[0] if ints is None else ints
    s = set(base)
    for c in ints:
        for d in range(-extra, extra + 1): s.add(c + d)
    return sorted(x for x in s if lo <= x <= hi)

# files of the pinned tree whose preprocessed text depends on the language standard although it is used by several of them
STD_DEPENDENT = {"any_of_c.hpp", "or_c.hpp", "one_of_c.hpp", "build_parser.hpp"}
def std_dependent():
    """shared headers whose preprocessed text differs between the standards beyond the known ones: the quick tier then
    decides everything in all standards instead of relying on C++11/14/17 (and C++98, for the shared headers) seeing the same code"""
    import hashlib, subprocess
    from concurrent.futures import ThreadPoolExecutor
    pub = []
    for p in headers():
        r = os.path.relpath(p, core.INC)
        if re.match(r"boost/metaparse(/(error|util|v1|v1/error|v1/util))?/[^/]+\.hpp$", r) or r == "boost/metaparse.hpp": pub.append(r)
    src = "".join("#include <%s>\n" % r for r in sorted(pub) if "limit" not in r)
    def one(std):
        o = subprocess.run([core.GXX, "-E", "-std=c++%d" % std, "-I" + core.INC, "-x", "c++", "-"], input=src, text=True, errors="replace", capture_output=True)
        cur, d = None, {}
        for l in o.stdout.splitlines():
            q = re.match(r'# \d+ "(.*?)"', l)
            if q: cur = q.group(1) if q.group(1).startswith(core.INC) else None
            elif cur and l.strip(): d.setdefault(cur, hashlib.sha1()).update(" ".join(l.split()).encode() + b"\n")
        return {k: v.hexdigest() for k, v in d.items()}
    with ThreadPoolExecutor(4) as ex: R = dict(zip(core.ALL, ex.map(one, core.ALL)))
    bad = set()
    for f in set().union(*[set(R[s]) for s in core.CPP11]):
        if len({R[s].get(f) for s in core.CPP11}) > 1: bad.add(f)
    for f in set(R[98]) & set(R[17]):
        if R[98][f] != R[17][f]: bad.add(f)
    return sorted(os.path.relpath(f, core.REPO) for f in bad if os.path.basename(f) not in STD_DEPENDENT)
