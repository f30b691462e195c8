#!/usr/bin/env python3
"""Mutation campaign: systematic small changes to the library's headers; those that keep every test
translation unit compiling in all standards ("survivors of the tests") are given to the checks.
usage: mutate.py --out FILE [--n N] [--seed S] [--workers W] [--files REGEX] [--budget SECONDS]
Works on copies under /tmp/mut; /repo and /verif are only read."""
import sys, os, re, random, subprocess, json, glob, time, shutil, argparse, threading, queue
R = "/repo"; V = "/verif"; T = "/tmp/mut"
a = argparse.ArgumentParser(); a.add_argument("--out", default="/tmp/mut.out"); a.add_argument("--n", type=int, default=200); a.add_argument("--seed", type=int, default=1)
a.add_argument("--workers", type=int, default=8); a.add_argument("--files", default="."); a.add_argument("--budget", type=int, default=3600); a.add_argument("--skip", default="string\\.hpp$ZZ")
a = a.parse_args()
STDS = (98, 11, 14, 17)
def sh(c, timeout=600, env=None):
    try:
        p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=env); return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired: return -9, "", "timeout"
TESTS = sorted(glob.glob(R + "/test/*.cpp"))
def headers():
    for d, _, fs in os.walk(R + "/include/boost"):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), R)
            if p.endswith("cpp11/impl/string.hpp"): continue
            yield p
def deps():
    m = {}
    def one(t):
        res = set()
        for s in (98, 17):
            rc, o, e = sh(["g++", "-MM", "-std=c++%d" % s, "-I" + R + "/include", "-I" + R + "/test", t])
            res |= {os.path.relpath(x, R) for x in o.replace("\\\n", " ").split() if "/include/boost/metaparse" in x}
        return t, res
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for t, r in ex.map(one, TESTS):
            for h in r: m.setdefault(h, []).append(t)
    return m
TOK = re.compile(r"//[^\n]*|/\*.*?\*/|^[ \t]*#[^\n]*(?:\\\n[^\n]*)*|'(?:\\.|[^'\\])'|\"(?:\\.|[^\"\\])*\"|[A-Za-z_]\w*|\d+|<=|>=|==|!=|&&|\|\||[-+!<>,]", re.S | re.M)
def args_of(txt, i):
    """txt[i] == '<': [(start,end)] of the arguments"""
    d = 0; st = i + 1; out = []
    for j in range(i, min(len(txt), i + 3000)):
        c = txt[j]
        if c in "<(": d += 1
        elif c in ">)":
            d -= 1
            if d == 0: out.append((st, j)); return out
        elif c == "," and d == 1: out.append((st, j)); st = j + 1
    return []
SWAPID = {"next_char": ["next_line"], "next_line": ["next_char"], "less": ["less_equal", "greater"], "greater": ["less"], "get_line": ["get_col"], "get_col": ["get_line"], "equal_to": ["not_equal_to", "less_equal"], "true_": ["false_"], "false_": ["true_"], "true": ["false"], "false": ["true"],
  "push_back": ["push_front"], "push_front": ["push_back"], "pop_front": ["pop_back"], "front": ["back"], "back": ["front"], "begin": ["end"], "and_": ["or_"], "or_": ["and_"], "foldl": ["foldr"], "foldr": ["foldl"], "foldl1": ["foldl"], "repeated1": ["repeated"], "repeated": ["repeated1"], "foldr1": ["foldr"],
  "spaces": ["space"], "first_of": ["last_of"], "last_of": ["first_of"], "accept": [], "next": ["prior"], "prior": ["next"], "eval_if": ["if_"], "if_": ["eval_if"], "is_error": [], "is_digit": ["is_letter"], "is_lcase_letter": ["is_ucase_letter"], "is_ucase_letter": ["is_lcase_letter"], "BOOST_PP_INC": ["BOOST_PP_DEC"], "BOOST_PP_DEC": ["BOOST_PP_INC"]}
OPS = {"<=": ["<", ">="], ">=": [">", "<="], "==": ["!=", "<="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"]}
KEY = set("class struct template typename typedef namespace static const enum public int char bool if else return boost mpl metaparse v1 type apply inline using long unsigned value impl".split())
def mutants(path):
    txt = open(os.path.join(R, path)).read(); out = []
    body = txt.find("namespace")
    if body < 0: return []
    toks = [m for m in TOK.finditer(txt) if m.start() >= body or m.group(0).lstrip().startswith("#")]
    params = set(re.findall(r"\bclass\s+([A-Z]\w*)", txt[body:])) | set(re.findall(r"\b(?:int|char|bool)\s+([A-Z]\w*)", txt[body:]))
    def add(s, e, new, why): out.append((path, s, e, new, why))
    for k, m in enumerate(toks):
        t = m.group(0); s, e = m.start(), m.end()
        prev = toks[k - 1].group(0) if k else ""
        if t.startswith(("//", "/*")): continue
        if t.lstrip().startswith("#"):
            if t.lstrip().startswith("#include"): pass
            elif "BOOST_PP" in t or "template" in t or "struct" in t:   # macro bodies
                for q in re.finditer(r"BOOST_PP_INC|BOOST_PP_DEC", t): add(s + q.start(), s + q.end(), SWAPID[q.group(0)][0], "pp")
                for q in re.finditer(r"(?<!TUPLE_EAT\()\b\d+\b", t): add(s + q.start(), s + q.end(), str(int(q.group(0)) + 1), "int")
            continue
        if t.startswith("'"):
            c = t[1:-1]
            n = {"\\n": "\\r", "\\r": "\\n", "\\t": "\\v", "\\0": "\\1"}.get(c) or (chr(ord(c) + 1) if len(c) == 1 and c not in "&[" else "x")
            add(s, e, "'" + n + "'", "char"); continue
        if t.startswith('"'): continue
        if t.isdigit():
            if txt[max(0, s - 14):s].endswith("TUPLE_EAT("): continue      # equivalent
            add(s, e, str(int(t) + 1), "int+"); 
            if int(t) > 0: add(s, e, str(int(t) - 1), "int-")
            continue
        if t in OPS:
            if t in "+-" and not (txt[s - 1] == " " or txt[e:e + 1] == " "): continue
            for n in OPS[t]: add(s, e, n, "op")
            continue
        if t == "!": add(s, e, "", "not"); continue
        if t in SWAPID and prev != "struct":
            for n in SWAPID[t]: add(s, e, n, "id")
        if t in params and prev not in ("class", "int", "char", "bool", "struct"):
            for n in sorted(params - {t}): add(s, e, n, "param")
        if t in ("eval_if", "if_", "eval_if_c", "if_c") and txt[e:e + 1] == "<" and prev != "struct":
            A = args_of(txt, e)
            if len(A) == 3: add(A[1][0], A[2][1], txt[A[2][0]:A[2][1]] + "," + txt[A[1][0]:A[1][1]], "branch")
        if t in ("accept", "reject", "unless_error", "apply", "less", "greater", "equal_to", "return_", "sequence", "next_char") and txt[e:e + 1] == "<" and prev != "struct":
            A = args_of(txt, e)
            for i in range(len(A) - 1): add(A[i][0], A[i + 1][1], txt[A[i + 1][0]:A[i + 1][1]] + "," + txt[A[i][0]:A[i][1]], "argswap")
        if t in ("get_remaining", "get_position", "get_result", "get_message") and txt[e:e + 1] == "<" and prev not in ("struct",):
            for n in sorted(params & {"S", "Pos", "State", "Rem"}):
                A = args_of(txt, e)
                if A:
                    end = A[-1][1] + 1
                    q = re.match(r"\s*::type", txt[end:])
                    st = txt.rfind("typename", 0, s)
                    if q and st >= 0 and txt[st + 8:s].strip() in ("", "boost::metaparse::v1::"): add(st, end + q.end(), n, "field")
        if t == "typename":
            q = re.match(r"typename\s+(\w+)::type\b", txt[s:])
            if q: add(s, s + q.end(), q.group(1), "unevaluated")
    seen = set(); res = []
    for x in out:
        n = txt[:x[1]] + x[3] + txt[x[2]:]
        if n != txt and n not in seen: seen.add(n); res.append(x)
    return res
def affinity(h):
    b = os.path.basename(h)[:-4]
    return b
CHECKS = ["C%02d" % k for k in range(1, 27)]
EX = {"C20": 9, "C21": 8, "C14": 7, "C13": 3, "C22": 2, "C26": 1}
def order_checks(h):
    b = h
    pr = {}
    rules = [("fold|repeated", "C06 C07"), ("one_of", "C05 C11"), ("sequence|nth_of|first_of|last_of|middle_of|skip_seq|later_result", "C04 C24"), ("string|at_c|pop_|push_|size|concat|update", "C13 C24 C14"), ("grammar", "C18"), ("error/|define_error", "C19"), ("source_pos|start|next_|get_line|get_col|prev", "C03 C02"),
             ("accept|reject|is_error|get_|unless", "C01 C09"), ("util/|digit|letter|range|alphanum", "C10 C11 C12"), ("lit|one_char|space|range|char", "C11"), ("int_|digit", "C12"), ("keyword|token|empty|entire", "C15"), ("iterate", "C16"), ("build", "C17"), ("debug", "C25"), ("look|except|if_|optional|fail_at", "C08"), ("transform|always|change|accept_when", "C09"), ("limit|config", "C24")]
    first = []
    for rx, cs in rules:
        if re.search(rx, b): first += cs.split()
    rest = sorted([c for c in CHECKS if c not in first], key=lambda c: EX.get(c, 0))
    return list(dict.fromkeys(first)) + rest
def worker(k, q, res, dm, t_end, lock):
    w = "%s/w%d" % (T, k); v = "%s/v%d" % (T, k)
    shutil.rmtree(w, ignore_errors=True); shutil.rmtree(v, ignore_errors=True)
    os.makedirs(w); shutil.copytree(R + "/include", w + "/include"); 
    for x in ("doc", "test", "example"):
        if os.path.isdir(R + "/" + x): os.symlink(R + "/" + x, w + "/" + x)
    shutil.copytree(V, v, ignore=shutil.ignore_patterns(".git", "build", "evidence", "seeded", "__pycache__")); os.makedirs(v + "/evidence", exist_ok=True)
    while time.time() < t_end:
        try: mu = q.get_nowait()
        except queue.Empty: break
        path, s, e, new, why = mu
        orig = open(os.path.join(R, path)).read(); mt = orig[:s] + new + orig[e:]
        open(os.path.join(w, path), "w").write(mt)
        ln = orig.count("\n", 0, s) + 1
        rec = dict(path=path, line=ln, old=orig[s:e], new=new, why=why, s=s, e=e)
        try:
            ts = sorted(dm.get(path, []), key=lambda t: (affinity(path) not in os.path.basename(t), len(os.path.basename(t)), t))
            killed = None
            # quick look: does the most relevant test compile
            for t in ts:
                for sd in (17, 98, 11, 14):
                    rc, o, er = sh(["g++", "-w", "-fsyntax-only", "-std=c++%d" % sd, "-I" + w + "/include", "-I" + R + "/test", t], 120)
                    if rc:
                        # does it also fail on the clean tree (not a baseline combination)?
                        key = (t, sd)
                        if key not in CLEAN:
                            CLEAN[key] = sh(["g++", "-w", "-fsyntax-only", "-std=c++%d" % sd, "-I" + R + "/include", "-I" + R + "/test", t], 120)[0]
                        if CLEAN[key] == 0: killed = os.path.basename(t) + "@%d" % sd; break
                if killed: break
            rec["killed"] = killed
            if not killed:
                caught = []; t0 = time.time()
                env = dict(os.environ, MPV_REPO=w, MPV_JOBS="2", VERIF_TIER="quick", VERIF_SEED="1")
                for c in order_checks(path):
                    rc, o, er = sh([sys.executable, v + "/mpv/check.py", c], 1500, env)
                    if rc == 1: caught.append(c); break
                    if rc != 0: caught.append("%s:rc%d" % (c, rc)); rec.setdefault("broken", []).append((c, (o + er)[-300:]))
                rec["caught"] = caught; rec["t"] = round(time.time() - t0)
        finally:
            open(os.path.join(w, path), "w").write(orig)
        with lock:
            open(a.out, "a").write(json.dumps(rec) + "\n")
    shutil.rmtree(w, ignore_errors=True); shutil.rmtree(v, ignore_errors=True)
CLEAN = {}
def main():
    os.makedirs(T, exist_ok=True)
    dm = deps()
    hs = [h for h in headers() if re.search(a.files, h)]
    per = {h: mutants(h) for h in hs}
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out): d = json.loads(l); done.add((d["path"], d["s"], d["e"], d["new"]))
    rnd = random.Random(a.seed); allm = []
    for h in hs:
        m = [x for x in per[h] if (x[0], x[1], x[2], x[3]) not in done]; rnd.shuffle(m); per[h] = m
    total = sum(map(len, per.values()))
    # round robin over headers
    while len(allm) < a.n and any(per.values()):
        for h in rnd.sample(hs, len(hs)):
            if per[h]: allm.append(per[h].pop())
    allm = allm[:a.n]
    print("headers %d, mutants %d, selected %d" % (len(hs), total, len(allm))); sys.stdout.flush()
    q = queue.Queue()
    for m in allm: q.put(m)
    lock = threading.Lock(); t_end = time.time() + a.budget
    th = [threading.Thread(target=worker, args=(k, q, None, dm, t_end, lock)) for k in range(a.workers)]
    for t in th: t.start()
    for t in th: t.join()
    print("done")
main()
