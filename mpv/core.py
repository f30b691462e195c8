"""Witness runner: writes witness translation units, lets the compiler front end
decide them (-fsyntax-only: nothing is executed), attributes every rejected
obligation to the property and the library template it is about, and writes the
evidence."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MPV_REPO", "/repo")
INC = os.path.join(REPO, "include")
GXX = "/usr/bin/g++"
CLANG = "/usr/bin/clang++"
ALL = (98, 11, 14, 17)
CPP11 = (11, 14, 17)
JOBS = int(os.environ.get("MPV_JOBS", "8"))

class Broken(Exception):
    """The analysis itself could not be carried out (exit 2, never a verdict)."""

class Ob:
    __slots__ = ("id", "cond", "subject", "before")
    def __init__(self, id, cond, subject):
        self.id, self.cond, self.subject, self.before = id, cond, subject, ()

def fix98(s):
    return re.sub(r">(?=>)", "> ", s)

class Unit:
    """A witness translation unit: includes + preamble + one obligation per line."""
    def __init__(self, name, inc, subject, stds=ALL, pre="", flags=(), chunk=250, sym=True, before=""):
        self.name, self.subject, self.stds = name, subject, tuple(stds)
        self.inc = [inc] if isinstance(inc, str) else list(inc)
        self.pre, self.flags, self.chunk, self.sym, self.before = pre, list(flags), chunk, sym, before
        self.obs = []
        self._ids = set()
    def ob(self, id, cond, subject=None):
        if id in self._ids:
            raise Broken("duplicate obligation id %s in %s" % (id, self.name))
        self._ids.add(id)
        self.obs.append(Ob(id, fix98(" ".join(cond.split())), subject or self.subject))
        return self
    def tus(self, second=()):
        """second: standards to decide with the second front end (clang) as well"""
        for std, cc in [(s, GXX) for s in self.stds] + [(s, CLANG) for s in second if s in self.stds]:
            n = max(1, (len(self.obs) + self.chunk - 1) // self.chunk)
            size = (len(self.obs) + n - 1) // n
            for i in range(n):
                yield TU(self, std, i, self.obs[i * size:(i + 1) * size], cc)

class TU:
    def __init__(self, unit, std, idx, obs, cc=None):
        self.unit, self.std, self.idx, self.obs, self.cc = unit, std, idx, obs, cc or GXX
        self.name = "%s.%d.%scxx%d" % (unit.name, idx, "clang." if self.cc == CLANG else "", std)
    def text(self, obs=None, negate=False):
        u = self.unit
        obs = self.obs if obs is None else obs
        lines = []
        if u.before: lines += u.before.splitlines()
        for h in u.inc: lines.append("#include <boost/metaparse/%s>" % h if not h.startswith("<") else "#include %s" % h)
        if u.sym: lines.append('#include <mpv/sym.hpp>')
        lines += ["using namespace mpv;"] if u.sym else []
        lines += fix98(u.pre).splitlines() if u.pre else []
        where = {}
        for o in obs:
            c = o.cond
            lines += list(o.before)
            if negate: c = "!(%s)" % c
            if self.std == 98: lines.append('char mpv_ob_%d[(%s) ? 1 : -1]; // %s' % (len(lines) + 1, c, o.id))
            else: lines.append('static_assert((%s), "OB %s");' % (c, o.id.replace("\\", "\\\\").replace('"', '\\"')))
            where[len(lines)] = o
        return "\n".join(lines) + "\n", where

def base_cmd(std, flags=(), compiler=GXX):
    cmd = [compiler, "-w", "-std=c++%d" % std, "-fsyntax-only", "-ftemplate-depth=4096",
           "-I" + INC, "-I" + os.path.join(VERIF, "witness")]
    if compiler == GXX:
        cmd += ["-ftemplate-backtrace-limit=0", "-fmax-errors=0", "-fno-diagnostics-show-caret"]
    else: cmd += ["-ferror-limit=0", "-fbracket-depth=4096", "-ftemplate-backtrace-limit=0", "-fno-caret-diagnostics"]
    return cmd + list(flags)

def sh(cmd, timeout=300, input=None):
    env = dict(os.environ, LC_ALL="C", LANG="C")
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=env, input=input, errors="replace", text=True)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return -999, "", "timeout"

ERR = re.compile(r"^(.*?):(\d+)(?::\d+)?: (?:fatal )?error: (.*)$")
LOC = re.compile(r"^(.*?):(\d+)(?::\d+)?:")

def attribute(stderr, path):
    """[(line in witness or None, message, [library frames])] for each error."""
    res, pend, frames = [], None, []
    for ln in stderr.splitlines():
        m = ERR.match(ln)
        if m:
            f, l, msg = m.group(1), int(m.group(2)), m.group(3)
            if f == path: at = l
            else:
                at = pend
                frames = ["%s:%d" % (f, l)] + frames
            res.append((at, msg, frames[:12]))
            pend, frames = None, []
            continue
        if ": note:" in ln: continue
        m = LOC.match(ln)
        if m:
            if m.group(1) == path: pend = int(m.group(2))
            elif "required from" in ln or "In instantiation" in ln or "recursively required" in ln:
                frames.append("%s:%s" % (m.group(1), m.group(2)))
    return res

def attribute_clang(stderr, path):
    """the same for clang, where the instantiation history follows the error"""
    res = []
    for ln in stderr.splitlines():
        m = ERR.match(ln)
        if m:
            f, l, msg = m.group(1), int(m.group(2)), m.group(3)
            res.append([l if f == path else None, msg, [] if f == path else ["%s:%d" % (f, l)]])
            continue
        m = LOC.match(ln)
        if m and res and ": note:" in ln:
            if m.group(1) == path and ("requested here" in ln or "in instantiation" in ln or "required here" in ln):
                if res[-1][0] is None: res[-1][0] = int(m.group(2))
            elif m.group(1) != path and len(res[-1][2]) < 12: res[-1][2].append("%s:%s" % (m.group(1), m.group(2)))
    return [tuple(x) for x in res]

class Failure:
    def __init__(self, tu, ob, msg, frames):
        self.tu, self.ob, self.msg, self.frames = tu, ob, msg, frames
        self.unit, self.std = tu.unit.name, tu.std
        self.replay = None
    def key(self):
        return "%s/%s@%d%s" % (self.unit, self.ob.id if self.ob else "?", self.std, "clang" if self.tu.cc == CLANG else "")

class Result:
    def __init__(self): self.failures, self.obligations, self.discharged, self.headers, self.tus = [], 0, 0, set(), 0

def headers_from_dep(path):
    try: txt = open(path).read().replace("\\\n", " ")
    except OSError: return set()
    return {w for w in txt.split() if w.endswith((".hpp", ".h"))}

def run_tu(tu, workdir):
    src = os.path.join(workdir, tu.name + ".cpp")
    dep = os.path.join(workdir, tu.name + ".d")
    text, where = tu.text()
    open(src, "w").write(text)
    clang = tu.cc == CLANG
    cmd = base_cmd(tu.std, tu.unit.flags, tu.cc) + ["-MD", "-MF", dep, src]
    if clang: cmd = [x for x in cmd if not x.startswith("-fconstexpr-ops-limit")]
    rc, _, err = sh(cmd)
    if rc == -999:
        o = Ob("surroundings", "evaluating these obligations terminates", tu.unit.subject)
        return [Failure(tu, o, "the compiler was still instantiating templates after the time limit (seconds on the original tree)", [])], set(), src
    if rc not in (0, 1):
        rc, _, err = sh(cmd)  # once more: memory pressure
        if rc not in (0, 1):
            raise Broken("compiler did not finish on %s (rc=%s): %s" % (tu.name, rc, err[-400:]))
    hs = headers_from_dep(dep)
    bad = [h for h in hs if "/boost/metaparse" in h and not os.path.realpath(h).startswith(os.path.realpath(INC))]
    if bad: raise Broken("witness used %s instead of the library under analysis" % bad[0])
    if rc == 0: return [], hs, src
    fails, seen = [], set()
    unattr = []
    for line, msg, frames in (attribute_clang if clang else attribute)(err, src):
        o = where.get(line)
        if o is None: unattr.append((msg, frames)); continue
        if o.id in seen: continue
        seen.add(o.id)
        fails.append(Failure(tu, o, msg, frames))
    if unattr and not fails:
        # is it the obligations or the surroundings that do not compile?
        t0, _ = tu.text(obs=[])
        p0 = src[:-4] + ".bare.cpp"
        open(p0, "w").write(t0)
        rc0, _, e0 = sh(base_cmd(tu.std, tu.unit.flags, tu.cc) + [p0])
        if rc0 != 0:
            open(src[:-4] + ".log", "w").write(e0)
            first = [l for l in e0.splitlines() if "error:" in l]
            o = Ob("surroundings", "the documented headers and names used by this witness unit compile", tu.unit.subject)
            return [Failure(tu, o, (first or ["?"])[0], unattr[0][1])], hs, src
        fails.append(Failure(tu, tu.obs[0], unattr[0][0], unattr[0][1]))
    if not fails: raise Broken("unparsed diagnostics for %s:\n%s" % (tu.name, err[:1500]))
    open(src[:-4] + ".log", "w").write(err)
    return fails, hs, src

def control(unit, workdir):
    """Positive control: the negation of an obligation has to be rejected at its line."""
    std = unit.stds[-1]
    tu = TU(unit, std, 0, unit.obs[:1])
    text, where = tu.text(negate=True)
    src = os.path.join(workdir, "control.%s.cpp" % unit.name)
    open(src, "w").write(text)
    rc, _, err = sh(base_cmd(std, unit.flags) + [src])
    if rc == 0: return False
    return any(where.get(l) is not None for l, _, _ in attribute(err, src))

def run_units(units, workdir, second=()):
    r = Result()
    tus = [t for u in units for t in u.tus(second)]
    # biggest first
    tus.sort(key=lambda t: -len(t.obs))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(run_tu, t, workdir): t for t in tus}
        for f in cf.as_completed(futs):
            t = futs[f]
            fails, hs, src = f.result()
            for x in fails: x.replay = src
            r.failures += fails
            r.obligations += len(t.obs)
            r.discharged += 0 if any(x.ob.id == "surroundings" for x in fails) else len(t.obs) - len(fails)
            r.headers |= {h for h in hs if h.startswith(INC)}
            r.tus += 1
    return r
