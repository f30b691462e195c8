"""C13 compile-time strings as sequences, C14 the literal macro"""
import os, re
from .common import *
from .. import core
BM = "namespace bm = boost::metaparse;\n"
MPLH = ["at", "size", "front", "back", "begin_end", "next", "prior", "deref", "advance", "distance", "push_front", "push_back", "pop_front", "pop_back", "clear", "empty", "equal", "equal_to", "is_sequence", "char", "int", "fold", "vector", "find", "long"]
INC13 = ["string.hpp", "string_tag.hpp"] + ["<boost/mpl/%s.hpp>" % h for h in MPLH]
PRE13 = BM + r'''
template <class A, class V> struct chr_is { static const bool value = (int)A::value == (int)V::value; };
// walk forwards / backwards over the whole string comparing with a type list of char_
template <class I, class E, class L> struct fwd_;
template <class E> struct fwd_<E, E, nil> { static const bool value = true; };
template <class I, class E> struct fwd_<I, E, nil> { static const bool value = false; };
template <class E, class H, class T> struct fwd_<E, E, cons<H, T> > { static const bool value = false; };
template <bool G, class I, class E, class T> struct fwd_step { static const bool value = false; };
template <class I, class E, class T> struct fwd_step<true, I, E, T> : fwd_<typename mpl::next<I>::type, E, T> {};
template <class I, class E, class H, class T> struct fwd_<I, E, cons<H, T> > : fwd_step<(int)mpl::deref<I>::type::value == (int)H::value, I, E, T> {};
template <class S, class L> struct fwd : fwd_<typename mpl::begin<S>::type, typename mpl::end<S>::type, L> {};
template <class I, class B, class L> struct bwd_;   // I is one past
template <class B> struct bwd_<B, B, nil> { static const bool value = true; };
template <class I, class B> struct bwd_<I, B, nil> { static const bool value = false; };
template <class B, class H, class T> struct bwd_<B, B, cons<H, T> > { static const bool value = false; };
template <bool G, class I, class B, class T> struct bwd_step { static const bool value = false; };
template <class I, class B, class T> struct bwd_step<true, I, B, T> : bwd_<I, B, T> {};
template <class I, class B, class H, class T> struct bwd_<I, B, cons<H, T> > :
  bwd_step<(int)mpl::deref<typename mpl::prior<I>::type>::type::value == (int)H::value, typename mpl::prior<I>::type, B, T> {};
template <class S, class L> struct bwd : bwd_<typename mpl::end<S>::type, typename mpl::begin<S>::type, L> {};
struct snoc { typedef snoc type; template <class A, class B> struct apply { typedef cons<mpl::int_<(int)B::value>, A> type; }; };
'''
def ch_(c): return "mpl::char_<%s>" % cch(c)
def text(n, k=0):
    """n pairwise-neighbour-distinct characters, k selects a different text"""
    return [33 + (i * 31 + i // 94 + k * 7) % 94 for i in range(n)]

def string_obs(u, t, s, light=False):
    n = len(s); S = mpstring(s)
    L = lst(ch_(c) for c in s)
    u.ob(t + ".size", "mpl::size<%s >::type::value == %d && mpl::empty<%s >::type::value == %s && mpl::is_sequence<%s >::type::value && same<%s::tag, bm::string_tag>::value && same<%s::type, %s >::value" % (S, n, S, "true" if n == 0 else "false", S, S, S, S), "string")
    u.ob(t + ".forward", "fwd<%s, %s >::value" % (S, L), "string")
    u.ob(t + ".backward", "bwd<%s, %s >::value" % (S, lst(ch_(c) for c in reversed(s))), "string_iterator")
    u.ob(t + ".distance", "mpl::distance<mpl::begin<%s >::type, mpl::end<%s >::type>::type::value == %d && mpl::distance<mpl::end<%s >::type, mpl::begin<%s >::type>::type::value == %d && same<mpl::advance<mpl::begin<%s >::type, mpl::int_<%d> >::type, mpl::end<%s >::type>::value && same<mpl::advance<mpl::end<%s >::type, mpl::int_<-%d> >::type, mpl::begin<%s >::type>::value" % (S, S, n, S, S, -n, S, n, S, S, n, S), "string_iterator")
    u.ob(t + ".iter_equal", "mpl::equal_to<mpl::begin<%s >::type, mpl::end<%s >::type>::type::value == %s && mpl::equal_to<mpl::end<%s >::type, mpl::end<%s >::type>::type::value && !mpl::equal_to<mpl::begin<%s >::type, mpl::int_<%d> >::type::value && !mpl::equal_to<mpl::int_<%d>, mpl::begin<%s >::type>::type::value" % (S, S, "true" if n == 0 else "false", S, S, S, n, n, S), "string_iterator")
    u.ob(t + ".clear", "same<mpl::clear<%s >::type, bm::string<> >::value" % S, "string")
    u.ob(t + ".equal", "mpl::equal_to<%s, %s >::type::value && mpl::equal<%s, %s >::type::value && !mpl::equal_to<%s, mpl::int_<%d> >::type::value && !mpl::equal_to<mpl::int_<%d>, %s >::type::value" % (S, S, S, S, S, n, n, S), "string")
    if n:
        u.ob(t + ".ends", "(int)mpl::front<%s >::type::value == %d && (int)mpl::back<%s >::type::value == %d" % (S, schar(s[0]), S, schar(s[-1])), "string")
        u.ob(t + ".pop", "same<mpl::pop_front<%s >::type, %s >::value && same<mpl::pop_back<%s >::type, %s >::value" % (S, mpstring(s[1:]), S, mpstring(s[:-1])), "string")
        u.ob(t + ".poppush", "same<mpl::push_front<mpl::pop_front<%s >::type, %s >::type, %s >::value && same<mpl::push_back<mpl::pop_back<%s >::type, %s >::type, %s >::value" % (S, ch_(s[0]), S, S, ch_(s[-1]), S), "string")
        d = [x for x in s]; d[-1] ^= 1
        e = [x for x in s]; e[0] ^= 1
        m = [x for x in s]; m[n // 2] ^= 1
        u.ob(t + ".differ", " && ".join("!mpl::equal_to<%s, %s >::type::value && !mpl::equal<%s, %s >::type::value" % (S, mpstring(x), S, mpstring(x)) for x in ((d, e, m, s[:-1], s[1:]) if n > 1 else (d, []))), "string")
        pos = range(n) if n <= 40 and not light else sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n)))
        u.ob(t + ".at", " && ".join("(int)mpl::at_c<%s, %d>::type::value == %d" % (S, i, schar(s[i])) for i in pos), "at_c")
        if not light: u.ob(t + ".advance", " && ".join("(int)mpl::deref<mpl::advance<mpl::begin<%s >::type, mpl::int_<%d> >::type>::type::value == %d && (int)mpl::at<%s, mpl::long_<%d> >::type::value == %d" % (S, i, schar(s[i]), S, i, schar(s[i])) for i in pos), "string_iterator")
    if n < 31:
        u.ob(t + ".fold", "same<mpl::fold<%s, nil, snoc>::type, %s >::value" % (S, lst("mpl::int_<%d>" % schar(c) for c in reversed(s))), "string_iterator")

def c13(ctx):
    us = []
    u = Unit("strings", INC13, "string", pre=PRE13, chunk=70, stds=tier_stds(ctx, 98, 11, 17))
    for n in range(0, 33):
        string_obs(u, "len%d" % n, text(n), light=(n > 12 and n % 5 and not ctx.thorough))
    us.append(u)
    w = Unit("push", INC13, "string", pre=PRE13, chunk=70, stds=tier_stds(ctx, 98, 17))
    for n in range(0, 32):
        s = text(n, 3); S = mpstring(s)
        for c in (33, 126, 0, 255, 128, 10) if ctx.thorough or n < 6 or n > 29 else (33, 255):
            w.ob("push.%d.%d" % (n, c), "same<mpl::push_back<%s, %s >::type, %s >::value && same<mpl::push_front<%s, %s >::type, %s >::value" % (S, ch_(c), mpstring(s + [c]), S, ch_(c), mpstring([c] + s)), "string")
    for c in range(256):
        for k, s in enumerate(([c], [c, c], [65, c], [c, 65], [65, c, 66])):
            S = mpstring(s)
            w.ob("char.%d.%d" % (c, k), "mpl::size<%s >::type::value == %d && (int)mpl::front<%s >::type::value == %d && (int)mpl::back<%s >::type::value == %d && same<mpl::pop_front<%s >::type, %s >::value && same<mpl::pop_back<%s >::type, %s >::value && same<mpl::push_back<%s, %s >::type, %s >::value && same<mpl::push_front<%s, %s >::type, %s >::value" % (
                S, len(s), S, schar(s[0]), S, schar(s[-1]), S, mpstring(s[1:]), S, mpstring(s[:-1]), S, ch_(c), mpstring(s + [c]), S, ch_(c), mpstring([c] + s)), "string")
    us.append(w)
    v = Unit("strings_long", INC13, "string", pre=PRE13, chunk=24, stds=CPP11 if ctx.thorough else (14,))
    ns = {33, 40, 63, 64, 65, 100, 127, 128, 129} | ({255, 256, 257} if ctx.thorough else set())
    for n in sorted(ns): string_obs(v, "len%d" % n, text(n), light=True)
    us.append(v)
    # c_str: constant expressions from C++11 on
    x = Unit("c_str", ["string.hpp"], "c_str", pre=BM, chunk=80, stds=CPP11 if ctx.thorough else (11, 14))
    def cs(t, s):
        S = mpstring(s); c = "boost::mpl::c_str<%s >" % S
        x.ob(t, "sizeof(%s::value) == %d && sizeof(%s::type::value) == %d && %s" % (c, len(s) + 1, c, len(s) + 1, " && ".join("%s::value[%d] == (char)%d && %s::type::value[%d] == (char)%d" % (c, i, schar(y), c, i, schar(y)) for i, y in enumerate(s + [0]))), "c_str")
    for n in list(range(0, 34)) + [63, 64, 65, 100, 128]: cs("len%d" % n, text(n))
    for c in range(256): cs("chr%d" % c, [c, 65, c])
    us.append(x)
    y = Unit("c_str98", ["string.hpp"], "c_str", pre=BM, chunk=80, stds=(98,))
    for n in range(0, 33): y.ob("len%d" % n, "sizeof(boost::mpl::c_str<%s >::value) == %d && sizeof(boost::mpl::c_str<%s >::type::value) == %d" % (mpstring(text(n)), n + 1, mpstring(text(n)), n + 1), "c_str")
    us.append(y)
    return us

# ---- C++98: c_str arrays are ordinary static data: read their initialisers from the compiler's IR
def ll_bytes(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\": out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return out
GLOB = re.compile(r'^@("?[^\s"]+"?) = .*?(?:constant|global) (.*?)(?:, comdat.*|, align.*)?$')
def ir_globals(text):
    g = {}
    for l in text.splitlines():
        m = re.match(r'^@(\S+|"[^"]*") = ', l)
        if not m: continue
        name = m.group(1).strip('"')
        z = re.search(r'constant \[(\d+) x i8\] c"((?:[^"])*)"', l)
        if z: g[name] = ("bytes", int(z.group(1)), ll_bytes(z.group(2)))
        elif re.search(r'\[(\d+) x i8\] zeroinitializer', l): g[name] = ("bytes", int(re.search(r'\[(\d+) x i8\]', l).group(1)), None)
        else:
            z = re.search(r'(?:constant|global) ptr @("?[^\s,"]+"?)', l)
            if z: g[name] = ("ptr", z.group(1).strip('"'))
    return g

def c_str_ir(ctx, stds=(98,), compiler=None):
    texts = [text(n) for n in range(0, 33)] + [[c, 65, c] for c in range(256)] + [[0], [0, 0], [255], [65, 0]]
    src = ["#include <boost/metaparse/string.hpp>"]
    for i, s in enumerate(texts):
        src.append('extern "C" { extern const char* const p%d; const char* const p%d = boost::mpl::c_str<%s >::value; }' % (i, i, mpstring(s)))
        src.append('extern "C" { extern const char* const q%d; const char* const q%d = boost::mpl::c_str<%s >::type::value; }' % (i, i, mpstring(s)))
    problems, ok, total = [], 0, 0
    for std in stds:
        path = os.path.join(ctx.workdir, "c_str_ir.cxx%d.cpp" % std)
        open(path, "w").write("\n".join(src) + "\n")
        cmd = [core.CLANG, "-w", "-std=c++%d" % std, "-ftemplate-depth=4096", "-S", "-emit-llvm", "-O0", "-I" + core.INC, "-o", "-", path]
        rc, out, err = core.sh(cmd)
        if rc: raise core.Broken("c_str IR: " + err[:800])
        g = ir_globals(out)
        for i, s in enumerate(texts):
            for q in "pq":
                total += 1
                a = g.get("%s%d" % (q, i)); v = g.get(a[1]) if a and a[0] == "ptr" else None
                if not v or v[0] != "bytes": raise core.Broken("c_str IR: initialiser of %s%d not found" % (q, i))
                got = v[2] if v[2] is not None else [0] * v[1]
                if got == s + [0]: ok += 1
                else: problems.append(dict(id="c_str_ir/%s%d@c++%d" % (q, i, std), what="c_str of %r is initialised with %r (C++%d)" % (s, got, std), subject="c_str", cmd=" ".join(cmd)))
    return dict(obligations=total, discharged=ok, problems=problems, info="initialisers of %d generated character arrays read from LLVM IR (C++98)" % total)

# ---------------------------------------------------------------------- C14
def lit(s):
    out = []
    for c in s:
        if 32 <= c < 127 and chr(c) not in '"\\?': out.append(chr(c))
        else: out.append("\\%03o" % c)
    return '"%s"' % "".join(out)

class MacroUnit(Unit):
    """obligations that each set the configured limit first"""
    pass

def macro_ob(u, t, limit, s, extra=None):
    cond = "same<BOOST_METAPARSE_STRING(%s), %s >::value" % (lit(s), mpstring(s))
    if extra: cond += " && " + extra
    u.ob(t, "MPV_SPLIT", "BOOST_METAPARSE_STRING")
    u.obs[-1].cond = cond
    u.obs[-1].before = ["#undef BOOST_METAPARSE_LIMIT_STRING_SIZE", "#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d" % limit]

def c14(ctx):
    us = []
    pre = BM + "#include <boost/metaparse/string_value.hpp>\n"
    u = Unit("macro", ["string.hpp", "string_value.hpp"], "BOOST_METAPARSE_STRING", pre=BM, stds=CPP11, chunk=120)
    for n in range(0, 33): u.ob("default.%d" % n, "same<BOOST_METAPARSE_STRING(%s), %s >::value && same<BOOST_METAPARSE_V1_STRING(%s), %s >::value" % (lit(text(n, 1)), mpstring(text(n, 1)), lit(text(n, 2)), mpstring(text(n, 2))), "BOOST_METAPARSE_STRING")
    def lo(i, s): u.ob(i, "MPV", "BOOST_METAPARSE_STRING"); u.obs[-1].cond = "same<BOOST_METAPARSE_STRING(%s), %s >::value" % (lit(s), mpstring(s))
    for c in range(256):
        lo("char.%d" % c, [c]); lo("char2.%d" % c, [65, c, 66]); lo("char3.%d" % c, [c, c, 90, c])
    lo("nul1", [0] * 5); lo("nul2", [65, 0, 66, 0]); lo("nul3", [0] * 32); lo("nul4", [65] + [0] * 16)
    u.ob("value", "same<std::remove_cv<decltype(BOOST_METAPARSE_STRING_VALUE(\"Hello\"))>::type, %s >::value && same<std::remove_cv<decltype(BOOST_METAPARSE_STRING_VALUE(\"\"))>::type, bm::string<> >::value" % mpstring([ord(x) for x in "Hello"]), "BOOST_METAPARSE_STRING_VALUE")
    u.inc.append("<type_traits>")
    us.append(u)
    # every configured limit 1..2048, with a literal of exactly that length
    allstd = [(14, 1)] + [(s, 16) for s in (11, 17)] if not ctx.thorough else [(s, 1) for s in CPP11]
    for std, step in allstd:
        w = Unit("limits%d" % std, ["string.hpp"], "BOOST_METAPARSE_STRING", pre=BM, stds=(std,), chunk=64)
        lims = set(range(1, 2049, step)) | {x + d for x in (128, 256, 384, 512, 640, 768, 1024, 1280, 1536, 1792, 2048) for d in (-1, 0, 1) if 0 < x + d <= 2048} | {x for x in ctx.ints if 0 < x <= 2048}
        # interleave short and long ones so that the chunks take about the same time
        for n in sorted(lims, key=lambda z: (z * 1103) % 2053): macro_ob(w, "limit.%d" % n, n, text(n, n % 13))
        us.append(w)
    v = Unit("lengths", ["string.hpp"], "BOOST_METAPARSE_STRING", pre=BM, stds=CPP11 if ctx.thorough else (17,), chunk=24)
    ns = {0, 1, 2, 3, 31, 32, 33} | {(1 << k) + d for k in range(0, 12) for d in (-1, 0, 1)} | {2047, 2046, 1365, 682, 1023 + 512, 1900}
    if ctx.thorough: ns |= set(range(0, 2049, 7))
    for n in sorted(x for x in ns if 0 <= x <= 2048): macro_ob(v, "len.%d" % n, 2048, text(n, 5))
    for l, n in ((129, 5), (200, 128), (600, 513), (1000, 0), (4, 3), (1, 0), (300, 256), (513, 512)): macro_ob(v, "mix.%d.%d" % (l, n), l, text(n, 4))
    us.append(v)
    return us

def macro_reject(ctx):
    """a literal longer than the limit has to be refused, whatever the limit"""
    cases = []
    for L in sorted({1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1024, 2047, 2048} | ({x for x in ctx.ints if 0 < x <= 2048} if ctx.thorough else set())):
        for d in (1, 2, 7, 120): cases.append((L, L + d))
    jobs = []
    for std in (CPP11 if ctx.thorough else (11, 17)):
        lines = ["#include <boost/metaparse/string.hpp>"]; where = {}
        for L, n in cases:
            lines += ["#undef BOOST_METAPARSE_LIMIT_STRING_SIZE", "#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d" % L, "typedef BOOST_METAPARSE_STRING(%s) t%d_%d;" % (lit([97] * n), L, n)]
            where[len(lines)] = (L, n)
        path = os.path.join(ctx.workdir, "reject.cxx%d.cpp" % std)
        open(path, "w").write("\n".join(lines) + "\n")
        jobs.append((std, path, where))
    # the same lines, one character range shorter, are accepted in the units above: that is the control
    problems, ok, total = [], 0, 0
    for std, path, where in jobs:
        cmd = core.base_cmd(std) + [path]
        rc, _, err = core.sh(cmd)
        if rc not in (0, 1): raise core.Broken("macro_reject: compiler failed: " + err[-300:])
        hit = {l for l, _, _ in core.attribute(err, path)}
        # an error inside a macro expansion is reported at the library line with "in expansion of macro" notes
        for m in re.finditer(re.escape(path) + r":(\d+):", err): hit.add(int(m.group(1)))
        def again(l):     # a shared instantiation is reported once: ask again, each line on its own
            L, n = where[l]; lone = path + ".%d.alone.cpp" % l
            open(lone, "w").write("#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d\n#include <boost/metaparse/string.hpp>\ntypedef BOOST_METAPARSE_STRING(%s) t;\n" % (L, lit([97] * n)))
            return core.sh(core.base_cmd(std) + [lone])[0] == 1
        import concurrent.futures as cf
        miss = [l for l in where if l not in hit]
        with cf.ThreadPoolExecutor(core.JOBS) as ex: hit |= {l for l, r in zip(miss, ex.map(again, miss)) if r}
        for l, (L, n) in where.items():
            total += 1
            if l in hit: ok += 1
            else: problems.append(dict(id="reject/%d.%d@c++%d" % (L, n, std), what="a literal of %d characters is accepted with the limit %d (C++%d)" % (n, L, std), subject="string_at BOOST_METAPARSE_STRING", cmd=" ".join(cmd)))
    # beyond the supported maximum
    for std in (11, 17):
        path = os.path.join(ctx.workdir, "beyond.cpp"); open(path, "w").write('#include <boost/metaparse/string.hpp>\ntypedef BOOST_METAPARSE_STRING("abc") t;\n')
        for L, want in ((2048, 0), (2049, 1), (3000, 1)):
            total += 1
            rc, _, err = core.sh(core.base_cmd(std, ["-DBOOST_METAPARSE_LIMIT_STRING_SIZE=%d" % L]) + [path])
            if (rc != 0) == bool(want): ok += 1
            else: problems.append(dict(id="beyond/%d@c++%d" % (L, std), what="limit %d is %s" % (L, "accepted" if want else "refused"), subject="string"))
    return dict(obligations=total, discharged=ok, problems=problems, info="%d over-long literals that the compiler has to refuse, with accepted in-limit partners" % total)
