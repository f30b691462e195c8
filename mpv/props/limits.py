"""C24 configured size limits"""
import os
from .common import *
from .. import core
from . import comb, strings, chars
L = "BOOST_METAPARSE_LIMIT_"
def fl(**kw):
    out = ["-D%s%s_SIZE=%d" % (L, k, v) for k, v in kw.items()]
    big = max([v for k, v in kw.items() if k in ("ONE_OF", "SEQUENCE")] + [0])
    # the C++98 implementation keeps the parsers in an mpl::vector: Boost.MPL's own limit has to be raised along with it
    if big > 20: out += ["-DBOOST_MPL_CFG_NO_PREPROCESSED_HEADERS", "-DBOOST_MPL_LIMIT_VECTOR_SIZE=%d" % ((big + 9) // 10 * 10)]
    return out

SEQ = (2, 3, 4, 6, 8, 13); SEQ_T = tuple(range(2, 21))
ONE = (2, 3, 10, 19, 21, 30); ONE_T = tuple(range(2, 45))
EXC = (1, 2, 5, 9, 11, 20); EXC_T = tuple(range(1, 41))
STR = (2, 3, 8, 16, 31, 33, 48); STR_T = STR + (5, 7, 20, 63, 64, 65, 100, 128)

def sizes(n, thorough):
    return range(1, n + 1) if thorough else sorted({1, 2, n // 2, n - 1, n} & set(range(1, n + 1)))

def seq_units(ctx):
    us = []
    for n in SEQ_T if ctx.thorough else SEQ:
        f = fl(SEQUENCE=n)
        us.append(comb._seq_units(ctx, "seq_limit%d" % n, n, (98,), False, f, sizes(n, ctx.thorough), light=not ctx.thorough))
        if n > 1: us.append(comb.seq_apply(ctx, False, n - 1, f, "_limit%d" % n, (98, 17) if n in (2, 8) or ctx.thorough else (98,))[0])
    return us

def one_units(ctx):
    us = []
    for n in ONE_T if ctx.thorough else ONE:
        us.append(comb.one_of_units(ctx, "one_of_limit%d" % n, sizes(n, ctx.thorough), (98,), fl(ONE_OF=n), 4))
        u = Unit("char_limit%d" % n, chars.INC11 + ["repeated_one_of.hpp", "repeated_one_of1.hpp"], "one_of_c", pre=chars.PRE11, stds=(98,), flags=fl(ONE_OF=n), chunk=100)
        for k in sizes(n, ctx.thorough):
            s = [33 + i for i in range(k)]
            P = "bm::one_of_c<%s>" % ",".join(cch(c) for c in s)
            for c in sorted(set(s) | {32, s[-1] + 1, 0} if ctx.thorough else {s[0], s[-1], s[len(s) // 2], 32, s[-1] + 1, 0}):
                u.ob("one_of_c.%d.%d" % (k, c), chars.cob(P, c, c in s, None, ((), None)), "one_of_c")
            for nm in ("repeated_one_of", "repeated_one_of1"):
                P = "bm::%s<%s >" % (nm, ", ".join("bm::lit_c<%s>" % cch(c) for c in s))
                t = [s[0], s[-1], s[-1], s[0], s[len(s) // 2]]
                u.ob("%s.%d" % (nm, k), "ends_at<%s::apply<%s, bm::start>, bm::string<' '>, pos<1,6,%d>::type>::value" % (P, mpstring(t + [32]), t[-1]), nm)
        us.append(u)
    return us

def exc_units(ctx):
    us = []
    for n in EXC_T if ctx.thorough else EXC:
        u = Unit("except_limit%d" % n, chars.INC11, "one_char_except_c", pre=chars.PRE11, stds=(98,), flags=fl(ONE_CHAR_EXCEPT=n), chunk=100)
        for k in [0] + list(sizes(n, ctx.thorough)):
            s = [33 + i for i in range(k)]
            P = "bm::one_char_except_c<%s>" % ",".join(cch(c) for c in s); Q = "bm::one_char_except<%s>" % ", ".join("chr<%s> " % cch(c) for c in s)
            for c in sorted(set(s) | {32, 33 + k, 0, 255, 10} if ctx.thorough or not s else {s[0], s[-1], s[len(s) // 2], 32, 33 + k, 255}):
                u.ob("except.%d.%d" % (k, c), chars.cob(P, c, c not in s, None, ((), None)) + " && " + chars.cob(Q, c, c not in s, None, ((0x7a,),)), "one_char_except_c")
        us.append(u)
    return us

def str_units(ctx):
    us = []
    for n in STR_T if ctx.thorough else STR:
        u = Unit("string_limit%d" % n, strings.INC13, "string", pre=strings.PRE13, stds=(98,), flags=fl(STRING=n), chunk=20 if n > 40 else 400)
        for k in sorted({0} | set(sizes(n, ctx.thorough and n < 40))):
            strings.string_obs(u, "len%d" % k, strings.text(k), light=True)
            if k < n:
                s = strings.text(k, 3); S = mpstring(s)
                for c in (33, 255, 0):
                    u.ob("push.%d.%d" % (k, c), "same<mpl::push_back<%s, %s >::type, %s >::value && same<mpl::push_front<%s, %s >::type, %s >::value" % (S, strings.ch_(c), mpstring(s + [c]), S, strings.ch_(c), mpstring([c] + s)), "string")
        us.append(u)
    return us

def c24(ctx): return seq_units(ctx) + one_units(ctx) + exc_units(ctx) + str_units(ctx)

def c24_reject(ctx):
    """one more than the limit does not compile; exactly the limit does (positive control in the same unit)"""
    cases = []   # (name, flags, std, header list, text of the declaration that must be refused)
    def add(name, flags, decl, std=98, ctl=None): cases.append((name, list(flags), decl, std, ctl))
    for lim in (None, 3, 8) + ((2, 4, 6, 12, 16) if ctx.thorough else ()):
        f = fl(SEQUENCE=lim) if lim else []; n = lim or 5
        ps = lambda k: ", ".join("acc<%d>" % i for i in range(1, k + 1))
        for nm in ("sequence", "first_of", "last_of"):
            t = "typedef bm::" + nm + "<%s >::apply<str<1>, P0>::type t;"
            add("%s.%d" % (nm, n), f, t % ps(n + 1), ctl=t % ps(n))
        for nm, ix in (("nth_of_c", "0"), ("nth_of", "boost::mpl::int_<0>")):
            t = "typedef bm::" + nm + "<" + ix + ", %s >::apply<str<1>, P0>::type t;"
            add("%s.%d" % (nm, n), f, t % ps(n + 1), ctl=t % ps(n))
    for lim in (None, 4, 25) + ((2, 10, 19, 21, 40) if ctx.thorough else ()):
        f = fl(ONE_OF=lim) if lim else []; n = lim or 20
        ps = lambda k: ", ".join("rej_here<sym<%d> >" % i for i in range(1, k + 1))
        cs = lambda k: ", ".join(cch(33 + i) for i in range(k))
        for nm, a, inp in (("one_of", ps, "str<1>"), ("repeated_one_of", ps, "str<1>"), ("repeated_one_of1", ps, "str<1>"), ("one_of_c", cs, "bm::string<'!'>")):
            t = "typedef bm::" + nm + "<%s >::apply<" + inp + ", P0>::type t;"
            add("%s.%d" % (nm, n), f, t % a(n + 1), ctl=t % a(n))
    for lim in (None, 3, 15) + ((1, 9, 11, 30) if ctx.thorough else ()):
        f = fl(ONE_CHAR_EXCEPT=lim) if lim else []; n = lim or 10
        for nm, a in (("one_char_except_c", lambda k: ", ".join(cch(33 + i) for i in range(k))), ("one_char_except", lambda k: ", ".join("boost::mpl::char_<%s>" % cch(33 + i) for i in range(k)))):
            t = "typedef bm::" + nm + "<%s >::apply<bm::string<'a'>, P0>::type t;"
            add("%s.%d" % (nm, n), f, t % a(n + 1), ctl=t % a(n))
    for lim in (None, 4, 40) + ((2, 31, 33, 64) if ctx.thorough else ()):
        f = fl(STRING=lim) if lim else []; n = lim or 32
        S = lambda k: mpstring([33 + i % 90 for i in range(k)])
        add("string.%d" % n, f, "typedef boost::mpl::size<%s >::type t;" % S(n + 1), ctl="typedef boost::mpl::size<%s >::type t;" % S(n))
        for op in ("push_back", "push_front"):
            for c in ("'x'", "'\\377'", "'\\0'"):
                t = "typedef boost::mpl::" + op + "<%s, boost::mpl::char_<" + c + "> >::type t; char u[sizeof(t)];"
                add("%s.%d.%s" % (op, n, c), f, t % S(n), ctl=t % S(n - 1))
    inc = ["sequence.hpp", "first_of.hpp", "last_of.hpp", "nth_of.hpp", "nth_of_c.hpp", "one_of.hpp", "one_of_c.hpp", "repeated_one_of.hpp", "repeated_one_of1.hpp", "one_char_except.hpp", "one_char_except_c.hpp", "string.hpp"]
    head = ["#include <boost/metaparse/%s>" % h for h in inc] + ["#include <boost/mpl/%s.hpp>" % h for h in ("size", "push_back", "push_front")] + ["#include <mpv/sym.hpp>", "using namespace mpv;", "namespace bm = boost::metaparse;"]
    groups = {}
    for c in cases: groups.setdefault((tuple(c[1]), c[3]), []).append(c)
    problems, total, okc = [], 0, 0
    def one(item):
        (flags, std), cs = item
        out = []
        for kind in ("control", "beyond"):
            lines, where = list(head), {}
            for i, (nm, f, decl, s, ctl) in enumerate(cs):
                lines.append("namespace c%d { %s }" % (i, core.fix98(ctl if kind == "control" else decl))); where[len(lines)] = nm
            src = os.path.join(ctx.workdir, "%s.%s.cpp" % (kind, "_".join(x.split("LIMIT_")[-1][-60:] for x in flags) or "default"))
            open(src, "w").write("\n".join(lines) + "\n")
            cmd = core.base_cmd(std, flags) + [src]
            rc, _, err = core.sh(cmd)
            hit = {l for l, _, _ in core.attribute(err, src)}
            if rc not in (0, 1): raise core.Broken("compiler failed on " + src)
            if kind == "beyond":      # a shared instantiation is reported once: ask again, each line on its own
                for l in where:
                    if l in hit: continue
                    lone = src + ".alone.cpp"; open(lone, "w").write("\n".join(head + [lines[l - 1]]) + "\n")
                    if core.sh(core.base_cmd(std, flags) + [lone])[0] == 1: hit.add(l)
            out.append((kind, src, cmd, lines, where, hit, err))
        return out
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(core.JOBS) as ex: res = [x for r in ex.map(one, groups.items()) for x in r]
    for kind, src, cmd, lines, where, hit, err in res:
        for l, nm in where.items():
            total += 1
            bad = (l in hit) if kind == "control" else (l not in hit)
            if not bad: okc += 1; continue
            problems.append(dict(id="limit.%s/%s" % (kind, nm), subject=nm.split(".")[0], cmd=" ".join(cmd),
                                 what=("a size within the configured limit is refused: " if kind == "control" else "a size beyond the configured limit compiles: ") + lines[l - 1]))
    return dict(obligations=total, discharged=okc, problems=problems, info="%d declarations one beyond the limit that have to be refused, each with its counterpart of exactly the limit" % (total // 2))
