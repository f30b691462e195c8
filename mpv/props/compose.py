"""C22 same outcomes in all standards, C26 remaining input and position tied together: compositions of the library's
parsers against the reference semantics in mpv/model.py"""
import random, itertools
import concurrent.futures as cf
from .common import *
from .. import model as m, core
from . import comb, chars, strings
STARTS = [("bm::start", (1, 1, 0)), ("P0", (17, 23, 113)), ("pos<4,1,13>::type", (4, 1, 13))]
TEXTS = ["", "a", "b", "ab", "aa", "ba", "aba", "abab", "aab", "a\n", "\nb", "a\r\n", "\r\nab", "\n\na", "1", "12a", "ab\nab", "a b", "aaa", "bbb", "abb", " ab", "ab ", "a1", "\r\r", "abaab"]
def oc(s): return [ord(c) for c in s]
def ptype(p): return "pos<%d,%d,%d>::type" % (p[0], p[1], schar(p[2]))
def points_pre():
    L = []
    for ti, t in enumerate(TEXTS):
        s = oc(t)
        for si, (st, p) in enumerate(STARTS):
            xs, q = [], p
            for i in range(len(s) + 1):
                xs.append("pt<%s, %s >" % (mpstring(s[i:]), ptype(q)))
                if i < len(s): q = m.step(q, s[i])
            L.append(core.fix98("typedef %s pts_%d_%d;" % (lst(xs), ti, si)))
        L.append("typedef %s tx%d;" % (mpstring(s), ti))
    return "\n".join(L) + "\n"

def exprs(rnd, n2, n3, n4):
    """named parser expressions: all atoms, all combinators over all atoms, samples of deeper ones"""
    un, at = m.unary(), m.atoms()
    d0 = [(a.cpp, a) for a in at]
    d1 = [(n, c(a)) for n, c in un.items() for a in at]
    d1 = [(n, x) for n, x in d1 if x]
    def deeper(prev, k):
        out = []
        names = list(un)
        while len(out) < k:
            i, x = rnd.choice(prev)
            n = names[len(out) % len(names)]
            y = un[n](x)
            if y and len(y.cpp) < 700: out.append((n, y))
            elif not y:
                n = rnd.choice(names); y = un[n](x)
                if y and len(y.cpp) < 700: out.append((n, y))
        return out
    d2 = deeper(d1, n2); d3 = deeper(d2, n3); d4 = deeper(d3, n4)
    return d0, d1, d2, d3, d4

def cond(x, ti, si):
    s, (st, p) = oc(TEXTS[ti]), STARTS[si]
    r = x(s, 0, p)
    o = "%s::apply<tx%d, %s>" % (x.cpp, ti, st)
    if r[0] == 'ok': return "good<%s, %s, %s, %s >::value" % (o, m.rexpr(r[1]), mpstring(s[r[2]:]), ptype(r[3]))
    if r[1] is None: return "rejects_at<%s, %s >::value" % (o, ptype(r[2]))
    return "rejects<%s, %s, %s >::value" % (o, r[1], ptype(r[2]))

def c26(ctx):
    rnd = random.Random(1000 + ctx.seed)
    k = 6 if ctx.thorough else 1
    d0, d1, d2, d3, d4 = exprs(rnd, 250 * k, 150 * k, 80 * k)
    if not ctx.thorough: d1 = [x for i, x in enumerate(d1) if i % 2 == ctx.seed % 2 or "one_char" in x[1].cpp]
    pool = d0 + d1 + d2 + d3 + d4
    u = Unit("points", m.INC, "parsers", pre=m.PRE + points_pre(), stds=tier_stds(ctx, 98, 17), chunk=160)
    for j, (n, x) in enumerate(pool):
        picks = range(len(TEXTS)) if ctx.thorough and j < len(d0) + len(d1) else rnd.sample(range(len(TEXTS)), 6)
        c = ["consist<%s::apply<tx%d, %s>, pts_%d_%d>::value" % (x.cpp, ti, STARTS[(ti + j) % 3][0], ti, (ti + j) % 3) for ti in picks]
        u.ob("points.%d.%s" % (j, n if len(n) < 60 else "atom"), " && ".join(c), n.split(".")[0])
    return [u]

def c22(ctx):
    rnd = random.Random(2000 + ctx.seed)
    k = 6 if ctx.thorough else 1
    d0, d1, d2, d3, d4 = exprs(rnd, 120 * k, 80 * k, 50 * k)
    if not ctx.thorough: d1 = [x for i, x in enumerate(d1) if i % 4 == 1]
    pool = d0 + d1 + d2 + d3 + d4
    u = Unit("compositions", m.INC, "parsers", pre=m.PRE + points_pre(), stds=ALL, chunk=130)
    for j, (n, x) in enumerate(pool):
        picks = range(len(TEXTS)) if ctx.thorough and j < len(d0) + len(d1) else rnd.sample(range(len(TEXTS)), 5)
        c = [cond(x, ti, (ti + j) % 3) for ti in picks]
        u.ob("comp.%d.%s" % (j, n if len(n) < 60 else "atom"), " && ".join(c), n.split(".")[0])
    # the parts with sibling implementations, at every size all standards allow
    us = [u, comb._seq_units(ctx, "seq", 5, ALL, False), comb.seq_apply(ctx)[0], comb.one_of_units(ctx, "one_of", range(1, 21), ALL, (), 3)]
    w = Unit("charsets", chars.INC11, "one_of_c", pre=chars.PRE11, chunk=60)
    for n in range(1, 21):
        s = [33 + (i * 37) % 94 for i in range(n)]
        for nm, ok in (("one_of_c", True), ("one_char_except_c", False)):
            if n > 10 and not ok: continue
            P = "bm::%s<%s>" % (nm, ",".join(cch(c) for c in s))
            for c in sorted(s + [32, 127, 255, 0]) if ctx.thorough else sorted({s[0], s[-1], s[n // 2], 32, 255}):
                w.ob("%s.%d.%d" % (nm, n, c), chars.cob(P, c, (c in s) == ok, None, ((), None)), nm)
    # and the classes of characters, whole: eight characters an obligation
    for nm, cls in (("one_char", set(chars.ALLC)), ("digit", chars.DIG), ("letter", chars.LOW | chars.UP), ("alphanum", chars.LOW | chars.UP | chars.DIG), ("space", chars.WS)):
        for c0 in range(0, 256, 8):
            w.ob("class.%s.%d" % (nm, c0), " && ".join(chars.cob("bm::" + nm, c, c in cls, None, ((),)) for c in range(c0, c0 + 8)), nm)
    us.append(w)
    x = Unit("strings", strings.INC13, "string", pre=strings.PRE13, chunk=70)
    for n in range(0, 33):
        if n % 3 and not ctx.thorough and n not in (1, 2, 31, 32): continue
        strings.string_obs(x, "len%d" % n, strings.text(n), light=True)
    us.append(x)
    # and next to parsers of the library: the parts with sibling implementations over two of them
    u = Unit("pairs", m.INC, "parsers", pre=m.PRE + points_pre(), stds=tier_stds(ctx, 98, 17), chunk=130)
    byname = pair_names(ctx, rnd)
    forms = [("sequence", m.sequence), ("first_of", m.first_of), ("last_of", m.last_of), ("nth_of_c", lambda x, y: m.nth_of(1, x, y)), ("one_of", m.one_of), ("one_of", lambda x, y: m.one_of(x, m.lit(98), y)),
        ("repeated_one_of", lambda x, y: None if x.nullable or y.nullable else m.rep_one_of(0, x, y))]
    k = 0
    for n1 in sorted(byname):
        for n2 in sorted(byname):
            x, z = rnd.choice(byname[n1]), rnd.choice(byname[n2])
            if rnd.random() < 0.5: x, z = late(byname[n1], x), late(byname[n2], z)
            some = [f for i, f in enumerate(forms) if i == k % len(forms) or ("atom." in n1 + n2 and (i + k) % 2 and f[0] == "one_of") or ctx.thorough]
            for n, mk in some:
                y = mk(x, z)
                if y and len(y.cpp) < 700: u.ob("pair%d.%s.%s.%s" % (len(u.obs), n, n1, n2), " && ".join(cond(y, ti, (ti + k) % 3) for ti in telling(rnd, x, y, 8 if ctx.thorough else 3)), n)
            k += 1
    us.append(u)
    return us

def pair_names(ctx, rnd):
    kinds = [(n, x) for n, x in built_parsers(ctx, rnd) if not n.startswith("atom")]
    byname = {"atom." + n: [a] for n, a in (("return_", m.return_("sym<86>")), ("fail", m.fail("sym<87>")), ("empty", m.empty("sym<88>")), ("keyword", m.keyword([97], "sym<89>")), ("lit_c", m.lit(98)), ("one_char", m.one_char()))}
    for n, x in kinds: byname.setdefault(n.split(".")[0], []).append(x)
    return byname

def telling(rnd, x, y, limit):
    """texts on which inner and outer parser behave in as many different ways as possible"""
    groups = {}
    for ti in rnd.sample(range(len(TEXTS)), len(TEXTS)):
        s = oc(TEXTS[ti]); sig = []
        for q in (x, y):
            r = q(s, 0, (17, 23, 113)); sig.append((r[0], r[2] if r[0] == 'ok' else r[2][:2], r[1] if r[0] != 'ok' else None))
        sig.append(sig[1][0] == 'ok' and sig[1][1] == len(s))
        groups.setdefault(tuple(sig), []).append(ti)
    out = []
    while len(out) < limit and any(groups.values()):
        for g in list(groups):
            if groups[g] and len(out) < limit: out.append(groups[g].pop())
    return out

# ------------------------------------------------- every combinator over every combinator
OUTER = dict(C04=("sequence", "first_of", "last_of", "nth_of", "middle_of", "sequence_apply"), C05=("one_of", "repeated_one_of", "repeated_one_of1"),
    C06=("repeated", "repeated1", "foldl", "foldl1", "foldr", "foldr1", "foldl_sp", "foldr_sp"), C07=("repeated_ri", "repeated_ri1", "foldl_ri", "foldl_ri1", "foldr_ri", "foldr_ri1", "foldl_ri_sp"),
    C08=("optional", "look_ahead", "except", "if_", "fafce"), C09=("transform", "always", "change_error_message", "transform_error_message", "transform_error", "accept_when"), C15=("token", "entire_input"), C16=("iterate",))
SUBJ = dict(nth_of="nth_of_c", foldl_sp="foldl_start_with_parser", foldr_sp="foldr_start_with_parser", repeated_ri="repeated_reject_incomplete", repeated_ri1="repeated_reject_incomplete1", foldl_ri="foldl_reject_incomplete",
    foldl_ri1="foldl_reject_incomplete1", foldr_ri="foldr_reject_incomplete", foldr_ri1="foldr_reject_incomplete1", foldl_ri_sp="foldl_reject_incomplete_start_with_parser", fafce="fail_at_first_char_expected", iterate="iterate_c")
PAIRS = dict(C04=[("sequence", m.sequence), ("first_of", m.first_of), ("last_of", m.last_of), ("middle_of", lambda x, y: m.middle_of(x, m.lit(97), y)), ("nth_of_c", lambda x, y: m.nth_of(1, x, y)), ("sequence_apply", m.seq_apply), ("middle_of", lambda x, y: m.middle_of(x, y, m.lit(98)))],
    C05=[("one_of", m.one_of), ("one_of", lambda x, y: m.one_of(x, m.lit(98), y))],
    C06=[("foldl_start_with_parser", lambda x, y: None if x.nullable else m.foldl_sp(x, y)), ("foldr_start_with_parser", lambda x, y: None if x.nullable else m.foldr_sp(x, y))],
    C07=[("foldl_reject_incomplete_start_with_parser", lambda x, y: None if x.nullable else m.foldl_sp(x, y, True))])
def late(xs, default):
    """one that can fail after progress"""
    return next((x for x in xs if any(r[0] != 'ok' and r[2] != (17, 23, 113) for r in (x(oc(t), 0, (17, 23, 113)) for t in TEXTS))), default)
SAME = dict(C04=[("last_of", lambda x, y: m.last_of(x, y, m.lit(97))), ("first_of", lambda x, y: m.first_of(m.lit(97), x, y)), ("sequence", lambda x, y: m.sequence(x, m.lit(97), y))], C05=[("one_of", lambda x, y: m.one_of(m.lit(98), x, y))])
def nested(prop, stds=(17,)):
    """every combinator of the property directly over every other parser of the library (an implementation that singles
    out a combinator by its argument is not parametric, so the symbolic obligations say nothing about it)"""
    def f(ctx):
        rnd = random.Random(3000 + ctx.seed)
        un, at = m.unary(), m.atoms()
        A, ch = m.lit(97), m.one_char()
        seqab = m.sequence(m.lit(97), m.lit(98))
        inner = [("atom%d" % k, a) for k, a in enumerate(at)]
        for n, c in un.items():
            for k, a in enumerate(at + [seqab] if ctx.thorough else [A, ch, seqab, rnd.choice(at)]):
                x = c(a)
                if x: inner.append(("%s.%d" % (n, k), x))
        outer = {n: c for n, c in un.items() if n.split(".")[0] in OUTER[prop]}
        if not ctx.thorough:     # sequencing over two parsers of the same kind etc. is decided by the symbolic obligations
            drop = ("sequence.3", "nth_of.0", "one_of.3", "iterate.1", "iterate.3")
            outer = {n: c for n, c in outer.items() if n not in drop}
        u = Unit("nested", m.INC, "parsers", pre=m.PRE + points_pre(), stds=tier_stds(ctx, *stds), chunk=130)
        for n, c in outer.items():
            for k, (i, x) in enumerate(inner):
                y = c(x)
                if y is None: continue
                picks = telling(rnd, x, y, 14 if ctx.thorough else 6)
                sub = n.split(".")[0]
                u.ob("nested.%s.%s" % (n, i), " && ".join(cond(y, ti, (ti + k) % 3) for ti in picks), SUBJ.get(sub, sub))
        if prop in PAIRS:      # two parsers of the library next to each other
            kinds = [(n, x) for n, x in inner if not n.startswith("atom")]
            byname = {"atom." + n: [a] for n, a in (("return_", m.return_("sym<86>")), ("fail", m.fail("sym<87>")), ("empty", m.empty("sym<88>")), ("keyword", m.keyword([97], "sym<89>")), ("lit_c", m.lit(98)), ("one_char", m.one_char()))}
            for n, x in kinds: byname.setdefault(n.split(".")[0], []).append(x)
            names = sorted(byname)
            k = 0
            for n1 in names:
                for n2 in names:
                    x, z = rnd.choice(byname[n1]), rnd.choice(byname[n2])
                    if prop == "C05" and rnd.random() < 0.7: x, z = late(byname[n1], x), late(byname[n2], z)
                    for n, mk in (PAIRS[prop] if ctx.thorough or (prop == "C05" and "atom." in n1 + n2) else [PAIRS[prop][k % len(PAIRS[prop])]]):
                        y = mk(x, z)
                        if y and len(y.cpp) < 700:
                            u.ob("pair%d.%s.%s.%s" % (len(u.obs), n, n1, n2), " && ".join(cond(y, ti, (ti + k) % 3) for ti in telling(rnd, x, y, 10 if ctx.thorough else 4)), SUBJ.get(n, n))
                    k += 1
            for i, x in inner:     # the same parser twice
                for n, mk in PAIRS[prop] + SAME.get(prop, []):
                    y = mk(x, x)
                    if y and len(y.cpp) < 900: u.ob("same.%s.%s.%d" % (n, i, len(u.obs)), " && ".join(cond(y, ti, (ti + k) % 3) for ti in telling(rnd, x, y, 10 if ctx.thorough else 4)), SUBJ.get(n, n))
        return [u]
    return f

LAZY_FAIL = [("transform", "transform<%s, poison1>"), ("accept_when", "accept_when<%s, poison1, sym<1> >"), ("sequence", "sequence<%s, poison>"), ("sequence", "sequence<bm::return_<sym<2> >, %s, poison>"), ("first_of", "first_of<%s, poison, poison>"),
    ("last_of", "last_of<%s, poison>"), ("nth_of_c", "nth_of_c<1, %s, poison>"), ("middle_of", "middle_of<%s, poison, poison>"), ("middle_of", "middle_of<bm::return_<sym<2> >, %s, poison>"), ("sequence_apply", "sequence_apply2<pr, %s, poison>"),
    ("foldl_start_with_parser", "foldl_start_with_parser<poison, %s, poison2>"), ("foldl_reject_incomplete_start_with_parser", "foldl_reject_incomplete_start_with_parser<poison, %s, poison2>"),
    ("foldl1", "foldl1<%s, sym<1>, poison2>"), ("foldr1", "foldr1<%s, sym<1>, poison2>"), ("foldl_reject_incomplete1", "foldl_reject_incomplete1<%s, sym<1>, poison2>"), ("foldr_reject_incomplete1", "foldr_reject_incomplete1<%s, sym<1>, poison2>"),
    ("foldr_start_with_parser", "foldr_start_with_parser<bm::fail<sym<3> >, %s, poison2>"), ("transform", "transform<bm::token<%s >, poison1>"), ("sequence", "sequence<bm::look_ahead<%s >, poison>"), ("last_of", "last_of<bm::entire_input<%s >, poison>")]
LAZY_OK = [("transform_error", "transform_error<%s, poison1>"), ("transform_error_message", "transform_error_message<%s, poison1>")]
LAZY_STAY = [("foldl", "foldl<%s, sym<60>, poison2>"), ("foldr", "foldr<%s, sym<60>, poison2>"), ("foldl_start_with_parser", "foldl_start_with_parser<%s, bm::return_<sym<60> >, poison2>"), ("foldr_start_with_parser", "foldr_start_with_parser<%s, bm::return_<sym<60> >, poison2>")]
LAZY_HERE = [("foldl_reject_incomplete", "foldl_reject_incomplete<%s, sym<60>, poison2>"), ("foldr_reject_incomplete", "foldr_reject_incomplete<%s, sym<60>, poison2>"), ("foldl_reject_incomplete_start_with_parser", "foldl_reject_incomplete_start_with_parser<%s, bm::return_<sym<60> >, poison2>")]
def lazy_library(ctx):
    """poisoned arguments next to every parser of the library, on texts where the argument is not needed"""
    rnd = random.Random(8000 + ctx.seed)
    pre = m.PRE + points_pre() + "struct poison2 { typedef poison2 type; template <class A, class B> struct apply : must_not_be_instantiated<A> { typedef typename must_not_be_instantiated<A>::type x; }; };\n"
    u = Unit("lazy_library", m.INC, "parsers", pre=pre, stds=tier_stds(ctx, 98, 17), chunk=60)
    p0 = STARTS[1][1]
    for n, x in built_parsers(ctx, rnd):
        outs = [(ti, x(oc(t), 0, p0)) for ti, t in enumerate(TEXTS)]
        good = [o for o in outs if o[1][0] == 'ok']; bad = [o for o in outs if o[1][0] != 'ok']
        here = [o for o in bad if o[1][2] == p0]; later = [o for o in bad if o[1][2] != p0]
        rnd.shuffle(good); rnd.shuffle(here); rnd.shuffle(later)
        def at(o): return "apply<tx%d, P0>" % o[0]
        def rejd(e, o): return ("rejects<bm::%s::%s, %s, %s >::value" % (e, at(o), o[1][1], ptype(o[1][2]))) if o[1][1] else "rejects_at<bm::%s::%s, %s >::value" % (e, at(o), ptype(o[1][2]))
        def okd(e, o): return "good<bm::%s::%s, %s, %s, %s >::value" % (e, at(o), m.rexpr(o[1][1]), mpstring(oc(TEXTS[o[0]])[o[1][2]:]), ptype(o[1][3]))
        def stay(e, o): return "accepts<bm::%s::%s, sym<60>, tx%d, P0>::value" % (e, at(o), o[0])
        fs = later[:1] + here[:1] if not ctx.thorough else later[:3] + here[:3]
        def groups(name, forms, cases, mk):
            for sub in dict.fromkeys(a for a, b in forms):
                c = [mk(f % x.cpp, o) for a, f in forms if a == sub for o in cases]
                if c: u.ob("%s.%s.%s" % (name, sub, n), " && ".join(c), sub)
        groups("failed", LAZY_FAIL, fs, rejd)
        groups("accepted", LAZY_OK, good[:2], okd)
        groups("none", LAZY_STAY, fs, stay)
        groups("here", LAZY_HERE, here[:2], stay)
    return [u]
def recursive(ctx):
    """every combinator in a parser that is defined by itself (by inheritance, so the parser is incomplete where it is used)"""
    rnd = random.Random(9000 + ctx.seed)
    un = m.unary()
    A, B = m.lit(97), m.lit(98)
    decl, ps = [], []
    for n, c in un.items():
        # the parser itself as an argument, where something is consumed before it
        direct = ("sequence.2", "first_of.2", "last_of.2", "nth_of.1", "nth_of.2", "middle_of.2", "middle_of.3", "sequence_apply.2", "foldl_sp.i", "foldl_ri_sp.i", "iterate.0")
        for shape in ("in", "out", "plain") + (("self",) if n in direct else ()):
            name = "rec_%s_%s" % (n.replace(".", "_"), shape)
            r = m.P(name, None, False, {n})
            body = m.one_of(B, m.last_of(A, c(r))) if shape == "in" else c(m.one_of(m.last_of(A, r), B)) if shape == "out" else c(m.sequence(A, r)) if shape == "plain" else c(r)
            if body is None: continue
            r.fn = body.fn; decl.append("template <class T> struct of_%s { struct %s; struct %s : %s {}; };" % (name, name, name, body.cpp)); r.cpp = "of_%s<void>::%s" % (name, name); ps.append((n, shape, r))
    u = Unit("recursive", m.INC, "parsers", pre=m.PRE + points_pre() + "\n".join(core.fix98(d) for d in decl) + "\n", stds=tier_stds(ctx, 98, 17), chunk=130)
    for k, (n, shape, r) in enumerate(ps):
        sub = n.split(".")[0]
        u.ob("recursive.%s.%s" % (shape, n), " && ".join(cond(r, ti, (ti + k) % 3) for ti in telling(rnd, r, r, 20 if ctx.thorough else 6)), SUBJ.get(sub, sub))
    return [u]
def built_parsers(ctx, rnd):
    A, ch = m.lit(97), m.one_char()
    seqab = m.sequence(m.lit(97), m.lit(98))
    ps = [("atom%d" % k, a) for k, a in enumerate(m.atoms())]
    for n, c in m.unary().items():
        for k, a in enumerate((A, ch, seqab) if not ctx.thorough else m.atoms() + [seqab]):
            x = c(a)
            if x: ps.append(("%s.%d" % (n, k), x))
    return ps
def built(ctx):
    """build_parser over every parser of the library: exactly the result when it accepts"""
    rnd = random.Random(5000 + ctx.seed)
    u = Unit("built_library", m.INC + ["build_parser.hpp"], "build_parser", pre=m.PRE + points_pre(), stds=tier_stds(ctx, 98, 17), chunk=130)
    for n, x in built_parsers(ctx, rnd):
        c = []
        for ti in telling(rnd, x, x, 20 if ctx.thorough else 8):
            r = x(oc(TEXTS[ti]), 0, (1, 1, 0))
            if r[0] == 'ok': c.append("agr<bm::build_parser<%s >::apply<tx%d>::type, %s >::value" % (x.cpp, ti, m.rexpr(r[1])))
        if c: u.ob("built.%s" % n, " && ".join(c), "build_parser")
    return [u]
def built_reject(ctx):
    """build_parser over every parser of the library: no value when it fails"""
    from .lang import groups, alone
    import os, re
    rnd = random.Random(6000 + ctx.seed)
    cases = []
    def fails(n, mk, most):
        """up to `most` texts mk's parser fails on; the message differs from case to case, because the compiler reports a shared instantiation once"""
        k, seen = 0, set()
        for ti in telling(rnd, mk(0), mk(0), len(TEXTS)):
            x = mk(9000 + len(cases)); r = x(oc(TEXTS[ti]), 0, (1, 1, 0))
            if r[0] == 'ok' or k >= most or any(c[1] == x.cpp and c[2] == ti for c in cases): continue
            cases.append((n, x.cpp, ti, r)); k += 1
    most = 4 if ctx.thorough else 2
    A = lambda i: m.change_msg(m.lit(97), "sym<%d>" % i)
    AB = lambda i: m.sequence(A(i), m.change_msg(m.lit(98), "sym<%d, int>" % i))
    for k, a in enumerate(m.atoms()): fails("atom%d" % k, lambda i, a=a: a, most)
    for n, c in m.unary().items():
        for k, inner in enumerate((A, AB)):
            if c(inner(0)): fails("%s.%d" % (n, k), lambda i, c=c, inner=inner: c(inner(i)), most)
    problems, total, okn = [], 0, 0
    for std in tier_stds(ctx, 98, 17):
        pre = ["#include <boost/metaparse/%s>" % h for h in m.INC + ["build_parser.hpp"]] + ["#include <mpv/sym.hpp>", "using namespace mpv;"] + m.PRE.splitlines() + points_pre().splitlines()
        lines, where = list(pre), {}
        for i, (n, P, ti, r) in enumerate(cases):
            lines.append(core.fix98("typedef bm::build_parser<%s >::apply<tx%d>::type use%d;" % (P, ti, i))); where[len(lines)] = (n, r)
        src = os.path.join(ctx.workdir, "reject_library.cxx%d.cpp" % std); open(src, "w").write("\n".join(lines) + "\n")
        bare = os.path.join(ctx.workdir, "reject_library.bare.cxx%d.cpp" % std); open(bare, "w").write("\n".join(pre) + "\n")
        rc, _, err = core.sh(core.base_cmd(std) + [bare])
        if rc: raise core.Broken("C17 preamble: " + err[:800])
        rc, _, err = core.sh(core.base_cmd(std) + [src])
        diag = groups(err, src)
        missing = [l for l in where if l not in diag]
        with cf.ThreadPoolExecutor(core.JOBS) as ex: again = dict(zip(missing, ex.map(lambda l: alone(ctx, std, pre, lines[l - 1], "lib%d" % l), missing)))
        for line, (n, r) in where.items():
            total += 1
            if line in diag or again.get(line): okn += 1
            else: problems.append(dict(id="reject_library/%s@c++%d" % (n, std), what="a use of the outcome of a failed parse compiles: %s" % lines[line - 1], subject="build_parser", cmd=" ".join(core.base_cmd(std) + [src])))
    return dict(obligations=total, discharged=okn, problems=problems, info="%d uses of finished library parsers on inputs they fail on" % total)
