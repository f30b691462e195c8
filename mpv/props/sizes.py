"""Large shapes: arities, match counts, text lengths and counts far beyond the ones enumerated completely, around powers of two and ten
and around every constant of the library's own source (a size threshold somebody writes into a template is a witness point here)."""
from .common import *
from . import comb, chars, lang
BM = comb.BM
def big(ctx, lo, hi, base=(33, 64, 65, 100, 101, 128, 129, 256, 257)):
    return harvest.points([x for x in base], lo, hi, ctx.ints)
def stds(ctx): return CPP11 if ctx.thorough or ctx.std_dependent else (17,)

def c04(ctx):
    ns = big(ctx, 9, 130, (16, 17, 33, 64, 65, 100) + ((128, 129) if ctx.thorough else ()))
    N = max(ns)
    ch = Chain(N)
    inc = ["sequence.hpp", "nth_of.hpp", "nth_of_c.hpp", "first_of.hpp", "last_of.hpp", "error/index_out_of_range.hpp", "<boost/mpl/list.hpp>"]
    u = Unit("seq_big", inc, "sequence", stds=stds(ctx), pre=BM + ch.pre, chunk=40)
    for n in ns:
        for k in sorted({0, 1, n // 2, n - 1, n}):
            P = ", ".join("rej<%d>" % i if i == k else "acc<%d>" % i for i in range(1, n + 1))
            A = "%s, %s" % (ch.S(0), ch.P(0))
            no = lambda o: "rejects<%s, %s, %s>::value" % (o, ch.M(k), ch.Q(k))
            o = "bm::sequence<%s >::apply<%s>" % (P, A)
            u.ob("sequence.n%d.k%d" % (n, k), no(o) if k else "accepts_seq<%s, %s, %s, %s>::value" % (o, lst(ch.R(i) for i in range(1, n + 1)), ch.S(n), ch.P(n)), "sequence")
            for nm, f, idx in [("first_of", "bm::first_of<", 1), ("last_of", "bm::last_of<", n)] + [("nth_of_c", "bm::nth_of_c<%d, " % i, i + 1) for i in sorted({0, 7, n // 2, n - 2, n - 1})] + [("nth_of", "bm::nth_of<boost::mpl::int_<%d>, " % i, i + 1) for i in (1, n - 1)]:
                o = "%s%s >::apply<%s>" % (f, P, A)
                u.ob("%s.n%d.k%d.i%d" % (nm, n, k, idx), no(o) if k else "accepts<%s, %s, %s, %s>::value" % (o, ch.R(idx), ch.S(n), ch.P(n)), nm)
            if k < 2:
                for i in (-1, n): u.ob("range.n%d.k%d.i%d" % (n, k, i), "rejects<bm::nth_of_c<%d, %s >::apply<%s>, bm::error::index_out_of_range<0, %d, %d>, %s>::value" % (i, P, A, n - 1, i, ch.P(0)), "nth_of_c")
    return [u]

def c05(ctx):
    ns = big(ctx, 25, 260, (33, 64, 65, 100, 128, 129))
    u = comb.one_of_units(ctx, "one_of_big", ns, stds(ctx), (), 8)
    u.chunk = 25
    return [u]

def folds(ri):
    def f(ctx):
        ks = big(ctx, 34 if ri else 66, 600, (100, 128, 129, 256, 257) + ((512, 513) if ctx.thorough else ()))
        it = comb.Items(3, max(ks)); its = comb.Items(3, max(ks), "spos<900, P0>::type", "is")
        pre = BM + comb.STARTP + comb.PERTURB + it.pre + its.pre + ODD_PRE
        u = Unit("folds_big", comb.FOLD_INC, "foldl", pre=pre, chunk=6, stds=stds(ctx))
        for K in ks:
            for e in ((0, 2) if ri else (0,)):
                comb.fold_obs(u, it, K, e, ri); comb.fold_start_obs(u, K, e, ri, its)
            if not ri:
                o = "bm::foldr_start_with_parser<item<3,0>, acc<9>, op2<5> >::apply<in<%d>, P0>" % K
                u.ob("foldr_start_with_parser.K%d" % K, "accepts<%s, %s, acc_rem<9, in<0>, %s>::type, acc_pos<9, in<0>, %s>::type>::value" % (o, comb.foldr_(5, "acc_res<9, in<0>, %s>::type" % it.pos(K), it.elems(K)), it.pos(K), it.pos(K)), "foldr_start_with_parser")
        return [u]
    return f
c06, c07 = folds(False), folds(True)

def c16(ctx):
    ks = big(ctx, 67, 600, (100, 128, 129, 256, 257) + ((512, 513) if ctx.thorough else ()))
    it = comb.Items(3, max(ks) + 1)
    u = Unit("iterate_big", ["iterate.hpp", "iterate_c.hpp"], "iterate_c", pre=BM + it.pre + comb.PERTURB, chunk=8, stds=stds(ctx))
    for n in ks:
        for nm, f in (("iterate_c", "bm::iterate_c<item<3,2>, %d>" % n), ("iterate", "bm::iterate<item<3,2>, boost::mpl::int_<%d> >" % n)):
            u.ob("%s.n%d" % (nm, n), "accepts_seq<%s::apply<in<%d>, P0>, %s, in<2>, %s>::value" % (f, n + 2, lst(it.elem(n + 2, i) for i in range(n)), it.pos(n)), nm)
            for have in (n // 2, n - 1):
                p = it.pos(have)
                u.ob("%s.n%d.short%d" % (nm, n, have), "rejects<%s::apply<in<%d>, P0>, sym<30003, in<0>, %s>, perturb<%s,0,1,0>::type>::value" % (f, have, p, p), nm)
    return [u]

def c11(ctx):
    none, uc = "bm::error::none_of_the_expected_cases_found", "bm::error::unexpected_character"
    u = Unit("charsets_big", chars.INC11, "one_of_c", pre=chars.PRE11, chunk=20, stds=stds(ctx))
    order = [(i * 89 + 33) & 255 for i in range(256)]
    for n in big(ctx, 95, 256, (100, 128, 129, 200, 255, 256)):
        s = order[:n]
        L = ",".join(cch(c) for c in s)
        for c in sorted({s[0], s[n // 2], s[-2], s[-1]} | set(order[n:n + 2])):
            u.ob("one_of_c.%d.%d" % (n, c), chars.cob("bm::one_of_c<%s>" % L, c, c in s, none, ((), None)), "one_of_c")
            u.ob("except.%d.%d" % (n, c), chars.cob("bm::one_char_except_c<%s>" % L, c, c not in s, uc, ((), None)), "one_char_except_c")
            u.ob("except_t.%d.%d" % (n, c), chars.cob("bm::one_char_except<%s >" % ", ".join("chr<%s>" % cch(x) for x in s), c, c not in s, uc, ((), None)), "one_char_except")
    return [u]

def c15(ctx):
    ns = big(ctx, 13, 400, (16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257))
    u = Unit("long_texts", lang.INC15 + ["one_char.hpp", "repeated.hpp"], "keyword", pre=ODD_PRE + lang.PRE15, chunk=20, stds=stds(ctx))
    ws = sorted(chars.WS)
    ok = lambda P, s, p, res, rest, end: "accepts<%s::apply<%s, %s>, %s, %s, %s>::value" % (P, mpstring(s), p, res, mpstring(rest), end)
    for j, n in enumerate(ns):
        p, l, c, pv = lang.STARTS[j % 2]
        k = [97 + (i * 7) % 26 for i in range(n)]
        K = "bm::keyword<%s, sym<5> >" % mpstring(k)
        u.ob("keyword.%d" % n, ok(K, k + [32, 120], p, "sym<5>", [32, 120], lang.P_(k, l, c, pv)) + " && " + ok(K, k, p, "sym<5>", [], lang.P_(k, l, c, pv)), "keyword")
        for i in sorted({0, 1, n // 2, n - 2, n - 1}):
            msg, at = "bm::error::literal_expected<%s>" % cch(k[i]), lang.P_(k[:i], l, c, pv)
            u.ob("keyword.%d.no%d" % (n, i), " && ".join("rejects<%s::apply<%s, %s>, %s, %s>::value" % (K, mpstring(k[:i] + x), p, msg, at) for x in ([], [k[i] ^ 1] + k[i + 1:], [k[i] ^ 32, 10])), "keyword")
        for v, r in enumerate(([32] * n, [ws[(i * i + i // 3) % 4] for i in range(n)])):
            for t, tail in enumerate(([], [120, 32])):
                S, end = mpstring(r + tail), lang.P_(r, l, c, pv)
                u.ob("spaces.%d.%d.%d" % (n, v, t), "ends_at<bm::spaces::apply<%s, %s>, %s, %s>::value" % (S, p, mpstring(tail), end), "spaces")
                u.ob("token.%d.%d.%d" % (n, v, t), "accepts<bm::token<gives<sym<9>, %s, %s> >::apply<str<1>, P1>, sym<9>, %s, %s>::value" % (S, p, mpstring(tail), end), "token")
        s = mpstring(lang.text_(n))
        u.ob("entire.%d" % n, "rejects<bm::entire_input<gives<sym<1>, %s, P0> >::apply<str<1>, P1>, bm::error::end_of_input_expected, P0>::value && rejects<bm::empty<sym<1> >::apply<%s, P0>, bm::error::end_of_input_expected, P0>::value && rejects<bm::entire_input<gives<sym<1>, %s, P0>, sym<8> >::apply<str<1>, P1>, sym<8>, P0>::value" % (s, s, s), "entire_input")
        u.ob("entire.all.%d" % n, "ends_at<bm::entire_input<bm::repeated<bm::one_char> >::apply<%s, %s>, E, %s>::value" % (s, p, lang.P_(lang.text_(n), l, c, pv)), "entire_input")
    return [u]

def c18(ctx):
    """grammars with many symbols, alternatives, rules, nested brackets, long names and long inputs"""
    us = []
    def unit(name): u = Unit(name, lang.INC18, "grammar", pre=lang.PRE18, stds=stds(ctx), chunk=10**6); us.append(u); return lang.Grams(u)
    c = lambda x: ('c', x)
    def left(k, xs):
        e = xs[0]
        for x in xs[1:]: e = (k, e, x)
        return e
    al = [97 + (i * 7) % 26 for i in range(26)]
    g = unit("many")
    ns = [n for n in big(ctx, 5, 40, (5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 33)) if n < 12 or n % 2 or n in (16, 24, 32)]
    for n in ns:
        xs = [al[i % 26] for i in range(n)]
        g.add("seq%d" % n, [lang.rule("S", left('s', [c(x) for x in xs]), " " if n % 2 else "")], [xs, xs + [33], xs[:-1], xs[:-1] + [33], xs[:n // 2] + [33] + xs[n // 2 + 1:]], rules={"S": left('s', [c(x) for x in xs])})
        ys = [33 + (i * 5) % 90 for i in range(n)]; ys = [y for i, y in enumerate(ys) if y not in (39, 92) and y not in ys[:i]]
        g.add("or%d" % n, [lang.rule("S", left('o', [c(y) for y in ys]), "" if n % 2 else " ")], [[ys[0]], [ys[len(ys) // 2], 33], [ys[-1]], [ys[-2]], [127], []], rules={"S": left('o', [c(y) for y in ys])})
        b = c(97)
        for i in range(n): b = ('b', b)
        if n <= 17: g.add("brackets%d" % n, [lang.rule("S", b)], [[97], [98], []], rules={"S": c(97)})
        g.add("rep%d" % n, [lang.rule("S", ('s', ('*', c(97)), c(98)))], [[97] * n + [98], [97] * n, [97] * (n - 1) + [98, 97]], rules={"S": ('s', ('*', c(97)), c(98))})
        nm = ("abcXYZ_019" * 5)[:n]
        g.add("name%d" % n, [lang.rule(nm, c(97)), lang.rule(nm[:-1], c(98)), lang.rule("S", ('s', ('n', nm), ('n', nm[:-1])))], [[97, 98], [98, 97], [97], []], rules={nm: c(97), nm[:-1]: c(98), "S": ('s', ('n', nm), ('n', nm[:-1]))})
    h = unit("rules")
    for n in [x for x in ns if x <= 24]:
        rs = {"r%d" % i: c(al[i % 26]) for i in range(n)}
        rs["S"] = left('s', [('n', "r%d" % i) for i in range(n)] )
        xs = [al[i % 26] for i in range(n)]
        h.add("rules%d" % n, [lang.rule(k, v) for k, v in rs.items()], [xs, xs[:-1], xs[:-1] + [33]], rules=rs)
        ch = {"r%d" % i: ('o', ('n', "r%d" % (i + 1)), c(65 + i)) for i in range(n)}; ch["r%d" % n] = c(122); ch["S"] = ('+', ('n', "r0"))
        h.add("chain%d" % n, [lang.rule(k, v, "", "act<%d>" % i if i % 3 == 0 else None) for i, (k, v) in enumerate(ch.items())], [[122, 65, 65 + n - 1, 33], [64], []], rules=ch, actions={k: i for i, k in enumerate(ch) if i % 3 == 0})
    return us
