"""C04 sequencing, C05 choice, C06/C07 folds, C08 look-ahead & co, C09 transformations, C16 iteration, C23 laziness"""
from .common import *
import itertools

BM = "namespace bm = boost::metaparse;\n"
M = "boost::metaparse::"

def seqlimit(std): return 4 if std == 98 else 99   # parsers per sequence used in C++98 with the default limit

def _seq_units(ctx, name, N, stds, poison, flags=(), ns=None, light=False):
    """sequence / nth_of / first_of / last_of over symbolic parsers, arities 1..N"""
    ch = Chain(N)
    inc = ["sequence.hpp", "sequence_apply.hpp", "nth_of.hpp", "nth_of_c.hpp", "first_of.hpp", "last_of.hpp", "error/index_out_of_range.hpp", "<boost/mpl/list.hpp>"]
    pre = BM + ch.pre
    u = Unit(name, inc, "sequence", stds=stds, pre=pre, chunk=150, flags=flags)
    for n in ns or range(1, N + 1):
        for k in [0] + list(range(1, n + 1)):        # k = failing index, 0: none
            if light and n > 3 and k not in (0, 1, n - 1, n): continue
            ps = []
            for i in range(1, n + 1):
                if k and i == k: ps.append("rej<%d>" % i)
                elif k and i > k and poison: ps.append("poison")
                else: ps.append("acc<%d>" % i)
            P = ", ".join(ps)
            t = "n%d.k%d" % (n, k)
            s = "bm::sequence<%s >::apply<%s, %s>" % (P, ch.S(0), ch.P(0))
            rejd = lambda o: "rejects<%s, %s, %s>::value" % (o, ch.M(k), ch.Q(k))
            if k == 0:
                u.ob("sequence." + t, "accepts_seq<%s, %s, %s, %s>::value" % (s, lst(ch.R(i) for i in range(1, n + 1)), ch.S(n), ch.P(n)), "sequence")
                u.ob("sequence.type." + t, "accepts_seq<%s::type, %s, %s, %s>::value" % (s, lst(ch.R(i) for i in range(1, n + 1)), ch.S(n), ch.P(n)), "sequence")
            else:
                u.ob("sequence." + t, rejd(s), "sequence")
            for nm, idx in (("first_of", 1), ("last_of", n)):
                o = "bm::%s<%s >::apply<%s, %s>" % (nm, P, ch.S(0), ch.P(0))
                u.ob(nm + "." + t, rejd(o) if k else "accepts<%s, %s, %s, %s>::value" % (o, ch.R(idx), ch.S(n), ch.P(n)), nm)
            for idx in range(0, n):
                for nm, ix in (("nth_of_c", "%d" % idx), ("nth_of", "boost::mpl::int_<%d>" % idx)):
                    o = "bm::%s<%s, %s >::apply<%s, %s>" % (nm, ix, P, ch.S(0), ch.P(0))
                    u.ob("%s.%s.i%d" % (nm, t, idx), rejd(o) if k else "accepts<%s, %s, %s, %s>::value" % (o, ch.R(idx + 1), ch.S(n), ch.P(n)), nm)
            if k in (0, 1):
                for idx in (-2, -1, n, n + 1, n + 7):
                    for nm, ix in (("nth_of_c", "%d" % idx), ("nth_of", "boost::mpl::int_<%d>" % idx)):
                        o = "bm::%s<%s, %s >::apply<%s, %s>" % (nm, ix, P, ch.S(0), ch.P(0))
                        u.ob("%s.%s.range%d" % (nm, t, idx), "rejects<%s, bm::error::index_out_of_range<0, %d, %d>, %s>::value" % (o, n - 1, idx, ch.P(0)), nm)
    return u

def seq_symbolic(ctx, poison=False):
    tag = "lazy_" if poison else ""
    us = [_seq_units(ctx, tag + "seq", 5, ALL, poison),
          _seq_units(ctx, tag + "seq_long", 12 if ctx.thorough else 8, CPP11, poison)]
    return us

def seq_apply(ctx, poison=False, N=4, flags=(), name="", stds=ALL):
    # sequence_apply1..(limit-1), any standard
    ch = Chain(N)
    pre = BM + ch.pre
    for n in range(1, N + 1):
        pre += "template <%s> struct tmpl%d { typedef sym<77%s> type; };\n" % (", ".join("class A%d" % i for i in range(n)), n, "")
    u = Unit(("lazy_" if poison else "") + "seq_apply" + name, ["sequence_apply.hpp"], "sequence_apply", pre=pre, flags=flags, stds=stds)
    for n in range(1, N + 1):
        for k in range(0, n + 1):
            ps = ["rej<%d>" % i if i == k else ("poison" if poison and k and i > k else "acc<%d>" % i) for i in range(1, n + 1)]
            o = "bm::sequence_apply%d<tmpl%d, %s >::apply<%s, %s>" % (n, n, ", ".join(ps), ch.S(0), ch.P(0))
            if k: c = "rejects<%s, %s, %s>::value" % (o, ch.M(k), ch.Q(k))
            else: c = "accepts<%s, tmpl%d<%s>, %s, %s>::value" % (o, n, ", ".join(ch.R(i) for i in range(1, n + 1)), ch.S(n), ch.P(n))
            u.ob("sequence_apply.n%d.k%d" % (n, k), c)
    return [u]

def seq_middle(ctx, poison=False):
    ch = Chain(3)
    inc = ["middle_of.hpp", "error/unpaired.hpp", "return_.hpp"]
    u = Unit(("lazy_" if poison else "") + "middle_of", inc, "middle_of", pre=BM + ch.pre)
    after = "poison" if poison else None
    starts = [(17, 23, 113), (1, 1, 0)] + ([] if poison else [(a, b, 65) for a in harvest.points([0, 1, 2, 99, 255, 256, 1000, 65536], 0, 100000, ctx.ints) for b in (1, a, 7)])
    u.ob("ok", "accepts<bm::middle_of<acc<1>, acc<2>, acc<3> >::apply<%s, %s>, %s, %s, %s>::value" % (ch.S(0), ch.P(0), ch.R(2), ch.S(3), ch.P(3)))
    u.ob("err1", "rejects<bm::middle_of<rej<1>, %s, %s >::apply<%s, %s>, %s, %s>::value" % (after or "acc<2>", after or "acc<3>", ch.S(0), ch.P(0), ch.M(1), ch.Q(1)))
    u.ob("err2", "rejects<bm::middle_of<acc<1>, rej<2>, %s >::apply<%s, %s>, %s, %s>::value" % (after or "acc<3>", ch.S(0), ch.P(0), ch.M(2), ch.Q(2)))
    u.ob("err1b", "rejects<bm::middle_of<rej<1>, rej<2>, rej<3> >::apply<%s, %s>, %s, %s>::value" % (ch.S(0), ch.P(0), ch.M(1), ch.Q(1)))
    u.ob("err2b", "rejects<bm::middle_of<acc<1>, rej<2>, rej<3> >::apply<%s, %s>, %s, %s>::value" % (ch.S(0), ch.P(0), ch.M(2), ch.Q(2)))
    for (l, c, k) in starts:
        P = "pos<%d,%d,%d>::type" % (l, c, k)
        s2 = "acc_rem<2, acc_rem<1,str<1>,%s>::type, acc_pos<1,str<1>,%s>::type>::type" % (P, P)
        p2 = "acc_pos<2, acc_rem<1,str<1>,%s>::type, acc_pos<1,str<1>,%s>::type>::type" % (P, P)
        t = "err3.%d.%d.%d" % (l, c, k)
        if t in u._ids: continue
        u.ob(t, "rejects<bm::middle_of<acc<1>, acc<2>, rej<3> >::apply<str<1>, %s>, bm::error::unpaired<%d, %d, rej_msg<3, %s, %s>::type>, rej_pos<3, %s, %s>::type>::value" % (P, l, c, s2, p2, s2, p2))
    if not poison:
        # the middle result and the error are those even if the bracketing parsers consume nothing
        u.ob("empty_brackets", "accepts<bm::middle_of<bm::return_<sym<1> >, acc<2>, bm::return_<sym<3> > >::apply<str<1>, P0>, acc_res<2,str<1>,P0>::type, acc_rem<2,str<1>,P0>::type, acc_pos<2,str<1>,P0>::type>::value")
        u.ob("same_parser", "accepts<bm::middle_of<acc<1>, acc<1>, acc<1> >::apply<str<1>, P0>, acc_res<1, acc_rem<1,str<1>,P0>::type, acc_pos<1,str<1>,P0>::type>::type, acc_rem<1, acc_rem<1, acc_rem<1,str<1>,P0>::type, acc_pos<1,str<1>,P0>::type>::type, acc_pos<1, acc_rem<1,str<1>,P0>::type, acc_pos<1,str<1>,P0>::type>::type>::type, spos<1, spos<1, spos<1, P0>::type>::type>::type>::value")
    return [u]

def seq_odd(ctx):
    """odd result types and repeated/identical parsers go through unchanged"""
    inc = ["sequence.hpp", "sequence_apply.hpp", "nth_of.hpp", "nth_of_c.hpp", "first_of.hpp", "last_of.hpp", "middle_of.hpp", "return_.hpp", "fail.hpp", "<boost/mpl/vector.hpp>"]
    pre = ODD_PRE + BM + "template <class A, class B> struct tm2;\ntemplate <class R> struct ret : bm::return_<R> {};\ntypedef boost::metaparse::fail_tag dummy_t;\n"
    u = Unit("seq_odd", inc + ["fail_tag.hpp"], "sequence", pre=pre)
    for i, r in enumerate(ODD):
        for j, q in enumerate(ODD):
            if j not in (i, (i + 1) % len(ODD)): continue
            A, B = "bm::return_<%s>" % r, "bm::return_<%s>" % q
            t = "%d.%d" % (i, j)
            u.ob("sequence." + t, "accepts_seq<bm::sequence<%s, %s >::apply<str<1>, P0>, %s, str<1>, P0>::value" % (A, B, lst([r, q])))
            u.ob("first_of." + t, "accepts<bm::first_of<%s, %s >::apply<str<1>, P0>, %s, str<1>, P0>::value" % (A, B, r), "first_of")
            u.ob("last_of." + t, "accepts<bm::last_of<%s, %s >::apply<str<1>, P0>, %s, str<1>, P0>::value" % (A, B, q), "last_of")
            u.ob("nth_of." + t, "accepts<bm::nth_of_c<1, %s, %s, %s >::apply<str<1>, P0>, %s, str<1>, P0>::value" % (A, B, A, q), "nth_of_c")
            u.ob("middle_of." + t, "accepts<bm::middle_of<%s, %s, %s >::apply<str<1>, P0>, %s, str<1>, P0>::value" % (A, B, A, q), "middle_of")
            u.ob("apply2." + t, "accepts<bm::sequence_apply2<tm2, %s, %s >::apply<str<1>, P0>, tm2<%s, %s>, str<1>, P0>::value" % (A, B, r, q), "sequence_apply")
        u.ob("err.%d" % i, "rejects<bm::sequence<acc<1>, rej_here<%s >, acc<3> >::apply<str<1>, P0>, %s, spos<1, P0>::type>::value && rejects<bm::last_of<acc<1>, rej_here<%s >, acc<3> >::apply<str<1>, P0>, %s, spos<1, P0>::type>::value && rejects<bm::first_of<acc<1>, rej_here<%s >, acc<3> >::apply<str<1>, P0>, %s, spos<1, P0>::type>::value" % (r, r, r, r, r, r))
        u.ob("errfirst.%d" % i, "rejects<bm::sequence<rej_here<%s >, acc<2> >::apply<str<1>, P0>, %s, P0>::value && rejects<bm::nth_of_c<1, rej_here<%s >, acc<2> >::apply<str<1>, P0>, %s, P0>::value" % (r, r, r, r))
    # empty parser lists where the standard allows them
    return [u]

def seq_empty(ctx):
    u = Unit("seq_empty", ["sequence.hpp", "first_of.hpp", "last_of.hpp", "nth_of_c.hpp", "nth_of.hpp", "error/index_out_of_range.hpp"], "sequence", stds=CPP11, pre=BM)
    u.ob("sequence", "accepts_seq<bm::sequence<>::apply<str<1>, P0>, nil, str<1>, P0>::value")
    for nm in ("first_of<>", "last_of<>", "nth_of_c<0>", "nth_of<boost::mpl::int_<0> >"):
        u.ob(nm.split("<")[0], "rejects<bm::%s::apply<str<1>, P0>, bm::error::index_out_of_range<0, -1, 0>, P0>::value" % nm, nm.split("<")[0])
    for k in (1, -1, 5):
        u.ob("nth_of_c.%d" % k, "rejects<bm::nth_of_c<%d>::apply<str<1>, P0>, bm::error::index_out_of_range<0, -1, %d>, P0>::value" % (k, k), "nth_of_c")
    return [u]

def seq_real(ctx):
    """concrete parsers, aliasing and nesting: the same law on real inputs"""
    inc = ["sequence.hpp", "nth_of.hpp", "nth_of_c.hpp", "first_of.hpp", "last_of.hpp", "middle_of.hpp", "one_char.hpp", "lit_c.hpp", "string.hpp", "start.hpp", "return_.hpp", "error/literal_expected.hpp", "sequence_apply.hpp"]
    pre = BM + "template <class R, int V> struct rv { static const bool value = R::type::value == V; };\n"
    u = Unit("seq_real", inc, "sequence", pre=pre)
    n = 4
    txt = "abcd"
    S = lambda s: mpstring([ord(c) for c in s])
    for fail_at in [None, 0, 1, 2, 3]:
        ps = ["bm::lit_c<'%s'>" % (c if i != fail_at else 'z') for i, c in enumerate(txt)]
        P = ", ".join(ps)
        for nm, ix in [("sequence", None), ("first_of", 0), ("last_of", 3)] + [("nth_of_c", i) for i in range(4)]:
            for tail in ("", "x", "abcd"):
                args = (str(ix) + ", " if nm == "nth_of_c" else "") + P
                o = "bm::%s<%s >::apply<%s, bm::start>" % (nm, args, S(txt + tail))
                t = "%s.%s.f%s.t%d" % (nm, ix, fail_at, len(tail))
                if fail_at is None:
                    c = "ends_at<%s, %s, pos<1,5,'d'>::type>::value" % (o, S(tail))
                    if ix is not None: c += " && result_value<%s, '%s'>::value" % (o, txt[ix])
                else:
                    c = "rejects<%s, bm::error::literal_expected<'z'>, pos<1,%d,%s>::type>::value" % (o, fail_at + 1, "'%s'" % txt[fail_at - 1] if fail_at else "0")
                u.ob(t, c, nm)
    # nesting: associativity of threading
    u.ob("nest1", "ends_at<bm::sequence<bm::sequence<bm::one_char, bm::one_char>, bm::one_char>::apply<%s, bm::start>, %s, pos<1,4,'c'>::type>::value" % (S("abcd"), S("d")))
    u.ob("nest2", "ends_at<bm::sequence<bm::one_char, bm::sequence<bm::one_char, bm::one_char> >::apply<%s, bm::start>, %s, pos<1,4,'c'>::type>::value" % (S("abcd"), S("d")))
    u.ob("nest3", "result_value<bm::last_of<bm::first_of<bm::one_char, bm::one_char>, bm::middle_of<bm::one_char, bm::one_char, bm::one_char> >::apply<%s, bm::start>, 'd'>::value" % S("abcdef"), "last_of")
    u.ob("short", "rejects_at<bm::sequence<bm::one_char, bm::one_char, bm::one_char>::apply<%s, bm::start>, pos<1,3,'b'>::type>::value" % S("ab"))
    return [u]

def c04(ctx):
    return seq_symbolic(ctx) + seq_apply(ctx) + seq_middle(ctx) + seq_odd(ctx) + seq_empty(ctx) + seq_real(ctx)

# --------------------------------------------------------------------- C05
INC05 = ["fail_tag.hpp", "<boost/mpl/vector.hpp>", "one_of.hpp", "repeated_one_of.hpp", "repeated_one_of1.hpp", "repeated.hpp", "repeated1.hpp", "optional.hpp", "return_.hpp", "fail.hpp", "lit_c.hpp", "string.hpp", "start.hpp", "one_char.hpp", "last_of.hpp", "error/none_of_the_expected_cases_found.hpp"]
PRE05 = BM + ODD_PRE + r'''
template <class O, bool Err, class L> struct msg_in_ { static const bool value = false; };
template <class X, class L> struct member;
template <class X> struct member<X, nil> { static const bool value = false; };
template <class X, class T> struct member<X, cons<X, T> > { static const bool value = true; };
template <class X, class H, class T> struct member<X, cons<H, T> > : member<X, T> {};
template <class O, class L> struct msg_in_<O, true, L> { static const bool value = member<typename bm::get_message<O>::type, L>::value; };
template <class O, class L> struct msg_in : msg_in_<O, bm::is_error<O>::type::value, L> {};
typedef bm::error::none_of_the_expected_cases_found none_t;
'''
def one_of_units(ctx, name, ns, stds, flags=(), sparse=8):
    u = Unit(name, INC05, "one_of", pre=PRE05, stds=stds, chunk=100, flags=flags)
    for n in ns:
        pick = lambda w: not (n > sparse and not ctx.thorough and w not in (1, 2, n // 2, n - 1, n))
        for w in range(1, n + 1):
            if not pick(w): continue
            for after in ("acc", "rej"):
                if w == n and after == "rej": continue
                ps = ["rej<%d>" % i if i < w else "acc<%d>" % i if i == w else "%s<%d>" % (after, i) for i in range(1, n + 1)]
                o = "bm::one_of<%s >::apply<str<1>, P0>" % ", ".join(ps)
                u.ob("win.n%d.w%d.%s" % (n, w, after), "accepts<%s, acc_res<%d,str<1>,P0>::type, acc_rem<%d,str<1>,P0>::type, acc_pos<%d,str<1>,P0>::type>::value" % (o, w, w, w))
        # every alternative alone is the furthest
        for w in range(1, n + 1):
            if not pick(w): continue
            for kind, far in (("line", "pos<18,2,'q'>::type"), ("col", "pos<17,24,'q'>::type"), ("chr", "pos<17,23,'s'>::type")):
                ps = ["rej_at<sym<%d>, %s >" % (i, far if i == w else "P0") for i in range(1, n + 1)]
                o = "bm::one_of<%s >::apply<str<1>, P0>" % ", ".join(ps)
                u.ob("far.%s.n%d.w%d" % (kind, n, w), "rejects<%s, sym<%d>, %s>::value" % (o, w, far))
    return u

def c05(ctx):
    inc, pre = INC05, PRE05
    units = [one_of_units(ctx, "one_of", range(1, 21), ALL), one_of_units(ctx, "one_of_long", (21, 22, 23, 24), CPP11)]
    v = Unit("one_of_err", inc, "one_of", pre=pre, chunk=120)
    v.ob("none", "rejects_at<bm::one_of<rej_here<sym<1> > >::apply<str<1>, P0>, P0>::value")
    if True:
        levels = ["P0", "pos<17,24,'a'>::type", "pos<18,1,'b'>::type", "pos<18,9,'c'>::type"]
        maxn = 4 if ctx.thorough else 3
        for n in range(1, maxn + 1):
            for t in itertools.product(range(4), repeat=n):
                m = max(t)
                ps = ["rej_at<sym<%d>, %s >" % (i + 1, levels[x]) for i, x in enumerate(t)]
                o = "bm::one_of<%s >::apply<str<1>, P0>" % ", ".join(ps)
                at = [i for i, x in enumerate(t) if x == m]
                allowed = ["sym<%d>" % (i + 1) for i in at] + (["none_t"] if m == 0 else [])
                uniq = len(at) == 1 and m > 0
                c = "rejects<%s, sym<%d>, %s>::value" % (o, at[0] + 1, levels[m]) if uniq else "rejects_at<%s, %s>::value && msg_in<%s, %s >::value" % (o, levels[m], o, lst(allowed))
                v.ob("err.%s" % "".join(map(str, t)), c)
    # the further of two positions, however the coordinates combine
    steps = harvest.points([1, 2, 9, 10, 16, 64, 80, 99, 100, 127, 128, 255, 256, 999, 1000, 1024, 4096, 10000, 65535, 65536, 1000000], 1, 1000000, ctx.ints)
    rel = set()
    for n in steps:
        for (l, c) in ((17, 40), (1, 1)):
            rel |= {((l + 1, 1), (l, c + n)), ((l + n, c), (l, c + n)), ((l, c + n), (l, c)), ((l, c + n), (l, c + n - 1)), ((l + n, 1), (l + n - 1, c + n)), ((l + n, c), (l, c))}
    rel = sorted(x for x in rel if x[0] > x[1] and x[0] > (1, 1) and x[1] > (1, 1))
    for k, ((l1, c1), (l2, c2)) in enumerate(rel):
        A, B = "rej_at<sym<1>, pos<%d,%d,'a'>::type>" % (l1, c1), "rej_at<sym<2>, pos<%d,%d,'b'>::type>" % (l2, c2)
        for o, ps in (("fb", (A, B)), ("bf", (B, A))) + ((("fbh", (A, "rej_here<sym<3> >", B)), ("hbf", ("rej_here<sym<3> >", B, A))) if ctx.thorough else ()):
            v.ob("rel.%d.%d-%d.%d.%s" % (l1, c1, l2, c2, o), "rejects<bm::one_of<%s >::apply<str<1>, pos<1,1,0>::type>, sym<1>, pos<%d,%d,'a'>::type>::value" % (", ".join(ps), l1, c1))
    # at the very start of the input and on concrete texts
    S = lambda s: mpstring([ord(c) for c in s])
    L = lambda c: "bm::lit_c<'%s'>" % c
    v.ob("start.none", "rejects_at<bm::one_of<%s, %s >::apply<%s, bm::start>, bm::start>::value" % (L('a'), L('b'), S("c")))
    v.ob("start.empty", "rejects_at<bm::one_of<%s, %s >::apply<%s, bm::start>, bm::start>::value" % (L('a'), L('b'), S("")))
    v.ob("ambig", "ends_at<bm::one_of<bm::last_of<%s, %s >, %s, bm::last_of<%s, %s, %s > >::apply<%s, bm::start>, %s, pos<1,2,'a'>::type>::value" % (L('a'), L('x'), L('a'), L('a'), L('b'), L('c'), S("abc"), S("bc")))
    v.ob("deep", "rejects_at<bm::one_of<bm::last_of<%s, %s, %s >, bm::last_of<%s, %s >, %s >::apply<%s, bm::start>, pos<1,3,'b'>::type>::value" % (L('a'), L('b'), L('x'), L('a'), L('y'), L('z'), S("abc")))
    v.ob("nested", "accepts<bm::one_of<bm::one_of<rej<1>, rej<2> >, bm::one_of<rej<3>, acc<4> >, acc<5> >::apply<str<1>, P0>, acc_res<4,str<1>,P0>::type, acc_rem<4,str<1>,P0>::type, acc_pos<4,str<1>,P0>::type>::value")
    v.ob("nested.err", "rejects<bm::one_of<bm::one_of<rej_here<sym<1> >, rej_at<sym<2>, pos<17,30,'a'>::type> >, rej_at<sym<3>, pos<17,29,'z'>::type>, rej_here<sym<4> > >::apply<str<1>, P0>, sym<2>, pos<17,30,'a'>::type>::value")
    v.ob("same", "accepts<bm::one_of<acc<1>, acc<1> >::apply<str<1>, P0>, acc_res<1,str<1>,P0>::type, acc_rem<1,str<1>,P0>::type, acc_pos<1,str<1>,P0>::type>::value")
    for i, r in enumerate(ODD):
        v.ob("odd.%d" % i, "accepts<bm::one_of<rej<1>, bm::return_<%s >, acc<3> >::apply<str<1>, P0>, %s, str<1>, P0>::value" % (r, r))
        v.ob("oddmsg.%d" % i, "rejects<bm::one_of<rej_here<sym<1> >, rej_at<%s, P1>, rej_here<sym<2> > >::apply<str<1>, P0>, %s, P1>::value" % (r, r))
    # repeated choice
    for nm, base in (("repeated_one_of", "repeated"), ("repeated_one_of1", "repeated1")):
        for n in (1, 2, 3, 5):
            for K in (0, 1, 2, 5):
                ps = ["item<%d,0>" % i if i == n else "rej_here<sym<%d> >" % i for i in range(1, n + 1)]
                P = ", ".join(ps)
                if K == 0 and nm.endswith("1"):
                    c = "rejects_at<bm::%s<%s >::apply<in<0>, P0>, P0>::value" % (nm, P)
                else:
                    c, p = [], "P0"
                    for i in range(K):
                        c.append("sym<%d, in<%d>, %s >" % (n, K - i, p)); p = "spos<%d, %s >::type" % (n, p)
                    c = "accepts_seq<bm::%s<%s >::apply<in<%d>, P0>, %s, in<0>, %s >::value" % (nm, P, K, lst(c), p)
                v.ob("%s.n%d.K%d" % (nm, n, K), c, nm)
        v.ob(nm + ".order", "ends_at<bm::%s<%s, %s, %s >::apply<%s, bm::start>, %s, pos<1,6,'b'>::type>::value" % (nm, L('a'), L('b'), L('a'), S("abbab!"), S("!")), nm)
    units.append(v)
    w = Unit("one_of_zero", inc, "one_of", pre=pre, stds=CPP11)
    w.ob("zero", "rejects_at<bm::one_of<>::apply<str<1>, P0>, P0>::value && rejects_at<bm::one_of<>::apply<str<1>, pos<1,1,0>::type>, pos<1,1,0>::type>::value")
    units.append(w)
    return units

# ----------------------------------------------------------------- C06 / C07
def Ks(ctx, cap):
    return harvest.points([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 20, 21, 22, 29, 30, 31, 32, 33], 0, cap, ctx.ints)

class Items:
    """elements and end position of K applications of item<Id,*> from P"""
    def __init__(self, Id, maxk, p0="P0", name="it"):
        self.Id, self.name = Id, name
        L = ["typedef %s %s0;" % (p0, name)]
        for i in range(1, maxk + 1): L.append("typedef spos<%d, %s%d>::type %s%d;" % (Id, name, i - 1, name, i))
        self.pre = "\n".join(L) + "\n"
    def elem(self, K, i):   # i-th (0-based) element when K are available
        return "sym<%d, in<%d>, %s%d>" % (self.Id, K - i, self.name, i)
    def elems(self, K): return [self.elem(K, i) for i in range(K)]
    def pos(self, i): return "%s%d" % (self.name, i)

def foldl_(op, st, es):
    for e in es: st = "sym<%d, %s, %s >" % (40000 + op, st, e)
    return st
def foldr_(op, st, es):
    for e in reversed(es): st = "sym<%d, %s, %s >" % (40000 + op, st, e)
    return st

STARTP = r'''
// a parser for the initial state: turns any input into "K items"
template <int K> struct startp {
  typedef startp type;
  template <class S, class Pos> struct apply : boost::metaparse::accept<sym<900, S, Pos>, in<K>, typename spos<900, Pos>::type> {};
};
'''

FOLD_INC = ["fail_tag.hpp", "foldl.hpp", "foldl1.hpp", "foldr.hpp", "foldr1.hpp", "foldl_start_with_parser.hpp", "foldr_start_with_parser.hpp",
            "repeated.hpp", "repeated1.hpp", "foldl_reject_incomplete.hpp", "foldl_reject_incomplete1.hpp", "foldl_reject_incomplete_start_with_parser.hpp",
            "foldr_reject_incomplete.hpp", "foldr_reject_incomplete1.hpp", "repeated_reject_incomplete.hpp", "repeated_reject_incomplete1.hpp", "<boost/mpl/vector.hpp>", "return_.hpp", "string.hpp", "lit_c.hpp", "start.hpp", "one_char.hpp", "last_of.hpp", "digit_val.hpp"]

def fold_obs(u, it, K, err, ri, wrap="%s", tag=""):
    """all fold forms for K matches; the ending attempt fails as ErrKind err.
       ri: reject_incomplete forms, otherwise plain forms"""
    I = wrap % ("item<3,%d>" % err)
    es = it.elems(K); end = it.pos(K)
    sfx = "_reject_incomplete" if ri else ""
    t = "K%d.e%d%s" % (K, err, tag)
    incomplete = ri and err != 0
    emsg = "sym<30003, in<0>, %s>" % end
    d = {0: (0, 0, 0), 1: (1, 0, 0), 2: (0, 1, 0), 3: (0, 0, 1), 4: (-1, 0, 0), 5: (0, -1, 0), 6: (0, 0, -1)}[err]
    epos = "perturb<%s, %d, %d, %d>::type" % (end, d[0], d[1], d[2])
    S = "in<%d>" % K
    def emit(nm, o, good, needs1):
        if (needs1 and K == 0) or incomplete: c = "rejects<%s, %s, %s>::value" % (o, emsg, epos)
        else: c = good
        u.ob("%s.%s" % (nm, t), c, nm)
    for one in ("", "1"):
        if "foldl":
            o = "bm::foldl%s%s<%s, sym<7>, op2<5> >::apply<%s, P0>" % (sfx, one, I, S)
            emit("foldl%s%s" % (sfx, one), o, "accepts<%s, %s, in<0>, %s>::value" % (o, foldl_(5, "sym<7>", es), end), one == "1")
        o = "bm::foldr%s%s<%s, sym<7>, op2<5> >::apply<%s, P0>" % (sfx, one, I, S)
        emit("foldr%s%s" % (sfx, one), o, "accepts<%s, %s, in<0>, %s>::value" % (o, foldr_(5, "sym<7>", es), end), one == "1")
        o = "bm::repeated%s%s<%s >::apply<%s, P0>" % (sfx, one, I, S)
        emit("repeated%s%s" % (sfx, one), o, "accepts_seq<%s, %s, in<0>, %s>::value" % (o, lst(es), end), one == "1")

PERTURB = r'''
template <class P, int L, int C, int K> struct perturb {
  static const int l = boost::metaparse::get_line<P>::type::value + L;
  static const int c = boost::metaparse::get_col<P>::type::value + C;
  static const int k = boost::metaparse::get_prev_char<P>::type::value + K;
  typedef boost::metaparse::source_position<boost::mpl::int_<l>, boost::mpl::int_<c>, boost::mpl::char_<(char)k> > type;
};
'''

# failures at the same position, written with other integral constants
REP = r'''
template <class P> struct rep {
  typedef boost::metaparse::source_position<boost::mpl::integral_c<int, boost::metaparse::get_line<P>::type::value>, boost::mpl::long_<boost::metaparse::get_col<P>::type::value>, boost::mpl::integral_c<char, boost::metaparse::get_prev_char<P>::type::value> > type;
};
template <class P> struct relabel {
  typedef relabel type;
  template <class O, bool E> struct impl : O {};
  template <class O> struct impl<O, true> : boost::metaparse::reject<typename boost::metaparse::get_message<O>::type, typename rep<typename boost::metaparse::get_position<O>::type>::type> {};
  template <class S, class Pos> struct apply : impl<typename P::template apply<S, Pos>::type, boost::metaparse::is_error<typename P::template apply<S, Pos> >::type::value> {};
};
'''
REP_INC = ["<boost/mpl/integral_c.hpp>", "<boost/mpl/long.hpp>", "get_line.hpp", "get_col.hpp", "get_prev_char.hpp", "get_message.hpp", "get_position.hpp", "is_error.hpp", "reject.hpp", "source_position.hpp"]

def fold_start_obs(u, K, err, ri, its, wrap="%s", tag=""):
    """forms that get the initial state from a parser; its: Items starting at spos<900,P0>"""
    I = wrap % ("item<3,%d>" % err)
    t = "K%d.e%d%s" % (K, err, tag)
    d = {0: (0, 0, 0), 1: (1, 0, 0), 2: (0, 1, 0), 3: (0, 0, 1), 4: (-1, 0, 0), 5: (0, -1, 0), 6: (0, 0, -1)}[err]
    end = its.pos(K)
    st = "sym<900, str<1>, P0>"
    nm = "foldl_reject_incomplete_start_with_parser" if ri else "foldl_start_with_parser"
    o = "bm::%s<%s, startp<%d>, op2<5> >::apply<str<1>, P0>" % (nm, I, K)
    if ri and err: c = "rejects<%s, sym<30003, in<0>, %s>, perturb<%s,%d,%d,%d>::type>::value" % ((o, end, end) + d)
    else: c = "accepts<%s, %s, in<0>, %s>::value" % (o, foldl_(5, st, its.elems(K)), end)
    u.ob("%s.%s" % (nm, t), c, nm)

def c06(ctx):
    cap = 130 if ctx.thorough else 66
    ks = Ks(ctx, cap)
    it = Items(3, max(ks)); its = Items(3, max(ks), "spos<900, P0>::type", "is")
    pre = BM + STARTP + PERTURB + it.pre + its.pre + ODD_PRE
    u = Unit("folds", FOLD_INC, "foldl", pre=pre, chunk=40)
    for K in ks:
        fold_obs(u, it, K, 0, False)
        fold_start_obs(u, K, 0, False, its)
        # right fold: the state parser runs after the matches, where they ended
        es = it.elems(K); end = it.pos(K)
        o = "bm::foldr_start_with_parser<item<3,0>, acc<9>, op2<5> >::apply<in<%d>, P0>" % K
        u.ob("foldr_start_with_parser.K%d" % K, "accepts<%s, %s, acc_rem<9, in<0>, %s>::type, acc_pos<9, in<0>, %s>::type>::value" % (o, foldr_(5, "acc_res<9, in<0>, %s>::type" % end, es), end, end), "foldr_start_with_parser")
        o = "bm::foldr_start_with_parser<item<3,0>, rej<9>, op2<5> >::apply<in<%d>, P0>" % K
        u.ob("foldr_start_with_parser.staterr.K%d" % K, "rejects<%s, rej_msg<9, in<0>, %s>::type, rej_pos<9, in<0>, %s>::type>::value" % (o, end, end), "foldr_start_with_parser")
    for K in (0, 1, 2, 3, 7):
        for err in range(1, 7):       # plain forms ignore how the last attempt failed
            fold_obs(u, it, K, err, False)
            fold_start_obs(u, K, err, False, its)
    u.ob("foldl_start_with_parser.staterr", "rejects<bm::foldl_start_with_parser<item<3,0>, rej<9>, op2<5> >::apply<str<1>, P0>, rej_msg<9,str<1>,P0>::type, rej_pos<9,str<1>,P0>::type>::value", "foldl_start_with_parser")
    u.ob("foldl_start_with_parser.staterr2", "rejects<bm::foldl_start_with_parser<item<3,0>, rej<9>, op2<5> >::apply<in<3>, P0>, rej_msg<9,in<3>,P0>::type, rej_pos<9,in<3>,P0>::type>::value", "foldl_start_with_parser")
    # odd element types
    units = [u]
    v = Unit("folds_odd", FOLD_INC, "foldl", pre=pre + ODDITEM)
    for i, r in enumerate(ODD):
        I = "odditem<%s >" % r
        for K in (0, 1, 3):
            v.ob("repeated.%d.K%d" % (i, K), "accepts_seq<bm::repeated<%s >::apply<in<%d>, P0>, %s, in<0>, P0>::value" % (I, K, lst([r] * K)), "repeated")
            v.ob("foldl.%d.K%d" % (i, K), "accepts<bm::foldl<%s, sym<7>, op2<5> >::apply<in<%d>, P0>, %s, in<0>, P0>::value" % (I, K, foldl_(5, "sym<7>", [r] * K)), "foldl")
            v.ob("foldr.%d.K%d" % (i, K), "accepts<bm::foldr<%s, sym<7>, op2<5> >::apply<in<%d>, P0>, %s, in<0>, P0>::value" % (I, K, foldr_(5, "sym<7>", [r] * K)), "foldr")
    # real texts: every count of matches, every tail
    S = lambda s: mpstring([ord(c) for c in s])
    for K in range(0, 20):
        for tail in ("", "b", "ba"):
            for nm in ("repeated", "repeated1"):
                o = "bm::%s<bm::lit_c<'a'> >::apply<%s, bm::start>" % (nm, S("a" * K + tail))
                if nm == "repeated1" and K == 0: c = "rejects_at<%s, bm::start>::value" % o
                else: c = "ends_at<%s, %s, pos<1,%d,%s>::type>::value" % (o, S(tail), K + 1, "'a'" if K else "0")
                v.ob("real.%s.%d.%s" % (nm, K, tail or "_"), c, nm)
    units.append(v)
    return units

ODDITEM = r'''
template <class R> struct odditem {
  typedef odditem type;
  template <class S, class Pos> struct impl;
  template <class Pos> struct impl<in<0>, Pos> { typedef boost::metaparse::reject<sym<1>, Pos> out; };
  template <int K, class Pos> struct impl<in<K>, Pos> { typedef boost::metaparse::accept<R, in<K - 1>, Pos> out; };
  template <class S, class Pos> struct apply : impl<S, Pos>::out {};
};
'''

def c07(ctx):
    cap = 70 if ctx.thorough else 34
    ks = Ks(ctx, cap)
    it = Items(3, max(ks)); its = Items(3, max(ks), "spos<900, P0>::type", "is")
    pre = BM + STARTP + PERTURB + REP + it.pre + its.pre + ODD_PRE
    u = Unit("folds_ri", FOLD_INC + REP_INC, "foldl_reject_incomplete", pre=pre, chunk=60)
    for K in ks:
        for err in range(0, 7):
            if err > 2 and K > 6 and not ctx.thorough and K % 5: continue
            fold_obs(u, it, K, err, True)
            fold_start_obs(u, K, err, True, its)
            if K < 5:
                fold_obs(u, it, K, err, True, "relabel<%s >", ".repr")
                fold_start_obs(u, K, err, True, its, "relabel<%s >", ".repr")
    u.ob("staterr", "rejects<bm::foldl_reject_incomplete_start_with_parser<item<3,0>, rej<9>, op2<5> >::apply<in<3>, P0>, rej_msg<9,in<3>,P0>::type, rej_pos<9,in<3>,P0>::type>::value", "foldl_reject_incomplete_start_with_parser")
    # concrete: "ab" repeated, cut at every point
    v = Unit("folds_ri_real", FOLD_INC + REP_INC + ["fail_at_first_char_expected.hpp"], "repeated_reject_incomplete", pre=pre)
    S = lambda s: mpstring([ord(c) for c in s])
    ab = "bm::last_of<bm::lit_c<'a'>, bm::lit_c<'b'> >"
    for K in range(0, 8):
        for cut, tail in ((0, ""), (0, "x"), (1, "a"), (1, "ax"), (0, "b")):
            txt = "ab" * K + tail
            for nm, one in (("repeated_reject_incomplete", False), ("repeated_reject_incomplete1", True), ("repeated", False)):
                o = "bm::%s<%s >::apply<%s, bm::start>" % (nm, ab, S(txt))
                col = 2 * K + 1
                if nm == "repeated": c = "ends_at<%s, %s, pos<1,%d,%s>::type>::value" % (o, S(tail), col, "'b'" if K else "0")
                elif cut: c = "rejects_at<%s, pos<1,%d,'a'>::type>::value" % (o, col + 1)
                elif one and K == 0: c = "rejects_at<%s, bm::start>::value" % o
                else: c = "ends_at<%s, %s, pos<1,%d,%s>::type>::value" % (o, S(tail), col, "'b'" if K else "0")
                v.ob("%s.%d.%s" % (nm, K, tail or "_"), c, nm)
    return [u, v]

# --------------------------------------------------------------------- C08
def c08(ctx):
    inc = ["look_ahead.hpp", "except.hpp", "if_.hpp", "optional.hpp", "fail_at_first_char_expected.hpp", "return_.hpp", "fail.hpp", "fail_tag.hpp", "<boost/mpl/vector.hpp>", "lit_c.hpp", "string.hpp", "start.hpp", "keyword.hpp", "entire_input.hpp"]
    pre = BM + ODD_PRE + PERTURB + REP
    u = Unit("nonconsuming", inc + REP_INC, "look_ahead", pre=pre)
    starts = [(17, 23, 113), (1, 1, 0), (1, 1, 13), (2, 1, 10), (256, 65536, -1)]
    for si, (l, c, k) in enumerate(starts):
        P = "pos<%d,%d,%d>::type" % (l, c, k)
        for ss in ("str<1>", "bm::string<'a','b'>", "bm::string<>"):
            t = "%d.%s" % (si, ss[:3] + str(len(ss)))
            u.ob("look_ahead.ok." + t, "accepts<bm::look_ahead<acc<1> >::apply<%s, %s>, acc_res<1,%s,%s>::type, %s, %s>::value" % (ss, P, ss, P, ss, P), "look_ahead")
            u.ob("look_ahead.err." + t, "rejects<bm::look_ahead<rej<1> >::apply<%s, %s>, rej_msg<1,%s,%s>::type, rej_pos<1,%s,%s>::type>::value" % (ss, P, ss, P, ss, P), "look_ahead")
            u.ob("optional.ok." + t, "accepts<bm::optional<acc<1>, sym<8> >::apply<%s, %s>, acc_res<1,%s,%s>::type, acc_rem<1,%s,%s>::type, acc_pos<1,%s,%s>::type>::value" % (ss, P, ss, P, ss, P, ss, P), "optional")
            u.ob("optional.okdef." + t, "accepts<bm::optional<acc<1> >::apply<%s, %s>, acc_res<1,%s,%s>::type, acc_rem<1,%s,%s>::type, acc_pos<1,%s,%s>::type>::value" % (ss, P, ss, P, ss, P, ss, P), "optional")
            u.ob("optional.errdef." + t, "ends_at<bm::optional<rej<1> >::apply<%s, %s>, %s, %s>::value" % (ss, P, ss, P), "optional")
            u.ob("fafce.ok." + t, "rejects_at<bm::fail_at_first_char_expected<acc<1> >::apply<%s, %s>, %s>::value" % (ss, P, P), "fail_at_first_char_expected")
            u.ob("fafce.here.repr." + t, "ends_at<bm::fail_at_first_char_expected<relabel<rej_here<sym<1> > > >::apply<%s, %s>, %s, %s>::value && ends_at<bm::fail_at_first_char_expected<rej_at<sym<1>, %s > >::apply<%s, rep<%s >::type>, %s, %s>::value" % (ss, P, ss, P, P, ss, P, ss, P), "fail_at_first_char_expected")
            u.ob("fafce.here." + t, "ends_at<bm::fail_at_first_char_expected<rej_here<sym<1> > >::apply<%s, %s>, %s, %s>::value" % (ss, P, ss, P), "fail_at_first_char_expected")
            for d in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, -1, 0), (1, 1, 1)):
                if k == -1 and d[2]: continue
                Q = "perturb<%s,%d,%d,%d>::type" % ((P,) + d)
                u.ob("fafce.later.%s.%d.%d.%d" % ((t,) + d), "rejects<bm::fail_at_first_char_expected<rej_at<sym<1>, %s > >::apply<%s, %s>, sym<1>, %s>::value" % (Q, ss, P, Q), "fail_at_first_char_expected")
                u.ob("except.later.%s.%d.%d.%d" % ((t,) + d), "accepts<bm::except<rej_at<sym<1>, %s >, sym<8>, sym<9> >::apply<%s, %s>, sym<8>, %s, %s>::value" % (Q, ss, P, ss, P), "except")
                u.ob("optional.later.%s.%d.%d.%d" % ((t,) + d), "accepts<bm::optional<rej_at<sym<1>, %s >, sym<8> >::apply<%s, %s>, sym<8>, %s, %s>::value" % (Q, ss, P, ss, P), "optional")
                u.ob("if.later.%s.%d.%d.%d" % ((t,) + d), "accepts<bm::if_<rej_at<sym<1>, %s >, sym<8>, sym<9> >::apply<%s, %s>, sym<9>, %s, %s>::value" % (Q, ss, P, ss, P), "if_")
                u.ob("look.later.%s.%d.%d.%d" % ((t,) + d), "rejects<bm::look_ahead<rej_at<sym<1>, %s > >::apply<%s, %s>, sym<1>, %s>::value" % (Q, ss, P, Q), "look_ahead")
    for i, r in enumerate(ODD):
        q = ODD[(i + 3) % len(ODD)]
        u.ob("look_ahead.odd.%d" % i, "accepts<bm::look_ahead<bm::return_<%s > >::apply<str<1>, P0>, %s, str<1>, P0>::value" % (r, r), "look_ahead")
        u.ob("except.ok.%d" % i, "accepts<bm::except<rej<1>, %s, sym<9> >::apply<str<1>, P0>, %s, str<1>, P0>::value" % (r, r), "except")
        u.ob("except.err.%d" % i, "rejects<bm::except<acc<1>, sym<8>, %s >::apply<str<1>, P0>, %s, P0>::value" % (r, r), "except")
        u.ob("except.noneaten.%d" % i, "rejects<bm::except<bm::return_<%s >, sym<8>, sym<9> >::apply<str<1>, P0>, sym<9>, P0>::value" % r, "except")
        u.ob("if.t.%d" % i, "accepts<bm::if_<acc<1>, %s, %s >::apply<str<1>, P0>, %s, str<1>, P0>::value" % (r, q, r), "if_")
        u.ob("if.f.%d" % i, "accepts<bm::if_<rej<1>, %s, %s >::apply<str<1>, P0>, %s, str<1>, P0>::value" % (r, q, q), "if_")
        u.ob("if.cond.%d" % i, "accepts<bm::if_<bm::return_<%s >, sym<8>, sym<9> >::apply<str<1>, P0>, sym<8>, str<1>, P0>::value" % r, "if_")
        u.ob("optional.def.%d" % i, "accepts<bm::optional<rej<1>, %s >::apply<str<1>, P0>, %s, str<1>, P0>::value" % (r, r), "optional")
        u.ob("optional.res.%d" % i, "accepts<bm::optional<bm::return_<%s >, sym<8> >::apply<str<1>, P0>, %s, str<1>, P0>::value" % (r, r), "optional")
        u.ob("fafce.res.%d" % i, "rejects_at<bm::fail_at_first_char_expected<bm::return_<%s > >::apply<str<1>, P0>, P0>::value" % r, "fail_at_first_char_expected")
        u.ob("fafce.msg.%d" % i, "ends_at<bm::fail_at_first_char_expected<bm::fail<%s > >::apply<str<1>, P0>, str<1>, P0>::value && rejects<bm::fail_at_first_char_expected<rej_at<%s, P1> >::apply<str<1>, P0>, %s, P1>::value" % (r, r, r), "fail_at_first_char_expected")
    # a parser that consumes and one that accepts without consuming
    S = lambda s: mpstring([ord(c) for c in s])
    for s in ("ab", "a", "b", ""):
        kw = "bm::keyword<%s, sym<3> >" % S("ab")
        full = s == "ab"
        o = lambda f: "bm::%s::apply<%s, bm::start>" % (f, S(s))
        u.ob("real.look." + (s or "_"), ("accepts<%s, sym<3>, %s, bm::start>::value" % (o("look_ahead<%s >" % kw), S(s))) if full else "rejects_at<%s, pos<1,%d,%s>::type>::value" % (o("look_ahead<%s >" % kw), 2 if s[:1] == "a" else 1, "'a'" if s[:1] == "a" else "0"), "look_ahead")
        u.ob("real.except." + (s or "_"), ("rejects<%s, sym<9>, bm::start>::value" if full else "accepts<%s, sym<8>, " + S(s) + ", bm::start>::value") % o("except<%s, sym<8>, sym<9> >" % kw), "except")
        u.ob("real.if." + (s or "_"), "accepts<%s, sym<%d>, %s, bm::start>::value" % (o("if_<%s, sym<8>, sym<9> >" % kw), 8 if full else 9, S(s)), "if_")
        u.ob("real.optional." + (s or "_"), ("accepts<%s, sym<3>, %s, pos<1,3,'b'>::type>::value" % (o("optional<%s, sym<8> >" % kw), S(""))) if full else "accepts<%s, sym<8>, %s, bm::start>::value" % (o("optional<%s, sym<8> >" % kw), S(s)), "optional")
        fa = o("fail_at_first_char_expected<%s >" % kw)
        u.ob("real.fafce." + (s or "_"), "rejects_at<%s, bm::start>::value" % fa if full else "rejects_at<%s, pos<1,2,'a'>::type>::value" % fa if s == "a" else "ends_at<%s, %s, bm::start>::value" % (fa, S(s)), "fail_at_first_char_expected")
    w = Unit("expected_to_fail", ["fail_at_first_char_expected.hpp", "<boost/metaparse/v1/error/expected_to_fail.hpp>"], "fail_at_first_char_expected", pre=BM)
    w.ob("msg", "rejects<bm::fail_at_first_char_expected<acc<1> >::apply<str<1>, P0>, boost::metaparse::v1::error::expected_to_fail, P0>::value")
    return [u, w]

# --------------------------------------------------------------------- C09
def c09(ctx):
    inc = ["transform.hpp", "transform_error.hpp", "transform_error_message.hpp", "change_error_message.hpp", "accept_when.hpp", "always.hpp", "always_c.hpp", "return_.hpp", "fail.hpp", "fail_tag.hpp", "<boost/mpl/vector.hpp>", "lit_c.hpp", "one_char.hpp", "string.hpp", "start.hpp"]
    pre = BM + ODD_PRE + r'''
template <class R> struct is_r { typedef is_r type; template <class A> struct apply : boost::mpl::bool_<same<A, R>::value> {}; };
template <class R> struct isnt_r { typedef isnt_r type; template <class A> struct apply : boost::mpl::bool_<!same<A, R>::value> {}; };
template <class R> struct const_f { typedef const_f type; template <class A> struct apply { typedef R type; }; };
// F for transform_error: sees exactly the failure and returns another one
template <int Id> struct errf { typedef errf type; template <class E> struct apply : boost::metaparse::reject<sym<Id, typename boost::metaparse::get_message<E>::type>, typename spos<Id, typename boost::metaparse::get_position<E>::type>::type> {}; };
template <class T> struct outcome_is_error { static const bool value = boost::metaparse::is_error<T>::type::value; };
struct reject_same { typedef reject_same type; template <class E> struct apply : E {}; };
'''
    u = Unit("transform", inc, "transform", pre=pre)
    A = ("acc_rem<1,str<1>,P0>::type, acc_pos<1,str<1>,P0>::type")
    R1 = "acc_res<1,str<1>,P0>::type"
    E1 = "rej_msg<1,str<1>,P0>::type"; EP = "rej_pos<1,str<1>,P0>::type"
    def run(f): return "bm::%s::apply<str<1>, P0>" % f
    ok = lambda f, r: "accepts<%s, %s, %s>::value" % (run(f), r, A)
    err = lambda f: "rejects<%s, %s, %s>::value" % (run(f), E1, EP)
    u.ob("transform.ok", ok("transform<acc<1>, op1<4> >", "sym<50004, %s>" % R1), "transform")
    u.ob("transform.twice", ok("transform<bm::transform<acc<1>, op1<4> >, op1<5> >", "sym<50005, sym<50004, %s> >" % R1), "transform")
    u.ob("transform.err", err("transform<rej<1>, op1<4> >"), "transform")
    u.ob("transform.err2", err("transform<bm::transform<rej<1>, op1<4> >, op1<5> >"), "transform")
    u.ob("always.ok", ok("always<acc<1>, sym<4> >", "sym<4>"), "always")
    u.ob("always.err", err("always<rej<1>, sym<4> >"), "always")
    u.ob("accept_when.yes", ok("accept_when<acc<1>, pred<1,true>, sym<4> >", R1), "accept_when")
    u.ob("accept_when.sees", ok("accept_when<acc<1>, is_r<%s >, sym<4> >" % R1, R1), "accept_when")
    u.ob("accept_when.sees2", "rejects<%s, sym<4>, P0>::value" % run("accept_when<acc<1>, isnt_r<%s >, sym<4> >" % R1), "accept_when")
    u.ob("accept_when.no", "rejects<%s, sym<4>, P0>::value" % run("accept_when<acc<1>, pred<1,false>, sym<4> >"), "accept_when")
    u.ob("accept_when.err.t", err("accept_when<rej<1>, pred<1,true>, sym<4> >"), "accept_when")
    u.ob("accept_when.err.f", err("accept_when<rej<1>, pred<1,false>, sym<4> >"), "accept_when")
    u.ob("change.ok", ok("change_error_message<acc<1>, sym<4> >", R1), "change_error_message")
    u.ob("change.err", "rejects<%s, sym<4>, P0>::value" % run("change_error_message<rej<1>, sym<4> >"), "change_error_message")
    u.ob("tem.ok", ok("transform_error_message<acc<1>, op1<4> >", R1), "transform_error_message")
    u.ob("tem.err", "rejects<%s, sym<50004, %s>, %s>::value" % (run("transform_error_message<rej<1>, op1<4> >"), E1, EP), "transform_error_message")
    u.ob("tem.twice", "rejects<%s, sym<50005, sym<50004, %s> >, %s>::value" % (run("transform_error_message<bm::transform_error_message<rej<1>, op1<4> >, op1<5> >"), E1, EP), "transform_error_message")
    u.ob("te.ok", ok("transform_error<acc<1>, errf<4> >", R1), "transform_error")
    u.ob("te.err", "rejects<%s, sym<4, %s>, spos<4, %s>::type>::value" % (run("transform_error<rej<1>, errf<4> >"), E1, EP), "transform_error")
    u.ob("te.same", err("transform_error<rej<1>, reject_same>"), "transform_error")
    u.ob("te.const", "rejects<%s, sym<44>, P1>::value" % run("transform_error<rej<1>, const_f<bm::reject<sym<44>, P1> > >"), "transform_error")
    u.ob("return", "accepts<%s, sym<4>, str<1>, P0>::value" % run("return_<sym<4> >"), "return_")
    u.ob("fail", "rejects<%s, sym<4>, P0>::value" % run("fail<sym<4> >"), "fail")
    for i, r in enumerate(ODD):
        q = ODD[(i + 5) % len(ODD)]
        ret = "bm::return_<%s >" % r
        S0 = "str<1>, P0"
        a = lambda f, x: "accepts<%s, %s, %s>::value" % (run(f), x, S0)
        rj = lambda f, m, p="P0": "rejects<%s, %s, %s>::value" % (run(f), m, p)
        u.ob("transform.in.%d" % i, a("transform<%s, op1<4> >" % ret, "sym<50004, %s>" % r), "transform")
        u.ob("transform.out.%d" % i, ok("transform<acc<1>, const_f<%s > >" % r, r), "transform")
        u.ob("transform.msg.%d" % i, rj("transform<bm::fail<%s >, op1<1> >" % r, r), "transform")
        u.ob("always.%d" % i, ok("always<acc<1>, %s >" % r, r) + " && " + a("always<%s, %s >" % (ret, q), q) + " && " + rj("always<rej_at<%s, P1>, %s >" % (r, q), r, "P1"), "always")
        u.ob("when.%d" % i, a("accept_when<%s, is_r<%s >, %s >" % (ret, r, q), r) + " && " + rj("accept_when<%s, isnt_r<%s >, %s >" % (ret, r, q), q), "accept_when")
        u.ob("when.pass.%d" % i, rj("accept_when<rej_at<%s, P1>, pred<1,true>, sym<4> >" % r, r, "P1"), "accept_when")
        u.ob("change.%d" % i, a("change_error_message<%s, sym<4> >" % ret, r) + " && " + rj("change_error_message<rej_at<%s, P1>, %s >" % (r, q), q), "change_error_message")
        u.ob("tem.%d" % i, a("transform_error_message<%s, op1<4> >" % ret, r) + " && " + rj("transform_error_message<rej_at<%s, P1>, op1<4> >" % r, "sym<50004, %s>" % r, "P1") + " && " + rj("transform_error_message<rej_at<sym<3>, P1>, const_f<%s > >" % r, r, "P1"), "transform_error_message")
        u.ob("te.%d" % i, a("transform_error<%s, errf<4> >" % ret, r) + " && " + rj("transform_error<rej_at<%s, P1>, errf<4> >" % r, "sym<4, %s>" % r, "spos<4, P1>::type"), "transform_error")
    for c in sorted(set([0, 1, 9, 10, 13, 32, 48, 57, 65, 97, 126, 127, 128, 200, 254]) | set(ctx.chars)):
        if c == 255: continue
        s = mpstring([c, 0x62])
        u.ob("always_c.%d" % c, "accepts<bm::always_c<%s, sym<4> >::apply<%s, bm::start>, sym<4>, %s, %s>::value && rejects_at<bm::always_c<%s, sym<4> >::apply<%s, bm::start>, bm::start>::value && rejects_at<bm::always_c<%s, sym<4> >::apply<bm::string<>, bm::start>, bm::start>::value" % (
            cch(c), s, mpstring([0x62]), "pos<%s,%d>::type" % ("2,1" if c in (10, 13) else "1,2", schar(c)), cch(c), mpstring([c ^ 1, c]), cch(c)), "always_c")
    return [u]

# --------------------------------------------------------------------- C16
def c16(ctx):
    cap = 130 if ctx.thorough else 66
    ks = Ks(ctx, cap)
    it = Items(3, max(ks) + 1)
    inc = ["iterate.hpp", "iterate_c.hpp", "return_.hpp", "fail_tag.hpp", "<boost/mpl/vector.hpp>", "<boost/mpl/long.hpp>", "string.hpp", "one_char.hpp", "start.hpp"]
    u = Unit("iterate", inc, "iterate_c", pre=BM + it.pre + ODD_PRE + ODDITEM + PERTURB, chunk=60)
    for n in ks:
        for nm, f in (("iterate_c", "bm::iterate_c<item<3,2>, %d>" % n), ("iterate", "bm::iterate<item<3,2>, boost::mpl::int_<%d> >" % n)):
            for extra in (0, 1, 5):
                K = n + extra
                u.ob("%s.n%d.x%d" % (nm, n, extra), "accepts_seq<%s::apply<in<%d>, P0>, %s, in<%d>, %s>::value" % (f, K, lst(it.elem(K, i) for i in range(n)), extra, it.pos(n)), nm)
            for have in sorted({0, 1, n // 2, n - 2, n - 1}):
                if not 0 <= have < n: continue
                p = it.pos(have)
                u.ob("%s.n%d.short%d" % (nm, n, have), "rejects<%s::apply<in<%d>, P0>, sym<30003, in<0>, %s>, perturb<%s,0,1,0>::type>::value" % (f, have, p, p), nm)
    u.ob("zero.noapply", "accepts_seq<bm::iterate_c<rej<1>, 0>::apply<str<1>, P0>, nil, str<1>, P0>::value && accepts_seq<bm::iterate<rej<1>, boost::mpl::long_<0> >::apply<str<1>, P0>, nil, str<1>, P0>::value")
    for i, r in enumerate(ODD):
        u.ob("odd.%d" % i, "accepts_seq<bm::iterate_c<odditem<%s >, 3>::apply<in<3>, P0>, %s, in<0>, P0>::value" % (r, lst([r] * 3)))
    for n in range(0, 25):
        u.ob("real.%d" % n, "ends_at<bm::iterate_c<bm::one_char, %d>::apply<%s, bm::start>, %s, pos<1,%d,%s>::type>::value" % (n, mpstring([97] * 24), mpstring([97] * (24 - n)), n + 1, "'a'" if n else 0) )if n <= 24 else None
    return [u]

# --------------------------------------------------------------------- C23
def c23(ctx):
    us = seq_symbolic(ctx, True) + seq_apply(ctx, True) + seq_middle(ctx, True)
    inc = FOLD_INC + ["nth_of_c.hpp", "iterate_c.hpp", "transform.hpp", "transform_error.hpp", "transform_error_message.hpp", "accept_when.hpp", "always.hpp", "one_of.hpp", "middle_of.hpp", "entire_input.hpp", "token.hpp", "int_.hpp", "build_parser.hpp", "first_of.hpp", "sequence.hpp", "keyword.hpp", "lit_c.hpp", "start.hpp", "string.hpp", "grammar.hpp"]
    pre = BM + r'''
struct poison2 { typedef poison2 type; template <class A, class B> struct apply : must_not_be_instantiated<A> { typedef typename must_not_be_instantiated<A>::type x; }; };
// recursive grammars: every use terminates because a parser after a failing one is not applied
struct paren { typedef paren type; template <class S, class Pos> struct apply : bm::one_of<bm::int_, bm::middle_of<bm::lit_c<'('>, paren, bm::lit_c<')'> > >::template apply<S, Pos> {}; };
struct lst_ { typedef lst_ type; template <class S, class Pos> struct apply : bm::one_of<bm::last_of<bm::lit_c<'x'>, lst_>, bm::return_<sym<1> > >::template apply<S, Pos> {}; };
struct seqr { typedef seqr type; template <class S, class Pos> struct apply : bm::one_of<bm::sequence<bm::lit_c<'x'>, seqr>, bm::lit_c<'y'> >::template apply<S, Pos> {}; };
struct fstr { typedef fstr type; template <class S, class Pos> struct apply : bm::one_of<bm::first_of<bm::lit_c<'x'>, fstr, bm::lit_c<'z'> >, bm::lit_c<'y'> >::template apply<S, Pos> {}; };
struct rept { typedef rept type; template <class S, class Pos> struct apply : bm::last_of<bm::lit_c<'('>, bm::repeated<rept>, bm::lit_c<')'> >::template apply<S, Pos> {}; };
struct flds { typedef flds type; template <class S, class Pos> struct apply : bm::last_of<bm::lit_c<'('>, bm::foldl<flds, sym<1>, op2<1> >, bm::lit_c<')'> >::template apply<S, Pos> {}; };
struct fldr { typedef fldr type; template <class S, class Pos> struct apply : bm::last_of<bm::lit_c<'('>, bm::foldr<fldr, sym<1>, op2<1> >, bm::lit_c<')'> >::template apply<S, Pos> {}; };
struct fldi { typedef fldi type; template <class S, class Pos> struct apply : bm::last_of<bm::lit_c<'('>, bm::foldl_reject_incomplete<fldi, sym<1>, op2<1> >, bm::lit_c<')'> >::template apply<S, Pos> {}; };
struct iter { typedef iter type; template <class S, class Pos> struct apply : bm::one_of<bm::last_of<bm::lit_c<'x'>, bm::iterate_c<iter, 1> >, bm::lit_c<'y'> >::template apply<S, Pos> {}; };
struct swp { typedef swp type; template <class S, class Pos> struct apply : bm::one_of<bm::foldl_start_with_parser<bm::last_of<bm::lit_c<'+'>, bm::lit_c<'1'> >, bm::middle_of<bm::lit_c<'('>, swp, bm::lit_c<')'> >, op2<1> >, bm::lit_c<'1'> >::template apply<S, Pos> {}; };
'''
    u = Unit("lazy", inc, "transform", pre=pre)
    R = lambda f: "bm::%s::apply<str<1>, P0>" % f
    E = "rej_msg<1,str<1>,P0>::type, rej_pos<1,str<1>,P0>::type"
    u.ob("transform", "rejects<%s, %s>::value" % (R("transform<rej<1>, poison1>"), E), "transform")
    u.ob("transform_error", "accepts<%s, acc_res<1,str<1>,P0>::type, acc_rem<1,str<1>,P0>::type, acc_pos<1,str<1>,P0>::type>::value" % R("transform_error<acc<1>, poison1>"), "transform_error")
    u.ob("transform_error_message", "accepts<%s, acc_res<1,str<1>,P0>::type, acc_rem<1,str<1>,P0>::type, acc_pos<1,str<1>,P0>::type>::value" % R("transform_error_message<acc<1>, poison1>"), "transform_error_message")
    u.ob("accept_when", "rejects<%s, %s>::value" % (R("accept_when<rej<1>, poison1, sym<1> >"), E), "accept_when")
    for f in ("foldl", "foldr"):
        u.ob(f + ".noop", "accepts<bm::%s<item<3,0>, sym<7>, poison2>::apply<in<0>, P0>, sym<7>, in<0>, P0>::value" % f, f)
        u.ob(f + "1.noop", "rejects_at<bm::%s1<item<3,0>, sym<7>, poison2>::apply<in<0>, P0>, P0>::value" % f, f + "1")
        u.ob(f + "_ri.noop", "accepts<bm::%s_reject_incomplete<item<3,0>, sym<7>, poison2>::apply<in<0>, P0>, sym<7>, in<0>, P0>::value" % f, f + "_reject_incomplete")
    u.ob("foldl_start_with_parser.staterr", "rejects<bm::foldl_start_with_parser<poison, rej<1>, poison2>::apply<str<1>, P0>, %s>::value" % E, "foldl_start_with_parser")
    u.ob("foldl_ri_start_with_parser.staterr", "rejects<bm::foldl_reject_incomplete_start_with_parser<poison, rej<1>, poison2>::apply<str<1>, P0>, %s>::value" % E, "foldl_reject_incomplete_start_with_parser")
    u.ob("foldr_start_with_parser.staterr", "rejects_at<bm::foldr_start_with_parser<item<3,0>, rej<1>, poison2>::apply<in<4>, P0>, rej_pos<1,in<0>, spos<3,spos<3,spos<3,spos<3,P0>::type>::type>::type>::type>::type>::value", "foldr_start_with_parser")
    u.ob("iterate0", "accepts_seq<bm::iterate_c<poison, 0>::apply<str<1>, P0>, nil, str<1>, P0>::value", "iterate_c")
    u.ob("entire_input", "rejects<%s, %s>::value" % (R("entire_input<rej<1>, sym<2> >"), E), "entire_input")
    u.ob("token", "rejects<%s, %s>::value" % (R("token<rej<1> >"), E), "token")
    u.ob("nth.range", "rejects_at<bm::nth_of_c<7, poison, poison>::apply<str<1>, P0>, P0>::value && rejects_at<bm::nth_of_c<-1, poison, poison>::apply<str<1>, P0>, P0>::value", "nth_of_c")
    S = lambda s: mpstring([ord(c) for c in s])
    def okt(p, s, col, ch): return "ends_at<%s::apply<%s, bm::start>, %s, pos<1,%d,'%s'>::type>::value" % (p, S(s), S(""), col, ch)
    for d in range(0, 7):
        u.ob("rec.paren.%d" % d, okt("paren", "(" * d + "12" + ")" * d, 2 * d + 3, ")" if d else "2") + " && result_value<paren::apply<%s, bm::start>, 12>::value" % S("(" * d + "12" + ")" * d), "middle_of")
        u.ob("rec.parenfail.%d" % d, "rejects_at<paren::apply<%s, bm::start>, pos<1,%d,%s>::type>::value" % (S("(" * d + "?"), d + 1, "'('" if d else "0"), "middle_of")
        if d: u.ob("rec.lst.%d" % d, okt("lst_", "x" * d, d + 1, "x"), "last_of")
        u.ob("rec.seq.%d" % d, okt("seqr", "x" * d + "y", d + 2, "y"), "sequence")
        u.ob("rec.fst.%d" % d, okt("fstr", "x" * d + "y" + "z" * d, 2 * d + 2, "z" if d else "y"), "first_of")
        u.ob("rec.iter.%d" % d, okt("iter", "x" * d + "y", d + 2, "y"), "iterate_c")
        for nm, sub in (("rept", "repeated"), ("flds", "foldl"), ("fldr", "foldr"), ("fldi", "foldl_reject_incomplete")):
            if d: u.ob("rec.%s.%d" % (nm, d), okt(nm, "(" * d + ")" * d, 2 * d + 1, ")") + " && " + okt(nm, "(" + "()" * d + ")", 2 * d + 3, ")"), sub)
        u.ob("rec.swp.%d" % d, okt("swp", "(" * d + "1" + ")" * d, 2 * d + 2, ")" if d else "1"), "foldl_start_with_parser")
    us.append(u)
    us.append(c23_strict(ctx))
    return us

def c23_strict(ctx):
    """each parser may be instantiated only for the state in which it is really applied"""
    N = 8 if ctx.thorough else 5
    ch = Chain(N)
    inc = FOLD_INC + ["sequence.hpp", "first_of.hpp", "last_of.hpp", "nth_of_c.hpp", "nth_of.hpp", "middle_of.hpp", "sequence_apply.hpp", "iterate_c.hpp", "iterate.hpp", "token.hpp", "entire_input.hpp", "transform.hpp", "always.hpp", "optional.hpp", "look_ahead.hpp", "except.hpp", "if_.hpp", "accept_when.hpp", "keyword.hpp", "build_parser.hpp", "string.hpp", "start.hpp"]
    pre = BM + ch.pre + r"""
template <class P, class S0> struct only
{
  typedef only type;
  template <class S, class Pos> struct apply : must_not_be_instantiated<S> { typedef typename must_not_be_instantiated<S>::type x; };
  template <class Pos> struct apply<S0, Pos> : P::template apply<S0, Pos> {};
};
// a parser applied to consecutive states only: K1 >= K >= K2
template <class P, int Lo, int Hi> struct between
{
  typedef between type;
  template <class S, class Pos, bool In> struct impl : must_not_be_instantiated<S> { typedef typename must_not_be_instantiated<S>::type x; };
  template <class S, class Pos> struct impl<S, Pos, true> : P::template apply<S, Pos> {};
  template <class S, class Pos> struct apply;
  template <int K, class Pos> struct apply<in<K>, Pos> : impl<in<K>, Pos, (Lo <= K && K <= Hi)> {};
};
template <class A, class B, class C> struct tm3;
"""
    u = Unit("strict", inc, "sequence", pre=pre)
    M = 5
    for n in range(1, min(N, M) + 1):
        for k in range(0, n + 1):
            ps = ["only<%s<%d>, %s>" % ("rej" if i == k else "acc", i, ch.S(i - 1)) for i in range(1, n + 1)]
            A = ", ".join(ps)
            def ob(nm, form, res, sub, seq=False):
                o = "bm::%s::apply<%s, %s>" % (form, ch.S(0), ch.P(0))
                if k: c = "rejects<%s, %s, %s>::value" % (o, ch.M(k), ch.Q(k))
                else: c = "%s<%s, %s, %s, %s>::value" % ("accepts_seq" if seq else "accepts", o, res, ch.S(n), ch.P(n))
                u.ob("%s.n%d.k%d" % (nm, n, k), c, sub)
            ob("sequence", "sequence<%s >" % A, lst([ch.R(i) for i in range(1, n + 1)]), "sequence", True)
            ob("first_of", "first_of<%s >" % A, ch.R(1), "first_of")
            ob("last_of", "last_of<%s >" % A, ch.R(n), "last_of")
            for j in range(n): ob("nth_of_c%d" % j, "nth_of_c<%d, %s >" % (j, A), ch.R(j + 1), "nth_of_c")
            if n == 3:
                ob("sequence_apply", "sequence_apply3<tm3, %s >" % A, "tm3<%s, %s, %s>" % (ch.R(1), ch.R(2), ch.R(3)), "sequence_apply")
                if k < 3: ob("middle_of", "middle_of<%s >" % A, ch.R(2), "middle_of")
    def spos(i, k):
        s = "P0"
        for _ in range(k): s = "spos<%d, %s>::type" % (i, s)
        return s
    for K in range(0, 8):
        I = "between<item<3,0>, 0, %d>" % K
        st = "only<acc<9>, in<0> >"
        P = spos(3, K)
        items = ["sym<3, in<%d>, %s>" % (K - j, spos(3, j)) for j in range(K)]
        r = "acc_res<9, in<0>, %s>::type" % P
        for x in reversed(items): r = "sym<40001, %s, %s>" % (r, x)
        u.ob("foldr_start_with_parser.%d" % K, "accepts<bm::foldr_start_with_parser<%s, %s, op2<1> >::apply<in<%d>, P0>, %s, acc_rem<9, in<0>, %s>::type, acc_pos<9, in<0>, %s>::type>::value" % (I, st, K, r, P, P), "foldr_start_with_parser")
        u.ob("foldr_start_with_parser.rej.%d" % K, "rejects<bm::foldr_start_with_parser<%s, only<rej<9>, in<0> >, poison_op >::apply<in<%d>, P0>, rej_msg<9, in<0>, %s>::type, rej_pos<9, in<0>, %s>::type>::value" % (I, K, P, P), "foldr_start_with_parser")
        l = "sym<7>"
        for x in items: l = "sym<40001, %s, %s>" % (l, x)
        r = "sym<7>"
        for x in reversed(items): r = "sym<40001, %s, %s>" % (r, x)
        for f, res in (("foldl", l), ("foldr", r), ("foldl_reject_incomplete", l), ("foldr_reject_incomplete", r)):
            u.ob("%s.%d" % (f, K), "accepts<bm::%s<%s, sym<7>, op2<1> >::apply<in<%d>, P0>, %s, in<0>, %s>::value" % (f, I, K, res, P), f)
        # the state parser runs only where it has to
        l = "acc_res<9, str<1>, P0>::type"
        if K:
            J = "bm::%s<acc<9> >" 
            u.ob("iterate_c.%d" % K, "accepts_seq<bm::iterate_c<between<item<3,0>, 3, %d>, %d>::apply<in<%d>, P0>, %s, in<2>, %s>::value" % (K + 2, K, K + 2, lst(["sym<3, in<%d>, %s>" % (K + 2 - j, spos(3, j)) for j in range(K)]), P), "iterate_c")
            for f in ("foldr_reject_incomplete", "foldr_reject_incomplete1"):
                u.ob("%s.late.%d" % (f, K), "rejects<bm::%s<between<item<3,2>, 0, %d>, sym<7>, poison_op>::apply<in<%d>, P0>, sym<30003, in<0>, %s>, item_err<%s>::type>::value" % (f, K, K, P, P), f)
    u.pre += """
struct poison_op { typedef poison_op type; template <class A, class B> struct apply : must_not_be_instantiated<A> { typedef typename must_not_be_instantiated<A>::type x; }; };
template <class Pos> struct item_err { typedef mp::source_position<mpl::int_<mp::get_line<Pos>::type::value>, mpl::int_<mp::get_col<Pos>::type::value + 1>, typename mp::get_prev_char<Pos>::type> type; };
"""
    # only once and only at the start
    one = [("optional", "optional<only<acc<1>, str<1> > >", True), ("look_ahead", "look_ahead<only<acc<1>, str<1> > >", False), ("transform", "transform<only<acc<1>, str<1> >, op1<1> >", True), ("always", "always<only<acc<1>, str<1> >, sym<3> >", True)]
    for nm, f, cons in one:
        u.ob(nm + ".once", "ends_at<bm::%s::apply<str<1>, P0>, %s, %s>::value" % (f, "acc_rem<1,str<1>,P0>::type" if cons else "str<1>", "acc_pos<1,str<1>,P0>::type" if cons else "P0"), nm)
    return u
