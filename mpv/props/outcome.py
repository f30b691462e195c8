"""C01 outcomes, C02 position tracking, C03 position ordering"""
from .common import *
import itertools

def c01(ctx):
    inc = ["accept.hpp", "reject.hpp", "accept_tag.hpp", "fail_tag.hpp", "return_.hpp", "fail.hpp", "unless_error.hpp", "string.hpp", "<boost/mpl/vector.hpp>", "<boost/mpl/tag.hpp>"]
    pre = ODD_PRE + "namespace bm = boost::metaparse;\n"
    u = Unit("outcome", inc, "accept", pre=pre)
    rems = ["str<1>", "sym<5>", "boost::metaparse::string<'a','b'>"]
    poss = ["P0", "pos<1,1,0>::type"]
    from .envlaws import VALS, ERRS, INPUTS, KNOWN_INC, positions, pp
    u.inc += [h for h in KNOWN_INC if h not in u.inc]
    known = VALS + ERRS
    for i, r in enumerate(known):
        for j, rem in enumerate(rems if i < len(ODD) or ctx.thorough else rems[:1]):
            for k, p in enumerate(poss):
                t = "%d.%d.%d" % (i, j, k)
                A = "bm::accept<%s, %s, %s>" % (r, rem, p)
                L = "bm::accept<%s, delay<%s>, delay<%s> >" % (r, rem, p)
                u.ob("accept." + t, "accepts<%s, %s, %s, %s>::value" % (A, r, rem, p))
                u.ob("accept.type." + t, "accepts<%s::type, %s, %s, %s>::value" % (A, r, rem, p))
                u.ob("accept.delayed." + t, "accepts<delay<%s>, %s, %s, %s>::value" % (A, r, rem, p), "get_result/get_remaining/get_position")
                u.ob("accept.lazy." + t, "accepts<%s, %s, %s, %s>::value" % (L, r, rem, p))
                u.ob("return." + t, "accepts<bm::return_<%s>::apply<%s, %s>, %s, %s, %s>::value" % (r, rem, p, r, rem, p), "return_")
                if j == 0:
                    B = "bm::reject<%s, %s>" % (r, p)
                    u.ob("reject." + t, "rejects<%s, %s, %s>::value" % (B, r, p), "reject")
                    u.ob("reject.type." + t, "rejects<%s::type, %s, %s>::value" % (B, r, p), "reject")
                    u.ob("reject.delayed." + t, "rejects<delay<%s>, %s, %s>::value" % (B, r, p), "get_message/get_position")
                    u.ob("reject.lazy." + t, "rejects<bm::reject<%s, delay<%s> >, %s, %s>::value" % (r, p, r, p), "reject")
                    u.ob("fail." + t, "rejects<bm::fail<%s>::apply<str<1>, %s>, %s, %s>::value" % (r, p, r, p), "fail")
        A = "bm::accept<%s, str<1>, P0>" % r
        B = "bm::reject<%s, P0>" % r
        u.ob("tag.accept.%d" % i, "same<boost::mpl::tag<%s >::type, bm::accept_tag>::value && !same<bm::accept_tag, bm::fail_tag>::value" % A, "accept")
        u.ob("tag.reject.%d" % i, "same<boost::mpl::tag<%s >::type, bm::fail_tag>::value" % B, "reject")
        u.ob("is_error.%d" % i, "!bm::is_error<%s >::type::value && bm::is_error<%s >::type::value && !bm::is_error<%s >::value && bm::is_error<%s >::value" % (A, B, A, B), "is_error")
        u.ob("is_error.delayed.%d" % i, "!bm::is_error<delay<%s > >::type::value && bm::is_error<delay<%s > >::type::value" % (A, B), "is_error")
        for t, x in (("", "%s"), (".delayed", "delay<%s >"), (".der", "der<%s >")):
            for t2, y in ((".plain", "%s"), (".lazy", "delay<%s >")):
                u.ob("unless_error.err%s%s.%d" % (t, t2, i), "rejects<bm::unless_error<%s, %s >, %s, P0>::value && rejects<bm::unless_error<%s, must_not_be_instantiated<int> >::type, %s, P0>::value" % (x % B, y % "bm::accept<sym<2>, str<2>, P1>", r, x % B, r), "unless_error")
                u.ob("unless_error.ok%s%s.%d" % (t, t2, i), "accepts<bm::unless_error<%s, %s >, sym<2>, str<2>, P1>::value && rejects<bm::unless_error<%s, %s >::type, %s, P1>::value" % (x % A, y % "bm::accept<sym<2>, str<2>, P1>", x % A, y % ("bm::reject<%s, P1>" % r), r), "unless_error")
        n = known[(i + 7) % len(known)]
        u.ob("nested.%d" % i, "accepts<bm::accept<%s, str<1>, P0>, %s, str<1>, P0>::value && accepts<bm::accept<%s, str<1>, P0>, %s, str<1>, P0>::value && rejects<bm::reject<%s, P0>, %s, P0>::value && rejects<bm::reject<%s, P0>, %s, P0>::value" % ((A,) * 2 + (B,) * 2 + (A,) * 2 + (B,) * 2))
        u.ob("unless_error.val.%d" % i, "same<bm::unless_error<bm::accept<%s, str<1>, P0>, delay<%s > >::type, %s >::value" % (r, n, n), "unless_error")
        u.ob("accept.canonical.%d" % i, "same<bm::accept<%s, delay<str<1> >, delay<P0> >::type, %s::type>::value" % (r, A))
    for i, s in enumerate(INPUTS):
        for k, p in enumerate(["P0", "bm::start"]):
            u.ob("input.%d.%d" % (i, k), "accepts<bm::accept<sym<1>, %s, %s>, sym<1>, %s, %s>::value && accepts<bm::accept<sym<1>, delay<%s >, delay<%s> >::type, sym<1>, %s, %s>::value && accepts<bm::return_<sym<1> >::apply<%s, %s>, sym<1>, %s, %s>::value" % ((s, p) * 6))
    for k, p in enumerate(positions(ctx)):
        p = pp(p)
        u.ob("position.%d" % k, "accepts<bm::accept<sym<1>, str<1>, %s>, sym<1>, str<1>, %s>::value && accepts<bm::accept<sym<1>, str<1>, delay<%s> >::type, sym<1>, str<1>, %s>::value && rejects<bm::reject<sym<1>, %s>, sym<1>, %s>::value && rejects<bm::reject<sym<1>, delay<%s> >::type, sym<1>, %s>::value && same<bm::get_position<bm::reject<sym<1>, %s> >::type, %s>::value" % ((p,) * 10))
    return [u]

CRLF = (10, 13)
def nextpos(l, c, k, ch):
    if ch == 13 or (ch == 10 and k != 13): return (l + 1, 1, ch)
    return (l, c + 1, ch)

def c02(ctx):
    ints, chars = ctx.ints, ctx.chars
    inc = ["one_char.hpp", "string.hpp", "start.hpp", "next_char.hpp", "next_line.hpp", "iterate_c.hpp", "repeated.hpp", "keyword.hpp", "<boost/mpl/list_c.hpp>", "<boost/mpl/vector_c.hpp>"]
    pre = r'''
namespace bm = boost::metaparse;
template <int L, int C, int K, int Ch> struct nl { static const bool v = (char)Ch == '\r' || ((char)Ch == '\n' && (char)K != '\r'); };
template <class S, class Rest, int L, int C, int K, int Ch>
struct step_ok {
  typedef typename bm::one_char::apply<S, typename pos<L,C,K>::type>::type O;
  static const bool value = !bm::is_error<O>::type::value
    && same<typename bm::get_remaining<O>::type, Rest>::value
    && pos_is<typename bm::get_position<O>::type, nl<L,C,K,Ch>::v ? L + 1 : L, nl<L,C,K,Ch>::v ? 1 : C + 1, Ch>::value
    && result_value<O, (long)(char)Ch>::value;
};
template <int L, int C, int K, int Ch>
struct ok1 : step_ok<bm::string<(char)Ch,'x'>, bm::string<'x'>, L, C, K, Ch> {};
template <int L, int C, int K, int Lo, int Hi> struct all_ch { static const bool value = all_ch<L,C,K,Lo,(Lo+Hi)/2>::value && all_ch<L,C,K,(Lo+Hi)/2+1,Hi>::value; };
template <int L, int C, int K, int X> struct all_ch<L,C,K,X,X> : ok1<L,C,K,X> {};
template <int Ch, int Lo, int Hi> struct all_prev { static const bool value = all_prev<Ch,Lo,(Lo+Hi)/2>::value && all_prev<Ch,(Lo+Hi)/2+1,Hi>::value; };
template <int Ch, int X> struct all_prev<Ch,X,X> : ok1<31,77,(int)(signed char)(X),Ch> {};
template <int L, int C, int K, int Ch>
struct next_ok {
  typedef typename pos<L,C,K>::type P;
  static const bool value =
    pos_is<typename bm::next_char<P, boost::mpl::char_<(char)Ch> >::type, L, C + 1, Ch>::value
    && pos_is<typename bm::next_line<P, boost::mpl::char_<(char)Ch> >::type, L + 1, 1, Ch>::value
    && bm::get_line<P>::type::value == L && bm::get_col<P>::type::value == C && (char)bm::get_prev_char<P>::type::value == (char)K
    && bm::get_line<delay<P> >::type::value == L && bm::get_col<delay<P> >::type::value == C && (char)bm::get_prev_char<delay<P> >::type::value == (char)K;
};
'''
    u = Unit("position", inc, "one_char", pre=pre, chunk=120, stds=tier_stds(ctx, 98, 14))
    u.ob("start", "pos_is<bm::start, 1, 1, 0>::value", "start")
    special = sorted(set([0, 9, 10, 13, 32, ord('a'), ord('0'), 127, 128, 255, 11, 12]) | {c for c in chars})
    prevs = range(256) if ctx.thorough else sorted(set(special))
    for k in prevs:
        u.ob("allchars.prev%d" % k, "all_ch<5,9,%d,0,255>::value" % schar(k))
    for ch in special:
        u.ob("allprev.ch%d" % ch, "all_prev<%d,0,255>::value" % schar(ch))
    nums = harvest.points([0, 1, 2, 3, 9, 10, 11, 79, 80, 81, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 32767, 32768, 65535, 65536, 1000000, 2147483600], 0, 2147483646, ints)
    for n in nums:
        for ch in (97, 10, 13, 9):
            u.ob("line%d.ch%d" % (n, ch), "ok1<%d,4,'b',%d>::value && ok1<%d,4,'\\r',%d>::value" % (n, ch, n, ch))
            u.ob("col%d.ch%d" % (n, ch), "ok1<4,%d,'b',%d>::value && ok1<4,%d,'\\r',%d>::value" % (n, ch, n, ch))
        u.ob("next.line%d" % n, "next_ok<%d,6,'c','z'>::value && next_ok<%d,1,'\\r','\\n'>::value" % (n, n), "next_char/next_line")
        u.ob("next.col%d" % n, "next_ok<6,%d,'c','z'>::value && next_ok<1,%d,'\\n','\\r'>::value" % (n, n), "next_char/next_line")
    for ch in range(256):
        u.ob("next.ch%d" % ch, "next_ok<3,8,'p',%d>::value && next_ok<3,8,%d,'p'>::value && next_ok<1,1,%d,%d>::value" % (schar(ch), schar(ch), schar(ch), schar(ch)), "next_char/next_line")
    # other representations of the input: MPL sequences, other tails
    for ch in special:
        c = cch(ch)
        u.ob("list.ch%d" % ch, "pos_is<bm::get_position<bm::one_char::apply<boost::mpl::list_c<char,%s,'y'>, P0> >::type, %d, %d, %d>::value" % ((c,) + nextpos(17, 23, ord('q'), ch)[:2] + (schar(ch),)))
        for ti, tail in enumerate(([], [ch], [10], [13], [13, 10], [97] * 20)):
            l, cc, k = nextpos(17, 23, ord('q'), ch)
            o = "bm::one_char::apply<%s, P0>" % mpstring([ch] + tail)
            u.ob("tail%d.ch%d" % (ti, ch), "ends_at<%s, %s, pos<%d,%d,%d>::type>::value && result_value<%s, %d>::value" % (o, mpstring(tail), l, cc, schar(k), o, schar(ch)))
    u.ob("empty", "rejects_at<bm::one_char::apply<bm::string<>, P0>, P0>::value && rejects_at<bm::one_char::apply<bm::string<>, pos<1,1,'\\r'>::type>, pos<1,1,'\\r'>::type>::value")
    # whole texts: exhaustive over {x, LF, CR} up to a length
    N = 6 if ctx.thorough else 5
    w = Unit("position_texts", inc, "one_char", pre=pre, chunk=200)
    for n in range(1, N + 1):
        for t in itertools.product((120, 10, 13), repeat=n):
            l, c, k = 1, 1, 0
            for ch in t: l, c, k = nextpos(l, c, k, ch)
            s = mpstring(t)
            w.ob("text." + "".join({120: "x", 10: "N", 13: "R"}[x] for x in t),
                 "ends_at<bm::iterate_c<bm::one_char,%d>::apply<%s, bm::start>, bm::string<>, pos<%d,%d,%d>::type>::value" % (n, s, l, c, k)
                 + " && ends_at<bm::repeated<bm::one_char>::apply<%s, bm::start>, bm::string<>, pos<%d,%d,%d>::type>::value" % (s, l, c, k))
    import random
    rnd = random.Random(ctx.seed)
    for i in range(40 if not ctx.thorough else 200):
        t = [rnd.choice((120, 121, 10, 13, 13, 10, 9, 0, 255)) for _ in range(rnd.randint(7, 30))]
        l, c, k = 1, 1, 0
        for ch in t: l, c, k = nextpos(l, c, k, ch)
        # 255 is the pad value of C++98 strings: keep it out of that standard
        t2 = [x if x != 255 else 254 for x in t]
        l, c, k = 1, 1, 0
        for ch in t2: l, c, k = nextpos(l, c, k, ch)
        w.ob("rtext.%d" % i, "ends_at<bm::repeated<bm::one_char>::apply<%s, bm::start>, bm::string<>, pos<%d,%d,%d>::type>::value" % (mpstring(t2), l, c, schar(k))
             + " && ends_at<bm::keyword<%s>::apply<%s, bm::start>, bm::string<>, pos<%d,%d,%d>::type>::value" % (mpstring(t2), mpstring(t2), l, c, schar(k)))
    return [u, w]

def c03(ctx):
    inc = ["source_position.hpp", "source_position_tag.hpp", "start.hpp", "<boost/mpl/comparison.hpp>", "<boost/mpl/long.hpp>", "<boost/mpl/integral_c.hpp>", "<boost/mpl/tag.hpp>"]
    pre = r'''
namespace bm = boost::metaparse;
template <class A, class B, int Cmp> // Cmp: -1 less, 0 equal, 1 greater
struct cmp_ok {
  static const bool value =
    boost::mpl::less<A,B>::type::value == (Cmp < 0)
    && boost::mpl::equal_to<A,B>::type::value == (Cmp == 0)
    && boost::mpl::greater<A,B>::type::value == (Cmp > 0)
    && boost::mpl::less_equal<A,B>::type::value == (Cmp <= 0)
    && boost::mpl::greater_equal<A,B>::type::value == (Cmp >= 0)
    && boost::mpl::not_equal_to<A,B>::type::value == (Cmp != 0);
};
template <class A, class B, int Cmp> struct both_ok { static const bool value = cmp_ok<A,B,Cmp>::value && cmp_ok<B,A,-Cmp>::value; };
template <int V> struct myint { typedef myint type; typedef int value_type; static const int value = V; };
template <int V> struct lazyint : boost::mpl::int_<V> {};
'''
    u = Unit("order", inc, "source_position comparison", pre=pre, chunk=300)
    def cmp(a, b): return (a > b) - (a < b)
    vals = list(itertools.product((1, 2, 3), (1, 2, 3), (97, 98, 99)))
    T = lambda p: "pos<%d,%d,%d>::type" % p
    for i, a in enumerate(vals):
        for j, b in enumerate(vals):
            if j < i: continue
            u.ob("pair.%d.%d" % (i, j), "both_ok<%s, %s, %d>::value" % (T(a), T(b), cmp(a, b)))
    pts = harvest.points([-1, 0, 1, 2, 9, 10, 79, 80, 81, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 16777216, 2147483646], -1, 2147483646, ctx.ints)
    for a, b in zip(pts, pts[1:]):
        u.ob("line.%d.%d" % (a, b), "both_ok<%s, %s, -1>::value && both_ok<%s, %s, -1>::value" % (T((a, 9, 120)), T((b, 1, 97)), T((a, 1, 97)), T((b, 9, 120))))
        u.ob("col.%d.%d" % (a, b), "both_ok<%s, %s, -1>::value && both_ok<%s, %s, -1>::value" % (T((5, a, 120)), T((5, b, 97)), T((5, a, 97)), T((5, b, 120))))
        u.ob("eq.%d" % a, "both_ok<%s, %s, 0>::value" % (T((a, a, 97)), T((a, a, 97))))
    ch = [schar(c) for c in range(256)]; ch.sort()
    for a, b in zip(ch, ch[1:]):
        u.ob("chr.%d.%d" % (a, b), "both_ok<%s, %s, -1>::value && both_ok<%s, %s, 0>::value" % (T((5, 5, a)), T((5, 5, b)), T((5, 5, a)), T((5, 5, a))))
        u.ob("chr2.%d.%d" % (a, b), "both_ok<%s, %s, 1>::value && both_ok<%s, %s, 1>::value" % (T((6, 5, a)), T((5, 5, b)), T((5, 6, a)), T((5, 5, b))))
    for a, b in ((-128, 127), (-1, 0), (-1, 97), (10, 13), (13, 10), (0, 10)):
        u.ob("chr3.%d.%d" % (a, b), "both_ok<%s, %s, %d>::value" % (T((5, 5, a)), T((5, 5, b)), cmp(a, b)))
    reps = ["boost::mpl::int_<%d>", "boost::mpl::long_<%d>", "boost::mpl::integral_c<unsigned short, %d>", "myint<%d>", "lazyint<%d>"]
    for x, r in enumerate(reps):
        for y, s in enumerate(reps):
            for a, b in itertools.product([(1, 1), (1, 2), (2, 1)], repeat=2):
                A = "bm::source_position<%s, %s, %s >" % (r % a[0], r % a[1], r % 97)
                B = "bm::source_position<%s, %s, %s >" % (s % b[0], s % b[1], s % 97)
                u.ob("rep.%d.%d.%d%d.%d%d" % ((x, y) + a + b), "cmp_ok<%s, %s, %d>::value && cmp_ok<der<%s >, %s, %d>::value && cmp_ok<%s, der<%s >, %d>::value" % (A, B, cmp(a, b), A, B, cmp(a, b), A, B, cmp(a, b)))
    u.ob("tag", "same<boost::mpl::tag<P0>::type, bm::source_position_tag>::value && same<boost::mpl::tag<bm::start>::type, bm::source_position_tag>::value")
    return [u]
