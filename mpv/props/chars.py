"""C10 predicates/conversions, C11 character parsers, C12 numbers: decided for every character value"""
from .common import *
BM = "namespace bm = boost::metaparse;\nnamespace ut = boost::metaparse::util;\n"

DIG = set(range(48, 58)); LOW = set(range(97, 123)); UP = set(range(65, 91)); WS = {32, 9, 10, 13}
ALLC = range(256)

def b(x): return "true" if x else "false"

def c10(ctx):
    inc = ["util/is_digit.hpp", "util/is_lcase_letter.hpp", "util/is_ucase_letter.hpp", "util/is_letter.hpp", "util/is_whitespace.hpp", "util/is_whitespace_c.hpp",
           "util/in_range.hpp", "util/in_range_c.hpp", "util/digit_to_int.hpp", "util/digit_to_int_c.hpp", "util/int_to_digit.hpp", "util/int_to_digit_c.hpp", "error/digit_expected.hpp", "<boost/mpl/long.hpp>"]
    u = Unit("predicates", inc, "util", pre=BM + "template <char c> struct chr { typedef boost::mpl::char_<c> type; };\n", chunk=330)
    for c in ALLC:
        C = "boost::mpl::char_<%s>" % cch(c)
        Z = "chr<%s>" % cch(c)
        for nm, s in (("is_digit", DIG), ("is_lcase_letter", LOW), ("is_ucase_letter", UP), ("is_letter", LOW | UP), ("is_whitespace", WS)):
            v = b(c in s)
            u.ob("%s.%d" % (nm, c), "ut::%s<%s >::type::value == %s && ut::%s<%s >::value == %s && ut::%s<>::apply<%s >::type::value == %s && ut::%s<%s >::type::value == %s && ut::%s<>::type::apply<%s >::type::value == %s" % (nm, C, v, nm, C, v, nm, C, v, nm, Z, v, nm, Z, v), nm)
        u.ob("is_whitespace_c.%d" % c, "ut::is_whitespace_c<%s>::type::value == %s" % (cch(c), b(c in WS)), "is_whitespace_c")
        if c in DIG:
            d = c - 48
            u.ob("digit_to_int.%d" % c, " && ".join("%s::type::value == %d" % (x, d) for x in ("ut::digit_to_int_c<%s>" % cch(c), "ut::digit_to_int<%s >" % C, "ut::digit_to_int<>::apply<%s >" % C, "ut::digit_to_int<%s >" % Z)), "digit_to_int_c")
            I = "boost::mpl::int_<%d>" % d
            u.ob("int_to_digit.%d" % d, " && ".join("%s::type::value == %s" % (x, cch(c)) for x in ("ut::int_to_digit_c<%d>" % d, "ut::int_to_digit<%s >" % I, "ut::int_to_digit<>::apply<%s >" % I, "ut::int_to_digit<delay<%s > >" % I, "ut::int_to_digit<boost::mpl::long_<%d> >" % d, "ut::int_to_digit<ut::digit_to_int<%s > >" % C)), "int_to_digit_c")
            u.ob("roundtrip.%d" % d, "ut::digit_to_int<ut::int_to_digit<%s > >::type::value == %d" % (I, d), "digit_to_int")
        else:
            u.ob("digit_to_int.%d" % c, " && ".join("same<%s::type, bm::error::digit_expected>::value" % x for x in ("ut::digit_to_int_c<%s>" % cch(c), "ut::digit_to_int<%s >" % C, "ut::digit_to_int<>::apply<%s >" % C)), "digit_to_int_c")
    # converting a number that is no digit is not possible: no specialisation may give it a character
    v = Unit("ranges", inc, "in_range", pre=BM, chunk=200)
    pts = [-1000000, -129, -128, -2, -1, 0, 1, 2, 9, 10, 11, 126, 127, 128, 255, 256, 1000000]
    bounds = [(-2, 2), (0, 0), (1, 0), (2, -2), (-129, 128), (10, 13), (5, 4), (127, 127), (-1000000, 1000000), (0, 9)]
    ps = sorted(set(pts) | set(ctx.ints & set(range(-100000, 100000))))
    I = lambda x: "boost::mpl::int_<%d>" % x
    for lo, hi in bounds:
        for x in sorted(set(ps[::3] if not ctx.thorough else ps) | {lo - 1, lo, lo + 1, hi - 1, hi, hi + 1}):
            t = "%d.%d.%d" % (lo, hi, x); e = b(lo <= x <= hi)
            v.ob("in_range." + t, " && ".join("%s::type::value == %s" % (f, e) for f in (
                "ut::in_range<%s, %s, %s >" % (I(lo), I(hi), I(x)), "ut::in_range<%s, %s >::apply<%s >" % (I(lo), I(hi), I(x)),
                "ut::in_range<%s >::apply<%s, %s >" % (I(lo), I(hi), I(x)), "ut::in_range<>::apply<%s, %s, %s >" % (I(lo), I(hi), I(x)),
                "ut::in_range<boost::mpl::long_<%d>, %s, boost::mpl::long_<%d> >" % (lo, I(hi), x),
                "ut::in_range<%s >::apply<%s >::type::apply<%s >" % (I(lo), I(hi), I(x)))), "in_range")
            v.ob("in_range_c." + t, "ut::in_range_c<int, %d, %d>::apply<%s >::type::value == %s && ut::in_range_c<long, %dL, %dL>::apply<boost::mpl::long_<%dL> >::type::value == %s && ut::in_range_c<int, %d, %d>::type::apply<delay<%s > >::type::value == %s" % (lo, hi, I(x), e, lo, hi, x, e, lo, hi, I(x), e), "in_range_c")
    G = 5000000000
    L = lambda x: "(%dL)" % x
    for lo, hi in ((-G, G), (0, G), (-G, 0), (G, G + 7), (2147483647, 2147483648), (-2147483649, -2147483648), (0, 4294967295), (G, -G), (1, 2 * G)):
        for x in sorted({lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 0, 1, 705032704, -705032704, 2 ** 32, 2 ** 33, -2 ** 32, 2147483647, -2147483648}):
            e = b(lo <= x <= hi)
            v.ob("wide.%d.%d.%d" % (lo, hi, x), "ut::in_range_c<long, %s, %s>::apply<boost::mpl::long_<%s> >::type::value == %s && ut::in_range<boost::mpl::long_<%s>, boost::mpl::long_<%s>, boost::mpl::long_<%s> >::type::value == %s && ut::in_range<>::apply<boost::mpl::long_<%s>, boost::mpl::long_<%s>, boost::mpl::long_<%s> >::type::value == %s" % ((L(lo), L(hi), L(x), e) * 3), "in_range_c")
    for lo, hi in ((-128, 127), (97, 122), (48, 57), (0, 0), (0, 127), (-128, -1), (5, 4), (-1, -1), (127, 127)):
        for c in (ALLC if ctx.thorough else sorted({0, 1, 9, 47, 48, 57, 58, 96, 97, 122, 123, 127, 128, 129, 254, 255, 200} | {(z + d) & 255 for z in (lo, hi) for d in (-1, 0, 1)})):
            if lo in (97, 48, 0, -128) and c in (0, 48, 97, 122, 127, 200):       # items that are no values of the bounds' type
                for k in (-512, -256, 256, 4096):
                    x = schar(c) + k
                    v.ob("beyond.%d.%d.%d" % (lo, hi, x), "ut::in_range_c<char, (char)%d, (char)%d>::apply<boost::mpl::int_<%d> >::type::value == %s && ut::in_range<boost::mpl::char_<(char)%d>, boost::mpl::char_<(char)%d>, boost::mpl::long_<%dL> >::type::value == %s && ut::in_range_c<short, %d, %d>::apply<boost::mpl::int_<%d> >::type::value == %s" % (lo, hi, x, b(lo <= x <= hi), lo, hi, x, b(lo <= x <= hi), lo, hi, x + 65536, b(lo <= x + 65536 <= hi)), "in_range_c")
            v.ob("char.%d.%d.%d" % (lo, hi, c), "ut::in_range_c<char, (char)%d, (char)%d>::apply<boost::mpl::char_<%s> >::type::value == %s && ut::in_range<boost::mpl::char_<(char)%d>, boost::mpl::char_<(char)%d>, boost::mpl::char_<%s> >::type::value == %s" % (lo, hi, cch(c), b(lo <= schar(c) <= hi), lo, hi, cch(c), b(lo <= schar(c) <= hi)), "in_range_c")
    return [u, v]

# ---------------------------------------------------------------------- C11
PRE11 = "namespace bm = boost::metaparse;\n" + r'''
template <class P, class S, class Pos> struct o_ { typedef typename P::template apply<S, Pos> type; };
template <class O, bool Err, int V, class Rem, class Pos> struct one_ { static const bool value = false; };
template <class O, int V, class Rem, class Pos> struct one_<O, false, V, Rem, Pos> {
  static const bool value = (int)bm::get_result<O>::type::type::value == V && same<typename bm::get_remaining<O>::type, Rem>::value && pos_eq<typename bm::get_position<O>::type, Pos>::value;
};
// parser P on C.Tail from Pos takes exactly C and ends at (L,Co,C)
template <class P, class S, class Pos, int C, class Rem, int L, int Co>
struct takes : one_<typename P::template apply<S, Pos>, bm::is_error<typename P::template apply<S, Pos> >::type::value, C, Rem, typename pos<L, Co, C>::type> {};
template <class P, class S, class Pos, class Msg> struct refuses : rejects<typename P::template apply<S, Pos>, Msg, Pos> {};
template <class P, class S, class Pos> struct refuses_any : rejects_at<typename P::template apply<S, Pos>, Pos> {};
template <char C> struct chr { typedef boost::mpl::char_<C> type; };
typedef bm::string<> E;
'''
INC11 = ["one_char.hpp", "lit.hpp", "lit_c.hpp", "digit.hpp", "letter.hpp", "alphanum.hpp", "space.hpp", "range.hpp", "range_c.hpp", "one_of_c.hpp", "one_char_except.hpp", "one_char_except_c.hpp", "string.hpp", "start.hpp",
         "error/literal_expected.hpp", "error/digit_expected.hpp", "error/letter_expected.hpp", "error/whitespace_expected.hpp", "error/unexpected_character.hpp", "error/unexpected_end_of_input.hpp", "error/none_of_the_expected_cases_found.hpp"]

def np(c, l=1, co=1, prev=0):
    c &= 255
    if c == 13 or (c == 10 and prev != 13): return l + 1, 1
    return l, co + 1

def cob(P, c, accepts, msg, tails=((), (0x7a,), None)):
    """obligation text: P accepts exactly as told on c followed by each tail"""
    out = []
    for t in tails:
        t = (c, (c + 1) & 255) if t is None else t
        S, R = mpstring((c,) + tuple(t)), mpstring(t)
        for (P0, l, co, pv) in (("bm::start", 1, 1, 0), ("P0", 17, 23, 113)):
            if P0 == "P0" and len(t): continue
            if accepts:
                L, Co = np(c, l, co, pv)
                out.append("takes<%s, %s, %s, %d, %s, %d, %d>::value" % (P, S, P0, schar(c), R, L, Co))
            else:
                out.append("refuses<%s, %s, %s, %s>::value" % (P, S, P0, msg) if msg else "refuses_any<%s, %s, %s>::value" % (P, S, P0))
    return " && ".join(out)

def c11(ctx):
    us = []
    eoi = "bm::error::unexpected_end_of_input"
    u = Unit("charclass", INC11, "one_char", pre=PRE11, chunk=200, stds=tier_stds(ctx, 98, 11))
    table = [("one_char", "bm::one_char", set(ALLC), None, eoi),
             ("digit", "bm::digit", DIG, "bm::error::digit_expected", "bm::error::digit_expected"),
             ("letter", "bm::letter", LOW | UP, "bm::error::letter_expected", eoi),
             ("alphanum", "bm::alphanum", LOW | UP | DIG, None, None),
             ("space", "bm::space", WS, "bm::error::whitespace_expected", eoi)]
    for nm, P, s, msg, emsg in table:
        for c in ALLC: u.ob("%s.%d" % (nm, c), cob(P, c, c in s, msg), nm)
        for p in ("bm::start", "P0"):
            u.ob("%s.empty.%s" % (nm, p[-1]), "refuses<%s, E, %s, %s>::value" % (P, p, emsg) if emsg else "refuses_any<%s, E, %s>::value" % (P, p), nm)
    us.append(u)
    v = Unit("literals", INC11, "lit_c", pre=PRE11, chunk=200, stds=tier_stds(ctx, 98, 17))
    for L in ALLC:
        P, Q = "bm::lit_c<%s>" % cch(L), "bm::lit<chr<%s> >" % cch(L)
        msg = "bm::error::literal_expected<%s>" % cch(L)
        oth = {(L + 1) & 255, (L - 1) & 255, L ^ 0x20, L ^ 0x80, 255 - L, 0}
        if ctx.thorough: oth |= {L ^ (1 << i) for i in range(8)} | set(ctx.chars)
        v.ob("lit.%d" % L, cob(P, L, True, msg) + " && " + cob(Q, L, True, msg, ((),)), "lit_c")
        v.ob("not.%d" % L, " && ".join(cob(P, c, False, msg, ((L,),)) + " && " + cob(Q, c, False, msg, ((),)) for c in sorted(oth - {L})), "lit_c")
        v.ob("empty.%d" % L, "refuses<%s, E, P0, %s>::value && refuses<%s, E, P0, %s>::value" % (P, msg, Q, msg), "lit_c")
    us.append(v)
    w = Unit("charsets", INC11, "one_of_c", pre=PRE11, chunk=60)
    uc = "bm::error::unexpected_character"
    def classes(s, extra=()):
        """characters worth deciding: the set, its neighbours, extremes"""
        z = set(s) | {(x + d) & 255 for x in s for d in (-1, 1)} | {0, 127, 128, 255, 10, 13, 32}
        return sorted(ALLC if ctx.thorough else z | set(extra))
    for lo, hi in ((97, 122), (48, 57), (65, 65), (-128, 127), (0, 127), (-128, -1), (98, 97), (127, -128), (-1, -1), (9, 13)):
        s = {c for c in ALLC if lo <= schar(c) <= hi}
        P = "bm::range_c<(char)%d, (char)%d>" % (lo, hi); Q = "bm::range<chr<(char)%d>, chr<(char)%d> >" % (lo, hi)
        z = set(classes({lo & 255, hi & 255}, ALLC[::17]))
        for c in sorted(z): w.ob("range.%d.%d.%d" % (lo, hi, c), cob(P, c, c in s, uc, ((), None)) + " && " + cob(Q, c, c in s, uc, ((0x7a,),)), "range_c")
        w.ob("range.empty.%d.%d" % (lo, hi), "refuses<%s, E, P0, %s>::value && refuses<%s, E, P0, %s>::value" % (P, eoi, Q, eoi), "range_c")
    base = [ord(x) for x in "qwertyuiopasdfghjklz"]
    import random
    rnd = random.Random(7)
    odd = [0, 255, 10, 13, 32, 128, 127, 1, 200, 9]
    sets = [[]] if False else []
    for n in range(1, 21): sets.append(base[:n])
    sets += [odd[:n] for n in range(1, 11)] + [[97, 97, 97], [97, 98, 97]]
    for k, s in enumerate(sets):
        n = len(s)
        P = "bm::one_of_c<%s>" % ",".join(cch(c) for c in s)
        for c in (classes(s) if n <= 10 or ctx.thorough else sorted(set(s[:2] + s[n // 2:n // 2 + 1] + s[-2:] + base[n:n + 2] + [0, 255, 10]))):
            w.ob("one_of_c.%d.%d" % (k, c), cob(P, c, c in s, None, ((), None)), "one_of_c")
        w.ob("one_of_c.%d.empty" % k, "refuses_any<%s, E, P0>::value && refuses_any<%s, E, bm::start>::value" % (P, P), "one_of_c")
        if n <= 10:
            P = "bm::one_char_except_c<%s>" % ",".join(cch(c) for c in s); Q = "bm::one_char_except<%s >" % ", ".join("chr<%s>" % cch(c) for c in s)
            for c in classes(s):
                w.ob("except.%d.%d" % (k, c), cob(P, c, c not in s, uc, ((), None)) + " && " + cob(Q, c, c not in s, uc, ((0x7a,),)), "one_char_except_c")
            w.ob("except.%d.empty" % k, "refuses<%s, E, P0, %s>::value && refuses<%s, E, P0, %s>::value" % (P, eoi, Q, eoi), "one_char_except_c")
    P, Q = "bm::one_char_except_c<>", "bm::one_char_except<>"
    for c in (0, 10, 65, 127, 128, 255): w.ob("except.none.%d" % c, cob(P, c, True, uc) + " && " + cob(Q, c, True, uc), "one_char_except_c")
    us.append(w)
    x = Unit("charsets11", INC11, "one_of_c", pre=PRE11, chunk=60, stds=CPP11)
    big = list(range(33, 127))
    for n in sorted({11, 16, 19, 20, 21, 22, 32, 33, 64, 94} | ({k for k in ctx.ints if 2 < k < 95} if ctx.thorough else set())):
        s = big[:n]
        P = "bm::one_of_c<%s>" % ",".join(cch(c) for c in s)
        P2 = "bm::one_char_except_c<%s>" % ",".join(cch(c) for c in s); Q2 = "bm::one_char_except<%s >" % ", ".join("chr<%s>" % cch(c) for c in s)
        none = "bm::error::none_of_the_expected_cases_found"
        for c in sorted({s[0], s[1], s[n // 2], s[-2], s[-1], 32, s[-1] + 1, 0, 255, 10}):
            x.ob("one_of_c.%d.%d" % (n, c), cob(P, c, c in s, none, ((), None)), "one_of_c")
            x.ob("except.%d.%d" % (n, c), cob(P2, c, c not in s, uc, ((), None)) + " && " + cob(Q2, c, c not in s, uc, ((0x7a,),)), "one_char_except_c")
    x.ob("one_of_c.zero", "refuses_any<bm::one_of_c<>, bm::string<'a'>, P0>::value && refuses_any<bm::one_of_c<>, E, P0>::value")
    us.append(x)
    return us

# ---------------------------------------------------------------------- C12
def c12(ctx):
    inc = ["int_.hpp", "digit_val.hpp", "string.hpp", "start.hpp", "error/digit_expected.hpp", "one_char.hpp"]
    pre = PRE11.replace("chr {", "chr {") + r'''
template <class O, bool Err, int V, class Rem, class Pos> struct num_ { static const bool value = false; };
template <class O, int V, class Rem, class Pos> struct num_<O, false, V, Rem, Pos> {
  static const bool value = bm::get_result<O>::type::type::value == V && same<typename bm::get_remaining<O>::type, Rem>::value && pos_eq<typename bm::get_position<O>::type, Pos>::value;
};
template <class S, class Pos, int V, class Rem, class End> struct num : num_<bm::int_::apply<S, Pos>, bm::is_error<bm::int_::apply<S, Pos> >::type::value, V, Rem, End> {};
template <class S, class Pos> struct nonum { static const bool value = rejects<bm::int_::apply<S, Pos>, bm::error::digit_expected, Pos>::value && rejects<bm::digit_val::apply<S, Pos>, bm::error::digit_expected, Pos>::value; };
'''
    u = Unit("numbers", inc, "int_", pre=pre, chunk=130)
    def n(i, txt, tail=(), p="bm::start", l=1, co=1):
        codes = [ord(x) for x in txt]
        u.ob(i, "num<%s, %s, %d, %s, pos<%d,%d,%d>::type>::value" % (mpstring(codes + list(tail)), p, int(txt), mpstring(tail), l, co + len(txt), codes[-1]), "int_")
    M = 2147483646   # boost::mpl::int_<INT_MAX> itself is ill-formed (its ::next overflows)
    vals = set(range(0, 130 if not ctx.thorough else 1100)) | {M, M - 1, M - 9, M - 10, 1 << 30, 1 << 16, 65535, 32768, 32767, 12345, 99999, 1234567890, 2000000000, 1999999999}
    for k in range(1, 10):
        for d in (10 ** k - 1, 10 ** k, 10 ** k + 1): vals.add(d)
        for d in range(2, 10):
            if d * 10 ** k <= M: vals.add(d * 10 ** k)
    for i in ctx.ints:
        for d in (-1, 0, 1):
            if 0 <= i + d <= M: vals.add(i + d)
    for x in sorted(vals): n("val.%d" % x, str(x))
    for z in range(1, 22): n("zeros.%d" % z, "0" * z); n("zeros.5.%d" % z, "0" * z + "5"); 
    n("zeros.max", "0" * 20 + str(M)); n("zeros.31", "0" * 30 + "7"); n("zeros.in", "1000000007"); n("zeros.in2", "0100100")
    for t in sorted(set(ALLC) - DIG): n("tail.%d" % t, "42", (t, 49))
    n("pos", "907", (46,), "P0", 17, 23)
    for c in ALLC:
        if c in DIG:
            u.ob("digit_val.%d" % c, cob("bm::digit_val", c, True, None).replace(", %d, bm::string" % c, ", %d, bm::string" % (c - 48)) if False else
                 " && ".join("one_<bm::digit_val::apply<%s, %s>, bm::is_error<bm::digit_val::apply<%s, %s> >::type::value, %d, %s, pos<%d,%d,%d>::type>::value" % (mpstring([c] + t), p, mpstring([c] + t), p, c - 48, mpstring(t), l, co + 1, c) for t in ([], [48, 49]) for p, l, co in (("bm::start", 1, 1), ("P0", 17, 23))), "digit_val")
        else:
            u.ob("nodigit.%d" % c, "nonum<%s, bm::start>::value && nonum<%s, P0>::value" % (mpstring([c]), mpstring([c, 49])), "int_")
    u.ob("empty", "nonum<E, bm::start>::value && nonum<E, P0>::value")
    us = [u]
    w = Unit("numbers_long", inc, "int_", pre=pre, chunk=60, stds=CPP11)
    for z in ((40, 64, 100, 200) if not ctx.thorough else (40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257)):
        txt = [48] * z + [ord(x) for x in str(M)]
        w.ob("zeros.%d" % z, "num<%s, bm::start, %d, bm::string<'x'>, pos<1,%d,'6'>::type>::value" % (mpstring(txt + [120]), M, z + 11))
    us.append(w)
    return us
