"""Combinator laws over environments of *known* types.

The symbolic obligations use types nobody else can name, which settles every
implementation that is parametric.  An implementation that singles out particular
types (an error message, an empty input, the start position, an MPL value, ...) is not
parametric; the laws here are therefore instantiated again with every type of the
library and of Boost.MPL that such a distinction could be made on, one role at a time,
and with roles aliased."""
from .common import *

BM = "namespace bm = boost::metaparse;\n"
KNOWN_INC = ["string.hpp", "start.hpp", "fail_tag.hpp", "accept_tag.hpp", "<boost/mpl/vector.hpp>", "<boost/mpl/list.hpp>", "<boost/mpl/deque.hpp>", "<boost/mpl/void.hpp>", "<boost/mpl/long.hpp>", "<boost/mpl/integral_c.hpp>", "<boost/mpl/list_c.hpp>",
  "error/digit_expected.hpp", "error/end_of_input_expected.hpp", "error/index_out_of_range.hpp", "error/letter_expected.hpp", "error/literal_expected.hpp", "error/none_of_the_expected_cases_found.hpp",
  "error/unexpected_character.hpp", "error/unexpected_end_of_input.hpp", "error/unpaired.hpp", "error/whitespace_expected.hpp", "error/expected_to_fail.hpp"]
ERRS = ["bm::error::digit_expected", "bm::error::end_of_input_expected", "bm::error::index_out_of_range<0, 1, 2>", "bm::error::letter_expected", "bm::error::literal_expected<'a'>",
  "bm::error::none_of_the_expected_cases_found", "bm::error::unexpected_character", "bm::error::unexpected_end_of_input", "bm::error::unpaired<1, 1>", "bm::error::unpaired<3, 4, bm::error::literal_expected<')'> >", "bm::error::unpaired<17, 23, sym<1> >", "bm::error::whitespace_expected", "bm::error::expected_to_fail"]
VALS = ODD + ["boost::mpl::void_", "boost::mpl::vector<int>", "boost::mpl::vector<sym<1>, sym<2> >", "boost::mpl::deque<>", "boost::mpl::deque<sym<1> >", "boost::mpl::list<>", "boost::mpl::list<sym<1> >",
  "bm::string<>", "bm::string<'a'>", "boost::mpl::char_<'a'>", "boost::mpl::char_<0>", "boost::mpl::char_<' '>", "boost::mpl::int_<1>", "boost::mpl::int_<-1>", "boost::mpl::long_<7>", "bm::start", "bm::accept_tag", "bm::accept<bm::string<>, bm::string<>, bm::start>", "char", "unsigned long", "sym<7>*"]
INPUTS = ["bm::string<>", "bm::string<'a'>", "bm::string<' '>", "bm::string<'\\n'>", "bm::string<'0'>", "bm::string<'a','b'>", "bm::string<'\\0'>", "bm::string<'('>", "boost::mpl::list<>::type", "boost::mpl::vector<>::type", "boost::mpl::deque<>::type", "boost::mpl::list_c<char, 'a'>::type", "in<0>", "in<1>", "sym<5>"]
def positions(ctx):
    ps = [(1, 1, 0), (1, 1, 97), (1, 2, 97), (1, 1, 10), (2, 1, 10), (2, 1, 13), (2, 2, 10), (0, 0, 0), (1, 0, 0), (17, 22, 113), (17, 24, 113), (18, 1, 113), (255, 256, -1), (99, 100, 32), (1, 1000, 65)]
    for n in harvest.points([10, 80, 128, 65535, 1000000], 0, 2000000000, ctx.ints):
        ps += [(1, n, 97), (n, 1, 10), (n, n, 13)] if ctx.thorough else [(n, n + 1, 13)]
    out = []
    for x in ps:
        if x not in out: out.append(x)
    return out
def pp(x): return "pos<%d,%d,%d>::type" % x

BASE = dict(S0="str<1>", P0="mpv::P0", R1="sym<11>", S1="str<2>", P1="pos<117,31,'b'>::type", R2="sym<12>", S2="str<3>", P2="pos<118,32,'c'>::type", R3="sym<13>", S3="str<4>", P3="pos<119,33,'d'>::type", M="sym<14>", Q="pos<217,41,'e'>::type", T="sym<15>", U="sym<16>")
ROLES = ["S0", "P0", "R1", "S1", "P1", "R2", "S2", "P2", "R3", "S3", "P3", "M", "Q", "T", "U"]
PRE = BM

# name, property, headers, kind, expected..., combinator
def acc(r, s="S1", p="P1"): return ("acc", r, s, p)
def seq(l, s, p): return ("seq", l, s, p)
REJ = ("rej", "M", "Q")
def rej(m, q): return ("rej", m, q)
def c3(*x): 
    s = "nil"
    for y in reversed(x): s = "cons<%s, %s >" % (y, s)
    return s
OP = lambda st, *es: st if not es else OP("sym<40005, %s, %s >" % (st, es[0]), *es[1:])
LAWS = []
def law(prop, nm, uses, comb, exp, subj=None): LAWS.append((prop, nm, uses, comb, exp, subj or nm.split(".")[0]))
UP = "bm::error::unpaired<bm::get_line<P0>::type::value, bm::get_col<P0>::type::value, M>"
IX = "bm::error::index_out_of_range<0, 2, %d>"
# ---- C04
for nm, pre, good in (("sequence", "sequence<", seq(c3("R1", "R2", "R3"), "S3", "P3")), ("first_of", "first_of<", acc("R1", "S3", "P3")), ("last_of", "last_of<", acc("R3", "S3", "P3")),
                 ("nth_of_c", "nth_of_c<1, ", acc("R2", "S3", "P3")), ("nth_of", "nth_of<boost::mpl::int_<2>, ", acc("R3", "S3", "P3")), ("nth_of_c.0", "nth_of_c<0, ", acc("R1", "S3", "P3")), ("sequence_apply", "sequence_apply3<tm3, ", acc("tm3<R1, R2, R3>", "S3", "P3"))):
    law("C04", nm + ".ok", [nm], pre + "p1, p2, p3>", good)
    law("C04", nm + ".f1", [nm], pre + "f1, p2, p3>", REJ)
    law("C04", nm + ".f2", [nm], pre + "p1, f2, p3>", REJ)
    law("C04", nm + ".f3", [nm], pre + "p1, p2, f3>", REJ)
law("C04", "sequence.one", [], "sequence<p1>", seq(c3("R1"), "S1", "P1"))
law("C04", "sequence.two", [], "sequence<p1, p2>", seq(c3("R1", "R2"), "S2", "P2"))
law("C04", "first_of.two", [], "first_of<p1, p2>", acc("R1", "S2", "P2"))
law("C04", "last_of.two", [], "last_of<p1, p2>", acc("R2", "S2", "P2"))
law("C04", "last_of.one", [], "last_of<p1>", acc("R1", "S1", "P1"))
law("C04", "first_of.one", [], "first_of<p1>", acc("R1", "S1", "P1"))
law("C04", "sequence.nest", [], "sequence<p1, bm::sequence<p2, f3> >", REJ)
law("C04", "last_of.nest", [], "last_of<bm::first_of<p1, p2>, p3>", acc("R3", "S3", "P3"))
law("C04", "middle_of.ok", [], "middle_of<p1, p2, p3>", acc("R2", "S3", "P3"))
law("C04", "middle_of.f1", [], "middle_of<f1, p2, p3>", REJ)
law("C04", "middle_of.f2", [], "middle_of<p1, f2, p3>", REJ)
law("C04", "middle_of.f3", [], "middle_of<p1, p2, f3>", rej(UP, "Q"))
law("C04", "nth_of_c.over", [], "nth_of_c<3, p1, p2, p3>", rej(IX % 3, "P0"))
law("C04", "nth_of_c.under", [], "nth_of_c<-1, p1, p2, p3>", rej(IX % -1, "P0"))
law("C04", "nth_of.over", [], "nth_of<boost::mpl::int_<3>, p1, p2, p3>", rej(IX % 3, "P0"))
# ---- C05 (HERE: a failure where it was started)
HERE = "rej_here<sym<31> >"; HERE2 = "rej_here<sym<32> >"
for nm in ("one_of",):
    law("C05", nm + ".first", [], "one_of<p1, at<S0, P0, mp::accept<R2, S2, P2> > >", acc("R1"))
    law("C05", nm + ".alone", [], "one_of<p1>", acc("R1"))
    law("C05", nm + ".second", [], "one_of<f1, p1>", acc("R1"))
    law("C05", nm + ".third", [], "one_of<f1, %s, p1, at<S0, P0, mp::accept<R2, S2, P2> > >" % HERE, acc("R1"))
    law("C05", nm + ".noconsume", [], "one_of<f1, at<S0, P0, mp::accept<R1, S0, P0> >, p1>", acc("R1", "S0", "P0"))
    law("C05", nm + ".farfirst", [], "one_of<at<S0, P0, mp::reject<M, FAR> >, %s, %s>" % (HERE, HERE2), rej("M", "FAR"))
    law("C05", nm + ".farmid", [], "one_of<%s, at<S0, P0, mp::reject<M, FAR> >, %s>" % (HERE, HERE2), rej("M", "FAR"))
    law("C05", nm + ".farlast", [], "one_of<%s, %s, at<S0, P0, mp::reject<M, FAR> > >" % (HERE, HERE2), rej("M", "FAR"))
    law("C05", nm + ".farmsg", [], "one_of<rej_here<M>, at<S0, P0, mp::reject<sym<33>, FAR> >, rej_here<M> >", rej("sym<33>", "FAR"))
    law("C05", nm + ".here", [], "one_of<rej_here<M>, rej_here<T> >", ("rejat", "P0"))
    law("C05", nm + ".nest", [], "one_of<bm::one_of<%s, at<S0, P0, mp::reject<M, FAR> > >, %s>" % (HERE, HERE2), rej("M", "FAR"))
law("C05", "repeated_one_of.two", [], "repeated_one_of<rej_here<M>, two>", seq(c3("R1", "R2"), "S2", "P2"))
law("C05", "repeated_one_of.zero", [], "repeated_one_of<f1, rej_here<M> >", seq(c3(), "S0", "P0"))
law("C05", "repeated_one_of1.two", [], "repeated_one_of1<rej_here<M>, two>", seq(c3("R1", "R2"), "S2", "P2"))
law("C05", "repeated_one_of1.zero", [], "repeated_one_of1<rej_here<M>, at<S0, P0, mp::reject<M, FAR> > >", rej("M", "FAR"))
# ---- C06
for nm in ("foldl", "foldr"):
    f = OP if nm == "foldl" else (lambda st, *es: OP(st, *reversed(es)))
    for one in ("", "1"):
        law("C06", "%s%s.two" % (nm, one), [], "%s%s<two, T, op2<5> >" % (nm, one), acc(f("T", "R1", "R2"), "S2", "P2"), nm + one)
        law("C06", "%s%s.one" % (nm, one), [], "%s%s<one, T, op2<5> >" % (nm, one), acc(f("T", "R1"), "S1", "P1"), nm + one)
        law("C06", "%s%s.zero" % (nm, one), [], "%s%s<f1, T, op2<5> >" % (nm, one), REJ if one else acc("T", "S0", "P0"), nm + one)
        law("C06", "%s%s.const" % (nm, one), [], "%s%s<two, sym<7>, const2<T> >" % (nm, one), acc("T", "S2", "P2"), nm + one)
for one in ("", "1"):
    law("C06", "repeated%s.two" % one, [], "repeated%s<two>" % one, seq(c3("R1", "R2"), "S2", "P2"), "repeated" + one)
    law("C06", "repeated%s.one" % one, [], "repeated%s<one>" % one, seq(c3("R1"), "S1", "P1"), "repeated" + one)
    law("C06", "repeated%s.zero" % one, [], "repeated%s<f1>" % one, REJ if one else seq(c3(), "S0", "P0"), "repeated" + one)
law("C06", "foldl_start_with_parser.one", [], "foldl_start_with_parser<later1, p1, op2<5> >", acc(OP("R1", "R2"), "S2", "P2"))
law("C06", "foldl_start_with_parser.zero", [], "foldl_start_with_parser<later0, p1, op2<5> >", acc("R1", "S1", "P1"))
law("C06", "foldl_start_with_parser.const", [], "foldl_start_with_parser<later1, p1, const2<T> >", acc("T", "S2", "P2"))
law("C06", "foldl_start_with_parser.fail", [], "foldl_start_with_parser<later1, f1, op2<5> >", REJ)
law("C06", "foldr_start_with_parser.two", [], "foldr_start_with_parser<two, p3, op2<5> >", acc(OP("R3", "R2", "R1"), "S3", "P3"))
law("C06", "foldr_start_with_parser.one", [], "foldr_start_with_parser<one, p2, op2<5> >", acc(OP("R2", "R1"), "S2", "P2"))
law("C06", "foldr_start_with_parser.zero", [], "foldr_start_with_parser<at<S0, P0, mp::reject<U, Q> >, p1, op2<5> >", acc("R1", "S1", "P1"))
law("C06", "foldr_start_with_parser.const", [], "foldr_start_with_parser<two, p3, const2<T> >", acc("T", "S3", "P3"))
law("C06", "foldr_start_with_parser.fail", [], "foldr_start_with_parser<at<S0, P0, mp::accept<R1, S1, P1>, at<S1, P1, mp::reject<U, P0> > >, f2, op2<5> >", REJ)
law("C06", "foldr_start_with_parser.fail0", [], "foldr_start_with_parser<at<S0, P0, mp::reject<U, P1> >, f1, op2<5> >", REJ)
# ---- C07
for nm in ("foldl", "foldr"):
    f = OP if nm == "foldl" else (lambda st, *es: OP(st, *reversed(es)))
    for one in ("", "1"):
        n = "%s_reject_incomplete%s" % (nm, one)
        law("C07", n + ".here", [], n + "<two_here, T, op2<5> >", acc(f("T", "R1", "R2"), "S2", "P2"))
        law("C07", n + ".later", [], n + "<two, T, op2<5> >", REJ)
        law("C07", n + ".later1", [], n + "<one, T, op2<5> >", REJ)
        law("C07", n + ".later0", [], n + "<f1, T, op2<5> >", REJ)
        law("C07", n + ".zero", [], n + "<zero_here, T, op2<5> >", rej("M", "P0") if one else acc("T", "S0", "P0"))
        law("C07", n + ".const", [], n + "<two_here, sym<7>, const2<T> >", acc("T", "S2", "P2"))
for one in ("", "1"):
    n = "repeated_reject_incomplete" + one
    law("C07", n + ".here", [], n + "<two_here>", seq(c3("R1", "R2"), "S2", "P2"))
    law("C07", n + ".later", [], n + "<two>", REJ)
    law("C07", n + ".later0", [], n + "<f1>", REJ)
    law("C07", n + ".zero", [], n + "<zero_here>", rej("M", "P0") if one else seq(c3(), "S0", "P0"))
n = "foldl_reject_incomplete_start_with_parser"
law("C07", n + ".here", [], n + "<at<S1, P1, mp::accept<R2, S2, P2>, at<S2, P2, mp::reject<M, P2> > >, p1, op2<5> >", acc(OP("R1", "R2"), "S2", "P2"))
law("C07", n + ".zero", [], n + "<at<S1, P1, mp::reject<M, P1> >, p1, op2<5> >", acc("R1", "S1", "P1"))
law("C07", n + ".later", [], n + "<later1, p1, op2<5> >", REJ)
law("C07", n + ".later0", [], n + "<later0, p1, op2<5> >", REJ)
law("C07", n + ".fail", [], n + "<later1, f1, op2<5> >", REJ)
law("C07", n + ".failhere", [], n + "<later1, zero_here, op2<5> >", rej("M", "P0"))
# ---- C08
law("C08", "look_ahead.ok", [], "look_ahead<p1>", acc("R1", "S0", "P0"))
law("C08", "look_ahead.err", [], "look_ahead<f1>", REJ)
law("C08", "except.ok", [], "except<f1, T, U>", acc("T", "S0", "P0"))
law("C08", "except.err", [], "except<p1, T, U>", rej("U", "P0"))
law("C08", "except.here", [], "except<zero_here, T, U>", acc("T", "S0", "P0"))
law("C08", "if_.t", [], "if_<p1, T, U>", acc("T", "S0", "P0"))
law("C08", "if_.f", [], "if_<f1, T, U>", acc("U", "S0", "P0"))
law("C08", "optional.ok", [], "optional<p1, T>", acc("R1"))
law("C08", "optional.def", [], "optional<f1, T>", acc("T", "S0", "P0"))
law("C08", "optional.here", [], "optional<zero_here, T>", acc("T", "S0", "P0"))
law("C08", "fail_at_first_char_expected.ok", [], "fail_at_first_char_expected<zero_here>", ("end", "S0", "P0"))
law("C08", "fail_at_first_char_expected.later", [], "fail_at_first_char_expected<f1>", REJ)
law("C08", "fail_at_first_char_expected.acc", [], "fail_at_first_char_expected<p1>", ("rejat", "P0"))
law("C08", "fail_at_first_char_expected.acc0", [], "fail_at_first_char_expected<at<S0, P0, mp::accept<R1, S0, P0> > >", ("rejat", "P0"))
law("C08", "look_ahead.nest", [], "look_ahead<bm::look_ahead<p1> >", acc("R1", "S0", "P0"))
law("C08", "optional.nest", [], "optional<bm::optional<f1, T>, U>", acc("T", "S0", "P0"))
# ---- C09
law("C09", "transform.ok", [], "transform<p1, op1<4> >", acc("sym<50004, R1>"))
law("C09", "transform.const", [], "transform<p1, const1<T> >", acc("T"))
law("C09", "transform.err", [], "transform<f1, op1<4> >", REJ)
law("C09", "always.ok", [], "always<p1, T>", acc("T"))
law("C09", "always.err", [], "always<f1, T>", REJ)
law("C09", "accept_when.yes", [], "accept_when<p1, is_same_f<R1>, T>", acc("R1"))
law("C09", "accept_when.no", [], "accept_when<p1, differs_f<R1>, T>", rej("T", "P0"))
law("C09", "accept_when.err", [], "accept_when<f1, is_same_f<R1>, T>", REJ)
law("C09", "change_error_message.ok", [], "change_error_message<p1, T>", acc("R1"))
law("C09", "change_error_message.err", [], "change_error_message<f1, T>", rej("T", "P0"))
law("C09", "transform_error_message.ok", [], "transform_error_message<p1, op1<4> >", acc("R1"))
law("C09", "transform_error_message.err", [], "transform_error_message<f1, op1<4> >", rej("sym<50004, M>", "Q"))
law("C09", "transform_error_message.const", [], "transform_error_message<f1, const1<T> >", rej("T", "Q"))
law("C09", "transform_error.ok", [], "transform_error<p1, const1<mp::reject<T, P2> > >", acc("R1"))
law("C09", "transform_error.err", [], "transform_error<f1, const1<mp::reject<T, P2> > >", rej("T", "P2"))
law("C09", "transform_error.same", [], "transform_error<f1, ident>", REJ)
law("C09", "return_", [], "return_<T>", acc("T", "S0", "P0"))
law("C09", "fail", [], "fail<T>", rej("T", "P0"))
# ---- C15
law("C15", "token.err", [], "token<f1>", REJ)
law("C15", "entire_input.err", [], "entire_input<f1>", REJ)
law("C15", "entire_input.err2", [], "entire_input<f1, T>", REJ)
# ---- C16
law("C16", "iterate_c.three", [], "iterate_c<three, 3>", seq(c3("R1", "R2", "R3"), "S3", "P3"))
law("C16", "iterate_c.two", [], "iterate_c<three, 2>", seq(c3("R1", "R2"), "S2", "P2"))
law("C16", "iterate_c.one", [], "iterate_c<three, 1>", seq(c3("R1"), "S1", "P1"))
law("C16", "iterate_c.zero", [], "iterate_c<three, 0>", seq(c3(), "S0", "P0"))
law("C16", "iterate_c.f3", [], "iterate_c<two, 3>", REJ)
law("C16", "iterate_c.f2", [], "iterate_c<one, 3>", REJ)
law("C16", "iterate_c.f1", [], "iterate_c<f1, 3>", REJ)
law("C16", "iterate.three", [], "iterate<three, boost::mpl::int_<3> >", seq(c3("R1", "R2", "R3"), "S3", "P3"))
law("C16", "iterate.f3", [], "iterate<two, boost::mpl::long_<3> >", REJ)

HEADERS = {"nth_of_c": "nth_of_c.hpp"}
def uses(text):
    import re
    names = set(re.findall(r"bm::([a-z_0-9]+)<", text)) | {re.match(r"[a-z_0-9]+", text).group(0)}
    names = {"sequence_apply" if n.startswith("sequence_apply") else n for n in names}
    return sorted(n + ".hpp" for n in names if n not in ("get_line", "get_col"))

def law_text(k, comb, exp):
    L = ["template <class E> struct law%d { MPV_ENV" % k]
    L.append("typedef at<S0, P0, mp::accept<R1, S1, P1>, at<S1, P1, mp::accept<R2, S2, P2>, at<S2, P2, mp::accept<R3, S3, P3> > > > three;")
    L.append("typedef mp::source_position<boost::mpl::int_<bm::get_line<P0>::type::value + 1>, boost::mpl::int_<1>, boost::mpl::char_<'f'> > FAR;")
    L.append("typedef typename bm::%s::template apply<S0, P0> X;" % comb)
    o = {"acc": "accepts<X, %s, %s, %s>", "seq": "accepts_seq<X, %s, %s, %s>", "rej": "rejects<X, %s, %s>", "rejat": "rejects_at<X, %s>", "end": "ends_at<X, %s, %s>"}[exp[0]] % tuple(exp[1:])
    L.append("static const bool value = %s::value; };" % o)
    return "\n".join(L) + "\n"

import re
ROLE_RE = re.compile(r"\b(S[0-3]|P[0-3]|R[1-3]|M|Q|T|U)\b")
EXPAND = {"p1": "S0 P0 R1 S1 P1", "p2": "S1 P1 R2 S2 P2", "p3": "S2 P2 R3 S3 P3", "f1": "S0 P0 M Q", "f2": "S1 P1 M Q", "f3": "S2 P2 M Q", "two": "S0 P0 R1 S1 P1 R2 S2 P2 M Q", "one": "S0 P0 R1 S1 P1 M Q", "three": "S0 P0 R1 S1 P1 R2 S2 P2 R3 S3 P3",
          "two_here": "S0 P0 R1 S1 P1 R2 S2 P2 M", "zero_here": "S0 P0 M", "later1": "S1 P1 R2 S2 P2 M Q", "later0": "S1 P1 M Q", "FAR": "P0"}
def roles_of(comb, exp):
    s = set(ROLE_RE.findall(comb + " " + " ".join(exp[1:]))) | {"S0", "P0"}
    for k, v in EXPAND.items():
        if re.search(r"\b%s\b" % k, comb): s |= set(v.split())
    return s
# positions that must differ for the law to speak about the case it names
NONSELF = set(ODD[0:6] + ODD[7:10] + [v for v in VALS[17:] if v.startswith(("boost::mpl::vector", "boost::mpl::deque", "boost::mpl::list")) or v in ("char", "unsigned long", "sym<7>*")])
def evaluated_states(nm, subj):
    """the roles a fold takes its initial state from: an implementation may evaluate the state it is given (a nullary
    metafunction), so only values that denote themselves are used there"""
    if "fold" not in subj: return ()
    if subj.endswith("_start_with_parser"): return ("R1",) if subj.startswith("foldl") else ("R1", "R2", "R3")
    return () if nm.endswith(".const") else ("T",)
def envs(ctx, prop):
    """[(tag, changed roles, dict)]"""
    out = [("base", set(), dict(BASE))]
    ps = positions(ctx)
    for r in ROLES:
        kind = r[0]
        vals = INPUTS if kind == "S" else [pp(p) for p in ps] if kind in "PQ" else VALS + ERRS
        if kind in "PQ" and not ctx.thorough and r not in ("P0", "Q"): vals = vals[:15]
        for i, v in enumerate(vals):
            d = dict(BASE); d[r] = v
            out.append(("%s.%d" % (r, i), {r}, d))
    # aliases
    for a, b in (("R1", "R2"), ("R2", "R3"), ("R1", "R3"), ("R1", "T"), ("R2", "T"), ("M", "T"), ("M", "U"), ("M", "R1"), ("T", "U"), ("R1", "U")):
        d = dict(BASE); d[b] = d[a]; out.append(("%s=%s" % (a, b), {a, b}, d))
    for a, b in (("S0", "S1"), ("S1", "S2"), ("S2", "S3"), ("S0", "S2"), ("S0", "S3"), ("S1", "S3")):
        d = dict(BASE); d[b] = d[a]; out.append(("%s=%s" % (a, b), {a, b}, d))
    for a, b in (("P0", "P1"), ("P1", "P2"), ("P2", "P3"), ("P0", "P2"), ("P0", "P3")):
        d = dict(BASE); d[b] = d[a]; out.append(("%s=%s" % (a, b), {a, b}, d))
    # failures whose position differs from a point of progress in one coordinate only, or in both so that the
    # difference cancels in a combination of the coordinates
    if prop in ("C07", "C08"):
        steps = harvest.points([1, 2, 10, 16, 31, 32, 64, 80, 100, 127, 128, 255, 256, 512, 1000, 1024, 4096, 10000, 65535, 65536, 1000000], 1, 1000000, ctx.ints)
        if not ctx.thorough: steps = [n for n in steps if n in (1, 2, 10, 16, 64, 80, 100, 128, 255, 256, 1000, 1024, 65536) or n in ctx.ints]
        for (l, c), ch in (((17, 23), 113), ((117, 31), 98), ((118, 32), 99)):
            if prop == "C08" and l != 17: continue
            for n in steps:
                for q in ((l + 1, c - n), (l - 1, c + n), (l, c + n), (l + n, c)):
                    d = dict(BASE); d["Q"] = pp(q + (ch,)); out.append(("Q~%d.%d.%d" % ((l,) + q), {"Q"}, d))
    for v in range(8):     # everything at once
        d = dict(BASE)
        for j, r in enumerate(("R1", "R2", "R3", "M", "T", "U")): d[r] = (VALS + ERRS)[(v * 7 + j * 11) % len(VALS + ERRS)]
        for j, r in enumerate(("S0", "S1", "S2", "S3")): d[r] = INPUTS[(v + j * 4) % len(INPUTS)]
        out.append(("mix.%d" % v, set(ROLES), d))
    return out

# laws whose case needs Q to differ from the position named (the reading of "failed elsewhere")
def needs_distinct(prop, nm, d):
    if prop == "C07":
        return len({d["P0"], d["P1"], d["P2"], d["Q"]}) == 4
    if nm.startswith("fail_at_first_char_expected"): return d["P0"] != d["Q"]
    return True

def laws(prop, stds=(17,), chunk=400):
    def f(ctx):
        mine = [x for x in LAWS if x[0] == prop]
        inc = sorted({h for x in mine for h in uses(x[3])}) + ["error/unpaired.hpp"] + KNOWN_INC
        inc = list(dict.fromkeys(inc + ["<mpv/laws.hpp>"]))
        E = envs(ctx, prop)
        pre = BM + ODD_PRE + "struct ident { typedef ident type; template <class X> struct apply { typedef X type; }; };\n"
        pre += "".join(law_text(k, x[3], x[4]) for k, x in enumerate(mine))
        u = Unit("known_types", inc, mine[0][5], pre=pre, chunk=chunk, stds=tier_stds(ctx, *stds))
        used = {}
        for k, (p, nm, _, comb, exp, subj) in enumerate(mine):
            rs = roles_of(comb, exp)
            for tag, ch, d in E:
                if not (ch <= rs or tag == "base" or tag.startswith("mix")): continue
                if not needs_distinct(p, nm, d): continue
                if any(d[st] in NONSELF for st in evaluated_states(nm, subj)): continue
                if not ctx.thorough and len(ch) == 1:
                    r = next(iter(ch)); ex = " ".join(exp[1:])
                    if r not in ("S0", "P0", "M", "Q", "T", "U") and not re.search(r"\b%s\b" % r, ex): continue
                u.ob("%s/%s" % (nm, tag), "law%d<env<%s > >::value" % (k, ", ".join(d[r] for r in ROLES)), subj)
        return [u]
    return f
