H = """
#include <boost/metaparse.hpp>
#include <boost/mpl/equal_to.hpp>
#include <boost/mpl/equal.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/at.hpp>
#include <boost/mpl/size.hpp>
#include <boost/type_traits/is_same.hpp>
#include <boost/static_assert.hpp>
using namespace boost::metaparse;
namespace mpl = boost::mpl;
"""
BUGS = [
dict(id="b01-lfcr-one-newline", property="C02",
 edits=[(I+"v1/one_char.hpp", "C::type::value == '\\r'\n              || (\n                C::type::value == '\\n'\n                && get_prev_char<Pos>::type::value != '\\r'",
   "(\n                C::type::value == '\\r'\n                && get_prev_char<Pos>::type::value != '\\n'\n              )\n              || (\n                C::type::value == '\\n'\n                && get_prev_char<Pos>::type::value != '\\r'")],
 demo=H+"""
typedef iterate_c<one_char, 3>::apply<string<'\\n', '\\r', 'x'>, start>::type r;
BOOST_STATIC_ASSERT(get_line<get_position<r> >::type::value == 3);
""", needs="an input in which a carriage return directly follows a line feed", breaks="LF CR counts as one line break, so every later line number is one too small"),
dict(id="b02-less-ignores-col-tie", property="C03",
 edits=[(I+"v1/source_position.hpp", "(A::type::col::value) == (B::type::col::value) &&\n                (A::type::prev_char", "(A::type::col::value) <= (B::type::col::value) ||\n                (A::type::prev_char")],
 demo=H+"""
typedef source_position<mpl::int_<1>, mpl::int_<5>, mpl::char_<'a'> > A;
typedef source_position<mpl::int_<1>, mpl::int_<3>, mpl::char_<'b'> > B;
BOOST_STATIC_ASSERT(!(mpl::less<A, B>::type::value));
BOOST_STATIC_ASSERT(!(mpl::less<B, B>::type::value));
""", needs="two positions on one line with different columns whose previous characters order the other way round", breaks="less on positions: is true for equal positions / later columns"),
dict(id="b03-incomplete-by-column", property="C07",
 edits=[(I+"v1/foldl_reject_incomplete.hpp", "typename Pos::type,\n            typename get_position<typename P::template apply<S, Pos> >::type\n          >::type,", "typename get_col<Pos>::type,\n            typename get_col<\n              get_position<typename P::template apply<S, Pos> >\n            >::type\n          >::type,"),
        (I+"v1/foldl_reject_incomplete.hpp", "#include <boost/metaparse/v1/get_position.hpp>", "#include <boost/metaparse/v1/get_position.hpp>\n#include <boost/metaparse/v1/get_col.hpp>")],
 demo=H+"""
typedef repeated_reject_incomplete<sequence<lit_c<'\\n'>, lit_c<'x'> > > p;
BOOST_STATIC_ASSERT(is_error<p::apply<string<'\\n', 'y'>, start> >::type::value);
""", needs="an ending attempt that consumed a line break and failed in the same column on a later line", breaks="an incomplete match is silently dropped when it failed in its starting column on another line"),
dict(id="b04-optional-incomplete", property="C08",
 edits=[(I+"v1/optional.hpp", "is_error<typename P::template apply<S, Pos> >,\n            accept<Default, S, Pos>,", "is_error<typename P::template apply<S, Pos> >,\n            accept<Default, S, get_position<typename P::template apply<S, Pos> > >,"),
        (I+"v1/optional.hpp", "#include <boost/metaparse/v1/is_error.hpp>", "#include <boost/metaparse/v1/is_error.hpp>\n#include <boost/metaparse/v1/get_position.hpp>")],
 demo=H+"""
typedef optional<sequence<lit_c<'a'>, lit_c<'b'> >, int> p;
BOOST_STATIC_ASSERT(get_col<get_position<p::apply<string<'a', 'c'>, start> > >::type::value == 1);
""", needs="an optional parser whose inner parser fails after consuming something", breaks="position of the defaulted success is that of the inner error"),
dict(id="b05-later-by-line", property="C05",
 edits=[(I+"v1/cpp11/impl/eval_later_result.hpp", "typename get_position<R2>::type,\n              typename get_position<R1>::type", "typename get_col<get_position<R2> >::type,\n              typename get_col<get_position<R1> >::type"),
        (I+"v1/cpp11/impl/eval_later_result.hpp", "#include <boost/metaparse/v1/get_position.hpp>", "#include <boost/metaparse/v1/get_position.hpp>\n#include <boost/metaparse/v1/get_col.hpp>")],
 demo=H+"""
typedef one_of<sequence<lit_c<'a'>, lit_c<'\\n'>, lit_c<'x'> >, sequence<lit_c<'a'>, lit_c<'z'> > > p;
BOOST_STATIC_ASSERT(get_line<get_position<p::apply<string<'a', '\\n', 'y'>, start> > >::type::value == 2);
""", needs="two failing alternatives whose errors are on different lines, the later one in a smaller column", breaks="choice reports the error of the alternative that got less far"),
dict(id="b06-is-letter-range", property="C10",
 edits=[(I+"v1/util/is_letter.hpp", "is_lcase_letter<C>::type::value || is_ucase_letter<C>::type::value", "'A' <= C::type::value && C::type::value <= 'z'")],
 demo=H+"""
BOOST_STATIC_ASSERT(!util::is_letter<mpl::char_<'_'> >::type::value);
BOOST_STATIC_ASSERT(!util::is_letter<mpl::char_<'['> >::type::value);
""", needs="one of the six characters between 'Z' and 'a'", breaks="[ \\ ] ^ _ ` count as letters"),
dict(id="b07-int-short", property="C12",
 edits=[(I+"v1/impl/next_digit.hpp", "PartialResult::type::value * 10 + NextDigit::type::value", "static_cast<short>(PartialResult::type::value * 10) + NextDigit::type::value")],
 demo=H+"""
typedef int_::apply<string<'4','0','0','0','0'>, start> r;
BOOST_STATIC_ASSERT(get_result<r>::type::value == 40000);
""", needs="a number above 32767", breaks="value of large numbers"),
dict(id="b08-update-c-short", property="C13", stds=["c++98"],
 edits=[(I+"v1/cpp98/impl/pop_back.hpp", "size<typename S::type>::type::value - 1,\n            BOOST_NO_CHAR", "size<typename S::type>::type::value - 1,\n            0")],
 demo=H+"""
BOOST_STATIC_ASSERT(mpl::size<mpl::pop_back<string<'a','b'> >::type>::type::value == 1);
""", needs="C++98, pop_back", breaks="pop_back leaves a NUL instead of removing the character"),
dict(id="b09-failed-swapped", property="C17",
 edits=[(I+"v1/build_parser.hpp", "          get_line<\n            get_position<typename P::template apply<S, start> >\n          >::type::value,\n          get_col<\n            get_position<typename P::template apply<S, start> >\n          >::type::value,", "          get_col<\n            get_position<typename P::template apply<S, start> >\n          >::type::value,\n          get_line<\n            get_position<typename P::template apply<S, start> >\n          >::type::value,")],
 demo=H+"""
typedef build_parser<sequence<lit_c<'\\n'>, lit_c<'a'>, lit_c<'b'>, lit_c<'c'> > > p;
typedef p::apply<string<'\\n','a','b','x'> >::type r;
""",
 sh='g++ -w -std=c++17 -fsyntax-only -Iinclude "$d/demo.cpp" 2>&1 | grep -q "PARSING_FAILED__________________x<2, 3"\n',
 needs="a failing parse at a line different from its column", breaks="the diagnostic of a failed build_parser names column as line and line as column"),
dict(id="b10-grammar-plus", property="C18",
 edits=[(I+"v1/grammar.hpp", "last_of<or_token, seq_expression>,\n            seq_expression,", "last_of<or_token, repeated_expression>,\n            seq_expression,")],
 demo=H+"""
typedef grammar<string<'S'> >::rule<string<'S',':',':','=','\\'','a','\\'','|','\\'','b','\\'','\\'','c','\\''> > g;
BOOST_STATIC_ASSERT(!is_error<g::apply<string<'b','c'>, start> >::type::value);
""", needs="a grammar whose second alternative is a juxtaposition", breaks="alternatives after the first may not be sequences"),
dict(id="b11-keyword-pos", property="C15",
 edits=[(I+"v1/keyword.hpp", "typename get_position<\n                typename next_char_parser::template apply<S, Pos>\n              >::type\n            >", "typename next_char<\n                Pos,\n                typename boost::mpl::front<Kw>::type\n              >::type\n            >"),
        (I+"v1/keyword.hpp", "#include <boost/metaparse/v1/get_remaining.hpp>", "#include <boost/metaparse/v1/get_remaining.hpp>\n#include <boost/metaparse/v1/next_char.hpp>\n#include <boost/metaparse/v1/source_position.hpp>")],
 demo=H+"""
typedef keyword<string<'a','\\n','b'> >::apply<string<'a','\\n','b'>, start> r;
BOOST_STATIC_ASSERT(get_line<get_position<r> >::type::value == 2);
""", needs="a keyword containing a line break", breaks="position after a multi-line keyword"),
dict(id="b12-skip-pos", property="C04",
 edits=[(I+"v1/cpp11/impl/nth_of_c_skip_remaining.hpp", "typename get_remaining<NextResult>::type,\n              typename get_position<NextResult>::type,", "typename get_remaining<NextResult>::type,\n              Pos,")],
 demo=H+"""
typedef first_of<lit_c<'a'>, lit_c<'b'>, lit_c<'c'> >::apply<string<'a','b','c'>, start> r;
BOOST_STATIC_ASSERT(get_col<get_position<r> >::type::value == 4);
""", needs="a parser after the selected one", breaks="position after first_of/nth_of is that of the selected parser, not the last one"),
dict(id="b13-accept-when-pos", property="C09",
 edits=[(I+"v1/accept_when.hpp", "reject<Msg, Pos>", "reject<Msg, get_position<typename P::template apply<S, Pos> > >"),
        (I+"v1/accept_when.hpp", "#include <boost/metaparse/v1/get_result.hpp>", "#include <boost/metaparse/v1/get_result.hpp>\n#include <boost/metaparse/v1/get_position.hpp>")],
 demo=H+"""
typedef digit::apply<string<'a'>, start> r;
BOOST_STATIC_ASSERT(get_col<get_position<r> >::type::value == 1);
""", needs="a filtered-out result", breaks="error position after, not at, the offending character"),
dict(id="b14-iterate-empty", property="C16",
 edits=[(I+"v1/impl/iterate_impl_unchecked.hpp", "iterate_impl<\n            N - 1,", "iterate_impl<\n            N - (N > 64 ? 2 : 1),")],
 demo=H+"""
typedef iterate_c<return_<int>, 65>::apply<string<>, start> r;
BOOST_STATIC_ASSERT(mpl::size<get_result<r>::type>::type::value == 65);
""", needs="more than 64 iterations", breaks="number of applications"),
dict(id="b15-unpaired-text", property="C19",
 edits=[(I+"v1/error/index_out_of_range.hpp", "<< From << \"-\" << To << \"]\";", "<< From << \"-\" << (To < From ? From : To) << \"]\";")],
 demo=H+"""
#include <iostream>
int main() { return error::index_out_of_range<0, -1, 3>::get_value() == "index (3) out of range [0--1]" ? 0 : 1; }
""",
 sh='t=$(mktemp -d) && g++ -w -std=c++17 -Iinclude "$d/demo.cpp" -o $t/a && $t/a; r=$?; rm -r "$t"; exit $r\n',
 needs="an index into an empty selection", breaks="range named in the message"),
dict(id="b16-strlen-max", property="C14",
 edits=[(I+"v1/cpp11/impl/string_at.hpp", "static_assert(Len <= MaxLen + 1,", "static_assert(Len - 1 <= MaxLen + 1,")],
 demo="""
#define BOOST_METAPARSE_LIMIT_STRING_SIZE 4
#include <boost/metaparse/string.hpp>
typedef BOOST_METAPARSE_STRING("abcde") s;
""", sh='! g++ -w -std=c++17 -fsyntax-only -Iinclude "$d/demo.cpp" 2>/dev/null\n',
 needs="a literal exactly one longer than the maximum", breaks="it is silently truncated"),
dict(id="b17-standalone", property="C20",
 edits=[(I+"v1/last_of.hpp", "#include <boost/metaparse/config.hpp>\n", "")],
 demo="#include <boost/metaparse/last_of.hpp>\ntypedef boost::metaparse::last_of<int> t;\n",
 stds=["c++98", "c++11", "c++17"],
 needs="last_of included first", breaks="header not self-contained"),
dict(id="b18-seq-eager", property="C23",
 edits=[(I+"v1/foldr_start_with_parser.hpp", "typename boost::mpl::eval_if<\n              typename is_error<parsed_remaining>::type,\n              parsed_remaining,\n              apply_unchecked1<Res, parsed_remaining>\n            >::type", "typename boost::mpl::eval_if<\n              typename is_error<parsed_remaining>::type,\n              parsed_remaining,\n              typename BackwardOp::template apply<typename get_result<parsed_remaining>::type, int>\n            >::type") ],
 demo=H, needs="-", breaks="-"),
]
BUGS = [b for b in BUGS if b["id"] not in ("b18-seq-eager",)]
