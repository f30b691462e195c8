H = """
#include <boost/metaparse.hpp>
#include <boost/mpl/equal_to.hpp>
#include <boost/mpl/equal.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/at.hpp>
#include <boost/mpl/size.hpp>
#include <boost/mpl/less_equal.hpp>
#include <boost/mpl/pop_back.hpp>
#include <boost/mpl/push_back.hpp>
#include <boost/mpl/prior.hpp>
#include <boost/mpl/advance.hpp>
#include <boost/mpl/deref.hpp>
#include <boost/mpl/begin_end.hpp>
#include <boost/type_traits/is_same.hpp>
#include <boost/static_assert.hpp>
using namespace boost::metaparse;
namespace mpl = boost::mpl;
"""
RUN = 't=$(mktemp -d) && g++ -w -std=c++17 -Iinclude "$d/demo.cpp" -o $t/a && $t/a; r=$?; rm -r "$t"; exit $r\n'
BUGS = [
dict(id="b20-reject-evaluates-msg", property="C01",
 edits=[(I+"v1/get_message.hpp", "struct get_message : get_message_impl<typename T::type::tag>::template apply<typename T::type>\n      {};", "struct get_message :\n        get_message_impl<typename T::type::tag>::template apply<\n          typename T::type\n        >::type\n      {\n        typedef\n          typename get_message_impl<typename T::type::tag>::template apply<\n            typename T::type\n          >::type::type\n          type;\n      };")],
 demo=H+"""
struct text {}; struct lazy { typedef text type; };
BOOST_STATIC_ASSERT((boost::is_same<get_message<reject<lazy, start> >::type, lazy>::value));
""", needs="a message class that is itself an unevaluated metafunction call", breaks="reading the message back evaluates it"),
dict(id="b21-col-char", property="C02",
 edits=[(I+"v1/source_position_tag.hpp", "boost::mpl::int_<get_col<P>::type::value + 1>", "boost::mpl::int_<static_cast<unsigned char>(get_col<P>::type::value) + 1>")],
 demo=H+"""
typedef one_char::apply<string<'x'>, source_position<mpl::int_<1>, mpl::int_<300>, mpl::char_<'a'> > > r;
BOOST_STATIC_ASSERT(get_col<get_position<r> >::type::value == 301);
""", needs="a line longer than 255 characters", breaks="column"),
dict(id="b22-greater-le", property="C03",
 edits=[(I+"v1/source_position.hpp", "bool_<less<A, B>::type::value || equal_to<A, B>::type::value>", "bool_<\n          less<A, B>::type::value\n          || (\n            A::type::line::value == B::type::line::value\n            && A::type::col::value == B::type::col::value\n          )\n        >")],
 demo=H+"""
typedef source_position<mpl::int_<1>, mpl::int_<5>, mpl::char_<'b'> > A;
typedef source_position<mpl::int_<1>, mpl::int_<5>, mpl::char_<'a'> > B;
BOOST_STATIC_ASSERT(!(mpl::less_equal<A, B>::type::value));
""", needs="positions differing only in the previous character", breaks="less_equal and greater both hold"),
dict(id="b23-middle-unpaired-start", property="C04",
 edits=[(I+"v1/middle_of.hpp", "get_line<Pos>::type::value,\n                get_col<Pos>::type::value", "get_line<\n                  get_position<first_of<look_ahead<P1> >::template apply<S, Pos> >\n                >::type::value,\n                get_col<\n                  get_position<optional<P1>::template apply<S, Pos> >\n                >::type::value"),
        (I+"v1/middle_of.hpp", "#include <boost/metaparse/v1/get_line.hpp>", "#include <boost/metaparse/v1/get_line.hpp>\n#include <boost/metaparse/v1/get_position.hpp>\n#include <boost/metaparse/v1/first_of.hpp>\n#include <boost/metaparse/v1/look_ahead.hpp>\n#include <boost/metaparse/v1/optional.hpp>")],
 demo=H+"""
typedef middle_of<sequence<lit_c<'('>, lit_c<'('> >, lit_c<'a'>, lit_c<')'> >::apply<string<'(','(','a','x'>, start> r;
BOOST_STATIC_ASSERT((boost::is_same<get_message<r>::type, error::unpaired<1, 1, error::literal_expected<')'> > >::value));
""", needs="an unclosed pair", breaks="unpaired message points after the opening part"),
dict(id="b24-oneof98-max", property="C05", stds=["c++98"],
 edits=[(I+"v1/cpp98/impl/later_result.hpp", "typename get_position<R2>::type,\n              typename get_position<R1>::type", "typename get_line<get_position<R2> >::type,\n              typename get_line<get_position<R1> >::type"),
        (I+"v1/cpp98/impl/later_result.hpp", "#include <boost/metaparse/v1/get_position.hpp>", "#include <boost/metaparse/v1/get_position.hpp>\n#include <boost/metaparse/v1/get_line.hpp>")],
 demo=H+"""
typedef one_of<sequence<lit_c<'a'>, lit_c<'x'> >, lit_c<'z'> > p;
BOOST_STATIC_ASSERT(get_col<get_position<p::apply<string<'a', 'y'>, start> > >::type::value == 2);
""", needs="C++98, furthest error in an alternative that is not last", breaks="furthest error"),
dict(id="b25-foldr-pos", property="C06",
 edits=[(I+"v1/foldr_start_with_parser.hpp", "typename get_remaining<Rem>::type,\n            typename get_position<Rem>::type", "typename get_remaining<Rem>::type,\n            typename get_position<Res>::type")],
 demo=H+"""
typedef foldr<one_char, mpl::vector<>, impl_op> p;
typedef p::apply<string<'a','b','c'>, start> r;
BOOST_STATIC_ASSERT(get_col<get_position<r> >::type::value == 4);
""".replace("typedef foldr<", "struct impl_op { template <class S, class C> struct apply { typedef S type; }; };\ntypedef foldr<"), needs="at least two matches of a right fold", breaks="end position of right folds"),
dict(id="b26-foldr-ri-first", property="C07",
 edits=[(I+"v1/foldr_reject_incomplete1.hpp", "is_error<typename P::template apply<S, Pos> >,\n            P,", "is_error<typename P::template apply<S, Pos> >,\n            change_error_message<P, typename get_message<typename P::template apply<S, Pos> >::type>,")],
 demo=H, needs="-", breaks="-"),
dict(id="b27-fafce-col", property="C08",
 edits=[(I+"v1/fail_at_first_char_expected.hpp", "Pos,\n              typename get_position<typename P::template apply<S, Pos> >::type\n            >::type,", "typename get_line<Pos>::type,\n              typename get_line<\n                get_position<typename P::template apply<S, Pos> >\n              >::type\n            >::type,"),
        (I+"v1/fail_at_first_char_expected.hpp", "#include <boost/metaparse/v1/get_position.hpp>", "#include <boost/metaparse/v1/get_position.hpp>\n#include <boost/metaparse/v1/get_line.hpp>")],
 demo=H+"""
typedef fail_at_first_char_expected<sequence<lit_c<'a'>, lit_c<'b'> > >::apply<string<'a','c'>, start> r;
BOOST_STATIC_ASSERT(is_error<r>::type::value);
""", needs="an inner failure later on the same line", breaks="late failures are accepted"),
dict(id="b28-tem-pos", property="C09",
 edits=[(I+"v1/transform_error_message.hpp", "rejection<typename P::template apply<S, Pos> >,", "rejection<\n              reject<\n                typename get_message<typename P::template apply<S, Pos> >::type,\n                Pos\n              >\n            >,")],
 demo=H+"""
struct id { typedef id type; template <class M> struct apply { typedef M type; }; };
typedef transform_error_message<sequence<lit_c<'a'>, lit_c<'b'> >, id>::apply<string<'a','c'>, start> r;
BOOST_STATIC_ASSERT(get_col<get_position<r> >::type::value == 2);
""", needs="an inner failure that is not at the start", breaks="error position moved to the start"),
dict(id="b29-range-signed", property="C10",
 edits=[(I+"v1/util/in_range_c.hpp", "LowerBound <= Item::type::value\n              && Item::type::value <= UpperBound", "static_cast<unsigned char>(Item::type::value - LowerBound) <=\n                static_cast<unsigned char>(UpperBound - LowerBound)")],
 demo=H+"""
BOOST_STATIC_ASSERT(!(util::in_range_c<char, 'z', 'a'>::apply<mpl::char_<'0'> >::type::value));
BOOST_STATIC_ASSERT(!(util::in_range_c<int, 1, 5>::apply<mpl::int_<257> >::type::value));
""", needs="an empty range or items outside the byte range", breaks="empty range contains characters"),
dict(id="b30-litc-unsigned", property="C11",
 edits=[(I+"v1/impl/is_char_c.hpp", "boost::mpl::bool_<Ch::type::value == C>", "boost::mpl::bool_<Ch::type::value == static_cast<unsigned char>(C)>")],
 demo=H+"""
BOOST_STATIC_ASSERT(!is_error<lit_c<'\\301'>::apply<string<'\\301'>, start> >::type::value);
""", needs="a literal character outside ASCII", breaks="such literals never match"),
dict(id="b31-anyof14-last", property="C11", stds=["c++14"],
 edits=[(I+"v1/cpp14/impl/any_of_c.hpp", "i != values + sizeof...(Cs); ++i)", "i != values + sizeof...(Cs) % 64; ++i)")],
 demo=H+"""
typedef one_of_c<'a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z',
 'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','0','1','2','3','4','5','6','7','8','9','_','-'> p;
BOOST_STATIC_ASSERT(!is_error<p::apply<string<'a'>, start> >::type::value);
""", needs="C++14 or later and a set of 64 characters", breaks="nothing is accepted"),
dict(id="b32-int-lead0", property="C12",
 edits=[(I+"v1/int_.hpp", "typedef foldl1<digit_val, boost::mpl::int_<0>, impl::next_digit> int_;", "typedef foldl_start_with_parser<digit_val, one_of<first_of<digit_val, except<digit_val, void, error::digit_expected> >, digit_val>, impl::next_digit> int_;"),
       (I+"v1/int_.hpp", "#include <boost/metaparse/v1/foldl1.hpp>", "#include <boost/metaparse/v1/foldl1.hpp>\n#include <boost/metaparse/v1/foldl_start_with_parser.hpp>\n#include <boost/metaparse/v1/one_of.hpp>\n#include <boost/metaparse/v1/first_of.hpp>\n#include <boost/metaparse/v1/except.hpp>")],
 demo=H, needs="-", breaks="-"),
dict(id="b33-popback98", property="C13", stds=["c++98"],
 edits=[(I+"v1/cpp98/impl/pop_back.hpp", "size<typename S::type>::type::value - 1,\n            BOOST_NO_CHAR", "size<typename S::type>::type::value - 1,\n            0")],
 demo=H+"""
BOOST_STATIC_ASSERT(mpl::size<mpl::pop_back<string<'a','b'> >::type>::type::value == 1);
""", needs="C++98, pop_back", breaks="pop_back leaves a NUL instead of removing the character"),
dict(id="b34-iter-adv", property="C13",
 edits=[(I+"v1/impl/string_iterator.hpp", "struct advance_c<string_iterator<S, N>, P> :\n          string_iterator<S, N + P>", "struct advance_c<string_iterator<S, N>, P> :\n          string_iterator<S, (N + P < 0 ? 0 : N + (P < 0 ? -P : P))>")],
 demo=H+"""
typedef string<'a','b','c'> s;
BOOST_STATIC_ASSERT((mpl::deref<mpl::advance<mpl::end<s>::type, mpl::int_<-1> >::type>::type::value == 'c'));
""", needs="advancing an iterator backwards", breaks="moves forward instead"),
dict(id="b35-token-first", property="C15",
 edits=[(I+"v1/token.hpp", "first_of<P, repeated<space> >", "first_of<P, optional<space> >"), (I+"v1/token.hpp", "#include <boost/metaparse/v1/repeated.hpp>", "#include <boost/metaparse/v1/optional.hpp>\n#include <boost/metaparse/v1/repeated.hpp>")],
 demo=H+"""
typedef token<lit_c<'a'> >::apply<string<'a',' ',' ','b'>, start> r;
BOOST_STATIC_ASSERT((boost::is_same<get_remaining<r>::type, string<'b'> >::value));
""", needs="two whitespace characters after a token", breaks="second one not consumed"),
dict(id="b36-entire-msg", property="C15",
 edits=[(I+"v1/entire_input.hpp", "first_of<P, change_error_message<empty<void>, Msg> >", "change_error_message<first_of<P, empty<void> >, Msg>")],
 demo=H+"""
struct M {};
typedef entire_input<sequence<lit_c<'a'>, lit_c<'b'> >, M>::apply<string<'a','c'>, start> r;
BOOST_STATIC_ASSERT((boost::is_same<get_message<r>::type, error::literal_expected<'b'> >::value));
""", needs="custom message and a failure of the inner parser or a late leftover", breaks="inner failure replaced by the end-of-input message at the start"),
dict(id="b37-build-twice", property="C17",
 edits=[(I+"v1/build_parser.hpp", "BOOST_STATIC_ASSERT(Line == Line + 1);", "BOOST_STATIC_ASSERT(Line == Line + 1 || (Line == 1 && Col > 32767));")],
 demo=H, needs="-", breaks="-"),
dict(id="b38-grammar-tab", property="C18",
 edits=[(I+"v1/grammar.hpp", "always<lit_c<'t'>, boost::mpl::char_<'\\t'> >", "always<lit_c<'t'>, boost::mpl::char_<'\\v'> >")],
 demo=H+"""
typedef grammar<string<'S'> >::rule<string<'S',':',':','=','\\'','\\\\','t','\\''> > g;
BOOST_STATIC_ASSERT(!is_error<g::apply<string<'\\t'>, start> >::type::value);
""", needs="the tab escape", breaks="matches vertical tab"),
dict(id="b39-grammar-action-start", property="C18",
 edits=[(I+"v1/grammar.hpp", "struct impl : transform<typename p::type, typename Actions::type> {};", "struct impl : transform<typename p::type, typename Actions::type> {};\n\n          template <class P>\n          struct import_impl : P {};"),],
 demo=H, needs="-", breaks="-"),
dict(id="b40-umbrella", property="C20",
 edits=[("include/boost/metaparse.hpp", "#include <boost/metaparse/transform_error_message.hpp>\n", "")],
 demo="#include <boost/metaparse.hpp>\ntypedef boost::metaparse::transform_error_message<int, int> t;\n",
 needs="a program that includes only the umbrella header", breaks="name not provided"),
dict(id="b41-noninline", property="C21",
 edits=[(I+"v1/error/literal_expected.hpp", "static std::string get_value()\n          {\n            return std::string(\"Expected: \") + C;\n          }", "static std::string get_value()\n          {\n            return text() + C;\n          }"),
        (I+"v1/error/literal_expected.hpp", "        template <char C>\n        struct literal_expected", "        const char* text_prefix = \"Expected: \";\n        inline std::string text() { return text_prefix; }\n\n        template <char C>\n        struct literal_expected")],
 files={"other.cpp": "#include <boost/metaparse/lit.hpp>\n"},
 demo="#include <boost/metaparse/lit.hpp>\nint main() {}\n",
 sh='t=$(mktemp -d) && g++ -w -std=c++17 -Iinclude "$d/demo.cpp" "$d/other.cpp" -o $t/a 2>/dev/null; r=$?; rm -r "$t"; exit $r\n',
 needs="two translation units", breaks="duplicate definition at link time"),
dict(id="b42-macro-leak", property="C21",
 edits=[(I+"v1/cpp98/one_char_except.hpp", "      #undef MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE\n", ""), (I+"v1/cpp98/one_char_except_c.hpp", "      #ifdef MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE\n      #  error MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE already defined\n      #endif\n", "      #undef MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE\n")],
 demo="#include <boost/metaparse/one_char_except.hpp>\n#ifdef MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE\n#error leaked\n#endif\n", stds=["c++98"],
 needs="C++98", breaks="helper macro stays defined"),
dict(id="b43-seq98-result", property="C22", stds=["c++98", "c++11"], checks=["C22", "C04"],
 edits=[(I+"v1/cpp98/impl/skip_seq.hpp", "typename get_remaining<ParsingResult>::type,\n              typename get_position<ParsingResult>::type", "typename get_remaining<ParsingResult>::type,\n              typename next_char<\n                typename get_position<ParsingResult>::type,\n                typename get_prev_char<\n                  typename get_position<ParsingResult>::type\n                >::type\n              >::type")],
 demo=H, needs="-", breaks="-"),
dict(id="b44-foldr-state-eager", property="C23",
 edits=[(I+"v1/foldr_start_with_parser.hpp", "boost::mpl::eval_if<\n            typename is_error<typename P::template apply<S, Pos> >::type,\n            typename StateP::template apply<S, Pos>,", "boost::mpl::eval_if<\n            typename is_error<typename P::template apply<S, Pos> >::type,\n            typename StateP::template apply<S, Pos>::type,")],
 demo=H+"""
struct op { typedef op type; template <class S, class C> struct apply { typedef S type; }; };
struct bad { typedef bad type; template <class S, class Pos> struct apply : return_<int>::apply<S, Pos> { BOOST_STATIC_ASSERT(mpl::size<S>::type::value < 2); }; };
typedef foldr_start_with_parser<lit_c<'a'>, bad, op>::apply<string<'a','a','b'>, start>::type r;
""", needs="a right fold whose state parser is not instantiable before the last match", breaks="it is instantiated at every match"),
dict(id="b45-at98-last", property="C24", stds=["c++98"],
 edits=[(I+"v1/cpp98/impl/at_c.hpp", "BOOST_PP_REPEAT(\n          BOOST_METAPARSE_LIMIT_STRING_SIZE,", "BOOST_PP_REPEAT(\n          BOOST_PP_DEC(BOOST_METAPARSE_LIMIT_STRING_SIZE),"),
        (I+"v1/cpp98/impl/at_c.hpp", "#include <boost/preprocessor/repetition/repeat.hpp>", "#include <boost/preprocessor/arithmetic/dec.hpp>\n#include <boost/preprocessor/repetition/repeat.hpp>")],
 demo="#define BOOST_METAPARSE_LIMIT_STRING_SIZE 3\n"+H+"""
typedef string<'a','b','c'> s;
BOOST_STATIC_ASSERT((mpl::at_c<s, 2>::type::value == 'c'));
""", needs="C++98, string of maximum length", breaks="last character not accessible"),
dict(id="b46-report-remaining", property="C25",
 edits=[(I+"v1/debug_parsing_error.hpp", "<< \"line \" << get_line<typename R::source_position>::type::value\n              << \", col \" << get_col<typename R::source_position>::type::value", "<< \"line \" << get_line<start>::type::value\n              << \", col \" << get_col<typename R::source_position>::type::value")],
 demo="""
#include <boost/metaparse.hpp>
using namespace boost::metaparse;
int main() { debug_parsing_error<sequence<lit_c<'\\n'>, lit_c<'a'> >, string<'\\n', 'b'> > d; }
""", sh='t=$(mktemp -d) && g++ -w -std=c++17 -Iinclude "$d/demo.cpp" -o $t/a && $t/a | grep -q "^line 2, col 1: "; r=$?; rm -r "$t"; exit $r\n',
 needs="a failure on a line other than the first", breaks="line in the report"),
dict(id="b47-foldlstart-pos", property="C26",
 edits=[(I+"v1/always.hpp", "typename get_remaining<Res>::type,\n            typename get_position<Res>::type", "typename get_remaining<Res>::type,\n            typename get_position<optional<Res> >::type")],
 demo=H, needs="-", breaks="-"),
]
BUGS = [b for b in BUGS if b["needs"] != "-"]
