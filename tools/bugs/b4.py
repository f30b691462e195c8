H = """
#include <boost/metaparse.hpp>
#include <boost/static_assert.hpp>
#include <boost/type_traits/is_same.hpp>
#include <boost/mpl/equal.hpp>
#include <boost/mpl/vector_c.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/list_c.hpp>
#include <boost/mpl/size.hpp>
#include <boost/mpl/at.hpp>
using namespace boost::metaparse;
namespace mpl = boost::mpl;
#define SAME(...) BOOST_STATIC_ASSERT((boost::is_same<__VA_ARGS__>::value))
"""
BUGS = [
dict(id="b60-always-always", property="C09",
 edits=[(I+"v1/always.hpp", "          >\n        {};\n      };\n    }", "          >\n        {};\n      };\n\n      // no need to replace the result twice\n      template <class P, class R1, class R2>\n      struct always<always<P, R1>, R2> : always<P, R1> {};\n    }")],
 demo=H+"SAME(get_result<always<always<one_char, int>, char>::apply<string<'a'>, start> >::type, char);\n",
 needs="always applied to always", breaks="the inner replaced result is kept"),
dict(id="b61-build-entire", property="C17",
 edits=[(I+"v1/build_parser.hpp", "          >\n        {};\n      };\n    }", "          >\n        {};\n      };\n\n      template <class P>\n      struct build_parser<build_parser<P> > : build_parser<P> {};\n\n      template <class P, class D>\n      struct build_parser<optional<P, D> > : build_parser<P> {};\n    }"),
        (I+"v1/build_parser.hpp", "#include <boost/metaparse/v1/is_error.hpp>\n", "#include <boost/metaparse/v1/is_error.hpp>\n#include <boost/metaparse/v1/optional.hpp>\n")],
 demo=H+"SAME(build_parser<optional<lit_c<'x'>, int> >::apply<string<'a'> >::type, int);\n",
 needs="optional at the top", breaks="default is an error"),
dict(id="b62-debug-newline", property="C25",
 edits=[(I+"v1/debug_parsing_error.hpp", '<< "line " << get_line', '<< "line " << std::oct << get_line')] ,
 sh='''g++ -w -std=c++17 -Iinclude "$d/demo.cpp" -o /tmp/demo.$$ && /tmp/demo.$$ > /tmp/demo.$$.out; rm -f /tmp/demo.$$
grep -q "line 1, col 11:" /tmp/demo.$$.out; r=$?; rm -f /tmp/demo.$$.out; exit $r
''', demo=H+"int main() { debug_parsing_error<iterate_c<lit_c<'x'>, 11>, string<'x','x','x','x','x','x','x','x','x','x'> > x; }\n",
 needs="a failure on a line or column above 7", breaks="line and column are printed in octal"),
dict(id="b63-te-eager", property="C23",
 edits=[(I+"v1/transform_error.hpp", """          boost::mpl::eval_if<
            typename is_error<typename P::template apply<S, Pos> >::type,
            typename F::template apply<
              typename P::template apply<S, Pos>::type
            >,
            typename P::template apply<S, Pos>
          >""", """          boost::mpl::if_<
            is_error<typename P::template apply<S, Pos> >,
            typename F::template apply<
              typename P::template apply<S, Pos>::type
            >::type,
            typename P::template apply<S, Pos>::type
          >::type"""),
   (I+"v1/transform_error.hpp", "#include <boost/mpl/eval_if.hpp>", "#include <boost/mpl/if.hpp>")],
 demo=H+"""
struct F { typedef F type; template <class R> struct apply : reject<typename R::message, typename R::source_position> {}; };
SAME(get_result<transform_error<one_char, F>::apply<string<'a'>, start> >::type, mpl::char_<'a'>);
""", needs="function that is ill-formed for successes", breaks="F is instantiated on success"),
dict(id="b64-grammar-nl", property="C18",
 edits=[(I+"v1/grammar.hpp", "                  always<lit_c<'r'>, boost::mpl::char_<'\\r'> >,", "                  always<lit_c<'r'>, boost::mpl::char_<'\\n'> >,")],
 demo=H+"""
typedef grammar<string<'S'> >::rule<string<'S',' ',':',':','=',' ','\\'','\\\\','r','\\''> > g;
BOOST_STATIC_ASSERT((!is_error<g::apply<string<'\\r'>, start> >::type::value));
""", needs="\\r escape", breaks="escape"),
dict(id="b65-grammar-plus-star", property="C18",
 edits=[(I+"v1/grammar.hpp", "          template <class FState, class T>\n          struct apply : repeated_apply_impl<T::type::value, FState> {};",
"""          template <class FState, class T>
          struct apply : repeated_apply_impl<T::type::value, FState> {};

          // x++ is x+, x** is x*
          template <char Op, class FState, class T>
          struct apply<repeated_apply_impl<Op, FState>, T> :
            repeated_apply_impl<T::type::value, FState>
          {};""")],
 demo=H+"""
typedef grammar<string<'S'> >::rule<string<'S',' ',':',':','=',' ','\\'','a','\\'','+','*'> > g;
typedef get_result<g::apply<string<'a'>, start> >::type r;
BOOST_STATIC_ASSERT((mpl::size<mpl::at_c<r, 0>::type>::type::value == 1));
""", needs="repetition of a repetition", breaks="result and language"),
dict(id="b66-name-prefix", property="C18",
 edits=[(I+"v1/grammar.hpp", "              one_of<alphanum, lit_c<'_'> >,", "              one_of<letter, lit_c<'_'> >,")],
 demo=H+"""
typedef grammar<string<'S'> >::import<string<'a','1'>, letter>::type::rule<string<'S',' ',':',':','=',' ','a','1'> > g;
BOOST_STATIC_ASSERT((!is_error<g::apply<string<'x'>, start> >::type::value));
""", needs="digit in a symbol name", breaks="rule does not compile"),
dict(id="b67-iterate-pos", property="C16",
 edits=[(I+"v1/impl/iterate_impl.hpp", "        template <class P, class Accum>\n        struct iterate_impl<0, P, Accum>", """        // looking ahead repeatedly always finds the same
        template <int N, class P, class Accum>
        struct iterate_impl<N, look_ahead<P>, Accum> :
          look_ahead<iterate_impl<N, P, Accum> >
        {};

        template <class P, class Accum>
        struct iterate_impl<0, look_ahead<P>, Accum> : return_<Accum> {};

        template <class P, class Accum>
        struct iterate_impl<0, P, Accum>"""),
        (I+"v1/impl/iterate_impl.hpp", "#include <boost/metaparse/v1/is_error.hpp>", "#include <boost/metaparse/v1/is_error.hpp>\n#include <boost/metaparse/v1/look_ahead.hpp>")],
 demo=H+"""
typedef iterate_c<look_ahead<one_char>, 2>::apply<string<'a','b'>, start> r;
BOOST_STATIC_ASSERT((mpl::equal<get_result<r>::type, mpl::vector<mpl::char_<'a'>, mpl::char_<'a'> > >::value));
""", needs="iterated look-ahead", breaks="results are those of consuming"),
dict(id="b68-fafce-prev", property="C08",
 edits=[(I+"v1/fail_at_first_char_expected.hpp", "            typename boost::mpl::equal_to<\n              Pos,\n              typename get_position<typename P::template apply<S, Pos> >::type\n            >::type,", "            boost::mpl::bool_<\n              get_col<typename get_position<typename P::template apply<S, Pos> >::type>::type::value <= get_col<Pos>::type::value && get_line<typename get_position<typename P::template apply<S, Pos> >::type>::type::value <= get_line<Pos>::type::value\n            >,"),
  (I+"v1/fail_at_first_char_expected.hpp", "#include <boost/mpl/equal_to.hpp>", "#include <boost/metaparse/v1/get_line.hpp>\n#include <boost/metaparse/v1/get_col.hpp>\n#include <boost/mpl/bool.hpp>")],
 demo=H+"""
struct P { typedef P type; template <class S, class Pos> struct apply : reject<int, source_position<mpl::int_<1>, mpl::int_<1>, mpl::char_<0> > > {}; };
typedef source_position<mpl::int_<3>, mpl::int_<3>, mpl::char_<0> > p33;
BOOST_STATIC_ASSERT((is_error<fail_at_first_char_expected<P>::apply<string<'a'>, p33> >::type::value));
""", needs="failure before the start", breaks="counts as failing at the start"),
dict(id="b69-space17", property="C22", checks=["C22", "C10", "C11", "C15"],
 edits=[(I+"v1/util/is_whitespace_c.hpp", "        template <> struct is_whitespace_c<'\\t'> : boost::mpl::true_ {};", "        template <> struct is_whitespace_c<'\\t'> : boost::mpl::true_ {};\n#if __cplusplus >= 201402L\n        template <> struct is_whitespace_c<'\\v'> : boost::mpl::true_ {};\n#endif")],
 demo=H+"BOOST_STATIC_ASSERT((is_error<space::apply<string<'\\v'>, start> >::type::value));\n",
 needs="C++14, vertical tab", breaks="standards disagree"),
dict(id="b70-foldl-ri-state", property="C07",
 edits=[(I+"v1/foldl_reject_incomplete_start_with_parser.hpp", "          foldl_reject_incomplete<\n            P,", "          foldl_reject_incomplete<\n            P,"),] if False else
       [(I+"v1/foldl_reject_incomplete1.hpp", "            is_error<typename P::template apply<S, Pos> >,\n            P,", "            is_error<typename P::template apply<S, Pos> >,\n            change_error_position<P>,")] if False else
       [(I+"v1/foldl_reject_incomplete.hpp", "            typename Pos::type,\n            typename get_position<typename P::template apply<S, Pos> >::type\n", "            get_line<Pos>,\n            get_line<typename P::template apply<S, Pos>::type::source_position>\n"),
        (I+"v1/foldl_reject_incomplete.hpp", "          typename boost::mpl::equal_to<\n", "          typename boost::mpl::and_<boost::mpl::equal_to<get_col<Pos>, get_col<typename P::template apply<S, Pos>::type::source_position> >, boost::mpl::equal_to<\n"),
        (I+"v1/foldl_reject_incomplete.hpp", "          >::type,\n          accept_state", "          > >::type,\n          accept_state"),
        (I+"v1/foldl_reject_incomplete.hpp", "#include <boost/mpl/equal_to.hpp>", "#include <boost/mpl/equal_to.hpp>\n#include <boost/mpl/and.hpp>\n#include <boost/metaparse/v1/get_line.hpp>\n#include <boost/metaparse/v1/get_col.hpp>")],
 demo=H+"""
struct P { typedef P type; template <class S, class Pos> struct apply : reject<int, source_position<mpl::int_<1>, mpl::int_<1>, mpl::char_<'\\n'> > > {}; };
BOOST_STATIC_ASSERT((is_error<repeated_reject_incomplete<P>::apply<string<'a'>, start> >::type::value));
""", needs="positions that differ in the previous character only", breaks="not seen as different"),
dict(id="b71-seqapply-order", property="C04",
 edits=[(I+"v1/sequence_apply.hpp", "#define BOOST_METAPARSE_SEQUENCE_APPLY_ARG(z, n, container) \\\n  typename boost::mpl::at_c<container, n>::type", "#define BOOST_METAPARSE_SEQUENCE_APPLY_ARG(z, n, container) \\\n  typename boost::mpl::at_c<container, (n == 4 ? 3 : n)>::type")],
 demo=H+"""
template <class A, class B, class C, class D, class E> struct T { typedef T type; };
typedef sequence_apply5<T, one_char, one_char, one_char, one_char, one_char>::apply<string<'a','b','c','d','e'>, start> r;
SAME(get_result<r>::type, T<mpl::char_<'a'>, mpl::char_<'b'>, mpl::char_<'c'>, mpl::char_<'d'>, mpl::char_<'e'> >);
""", needs="five parsers", breaks="fifth argument"),
dict(id="b72-seq-empty-first", property="C04",
 edits=[(I+"v1/cpp11/impl/push_front_result.hpp", "          struct apply :", "          struct apply :")] if False else
  [(I+"v1/cpp11/sequence.hpp", "      template <class P, class... Ps>\n      struct sequence<P, Ps...>\n      {", "      template <class T, class... Ps>\n      struct sequence<return_<T>, Ps...> :\n        transform<sequence<Ps...>, impl::push_front_result<accept<T, boost::mpl::vector<>, start>>>\n      {};\n\n      template <class... As, class... Ps>\n      struct sequence<sequence<As...>, Ps...> : sequence<As..., Ps...> {};\n\n      template <class P, class... Ps>\n      struct sequence<P, Ps...>\n      {"),
   (I+"v1/cpp11/sequence.hpp", "#include <boost/metaparse/v1/return_.hpp>", "#include <boost/metaparse/v1/return_.hpp>\n#include <boost/metaparse/v1/start.hpp>\n#include <boost/metaparse/v1/accept.hpp>")],
 demo=H+"""
typedef sequence<sequence<one_char, one_char>, one_char>::apply<string<'a','b','c'>, start> r;
BOOST_STATIC_ASSERT((mpl::size<get_result<r>::type>::type::value == 2));
""", needs="nested sequence", breaks="flattened"),
dict(id="b73-mid-pos", property="C08",
 edits=[(I+"v1/optional.hpp", "      template <class P, class Default = void>\n      struct optional\n      {", "      template <class P, class Default = void>\n      struct optional;\n\n      template <class P, class Default>\n      struct optional<look_ahead<P>, Default> :\n        look_ahead<optional<P, Default> >\n      {};\n\n      template <class P, class Default>\n      struct optional<token<P>, Default> :\n        first_of<optional<P, Default>, repeated<space> >\n      {};\n\n      template <class P, class Default>\n      struct optional\n      {"),
   (I+"v1/optional.hpp", "#include <boost/metaparse/v1/is_error.hpp>", "#include <boost/metaparse/v1/is_error.hpp>\n#include <boost/metaparse/v1/look_ahead.hpp>\n#include <boost/metaparse/v1/token.hpp>")],
 checks=["C08", "C26"],
 demo=H+"""
typedef optional<token<lit_c<'x'> >, int>::apply<string<' ','a'>, start> r;
BOOST_STATIC_ASSERT((get_col<get_position<r> >::type::value == 1));
""", needs="optional token not there, followed by space", breaks="consumes space"),
dict(id="b74-guard", property="C20",
 edits=[(I+"repeated_reject_incomplete1.hpp", "#ifndef BOOST_METAPARSE_REPEATED_REJECT_INCOMPLETE1_HPP\n#define BOOST_METAPARSE_REPEATED_REJECT_INCOMPLETE1_HPP", "#ifndef BOOST_METAPARSE_REPEATED_REJECT_INCOMPLETE_HPP\n#define BOOST_METAPARSE_REPEATED_REJECT_INCOMPLETE_HPP")],
 demo="#include <boost/metaparse/repeated_reject_incomplete.hpp>\n#include <boost/metaparse/repeated_reject_incomplete1.hpp>\ntypedef boost::metaparse::repeated_reject_incomplete1<int> t;\n",
 needs="both headers", breaks="second one is skipped"),
dict(id="b75-ndebug", property="C21",
 edits=[(I+"v1/error/literal_expected.hpp", '            return std::string("Expected: ") + C;', '#ifdef NDEBUG\n            return std::string("Expected: ") + C;\n#else\n            return std::string("Expected: ").append(1, C);\n#endif')],
 demo="int main(){}\n", sh='''g++ -w -E -P -std=c++17 -Iinclude -include boost/metaparse/v1/error/literal_expected.hpp -x c++ /dev/null | grep -A8 literal_expected > /tmp/a.$$
g++ -w -E -P -DNDEBUG -std=c++17 -Iinclude -include boost/metaparse/v1/error/literal_expected.hpp -x c++ /dev/null | grep -A8 literal_expected > /tmp/b.$$
cmp /tmp/a.$$ /tmp/b.$$; r=$?; rm -f /tmp/a.$$ /tmp/b.$$; exit $r
''', needs="NDEBUG differs between translation units", breaks="one definition rule"),
dict(id="b76-unpaired-na", property="C19",
 edits=[(I+"v1/error/unpaired.hpp", 's << Msg::get_value() << " (see " << Line << ":" << Col << ")";', 's << Msg::get_value().c_str() << " (see " << Line << ":" << Col << ")";')],
 demo=H+"""
#include <iostream>
int main() { std::string s = error::unpaired<1, 2, error::literal_expected<0> >::get_value(); return s == std::string("Expected: ") + '\\0' + " (see 1:2)" ? 0 : 1; }
""", sh='g++ -w -std=c++17 -Iinclude "$d/demo.cpp" -o /tmp/demo.$$ && /tmp/demo.$$; r=$?; rm -f /tmp/demo.$$; exit $r\n',
 needs="message text with a null character", breaks="text is cut"),
dict(id="b77-push-back-limit", property="C13", stds=["c++98"], checks=["C13", "C24"],
 edits=[(I+"v1/impl/string_iterator.hpp", "          boost::mpl::int_<B - A>", "          boost::mpl::int_<(B < A ? A - B : B - A)>")],
 demo=H+"""
typedef string<'a','b'> s;
BOOST_STATIC_ASSERT((mpl::distance<mpl::end<s>::type, mpl::begin<s>::type>::type::value == -2));
""", needs="distance of iterators in reverse order", breaks="sign"),
dict(id="b78-list-input", property="C11",
 edits=[(I+"v1/one_char.hpp", "            boost::mpl::pop_front<S>,\n            NextPos", "            boost::mpl::pop_front<S>,\n            NextPos")] if False else
   [(I+"v1/range_c.hpp", "util::in_range_c<char, From, To>", "util::in_range_c<unsigned char, From, To>")],
 demo=H+"BOOST_STATIC_ASSERT((is_error<range_c<'a', '\\x7f'>::apply<string<(char)-1>, start> >::type::value));\nBOOST_STATIC_ASSERT((!is_error<range_c<(char)-5, 'a'>::apply<string<'0'>, start> >::type::value));\n",
 flags="-fpermissive", needs="negative characters", breaks="range"),
dict(id="b79-lookahead-la", property="C08",
 edits=[(I+"v1/if_.hpp", "      template <class P, class T, class F>\n      struct if_\n      {", "      template <class P, class T, class F>\n      struct if_;\n\n      template <class P, class R, class Msg, class T, class F>\n      struct if_<except<P, R, Msg>, T, F> : if_<P, F, T> {};\n\n      template <class P, class D, class T, class F>\n      struct if_<optional<P, D>, T, F> : if_<P, T, F> {};\n\n      template <class P, class T, class F>\n      struct if_\n      {"),
   (I+"v1/if_.hpp", "#include <boost/metaparse/v1/is_error.hpp>", "#include <boost/metaparse/v1/is_error.hpp>\n#include <boost/metaparse/v1/except.hpp>\n#include <boost/metaparse/v1/optional.hpp>")],
 demo=H+"SAME(get_result<if_<optional<lit_c<'x'> >, int, char>::apply<string<'a'>, start> >::type, int);\n",
 needs="condition is an optional", breaks="wrong branch"),
dict(id="b80-repeated1-token", property="C06",
 edits=[(I+"v1/repeated.hpp", "      template <class P>\n      struct repeated : foldl<P, boost::mpl::vector<>, impl::back_inserter> {};", "      template <class P>\n      struct repeated : foldl<P, boost::mpl::vector<>, impl::back_inserter> {};\n\n      // already repeated\n      template <class P>\n      struct repeated<repeated1<P> > : repeated<P> {};"),
   (I+"v1/repeated.hpp", "#include <boost/metaparse/v1/foldl.hpp>", "#include <boost/metaparse/v1/foldl.hpp>\n#include <boost/metaparse/v1/repeated1.hpp>")],
 demo=H+"BOOST_STATIC_ASSERT((mpl::size<get_result<repeated<repeated1<one_char> >::apply<string<'a','b'>, start> >::type>::type::value == 1));\n",
 needs="nested repetition", breaks="flattened"),
dict(id="b81-oneof-nested", property="C05",
 edits=[(I+"v1/cpp11/one_of.hpp", "      template <>\n      struct one_of<> :", "      template <class P, class Msg, class... Ps>\n      struct one_of<change_error_message<P, Msg>, Ps...> :\n        change_error_message<one_of<P, Ps...>, Msg>\n      {};\n\n      template <>\n      struct one_of<> :"),
   (I+"v1/cpp11/one_of.hpp", "#include <boost/metaparse/v1/is_error.hpp>", "#include <boost/metaparse/v1/is_error.hpp>\n#include <boost/metaparse/v1/change_error_message.hpp>")],
 demo=H+"""
typedef one_of<change_error_message<lit_c<'x'>, int>, last_of<lit_c<'a'>, lit_c<'b'> > >::apply<string<'a','c'>, start> r;
BOOST_STATIC_ASSERT((get_col<get_position<r> >::type::value == 2));
""", needs="changed message as an alternative", breaks="furthest error lost"),
dict(id="b82-int-list", property="C12",
 edits=[(I+"v1/int_.hpp", "typedef foldl1<digit_val, boost::mpl::int_<0>, impl::next_digit> int_;", "typedef\n        foldl_reject_incomplete1<\n          digit_val,\n          boost::mpl::int_<0>,\n          impl::next_digit\n        >\n        int_;"),(I+"v1/int_.hpp", "#include <boost/metaparse/v1/foldl1.hpp>", "#include <boost/metaparse/v1/foldl_reject_incomplete1.hpp>")],
 demo=H+"\n", needs="-", breaks="equivalent: kept to see that checks stay quiet"),
dict(id="b83-getline-lazy", property="C01",
 edits=[(I+"v1/get_message.hpp", "", "")] if False else
   [(I+"v1/unless_error.hpp", "boost::mpl::eval_if<typename is_error<T>::type, T, NotErrorCase>", "boost::mpl::if_<is_error<T>, T, NotErrorCase>"),
    (I+"v1/unless_error.hpp", "#include <boost/mpl/eval_if.hpp>", "#include <boost/mpl/if.hpp>")],
 demo=H+"""
struct L { typedef accept<int, string<>, start> type; };
SAME(unless_error<accept<char, string<>, start>, L>::type, accept<int, string<>, start>);
""", needs="unevaluated alternative", breaks="not evaluated"),
dict(id="b84-kw-result", property="C15",
 edits=[(I+"v1/keyword.hpp", "            boost::mpl::empty<Kw>,\n            return_<ResultType>,", "            boost::mpl::empty<Kw>,\n            return_<typename ResultType::type>,")],
 demo=H+"struct L { typedef int type; };\nSAME(get_result<keyword<string<'a'>, L>::apply<string<'a'>, start> >::type, L);\n",
 needs="result type with a nested type that differs", breaks="evaluated result"),
dict(id="b85-strlimit", property="C14", stds=["c++11", "c++17"],
 edits=[(I+"v1/impl/assert_string_length.hpp", "(Len <= BOOST_METAPARSE_LIMIT_STRING_SIZE)", "(Len - 1 <= BOOST_METAPARSE_LIMIT_STRING_SIZE)")] ,
 demo="#define BOOST_METAPARSE_LIMIT_STRING_SIZE 8\n#include <boost/metaparse/string.hpp>\ntypedef BOOST_METAPARSE_STRING(\"123456789\") s; int x = sizeof(s);\n", sh='g++ -w -std=c++11 -fsyntax-only -Iinclude "$d/demo.cpp" 2>/dev/null && exit 1; exit 0\n', needs="literal one longer than the maximum", breaks="truncated"),
dict(id="b86-nth-neg", property="C04",
 edits=[(I+"v1/cpp11/nth_of_c.hpp", "(0 <= N && N < sizeof...(Ps)),", "(N < static_cast<int>(sizeof...(Ps)) && -1 != N),")],
 demo=H+"SAME(get_message<nth_of_c<-2, one_char>::apply<string<'a'>, start> >::type, error::index_out_of_range<0, 0, -2>);\n",
 needs="index below -1", breaks="no failure"),
dict(id="b87-entire-token", property="C15",
 edits=[(I+"v1/token.hpp", "      template <class P>\n      struct token : first_of<P, repeated<space> > {};", "      template <class P>\n      struct token : first_of<P, repeated<space> > {};\n\n      // the spaces have already been consumed\n      template <class P, class Msg>\n      struct token<entire_input<P, Msg> > : entire_input<token<P>, Msg> {};"),
   (I+"v1/token.hpp", "#include <boost/metaparse/v1/first_of.hpp>", "#include <boost/metaparse/v1/first_of.hpp>\n#include <boost/metaparse/v1/entire_input.hpp>")],
 demo=H+"BOOST_STATIC_ASSERT((is_error<token<entire_input<lit_c<'a'> > >::apply<string<'a',' '>, start> >::type::value));\n",
 needs="token of whole-input parser", breaks="accepts trailing space"),
]
