H = """
#include <boost/metaparse.hpp>
#include <boost/static_assert.hpp>
#include <boost/type_traits/is_same.hpp>
#include <boost/mpl/equal.hpp>
#include <boost/mpl/vector_c.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/list_c.hpp>
#include <boost/mpl/size.hpp>
#include <boost/mpl/at.hpp>
using namespace boost::metaparse;
namespace mpl = boost::mpl;
#define SAME(...) BOOST_STATIC_ASSERT((boost::is_same<__VA_ARGS__>::value))
"""
BUGS = [
dict(id="b90-reject-nested", property="C01",
 edits=[(I+"v1/reject.hpp", "        typedef Msg message;\n      };\n", "        typedef Msg message;\n      };\n\n      // rejecting with an error: keep the original message\n      template <class Msg, class InnerPos, class Pos>\n      struct reject<reject<Msg, InnerPos>, Pos> : reject<Msg, Pos> {};\n")],
 demo=H+"typedef reject<int, start> inner; SAME(get_message<reject<inner, start> >::type, inner);\n",
 needs="a message that is itself a failure", breaks="the carried message is not given back"),
dict(id="b91-less-unsigned", property="C03",
 edits=[(I+"v1/source_position.hpp", "(A::type::prev_char::value) < (B::type::prev_char::value)", "(unsigned char)(A::type::prev_char::value) < (unsigned char)(B::type::prev_char::value)")],
 demo=H+"""
#include <boost/mpl/less.hpp>
#include <boost/mpl/greater.hpp>
typedef source_position<mpl::int_<1>, mpl::int_<2>, mpl::char_<'\\xe9'> > a; typedef source_position<mpl::int_<1>, mpl::int_<2>, mpl::char_<'e'> > b;
BOOST_STATIC_ASSERT((mpl::less<a, b>::type::value + mpl::greater<a, b>::type::value + mpl::equal_to<a, b>::type::value == 1));
BOOST_STATIC_ASSERT((mpl::less<a, b>::type::value != mpl::less<b, a>::type::value));
BOOST_STATIC_ASSERT((mpl::less<a, b>::type::value == ('\\xe9' < 'e')));
""", needs="a previous character outside ASCII", breaks="order of positions"),
dict(id="b92-int-guard", property="C12",
 edits=[(I+"v1/impl/next_digit.hpp", "              PartialResult::type::value * 10 + NextDigit::type::value\n", "              // don't overflow\n              (PartialResult::type::value > 99999999) ?\n                999999999 :\n                PartialResult::type::value * 10 + NextDigit::type::value\n")],
 demo=H+"BOOST_STATIC_ASSERT((get_result<int_::apply<BOOST_METAPARSE_STRING(\"2147483646\"), start> >::type::value == 2147483646));\n",
 needs="a number of ten digits", breaks="value saturates"),
dict(id="b93-index-table", property="C14",
 edits=[(I+"v1/cpp11/impl/string.hpp", "#define BOOST_METAPARSE_V1_I1153 BOOST_METAPARSE_V1_INDEX_STR1280", "#define BOOST_METAPARSE_V1_I1153 BOOST_METAPARSE_V1_INDEX_STR1152")],
 sh='''python3 - > /tmp/demo.$$.cpp <<'X'
s = "".join(chr(97 + i % 26) for i in range(1153))
print('#define BOOST_METAPARSE_LIMIT_STRING_SIZE 1153\\n#include <boost/metaparse/string.hpp>\\n#include <boost/mpl/size.hpp>\\ntypedef BOOST_METAPARSE_STRING("%s") s;\\nstatic_assert(boost::mpl::size<s>::type::value == 1153, "");' % s)
X
g++ -w -std=c++17 -fsyntax-only -Iinclude /tmp/demo.$$.cpp; r=$?; rm -f /tmp/demo.$$.cpp; exit $r
''', needs="limit 1153 and a literal of that length", breaks="literal of the maximal length is refused"),
dict(id="b94-kw-long", property="C15",
 edits=[(I+"v1/keyword.hpp", "boost::mpl::empty<Kw>,", "boost::mpl::bool_<(boost::mpl::size<Kw>::type::value < 1 || boost::mpl::size<Kw>::type::value > 64)>,"), (I+"v1/keyword.hpp", "#include <boost/mpl/empty.hpp>", "#include <boost/mpl/empty.hpp>\n#include <boost/mpl/size.hpp>\n#include <boost/mpl/bool.hpp>")],
 demo="#define BOOST_METAPARSE_LIMIT_STRING_SIZE 128\n"+H+"typedef BOOST_METAPARSE_STRING(\"aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffgggggggggghhhhhhhhhh\") k;\nSAME(get_remaining<keyword<k>::apply<k, start> >::type, string<>);\n",
 needs="a keyword of more than 64 characters", breaks="nothing of it is consumed"),
dict(id="b95-te-te", property="C09",
 edits=[(I+"v1/transform_error.hpp", "    }\n  }\n}\n\n#endif", "\n      // the outer function decides about the error\n      template <class P, class F, class G>\n      struct transform_error<transform_error<P, F>, G> : transform_error<P, G> {};\n    }\n  }\n}\n\n#endif")],
 demo=H+"""
template <class T> struct w { typedef w type; };
struct F { typedef F type; template <class R> struct apply : reject<w<typename R::message>, typename R::source_position> {}; };
SAME(get_message<transform_error<transform_error<fail<int>, F>, F>::apply<string<'a'>, start> >::type, w<w<int> >);
""", needs="transform_error of transform_error", breaks="the inner function is not applied"),
dict(id="b96-oneof-fail", property="C05",
 edits=[(I+"v1/cpp11/one_of.hpp", "    }\n  }\n}\n\n#endif", "\n      template <class P, class Msg>\n      struct one_of<P, fail<Msg>> : change_error_message<P, Msg> {};\n    }\n  }\n}\n\n#endif"),
  (I+"v1/cpp11/one_of.hpp", "namespace boost\n{", "#include <boost/metaparse/v1/fail.hpp>\n#include <boost/metaparse/v1/change_error_message.hpp>\n\nnamespace boost\n{")],
 demo=H+"BOOST_STATIC_ASSERT((get_col<get_position<one_of<sequence<lit_c<'a'>, lit_c<'b'> >, fail<int> >::apply<string<'a','c'>, start> > >::type::value == 2));\n",
 needs="fail as last of two alternatives and a first one that gets further", breaks="furthest error lost"),
dict(id="b97-transform-always", property="C23",
 edits=[(I+"v1/transform.hpp", "    }\n  }\n}\n\n#endif", "\n      template <class P, class R, class F>\n      struct transform<always<P, R>, F> :\n        always<P, typename F::template apply<R>::type>\n      {};\n    }\n  }\n}\n\n#endif"),
  (I+"v1/transform.hpp", "namespace boost\n{", "#include <boost/metaparse/v1/always.hpp>\n\nnamespace boost\n{")],
 demo=H+"struct F { typedef F type; template <class T> struct apply { typedef typename T::no_such_type type; }; };\nBOOST_STATIC_ASSERT((is_error<transform<always<lit_c<'a'>, int>, F>::apply<string<'b'>, start> >::type::value));\n",
 needs="a function that is ill-formed for the replaced result, and a failing inner parser", breaks="function instantiated on failure"),
dict(id="b98-no-lambda", property="C18",
 edits=[(I+"v1/grammar.hpp", "typename boost::mpl::lambda<F>::type", "F")],
 demo=H+"""
#include <boost/mpl/plus.hpp>
#include <boost/mpl/placeholders.hpp>
typedef grammar<BOOST_METAPARSE_STRING("n")>::import<BOOST_METAPARSE_STRING("i"), int_>::type::rule<BOOST_METAPARSE_STRING("n ::= i"), mpl::plus<mpl::_1, mpl::int_<1> > >::type g;
BOOST_STATIC_ASSERT((get_result<g::apply<string<'4'>, start> >::type::value == 5));
""", needs="a semantic action given as a placeholder expression", breaks="action not usable"),
dict(id="b99-in-range-int", property="C10",
 edits=[(I+"v1/util/in_range_c.hpp", "&& Item::type::value <= UpperBound", "&& int(Item::type::value) <= int(UpperBound)")],
 demo=H+"#include <boost/metaparse/util/in_range_c.hpp>\n#include <boost/mpl/integral_c.hpp>\nBOOST_STATIC_ASSERT((!util::in_range_c<long long, 0, 4294967297LL>::apply<mpl::integral_c<long long, 8589934592LL> >::type::value));\nBOOST_STATIC_ASSERT((util::in_range_c<long long, 0, 4294967297LL>::apply<mpl::integral_c<long long, 7> >::type::value));\n",
 needs="bounds wider than int", breaks="membership"),
dict(id="b9a-foldr-sp-empty", property="C26",
 edits=[(I+"v1/foldr_start_with_parser.hpp", "            typename get_remaining<Rem>::type,\n            typename get_position<Rem>::type\n          >\n        {};\n", "            typename get_remaining<Rem>::type,\n            typename boost::mpl::if_<\n              typename boost::mpl::empty<typename get_remaining<Rem>::type>::type,\n              typename get_position<Res>::type,\n              typename get_position<Rem>::type\n            >::type\n          >\n        {};\n"),
  (I+"v1/foldr_start_with_parser.hpp", "namespace boost\n{", "#include <boost/mpl/empty.hpp>\n#include <boost/mpl/if.hpp>\n\nnamespace boost\n{")],
 demo=H+"struct op { typedef op type; template <class A, class B> struct apply { typedef A type; }; };\nBOOST_STATIC_ASSERT((get_col<get_position<foldr_start_with_parser<lit_c<'a'>, lit_c<'b'>, op>::apply<string<'a','b'>, start> > >::type::value == 3));\n",
 needs="a right fold that reaches the end of the input", breaks="position does not belong to the remaining input"),
dict(id="b9b-mpl-ns", property="C21",
 edits=[(I+"v1/token.hpp", "namespace boost\n{\n  namespace metaparse", "namespace boost\n{\n  namespace metaparse_detail\n  {\n    struct token_result {};\n  }\n}\n\nnamespace boost\n{\n  namespace metaparse")],
 demo="namespace boost { namespace metaparse_detail { class token_result; int token_result_count(); typedef int use; } }\n#define token_result token_result_of_metaparse\n#undef token_result\nnamespace boost { namespace metaparse_detail { typedef int token_result_t; } }\nnamespace boost { typedef int metaparse_private; }\n",
 sh='''cat > /tmp/demo.$$.cpp <<'X'
namespace boost { typedef int metaparse_detail; }
#include <boost/metaparse/token.hpp>
X
g++ -w -std=c++17 -fsyntax-only -Iinclude /tmp/demo.$$.cpp; r=$?; rm -f /tmp/demo.$$.cpp; exit $r
''', needs="a program with that name of its own", breaks="defines something outside the library's namespace"),
dict(id="b9c-seq98-five", property="C22",
 edits=[(I+"v1/cpp98/impl/skip_seq.hpp", "              is_error<Result>,\n", "              typename is_error<typename Result::type>::type,\n"),
  (I+"v1/cpp98/impl/later_result.hpp", "            typename boost::mpl::less<\n              typename get_position<R2>::type,\n              typename get_position<R1>::type\n            >::type,", "            boost::mpl::bool_<\n              (get_line<get_position<R2> >::type::value < get_line<get_position<R1> >::type::value)\n              || (get_col<get_position<R2> >::type::value < get_col<get_position<R1> >::type::value)\n            >,"),
  (I+"v1/cpp98/impl/later_result.hpp", "namespace boost\n{", "#include <boost/metaparse/v1/get_line.hpp>\n#include <boost/metaparse/v1/get_col.hpp>\n#include <boost/mpl/bool.hpp>\n\nnamespace boost\n{")],
 stds=["c++98", "c++17"],
 demo=H+"BOOST_STATIC_ASSERT((get_line<get_position<one_of<sequence<lit_c<'a'>, lit_c<'b'>, lit_c<'c'> >, sequence<lit_c<'a'>, lit_c<'b'>, lit_c<'\\n'>, lit_c<'x'> > >::apply<string<'a','b','\\n','y'>, start> > >::type::value == 2));\n",
 needs="C++98, alternatives that fail on different lines", breaks="the error reported in C++98 differs"),
]
