H = """
#include <boost/metaparse.hpp>
#include <boost/static_assert.hpp>
#include <boost/type_traits/is_same.hpp>
#include <boost/mpl/equal.hpp>
#include <boost/mpl/vector_c.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/size.hpp>
#include <boost/mpl/at.hpp>
using namespace boost::metaparse;
namespace mpl = boost::mpl;
"""
BUGS = [
dict(id="b9d-fwd-accept", property="C20",
 edits=[(I+"v1/except.hpp", "#include <boost/metaparse/v1/accept.hpp>", "#include <boost/metaparse/v1/fwd/accept.hpp>")],
 demo="#include <boost/metaparse/except.hpp>\n#include <boost/metaparse/fail.hpp>\n#include <boost/metaparse/start.hpp>\nstruct M { typedef M type; }; struct S { typedef S type; };\ntypedef boost::metaparse::except<boost::metaparse::fail<M>, S, M>::apply<S, boost::metaparse::start>::type t;\nenum { n = sizeof(t) };\n",
 needs="a program that includes no other header that completes accept", breaks="the header's template cannot be used with that header alone"),
dict(id="b9e-no-config", property="C21",
 edits=[(I+"v1/first_of.hpp", "#include <boost/metaparse/config.hpp>\n", "")],
 demo="#include <boost/metaparse/v1/first_of.hpp>\n#include <boost/metaparse/v1/one_char.hpp>\n#include <boost/metaparse/v1/start.hpp>\n#include <boost/metaparse/v1/string.hpp>\nusing namespace boost::metaparse::v1;\ntypedef first_of<one_char, one_char, one_char, one_char, one_char, one_char>::apply<string<'a','b','c','d','e','f'>, start>::type t;\n",
 needs="a translation unit where this is the first header of the library, C++11 on", breaks="the definition depends on the translation unit"),
dict(id="b9f-crlflf", property="C02",
 edits=[(I+"v1/one_char.hpp", "            next_char<Pos, C>\n", "            next_char<\n              Pos,\n              boost::mpl::eval_if<\n                boost::mpl::bool_<C::type::value == '\\n'>,\n                get_prev_char<Pos>,\n                C\n              >\n            >\n")],
 demo=H+"BOOST_STATIC_ASSERT((get_line<get_position<iterate_c<one_char, 3>::apply<string<'\\r','\\n','\\n'>, start> > >::type::value == 3));\n",
 needs="a carriage return and two line feeds", breaks="the empty line after CR LF is not counted"),
dict(id="b9g-report-entire", property="C25",
 edits=[(I+"v1/debug_parsing_error.hpp", "        debug_parsing_error<P, S>\n      {};\n    }", "        debug_parsing_error<token<P>, S>\n      {};\n    }"),
        (I+"v1/debug_parsing_error.hpp", "#include <boost/metaparse/v1/is_error.hpp>\n", "#include <boost/metaparse/v1/is_error.hpp>\n#include <boost/metaparse/v1/token.hpp>\n")],
 files={"a.cpp": "#include <boost/metaparse/debug_parsing_error.hpp>\n#include <boost/metaparse/build_parser.hpp>\n#include <boost/metaparse/lit_c.hpp>\n#include <boost/metaparse/string.hpp>\nusing namespace boost::metaparse;\n#ifdef BUILT\ndebug_parsing_error<build_parser<lit_c<'a'> >, string<'a',' ','b'> > x;\n#else\ndebug_parsing_error<lit_c<'a'>, string<'a',' ','b'> > x;\n#endif\nint main() {}\n"},
 sh='''t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -w -std=c++17 -Iinclude "$d/a.cpp" -o $t/a && g++ -w -std=c++17 -Iinclude -DBUILT "$d/a.cpp" -o $t/b || exit 1
[ "$($t/a)" = "$($t/b)" ]
''', needs="a finished parser given to the report, white space after what it consumes", breaks="the reported remaining input is shorter"),
dict(id="b9h-foldl-sp-eager", property="C23",
 edits=[(I+"v1/foldl_start_with_parser.hpp", "      private:\n        template <class Res>", "      private:\n        typedef typename P::type item_parser;\n\n        template <class Res>")],
 demo=H+"struct op { typedef op type; template <class A, class B> struct apply { typedef A type; }; };\nstruct nested; struct nested : foldl_start_with_parser<nested, lit_c<'('>, op> {};\nBOOST_STATIC_ASSERT((!is_error<nested::apply<string<'(','('>, start> >::type::value));\n",
 needs="a fold over a parser that is defined by the fold itself", breaks="the self-referring definition does not compile"),
]
