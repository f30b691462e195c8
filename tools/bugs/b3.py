H = """
#include <boost/metaparse.hpp>
#include <boost/static_assert.hpp>
#include <boost/type_traits/is_same.hpp>
#include <boost/mpl/equal.hpp>
#include <boost/mpl/vector_c.hpp>
#include <boost/mpl/vector.hpp>
using namespace boost::metaparse;
namespace mpl = boost::mpl;
"""
BUGS = [
dict(id="b50-middle-nowrap", property="C04",
 edits=[(I+"v1/error/unpaired.hpp", "          struct apply : unpaired<Line, Col, Msg> {};", "          struct apply : unpaired<Line, Col, Msg> {};\n\n          // do not wrap twice\n          template <int L, int C, class M>\n          struct apply<unpaired<L, C, M> > : unpaired<L, C, M> {};")],
 demo=H+"""
typedef error::literal_expected<')'> LE;
typedef middle_of<lit_c<'('>, lit_c<'a'>, middle_of<lit_c<'['>, lit_c<'b'>, lit_c<']'> > > p;
typedef p::apply<string<'(','a','[','b','x'>, start> r;
BOOST_STATIC_ASSERT((boost::is_same<get_message<r>::type, error::unpaired<1, 1, error::unpaired<1, 3, error::literal_expected<']'> > > >::value));
""", needs="the third part fails with an unpaired message itself", breaks="the message is not wrapped with the place of the outer form"),
dict(id="b51-tem-end", property="C09",
 edits=[(I+"v1/transform_error_message.hpp", "            typename F::template apply<typename get_message<R>::type>::type,\n            get_position<R>\n          >\n        {};", "            typename F::template apply<typename get_message<R>::type>::type,\n            get_position<R>\n          >\n        {};\n\n        template <class Pos>\n        struct rejection<reject<error::unexpected_end_of_input, Pos> > :\n          reject<error::unexpected_end_of_input, Pos>\n        {};"),
        (I+"v1/transform_error_message.hpp", "rejection<typename P::template apply<S, Pos> >,", "rejection<typename P::template apply<S, Pos>::type>,"),
        (I+"v1/transform_error_message.hpp", "#include <boost/metaparse/v1/get_message.hpp>\n", "#include <boost/metaparse/v1/get_message.hpp>\n#include <boost/metaparse/v1/error/unexpected_end_of_input.hpp>\n")],
 demo=H+"""
struct F { typedef F type; template <class M> struct apply { typedef mpl::vector<M> type; }; };
typedef transform_error_message<one_char, F>::apply<string<>, start> r;
BOOST_STATIC_ASSERT((boost::is_same<get_message<r>::type, mpl::vector<error::unexpected_end_of_input> >::value));
""", needs="end of input", breaks="the message is not transformed"),
dict(id="b52-optional-empty", property="C08",
 edits=[(I+"v1/look_ahead.hpp", "        struct apply :\n", "        struct apply;\n\n        template <class Pos>\n        struct apply<string<>, Pos> : P::template apply<string<>, Pos> {};\n\n        template <class S, class Pos>\n        struct apply :\n")] if False else
       [(I+"v1/except.hpp", "            accept<Result, S, Pos>,", "            boost::mpl::if_<\n              boost::is_same<\n                typename get_message<typename P::template apply<S, Pos> >::type,\n                error::unexpected_end_of_input\n              >,\n              typename P::template apply<S, Pos>,\n              accept<Result, S, Pos>\n            >::type,")],
 demo=H+"""
BOOST_STATIC_ASSERT(!is_error<except<one_char, int, char>::apply<string<>, start> >::type::value);
""", needs="-", breaks="-"),
dict(id="b53-parsed-tail", property="C18",
 edits=[(I+"v1/grammar.hpp", "build_parser<entire_input<rule_definition> > parser_parser;", "build_parser<rule_definition> parser_parser;")],
 demo=H+"""
""", sh='cat > /dev/null <<X\nX\nt=$(mktemp -d); printf \'#include <boost/metaparse.hpp>\\nusing namespace boost::metaparse;\\ntypedef grammar<>::rule<string<83,58,58,61,39,97,39,41> >::type::apply<string<97>, start>::type r;\\n\' > $t/a.cpp; g++ -w -std=c++17 -fsyntax-only -Iinclude $t/a.cpp 2>/dev/null; r=$?; rm -r "$t"; [ $r -ne 0 ]\n',
 needs="a rule with a superfluous closing bracket", breaks="the rest of the rule text is ignored silently"),
dict(id="b54-string-nul", property="C14", stds=["c++11", "c++17"],
 edits=[(I+"v1/cpp11/impl/string_at.hpp", "return n >= Len - 1 ? T() : s[n];", "return n >= Len - 1 || (n > 255 && s[n - 1] == T()) ? T() : s[n];")],
 demo=H, needs="-", breaks="-"),
dict(id="b55-import-action", property="C18",
 edits=[(I+"v1/grammar.hpp", """            >::type,
            Actions
          >
        {};
      }
""", """            >::type,
            typename boost::mpl::erase_key<Actions, Name>::type
          >
        {};
      }
"""), (I+"v1/grammar.hpp", "#include <boost/mpl/insert.hpp>", "#include <boost/mpl/erase_key.hpp>\n#include <boost/mpl/insert.hpp>")],
 demo=H, needs="-", breaks="-"),
dict(id="b56-debug-col", property="C25",
 edits=[(I+"v1/debug_parsing_error.hpp", "typedef display<typename P::template apply<S, start>::type> runner;", "typedef display<typename P::type::template apply<typename S::type, start>::type> runner;")],
 demo=H, needs="-", breaks="-"),
dict(id="b57-nth98-first", property="C22", stds=["c++98"],
 edits=[(I+"v1/cpp98/impl/nth_of_c_impl.hpp", "XX", "YY")], demo=H, needs="-", breaks="-"),
]
BUGS = [b for b in BUGS if b["needs"] != "-"]
