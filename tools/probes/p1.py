V = I + "v1/"
PROBES = [
("unless_identity", "C01", [(V+"unless_error.hpp", "T, NotErrorCase>\n      {};", "boost::mpl::identity<T>, NotErrorCase>\n      {};"), (V+"unless_error.hpp", "#include <boost/mpl/eval_if.hpp>", "#include <boost/mpl/eval_if.hpp>\n#include <boost/mpl/identity.hpp>")]),
("crlf_col", "C02", [(V+"one_char.hpp", "get_prev_char<Pos>::type::value != '\\r'", "(get_prev_char<Pos>::type::value != '\\r' || get_col<Pos>::type::value != 1)"), (V+"one_char.hpp", "#include <boost/metaparse/v1/next_char.hpp>", "#include <boost/metaparse/v1/next_char.hpp>\n#include <boost/metaparse/v1/get_col.hpp>")]),
("less_unsigned", "C03", [(V+"source_position.hpp", "(A::type::prev_char::value) < (B::type::prev_char::value)", "(unsigned char)(A::type::prev_char::value) < (unsigned char)(B::type::prev_char::value)")]),
("equal_eager", "C03", [(V+"source_position.hpp", "A::type::line::value == B::type::line::value", "A::line::value == B::type::line::value")]),
("ri_same", "C07", [(V+"foldl_reject_incomplete.hpp", "boost::mpl::equal_to<", "boost::is_same<"), (V+"foldl_reject_incomplete.hpp", "#include <boost/mpl/equal_to.hpp>", "#include <boost/mpl/equal_to.hpp>\n#include <boost/type_traits/is_same.hpp>")]),
("fafce_same", "C08", [(V+"fail_at_first_char_expected.hpp", "boost::mpl::equal_to<\n              Pos,", "boost::is_same<\n              typename Pos::type,"), (V+"fail_at_first_char_expected.hpp", "#include <boost/mpl/equal_to.hpp>", "#include <boost/mpl/equal_to.hpp>\n#include <boost/type_traits/is_same.hpp>")]),
("accept_when_eq", "C09", [(V+"accept_when.hpp", "boost::mpl::eval_if<\n              typename Pred::template apply<\n                typename get_result<typename P::template apply<S, Pos> >::type\n              >::type,", "boost::mpl::eval_if_c<\n              Pred::template apply<\n                typename get_result<typename P::template apply<S, Pos> >::type\n              >::type::value == 1,")]),
("in_range_int", "C10", [(V+"util/in_range_c.hpp", "&& Item::type::value <= UpperBound", "&& int(Item::type::value) <= int(UpperBound)")]),
("in_range_T", "C10", [(V+"util/in_range_c.hpp", "LowerBound <= Item::type::value\n", "LowerBound <= static_cast<T>(Item::type::value)\n")]),
("iter_eq_other", "C13", [(V+"impl/string_iterator.hpp", "struct apply : false_ {};", "struct apply : true_ {};")]),
("string_eq_other", "C13", [(V+"cpp11/string.hpp", "struct apply : false_ {};", "struct apply : true_ {};")]),
("pop_front_T", "C13 C26", [(V+"cpp11/string.hpp", "struct apply : boost::metaparse::v1::impl::pop_front<S> {};", "struct apply : boost::metaparse::v1::impl::pop_front<typename S::type>::type {};")]),
("no_lambda", "C18", [(V+"grammar.hpp", "typename boost::mpl::lambda<F>::type", "F")]),
("get_parser_start", "C18", [(V+"grammar.hpp", "              typename rebuild<Start>::type\n            >::type::template apply<S, Pos>", "              Start\n            >::type::template apply<S, Pos>")]),
("import_noname", "C18", [(V+"grammar.hpp", "add_import<grammar_builder, typename rebuild<Name>::type, P>", "add_import<grammar_builder, typename Name::type, P>")]),
("char_token_bs", "C18", [(V+"grammar.hpp", "one_char_except_c<'\\''>", "one_char_except_c<'\\'', '\\n'>")]),
("char_token_inner_space", "C18", [(V+"grammar.hpp", "            lit_c<'\\''>,\n            one_of<\n              last_of<", "            token<lit_c<'\\''> >,\n            one_of<\n              last_of<")]),
("void_anon", "C21", [(V+"impl/void_.hpp", "struct void_", "namespace { struct void_impl; }\n        struct void_")]),
("static_const", "C21", [(V+"impl/next_digit.hpp", "        struct next_digit", "        static const int base = 10;\n        struct next_digit"), (V+"impl/next_digit.hpp", "PartialResult::type::value * 10 +", "PartialResult::type::value * base +")]),
("using_global", "C21", [(V+"token.hpp", "namespace boost\n{\n  namespace metaparse", "namespace boost { namespace metaparse_detail { struct token_tag {}; } }\nnamespace boost\n{\n  namespace metaparse")]),
("boost_ns_using", "C21", [(V+"spaces.hpp", "    namespace v1\n    {\n", "    namespace v1\n    {\n      using namespace boost::mpl;\n")]),
("foldl_ri_eager", "C23", [(V+"foldl_reject_incomplete.hpp", "typename get_result<Res>::type\n            >,\n            ForwardOp", "typename get_result<Res>::type\n            >::type,\n            ForwardOp")]),
("foldl_eager", "C23 C06", [(V+"foldl.hpp", "typename get_result<Res>::type\n            >,\n            ForwardOp", "typename get_result<Res>::type\n            >::type,\n            ForwardOp")]),
("seq98_six", "C24", [(V+"cpp98/impl/sequence.hpp", "BOOST_PP_INC(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE),\n          BOOST_METAPARSE_SEQUENCE_CASE", "6,\n          BOOST_METAPARSE_SEQUENCE_CASE")]),
("kw_lazy", "C15", [(V+"keyword.hpp", "boost::mpl::empty<Kw>,", "boost::mpl::bool_<(boost::mpl::size<Kw>::type::value < 1 || boost::mpl::size<Kw>::type::value > 64)>,"), (V+"keyword.hpp", "#include <boost/mpl/empty.hpp>", "#include <boost/mpl/empty.hpp>\n#include <boost/mpl/size.hpp>\n#include <boost/mpl/bool.hpp>")]),
("accept_inner_type", "C01", [(V+"accept_tag.hpp", "struct apply : A::remaining {};", "struct apply { typedef typename A::remaining type; };")]),
("is_error_cv", "C01", [(V+"is_error.hpp", "typename boost::mpl::tag<typename T::type>::type", "typename boost::mpl::tag<T>::type")]),
("one_of_tie", "C05", [(V+"cpp11/impl/eval_later_result.hpp", "boost::mpl::less<", "boost::mpl::less_equal<"), (V+"cpp11/impl/eval_later_result.hpp", "#include <boost/mpl/less.hpp>", "#include <boost/mpl/less_equal.hpp>")]),
("mid_last_pos", "C04 C26", [(V+"cpp11/impl/nth_of_c_skip_remaining.hpp", "typename get_position<NextResult>::type,", "get_position<NextResult>,")]),
("report_type", "C25", [(V+"debug_parsing_error.hpp", "debug_parsing_error<P, S>\n      {};", "debug_parsing_error<transform<P, boost::mpl::quote1<boost::mpl::identity> >, S>\n      {};"), (V+"debug_parsing_error.hpp", "#include <boost/mpl/string.hpp>", "#include <boost/mpl/string.hpp>\n#include <boost/mpl/quote.hpp>\n#include <boost/mpl/identity.hpp>\n#include <boost/metaparse/v1/transform.hpp>")]),
("int_leading", "C12", [(V+"impl/next_digit.hpp", "PartialResult::type::value * 10 + NextDigit::type::value", "(PartialResult::type::value > 214748363 ? 2147483640 : PartialResult::type::value * 10) + NextDigit::type::value")]),
("define_err", "C19", [(V+"define_error.hpp", "return msg_", "return (msg_)[0] == ' ' ? &(msg_)[1] : msg_")]),
("limit_len", "C14 C24", [(V+"impl/assert_string_length.hpp", "(Len <= BOOST_METAPARSE_LIMIT_STRING_SIZE)", "(Len <= BOOST_METAPARSE_LIMIT_STRING_SIZE + (BOOST_METAPARSE_LIMIT_STRING_SIZE > 255))")]),
("repeated_one_of1_98", "C05", [(V+"cpp98/repeated_one_of1.hpp", "repeated1<", "repeated1</**/")]),
]
