V = I + "v1/"
def fwd(n): return [(I + n + ".hpp", "#include <boost/metaparse/v1/%s.hpp>" % n, "#include <boost/metaparse/v1/fwd/%s.hpp>" % n)]
def lim(n, a, b): return [(I + "limit_%s_size.hpp" % n, "_SIZE %d" % a, "_SIZE %d" % b)]
PROBES = [
("fwd_build", "C20", fwd("build_parser")), ("fwd_col", "C20", fwd("get_col")), ("fwd_prev", "C20", fwd("get_prev_char")), ("fwd_next_char", "C20", fwd("next_char")), ("fwd_next_line", "C20", fwd("next_line")),
("lim_oneof", "C24", lim("one_of", 20, 19)), ("lim_seq", "C24", lim("sequence", 5, 6)), ("lim_exc", "C24", lim("one_char_except", 10, 9)), ("lim_str", "C24", lim("string", 32, 31)), ("lim_str2", "C24", lim("string", 32, 33)),
("lit_eager", "C11", [(V + "lit.hpp", "C::type::value", "C::value")]),
("range_eager", "C11", [(V + "range.hpp", "To::type::value", "To::value")]),
("iterate_eager", "C16", [(V + "iterate.hpp", "N::type::value", "N::value")]),
("nth_eager", "C04", [(V + "cpp11/nth_of.hpp", "K::type::value", "K::value")]),
("iterate_char", "C16", [(V + "iterate.hpp", "N::type::value", "static_cast<signed char>(N::type::value)")]),
("nth_uchar", "C04", [(V + "cpp11/nth_of.hpp", "K::type::value", "static_cast<unsigned char>(K::type::value)")]),
("nth_abs", "C04", [(V + "cpp11/nth_of.hpp", "K::type::value", "(K::type::value & 0x7fff)")]),
("adv_eager", "C13", [(V + "impl/string_iterator.hpp", "typename S::type, N::type::value", "typename S::type, N::value")]),
("adv_abs", "C13", [(V + "impl/string_iterator.hpp", "boost::mpl::int_<B - A>", "boost::mpl::int_<(B < A ? A - B : B - A)>")]),
("fail_twice", "C17", [(V + "build_parser.hpp", "BOOST_STATIC_ASSERT(Line == Line + 1);", "BOOST_STATIC_ASSERT(Line == Line + 1 || Col > 4096);")]),
("kw_pos", "C15", [(V + "keyword.hpp", "boost::mpl::empty<Kw>,\n            return_<ResultType>", "boost::mpl::empty<Kw>,\n            return_<typename ResultType::type>")]),
("inc_first_of", "C21 C20 C04", [(V + "first_of.hpp", "#include <boost/metaparse/config.hpp>\n", "")]),
("inc_srcpos", "C20", fwd("source_position")),
]
PROBES += [
("eager_iter", "C23", [(V + "iterate_c.hpp", "typedef iterate_c type;", "typedef iterate_c type;\n        typedef typename P::type parser_type;")]),
("eager_opt", "C23", [(V + "optional.hpp", "typedef optional type;", "typedef optional type;\n        typedef typename P::type parser_type;")]),
("eager_foldl", "C23", [(V + "foldl.hpp", "typedef foldl type;", "typedef foldl type;\n        typedef typename P::type parser_type;")]),
("eager_la", "C23", [(V + "look_ahead.hpp", "typedef look_ahead type;", "typedef look_ahead type;\n        typedef typename P::type parser_type;")]),
]
