V = I + "v1/"
END = "    }\n  }\n}\n\n#endif"
def spec(f, code, *incs):
    e = [(V + f, END, "\n" + code + END)]
    if incs: e.append((V + f, "namespace boost\n{", "".join("#include <boost/metaparse/v1/%s.hpp>\n" % x if not x.startswith("<") else "#include %s\n" % x for x in incs) + "\nnamespace boost\n{"))
    return e
PROBES = [
("except_except", "C08", spec("except.hpp", "      template <class P, class R1, class M1, class R2, class M2>\n      struct except<except<P, R1, M1>, R2, M2> : always<look_ahead<P>, R2> {};\n", "always", "look_ahead")),
("transform_always", "C09 C23", spec("transform.hpp", "      template <class P, class R, class F>\n      struct transform<always<P, R>, F> : always<P, typename F::template apply<R>::type> {};\n", "always")),
("transform_ret", "C09", spec("transform.hpp", "      template <class R, class F>\n      struct transform<return_<R>, F> : return_<typename F::template apply<R> > {};\n", "return_")),
("iter1", "C16 C23", spec("iterate_c.hpp", "      template <class P>\n      struct iterate_c<P, 1> : sequence<P> {};\n      template <class P>\n      struct iterate_c<P, 2> : sequence<P, P> {};\n", "sequence")),
("iter_ret", "C16", spec("iterate_c.hpp", "      template <class R, int N>\n      struct iterate_c<return_<R>, N> : sequence<return_<R> > {};\n", "sequence", "return_")),
("kw1", "C15", spec("keyword.hpp", "      template <char C>\n      struct keyword<string<C>, impl::void_> : lit_c<C> {};\n", "lit_c", "string")),
("kw1b", "C15", spec("keyword.hpp", "      template <char C, class R>\n      struct keyword<string<C>, R> : always<lit_c<C>, typename R::type> {};\n", "lit_c", "string", "always")),
("entire_entire", "C15", spec("entire_input.hpp", "      template <class P, class M1, class M2>\n      struct entire_input<entire_input<P, M1>, M2> : entire_input<P, M2> {};\n")),
("range1", "C11", spec("range_c.hpp", "      template <char C>\n      struct range_c<C, C> : lit_c<C> {};\n", "lit_c")),
("token_empty", "C15", spec("token.hpp", "      template <class R>\n      struct token<empty<R> > : empty<R> {};\n      template <class R>\n      struct token<return_<R> > : return_<R> {};\n", "empty", "return_")),
("la_la", "C08", spec("look_ahead.hpp", "      template <class P, class D>\n      struct look_ahead<optional<P, D> > : optional<P, D> {};\n", "optional")),
("opt_opt", "C08", spec("optional.hpp", "      template <class P, class D1, class D2>\n      struct optional<optional<P, D1>, D2> : optional<P, D2> {};\n")),
("opt_seq", "C08 C26", spec("optional.hpp", "      template <class P, class D>\n      struct optional<token<P>, D> : token<optional<P, D> > {};\n", "token")),
("cem_cem", "C09", spec("change_error_message.hpp", "      template <class P, class M1, class M2>\n      struct change_error_message<change_error_message<P, M1>, M2> : change_error_message<P, M1> {};\n")),
("cem_seq", "C09", spec("change_error_message.hpp", "      template <class P, class M>\n      struct change_error_message<token<P>, M> : token<change_error_message<P, M> > {};\n      template <class P, class M>\n      struct change_error_message<repeated1<P>, M> : repeated1<change_error_message<P, M> > {};\n", "token", "repeated1")),
("te_te", "C09", spec("transform_error.hpp", "      template <class P, class F, class G>\n      struct transform_error<transform_error<P, F>, G> : transform_error<P, G> {};\n")),
("te_opt", "C09", spec("transform_error.hpp", "      template <class P, class D, class G>\n      struct transform_error<optional<P, D>, G> : optional<transform_error<P, G>, D> {};\n", "optional")),
("rep_token", "C06", spec("repeated.hpp", "      template <class P>\n      struct repeated<token<P> > : token<repeated<P> > {};\n", "token")),
("rep_tr", "C06", spec("repeated.hpp", "      template <class P, class R>\n      struct repeated<always<P, R> > : always<repeated<P>, R> {};\n", "always")),
("rep_rep1", "C06", spec("repeated.hpp", "      template <class P>\n      struct repeated<repeated1<P> > : repeated<P> {};\n", "repeated1")),
("if_if", "C08", spec("if_.hpp", "      template <class P, class R, class M, class T, class F>\n      struct if_<except<P, R, M>, T, F> : if_<P, F, F> {};\n", "except")),
("empty_void", "C15", spec("empty.hpp", "      template <class R>\n      struct empty<const R> : empty<R> {};\n")),
("mid_same", "C04", spec("middle_of.hpp", "      template <class P, class Q>\n      struct middle_of<P, Q, P> : nth_of_c<1, P, Q, P> {};\n", "nth_of_c")),
("fafce_opt", "C08", spec("fail_at_first_char_expected.hpp", "      template <class P>\n      struct fail_at_first_char_expected<token<P> > : fail_at_first_char_expected<P> {};\n      template <class P>\n      struct fail_at_first_char_expected<fail_at_first_char_expected<P> > : look_ahead<P> {};\n", "token", "look_ahead")),
("foldl_ri_one", "C07", spec("foldl_reject_incomplete.hpp", "      template <class St, class Op>\n      struct foldl_reject_incomplete<one_char, St, Op> : foldl<one_char, St, Op> {};\n      template <class P, class St, class Op>\n      struct foldl_reject_incomplete<token<P>, St, Op> : foldl<token<P>, St, Op> {};\n", "one_char", "foldl", "token")),
("foldl_ri_lastof", "C07", spec("foldl_reject_incomplete.hpp", "      template <char C, class St, class Op>\n      struct foldl_reject_incomplete<keyword<string<C> >, St, Op> : foldl<keyword<string<C> >, St, Op> {};\n      template <class P, class M, class St, class Op>\n      struct foldl_reject_incomplete<change_error_message<P, M>, St, Op> : change_error_message<foldl_reject_incomplete<P, St, Op>, M> {};\n", "keyword", "foldl", "string", "change_error_message")),
("always_transform", "C09", spec("always.hpp", "      template <class P, class F, class R>\n      struct always<transform<P, F>, R> : always<P, R> {};\n", "transform")),
("always_opt", "C09", spec("always.hpp", "      template <class P, class D, class R>\n      struct always<optional<P, D>, R> : optional<always<P, R>, D> {};\n", "optional")),
("tem_tem", "C09", spec("transform_error_message.hpp", "      template <class P, class F, class G>\n      struct transform_error_message<change_error_message<P, F>, G> : change_error_message<P, typename G::template apply<F>::type> {};\n      template <class P, class M, class G>\n      struct transform_error_message<entire_input<P, M>, G> : entire_input<P, typename G::template apply<M>::type> {};\n", "change_error_message", "entire_input")),
("unless_accept", "C01", spec("unless_error.hpp", "      template <class R, class Rem, class Pos, class N>\n      struct unless_error<accept<R, Rem, Pos>, N> : N {};\n      template <class M, class Pos, class N>\n      struct unless_error<reject<M, Pos>, N> { typedef reject<M, Pos> type; };\n", "accept", "reject")),
("seq_ret11", "C04 C22", spec("cpp11/first_of.hpp", "      template <class R, class... Ps>\n      struct first_of<return_<R>, Ps...> : always<sequence<Ps...>, R> {};\n", "return_", "always", "sequence")),
("oneof_ret11", "C05 C22", spec("cpp11/one_of.hpp", "      template <class P, class R>\n      struct one_of<P, fail<R> > : change_error_message<P, R> {};\n", "fail", "change_error_message")),
("oneof_lits", "C05", spec("cpp11/one_of.hpp", "      template <char A, char B>\n      struct one_of<lit_c<A>, lit_c<B> > : one_of_c<A, B> {};\n", "lit_c", "one_of_c")),
("last_kw", "C04", spec("cpp11/last_of.hpp", "      template <class K, class R, class... Ps>\n      struct last_of<keyword<K, R>, keyword<K, R>, Ps...> : last_of<keyword<K, R>, Ps...> {};\n", "keyword")),
]
