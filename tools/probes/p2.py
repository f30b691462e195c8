V = I + "v1/"
PROBES = [
("static_const", "C21", [(V+"impl/next_digit.hpp", "        struct next_digit", "        static const int base = 10;\n        struct next_digit"), (V+"impl/next_digit.hpp", "PartialResult::type::value * 10 +", "PartialResult::type::value * base +")]),
("static_const_used", "C21", [(V+"error/index_out_of_range.hpp", "        template <int From, int To, int N>", "        static const char text[] = \"index (\";\n        template <int From, int To, int N>"), (V+"error/index_out_of_range.hpp", "<< \"index (\" <<", "<< text <<")]),
("static_ref_used", "C21", [(V+"error/index_out_of_range.hpp", "        template <int From, int To, int N>", "        static const int zero = 0;\n        template <int From, int To, int N>"), (V+"error/index_out_of_range.hpp", "std::ostringstream s;", "std::ostringstream s; const int& z = zero; (void)z;")]),
]
