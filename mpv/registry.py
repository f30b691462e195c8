from .props import outcome, comb, chars, strings, lang, iface, compose, limits, envlaws, sizes
class Check:
    def __init__(self, units=(), rules=(), minimum=10, explanation="", level="other", assumptions=(), technique="", note="", differential=False, second=()):
        self.units, self.rules, self.minimum, self.explanation = list(units), list(rules), minimum, explanation
        self.level, self.assumptions, self.technique, self.note = level, list(assumptions), technique, note
        self.differential, self.second = differential, tuple(second)

W = "compile-time witnesses: type-level obligations decided by the C++ front end (-fsyntax-only)"
SYM = W + " over uninterpreted parser, input, position and result types"
CF = " + compile-fail witnesses"
MODEL = W + " against an independent reference semantics"
BASE = ("Trusts g++'s template instantiation, Boost.MPL/Preprocessor 1.83 and the witness headers; says what it says for the "
        "compilers and standards used (g++ 13, C++98/11/14/17). Nothing is executed. ")
PARAM = ("Parsers, inputs, results, messages and operations are uninterpreted types, so a discharged obligation covers every program that instantiates the "
         "template with that shape (a template that does not name a type cannot tell it from another); shapes (arity, index, failing position, match count) are enumerated up to the stated sizes. ")
ENUM = "Character and number domains are enumerated (all 256 characters; for unbounded ints the boundary values and +-1 of every constant in the library's own source). "
A0 = ["the library does not specialise its templates on the witness' own private types", "g++ 13's front end implements the language"]

def C(units=(), rules=(), minimum=10, tech=W, expl="", note="", **kw):
    return Check(units, rules, minimum, expl, "other", A0, tech, note, **kw)

CHECKS = {
 "C01": C([outcome.c01], minimum=2500, tech=SYM,
    expl="accept/reject/return_/fail/unless_error and the accessors instantiated with 16 odd result types x remaining inputs x positions, direct, nested ::type, delayed and lazy; rule: every accessor gives back exactly the type put in and is_error is exact.",
    note=BASE + PARAM),
 "C02": C([outcome.c02], minimum=2500, tech=W + " by complete enumeration of characters",
    expl="one_char stepped over all 256 characters after every special previous character (thorough: all 256x256), all previous characters for every special one, line/column boundary values and +-1 of every literal in the source; all texts over {x,LF,CR} to length 5 (6); rule: position after = independently computed position.",
    note=BASE + ENUM),
 "C03": C([outcome.c03], minimum=3500, tech=W,
    expl="the six comparison operations on all pairs of 27 positions, chains of boundary values and all neighbouring characters, five integral representations, evaluated and unevaluated; rule: agreement with lexicographic order.",
    note=BASE + ENUM),
 "C04": C([comb.c04, sizes.c04, envlaws.laws("C04", (98, 17)), compose.nested("C04", (98, 17))], minimum=3500, tech=SYM,
    expl="sequence/first_of/last_of/nth_of/nth_of_c/middle_of/sequence_apply over symbolic parsers, every arity (1..5 in C++98, 1..8 or 12 from C++11 on), every failing index, every selected index and indices out of range; rule: outcome type equals the independently derived threading of state.",
    note=BASE + PARAM),
 "C05": C([comb.c05, sizes.c05, envlaws.laws("C05", (98, 17)), compose.nested("C05", (98, 17))], minimum=1800, tech=SYM,
    expl="one_of of 1..24 symbolic alternatives: every/selected winner, all relations of error positions for up to 3 (4) alternatives over 4 positions, furthest alternative by line, column and character at every place; repeated_one_of; rule: first success, else furthest error.",
    note=BASE + PARAM + "Which message survives a tie is not claimed."),
 "C06": C([comb.c06, sizes.c06, envlaws.laws("C06"), compose.nested("C06")], minimum=1800, tech=SYM,
    expl="all plain folds and repetitions over symbolic items for match counts 0..33, 66 (130) and +-1 of every literal in the source, free operation symbol so that order and association are visible, every way the ending attempt can fail; rule: result type equals the reference fold.",
    note=BASE + PARAM),
 "C07": C([comb.c07, sizes.c07, envlaws.laws("C07"), compose.nested("C07")], minimum=2500, tech=SYM,
    expl="all incomplete-rejecting folds over symbolic items for match counts up to 34 (70) x 7 relations of the ending error position to the attempt's start; rule: fails exactly when that position differs.",
    note=BASE + PARAM),
 "C08": C([comb.c08, envlaws.laws("C08"), compose.nested("C08")], minimum=2200, tech=SYM,
    expl="look_ahead, except, if_, optional, fail_at_first_char_expected over symbolic inner parsers, five starting positions x three inputs x nine error positions, 16 odd result types; rule: non-consumption and passed-on failures.",
    note=BASE + PARAM),
 "C09": C([comb.c09, envlaws.laws("C09"), compose.nested("C09")], minimum=500, tech=SYM,
    expl="transform, transform_error, transform_error_message, change_error_message, accept_when, always, always_c over symbolic inner parsers, functions and predicates and 16 odd types; rule: only the named field changes.",
    note=BASE + PARAM),
 "C10": C([chars.c10], minimum=6000, tech=W + " by complete enumeration of characters",
    expl="every predicate and digit conversion on all 256 character values in direct, curried and boxed form; ranges over boundary values; rule: table written from the documentation.",
    note=BASE + ENUM),
 "C11": C([chars.c11, sizes.c11], minimum=5000, tech=W + " by complete enumeration of characters",
    expl="every character parser on all 256 first characters with different continuations and on empty input; literals for all 256 characters; sets of every size 1..20 (and up to 94 from C++11 on); rule: accept exactly the set, consume one, documented message.",
    note=BASE + ENUM),
 "C12": C([chars.c12], minimum=2000, tech=W,
    expl="int_ on 0..129 (1099), all powers of ten +-1, boundary values, +-1 of every literal in the source, leading zeros up to 200 digits, all non-digit followers and first characters; rule: exact value, remaining input and position.",
    note=BASE + "The value domain is sampled at boundaries, not proved for all ints; mpl::int_<INT_MAX> is ill-formed in Boost.MPL itself and excluded."),
 "C13": C([strings.c13], [strings.c_str_ir], minimum=3500, tech=W + "; constant data of the generated character arrays read from LLVM IR in C++98",
    expl="every length 0..32 (and selected ones to 129/257 from C++11 on): size, access, both iteration directions, advance, distance, push/pop at both ends, equality; all 256 characters in every position class; c_str contents as constant expressions (C++11+) or as IR constants (C++98).",
    note=BASE + ENUM),
 "C14": C([strings.c14], [strings.macro_reject], minimum=3500, tech=W + CF,
    expl="every configured limit 1..2048 with a literal of exactly that length, selected lengths under the largest limit, all 256 characters including NUL, limit changed between uses in one translation unit; over-long literals have to be refused.",
    note=BASE),
 "C15": C([lang.c15, sizes.c15, envlaws.laws("C15"), compose.nested("C15")], minimum=3000, tech=SYM,
    expl="keyword with every length 0..12, 20 (30) and every mismatch position, all whitespace runs to length 3 and longer ones, all 256 following characters, entire_input/empty on every first remaining character; rule: independent prediction.",
    note=BASE + ENUM + PARAM),
 "C16": C([comb.c16, sizes.c16, envlaws.laws("C16"), compose.nested("C16")], minimum=1000, tech=SYM,
    expl="iterate/iterate_c for counts 0..33 and +-1 of every literal in the source with every failing application; rule: n-fold threading of state.",
    note=BASE + PARAM),
 "C17": C([lang.c17, compose.built], [lang.c17_reject, compose.built_reject], minimum=300, tech=W + CF + " with diagnostics inspected",
    expl="build_parser on symbolic parsers and inputs: start position and result; eight ways of using the outcome of a failed parse, each of which has to be refused with line, column and message in the diagnostic.",
    note=BASE + PARAM + "Depends on the compiler printing template arguments in diagnostics."),
 "C18": C([lang.c18, sizes.c18], [lang.c18_reject], minimum=2500, tech=MODEL + " of the grammar notation",
    expl="grammars generated from expressions over the notation (all small ones, sampled larger ones), spacing variants, names, imports, actions, start symbols, every quoted character and escape, each on a set of inputs; rule: verdict, result, remaining input and position as the reference interpreter says.",
    note=BASE + "Grammar texts are enumerated/sampled (seed-independent for small ones); unbounded grammars are not proved."),
 "C19": C([], [iface.c19_rule], minimum=1500, tech="constant evaluation of the message functions by the compiler's constexpr evaluator (-fimplicit-constexpr) with a stand-in stream",
    expl="get_value of every predefined message and of user-defined ones, for all characters / boundary indices / wrapped messages; rule: text equals the documented text.",
    note=BASE + "The stream class is replaced by a constexpr stand-in with the standard's formatting; an expression the constant evaluator cannot decide is counted as undecided, not as an alarm."),
 "C20": C([iface.c20_identity], [iface.c20_alone, iface.c20_use, iface.c20_order, iface.c20_examples], minimum=7000, tech="include-graph witnesses: each header compiled alone, in orders and repeatedly; name identity and documentation examples as type-level obligations",
    expl="every public header alone in every standard with its documented name used; the template of each header instantiated with that header, one inner parser, a text and the start and nothing else of the library; pair orders, repeated inclusion, umbrella header, identity of top-level and versioned names, documentation examples; rule: compiles and names denote the same entity.",
    note=BASE + "The list of public names is frozen in data/api.json (from the documentation)."),
 "C21": C([], [iface.c21_symbols, iface.c21_macros, iface.c21_ast, iface.c21_settings, iface.c21_contexts], minimum=5000, tech="symbol-linkage, macro-table and AST (clang-query) queries over the preprocessed/compiled headers",
    expl="every header's object symbols, macro definitions left behind and namespace-scope declarations in the AST, and what it defines compared between translation units with other includes, orders and settings; rule: no strong or local definitions, no foreign macros, one definition for all translation units, nothing outside boost::metaparse except MPL extension points.",
    note="Trusts g++/nm, the preprocessor's -dD output and clang's AST. "),
 "C22": C([compose.c22], minimum=12000, tech=MODEL + ", compared across the four language standards", differential=True, second=(17,),
    expl="compositions of up to four nested combinators over 18 atoms, every size of the parts that have sibling implementations, and those parts over pairs of library parsers, decided in C++98, 11, 14 and 17 against one reference semantics; rule: an obligation that holds in one standard and not in another is a difference.",
    note=BASE + "Compositions are enumerated at depth 1 and sampled (seeded) above."),
 "C23": C([comb.c23, compose.lazy_library, compose.recursive], minimum=11000, tech=SYM + "; poisoned arguments that are ill-formed when instantiated",
    expl="every sequencing form with poisoned parsers after each failing index, poisoned functions/predicates/operations on paths not taken, the same next to every parser of the library, recursive parser definitions at nesting depths 0..6, every combinator in definitions that inherit from a form naming themselves; rule: the poisoned type is never instantiated (otherwise the unit does not compile).",
    note=BASE + PARAM),
 "C24": C([limits.c24], [limits.c24_reject], minimum=1800, tech=SYM + CF + " under different limit configurations",
    expl="reduced, default and enlarged limits for sequences, choices, character sets and strings in C++98 (and sequence_apply, also C++17), sizes up to exactly the limit; one more than the limit has to be refused.",
    note=BASE + PARAM + "Enlarging the choice limit beyond 20 in C++98 needs Boost.MPL's vector limit enlarged too, which the check does."),
 "C25": C([], [iface.c25_rule], minimum=200, tech="call-trace analysis of the report constructor in LLVM IR with constant arguments",
    expl="the straight-line stream of output calls of debug_parsing_error's constructor, read from IR for failing and succeeding parsers and inputs; rule: the printed pieces spell the documented report and end in a normal exit.",
    note="Trusts clang's IR generation and the declarations-only stand-in for <iostream>. "),
 "C26": C([compose.c26], minimum=1200, tech=W + ": invariant independent of any model",
    expl="compositions of up to four nested combinators over 18 atoms on 26 texts from three starting positions; rule: (remaining input, position) of a success is one of the points of the input, and so is the position of a failure.",
    note=BASE + "Compositions are enumerated at depth 1 and sampled (seeded) above."),
}
