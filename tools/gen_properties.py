#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where property texts are edited)."""
import json, os
V = "include/boost/metaparse/v1/"
def P(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[V+f if not f.startswith(("include","doc","tools")) else f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    return d
L = []
L.append(P("C01", "Parsing outcomes carry exactly what was put into them",
 "A parsing outcome is either a success carrying a result, the remaining input and a source position, or a failure carrying a message and a source position, and nothing else. Reading any of these back yields exactly the carried value, whatever type it is (including types that are themselves outcomes, incomplete types or non-class types) and whether the outcome is given directly or as an unevaluated metafunction call; the error test is true exactly for failures, and branching on it yields the failure itself or else the given alternative, evaluated. The remaining input and the position of an outcome may be supplied unevaluated and are evaluated by it, the result and the message never are.",
 ["programs", "inputs"], "every result, message, remaining-input and position type a program can put into an outcome",
 "The tests instantiate a handful of concrete types (int_, char_); the claim is about every type, including those no test uses.",
 ["accept.hpp","reject.hpp","fwd/accept.hpp","fwd/reject.hpp","get_result.hpp","get_remaining.hpp","get_position.hpp","get_message.hpp","is_error.hpp","return_.hpp","fail.hpp","unless_error.hpp"],
 [("accept / reject","accept.hpp, reject.hpp"),("tag-dispatched accessors","get_result.hpp, get_remaining.hpp, get_position.hpp, get_message.hpp"),("is_error","is_error.hpp")]))
L.append(P("C02", "Source positions are tracked exactly over every input",
 "Consuming one character moves the position exactly one step: a carriage return, or a line feed that does not directly follow a carriage return, starts the next line at column 1, and every other character advances the column by one on the same line; the consumed character becomes the remembered previous character. Parsing starts at line 1, column 1, and the position depends on nothing but the starting position and the characters consumed.",
 ["inputs"], "every character, every previous character, every line/column, every input length",
 "Tests look at three multi-line texts and only at the line; the claim covers all 256 characters after all 256 previous characters, columns, and unbounded line/column numbers.",
 ["one_char.hpp","next_char.hpp","next_line.hpp","start.hpp","source_position.hpp","get_line.hpp","get_col.hpp","get_prev_char.hpp"],
 [("next_pos choice","one_char.hpp: one_char::next_pos"),("next_char/next_line","next_char.hpp, next_line.hpp")]))
L.append(P("C03", "Source positions are totally ordered by line, then column, then last char",
 "The six comparison operations on source positions agree with the lexicographic order of (line, column, previous character): exactly one of less, equal and greater holds for any two positions, and the remaining three are their exact complements and unions. Positions that denote the same line, column and previous character compare equal no matter how they are represented or whether they are passed unevaluated.",
 ["inputs","programs"], "every pair of positions",
 "Tests sample a few pairs; ordering bugs live in tie-breaking combinations.",
 ["source_position.hpp","fwd/source_position.hpp"],
 [("mpl comparison specialisations","source_position.hpp")]))
L.append(P("C04", "Sequencing runs parsers in order and stops at the first failure",
 "Combinators that run several parsers in sequence apply each to the remaining input and position left by the one before, and succeed exactly when all of them do, ending where the last one ended. The result is the in-order collection of all results, a user template applied to them in order, or exactly the selected one (first, last, middle, n-th), for every number of parsers the configuration allows; an index outside the parsers is a failure naming the valid range and the index, without consuming input. If a parser fails, its failure is the outcome unchanged (a missing third part of the \"middle\" form additionally has its message wrapped with the line and column where the whole form started) and no later parser is applied.",
 ["programs","inputs"], "every list of parsers, every index, every input and position",
 "Tests use two or three concrete parsers; threading and error propagation must hold for all parsers, arities, indices and failing positions.",
 ["sequence.hpp","cpp11/sequence.hpp","cpp98/sequence.hpp","cpp98/impl/sequence.hpp","cpp98/impl/sequence_impl.hpp","sequence_apply.hpp","nth_of.hpp","nth_of_c.hpp","cpp11/nth_of_c.hpp","cpp11/impl/nth_of_c.hpp","cpp11/impl/nth_of_c_skip_remaining.hpp","cpp98/nth_of_c.hpp","cpp98/impl/nth_of_c.hpp","cpp98/impl/nth_of_c_impl.hpp","first_of.hpp","last_of.hpp","middle_of.hpp","cpp98/impl/skip_seq.hpp"],
 [("variadic recursion","cpp11/sequence.hpp, cpp11/impl/nth_of_c.hpp"),("preprocessor expansion","cpp98/sequence.hpp, cpp98/impl/sequence*.hpp, cpp98/nth_of_c.hpp")]))
L.append(P("C05", "Choice takes the first success and otherwise the furthest error",
 "A choice among parsers behaves exactly like the first alternative, in the order given, that accepts the input at that point, for every number of alternatives. When none accepts, the choice fails at the furthest position reached by any alternative (the current position if there are none), with the message of that alternative when it alone got that far. Repeated choice is repetition of the choice.",
 ["programs","inputs"], "every list of alternatives, every winner, every relation of error positions",
 "Tests try one or two alternatives with concrete literals; order, arity and furthest-error selection range over all combinations.",
 ["one_of.hpp","cpp11/one_of.hpp","cpp98/one_of.hpp","cpp98/impl/one_of.hpp","cpp98/impl/one_of_fwd_op.hpp","cpp11/impl/eval_later_result.hpp","cpp98/impl/later_result.hpp","repeated_one_of.hpp","repeated_one_of1.hpp","optional.hpp"],
 [("recursive choice","cpp11/one_of.hpp"),("fold over alternatives","cpp98/impl/one_of.hpp"),("furthest error","cpp98/impl/later_result.hpp, cpp11/impl/eval_later_result.hpp")]))
L.append(P("C06", "Folding and repetition are greedy, ordered and end where the last match ended",
 "Folding or repeating a parser applies it as long as it accepts, each time from where the previous application ended, and combines all the results with the given operation in input order (left folds from the initial state forwards, right folds from the end of the matches backwards, collecting forms into an in-order list). It ends successfully just after the last match, so the first failing attempt consumes nothing and its error is discarded; forms that demand at least one match return the first application's failure unchanged when there is none. Forms that obtain the initial state from a parser run that parser before the matches (left folds) or after them (right folds), and return its failure unchanged.",
 ["programs","inputs"], "every parser, every number of matches, every initial state and operation",
 "Tests fold over 0-4 digits with addition, which is commutative and hides order; the claim covers all operations and counts.",
 ["foldl.hpp","foldl1.hpp","foldr.hpp","foldr1.hpp","foldl_start_with_parser.hpp","foldr_start_with_parser.hpp","repeated.hpp","repeated1.hpp","repeated_one_of.hpp","repeated_one_of1.hpp","impl/back_inserter.hpp","impl/front_inserter.hpp"],
 [("left fold recursion","foldl.hpp"),("right fold recursion","foldr_start_with_parser.hpp"),("collection","impl/back_inserter.hpp")]))
L.append(P("C07", "Incomplete-rejecting folds fail exactly when the last attempt got past its start",
 "The incomplete-rejecting form of a fold or repetition behaves exactly like the plain form, except that when the attempt that ends the repetition failed at a position different from where that attempt started, the whole form fails with that attempt's message and position. When it failed exactly where it started, nothing of it is consumed and the form succeeds as the plain one would; forms that demand a match return the very first failure unchanged.",
 ["programs","inputs"], "every parser, number of matches, error position of the ending attempt, state and operation",
 "Tests use one grammar (\"+ int\"); the claim is about every error position relative to the attempt start after any number of matches.",
 ["foldl_reject_incomplete.hpp","foldl_reject_incomplete1.hpp","foldl_reject_incomplete_start_with_parser.hpp","foldr_reject_incomplete.hpp","foldr_reject_incomplete1.hpp","repeated_reject_incomplete.hpp","repeated_reject_incomplete1.hpp","fail_at_first_char_expected.hpp"],
 [("end_of_folding","foldl_reject_incomplete.hpp"),("fail_at_first_char_expected","fail_at_first_char_expected.hpp")]))
L.append(P("C08", "Look-ahead, negation and defaults never consume what they should not",
 "Looking ahead yields the inner parser's result or failure but leaves input and position untouched on success; negation succeeds with the given value, untouched input and position exactly when the inner parser fails, and otherwise fails with the given message where it started; the conditional form always succeeds with the first or second given value and untouched input and position. An optional parser behaves as the inner parser when that succeeds and otherwise yields its default with untouched input and position. The expect-failure-at-first-character form succeeds untouched when the inner parser fails at the starting position, passes on a failure from any other position unchanged, and fails where it started when the inner parser succeeds.",
 ["programs","inputs"], "every inner parser, input and position",
 "Tests check results for a digit parser; consumption and error location for arbitrary parsers are not observed.",
 ["look_ahead.hpp","except.hpp","if_.hpp","optional.hpp","fail_at_first_char_expected.hpp","error/expected_to_fail.hpp"],
 [("look_ahead","look_ahead.hpp"),("except / if_ / optional","except.hpp, if_.hpp, optional.hpp")]))
L.append(P("C09", "Result and error transformations touch only what they name",
 "Transforming a result applies the function exactly once to the inner result, replacing a result substitutes the given value, and filtering keeps the inner outcome when the predicate holds and otherwise fails with the given message where parsing started; all leave remaining input and position of a success as the inner parser left them and pass failures through unchanged. Changing the error message replaces any failure by the given message at the starting position; transforming the message keeps the inner error position; transforming the error yields exactly what the function makes of the failure; none of the three affects successes.",
 ["programs","inputs"], "every inner parser, function, predicate, message, input and position",
 "Tests observe one field of the outcome for one concrete parser.",
 ["transform.hpp","transform_error.hpp","transform_error_message.hpp","change_error_message.hpp","accept_when.hpp","always.hpp","always_c.hpp","unless_error.hpp","return_.hpp","fail.hpp"],
 [("transform family","transform.hpp, transform_error.hpp, transform_error_message.hpp"),("filters","accept_when.hpp, change_error_message.hpp, always.hpp")]))
L.append(P("C10", "Character classes and digit conversions are exact for every character",
 "The digit, lower-case, upper-case, letter and whitespace predicates are true exactly for '0'-'9', 'a'-'z', 'A'-'Z', both letter ranges, and space, tab, line feed and carriage return respectively, for every character value. Range membership is true exactly for lower <= x <= upper, also for empty and one-element ranges. Converting a digit to an integer and back are inverse on '0'..'9' and 0..9 in every form (direct, curried, by value), and converting a non-digit yields the digit-expected error instead of a number.",
 ["inputs"], "every character value, every range and every item",
 "Tests sample a few characters; the domain is finite and is enumerated completely here.",
 ["util/is_digit.hpp","util/is_lcase_letter.hpp","util/is_ucase_letter.hpp","util/is_letter.hpp","util/is_whitespace.hpp","util/is_whitespace_c.hpp","util/in_range.hpp","util/in_range_c.hpp","util/digit_to_int.hpp","util/digit_to_int_c.hpp","util/int_to_digit.hpp","util/int_to_digit_c.hpp"],
 [("predicates","util/*.hpp")]))
L.append(P("C11", "Character parsers accept exactly their characters and consume exactly one",
 "A character parser (any character, literal, digit, letter, alphanumeric, whitespace, range, any of a set, any except a set) accepts exactly when the input begins with a character of its set, for every character and every size of set; it then consumes exactly that character, yields it as the result and advances the position by it. Otherwise, including on empty input, it fails where it started with the message documented for that parser. The characters after the first never influence the outcome.",
 ["inputs","programs"], "every character, set and continuation of the input",
 "Tests sample one accepted and one rejected character; here the 256 characters and the empty input are enumerated for each parser and set size.",
 ["one_char.hpp","lit.hpp","lit_c.hpp","digit.hpp","letter.hpp","alphanum.hpp","space.hpp","range.hpp","range_c.hpp","one_of_c.hpp","cpp11/one_of_c.hpp","cpp14/one_of_c.hpp","cpp14/impl/any_of_c.hpp","cpp98/one_of_c.hpp","one_char_except.hpp","one_char_except_c.hpp","cpp11/impl/any_of_c.hpp","cpp98/one_char_except_c.hpp","cpp98/impl/*one_char_except*"],
 [("accept_when over one_char","lit_c.hpp, digit.hpp, letter.hpp, space.hpp, range.hpp, one_char_except*.hpp"),("any_of_c","cpp11|cpp14/impl/any_of_c.hpp")]))
L.append(P("C12", "Numbers are read in full and with their exact decimal value",
 "Reading one digit yields its numeric value; reading an integer consumes the longest run of decimal digits at the start of the input and yields its exact decimal value, with or without leading zeros, for every value below the largest int. Input that does not start with a digit, including empty input, is rejected as digit-expected where it started.",
 ["inputs"], "every digit string whose value fits, and every first non-digit",
 "Tests parse 1-4 digit numbers.",
 ["int_.hpp","digit_val.hpp","impl/next_digit.hpp","digit.hpp","util/digit_to_int.hpp"],
 [("foldl1 over digits","int_.hpp, impl/next_digit.hpp")]))
L.append(P("C13", "Compile-time strings are faithful sequences of their characters",
 "A compile-time string of any length up to the limit denotes exactly its characters in order: size, element access, front, back, begin/end iteration in both directions, iterator arithmetic and the generated null-terminated character array all agree with that content for every character and position. Adding or removing a character at either end and clearing yield exactly the string with the corresponding content, and equal contents are equal (and the same type) however they were built, different contents are not.",
 ["inputs","configurations"], "every string content, length and position, in every supported language standard",
 "Tests use the string \"hello\"; per-length and per-index template or macro expansion can be wrong at a single length.",
 ["string.hpp","cpp11/string.hpp","cpp98/string.hpp","string_tag.hpp","impl/string_iterator.hpp","cpp11/impl/*.hpp","cpp98/impl/*.hpp","impl/*_impl.hpp"],
 [("variadic string","cpp11/string.hpp, cpp11/impl/{at_c,push_front_c,push_back_c,pop_front,pop_back,size}.hpp"),("fixed-arity string","cpp98/impl/*.hpp"),("iterator","impl/string_iterator.hpp")]))
L.append(P("C14", "The string literal macro reproduces every literal exactly up to the limit",
 "The string macro applied to a literal denotes exactly the characters of the literal, for every length from zero up to the configured maximum and every character value, including embedded null characters. A literal longer than the configured maximum is rejected at compile time, never truncated. The maximum can be configured to any value up to 2048 and changed within a translation unit.",
 ["inputs","configurations"], "every literal length 0..2048, every limit, every character and position",
 "Tests try a few lengths with the default and one enlarged limit; the macro is generated code whose every index can be wrong independently.",
 ["cpp11/string.hpp","cpp11/impl/string.hpp","cpp11/impl/string_at.hpp","cpp11/impl/concat.hpp","include/boost/metaparse/string.hpp","include/boost/metaparse/limit_string_size.hpp","tools/string_headers.py"],
 [("generated index lists and make_string","cpp11/impl/string.hpp"),("bounds-checked character access","cpp11/impl/string_at.hpp")]))
L.append(P("C15", "Keywords, tokens, spacing and whole-input parsing are exact",
 "A keyword parser accepts exactly inputs that start with the keyword, consumes exactly it, yields the given result and otherwise fails as the first non-matching character literal would, at that character. The spaces parser consumes the longest non-empty run of whitespace; a token behaves as its inner parser and then additionally consumes the longest, possibly empty, run of following whitespace, keeping the inner result. The end-of-input parser succeeds exactly on empty input and otherwise fails where it started, and whole-input parsing succeeds exactly when the inner parser consumes everything, otherwise failing with the inner failure or with the given message where the inner parser stopped.",
 ["inputs","programs"], "every keyword, inner parser and input",
 "Tests use a fixed keyword and a single trailing blank.",
 ["keyword.hpp","token.hpp","spaces.hpp","space.hpp","empty.hpp","entire_input.hpp"],
 [("keyword recursion","keyword.hpp"),("token = parser then spaces","token.hpp"),("entire_input = parser then empty","entire_input.hpp")]))
L.append(P("C16", "Counted iteration applies a parser exactly n times",
 "Iterating a parser n times succeeds exactly when n consecutive applications, each from where the previous one ended, all succeed; the result is the in-order list of exactly n results and the end is where the n-th application ended, with n = 0 succeeding without applying the parser or consuming anything. The failure of any application is the outcome, unchanged.",
 ["programs","inputs"], "every count, every parser, every failing application",
 "Tests use counts 0-4 on a single character parser.",
 ["iterate.hpp","iterate_c.hpp","impl/iterate_impl.hpp","impl/iterate_impl_unchecked.hpp"],
 [("counting recursion","impl/iterate_impl.hpp")]))
L.append(P("C17", "Finished parsers give the result or stop compilation with the error's place",
 "A finished (built) parser applied to an input yields exactly the result of the underlying parser run from line 1, column 1, whatever is left unconsumed. If the underlying parser fails, every use of the outcome is a compile-time error, and its diagnostic names the line, the column and the message of that failure; no failing input ever yields a value.",
 ["programs","inputs"], "every parser and input",
 "Tests cannot contain a use that must not compile; only successful parses are covered.",
 ["build_parser.hpp","fwd/build_parser.hpp","start.hpp"],
 [("parsing_failed","build_parser.hpp")]))
L.append(P("C18", "Grammars written in the embedded notation parse exactly their language",
 "A grammar built from textual rules accepts exactly the language the notation denotes: quoted characters and the five escapes, symbol references, juxtaposition, alternatives, zero-or-more, one-or-more and brackets, with repetition binding tightest, then juxtaposition, then alternatives, and spaces between symbols insignificant. A reference to an imported or earlier defined symbol behaves as that parser, a rule's semantic action transforms that rule's result only, and the configured start symbol decides what is parsed. Sequence and repetition results are in-order lists, single symbols yield their own result. A rule text outside the notation, or a reference to a symbol that is not defined, stops compilation.",
 ["programs","inputs"], "every grammar text and input",
 "Tests use a dozen grammars; the notation is compositional and the claim covers all of them.",
 ["grammar.hpp"],
 [("grammar of the notation","grammar.hpp: impl::grammar_util"),("rule / import / start symbol","grammar.hpp")]))
L.append(P("C19", "Error message texts say what the documentation says",
 "Each predefined error message produces its documented text, with the expected character, the indices, or the wrapped message and the line and column of its partner inserted exactly, for every parameter value. A user-defined error message produces exactly the text it was defined with.",
 ["inputs","programs"], "every message class and every value of its parameters",
 "The tests never look at message texts apart from one wrapped message.",
 ["error/*.hpp","define_error.hpp"],
 [("get_value() of each message class","error/*.hpp"),("defining macro","define_error.hpp")]))
L.append(P("C20", "Every public header stands alone and shows one and the same API",
 "Every public header can be included on its own, in any order and repeatedly, in every supported language standard, and makes its documented name available; the umbrella header provides all of them. The name offered at the top level is the very same entity as in the versioned namespace, and both header families refer to the same definitions. Every documented header exists.",
 ["programs","configurations"], "every subset and order of public headers in every supported language standard",
 "Tests include one or a few headers each and never check identity of the two namespaces; one missing include is masked by another test's includes.",
 ["include/boost/metaparse.hpp","include/boost/metaparse/*.hpp","include/boost/metaparse/util/*.hpp","include/boost/metaparse/error/*.hpp","*.hpp"],
 [("facade headers","include/boost/metaparse/*.hpp"),("include guards","every header")]))
L.append(P("C21", "Headers can be used from any number of translation units",
 "Including the library in many translation units of one program never produces duplicate or conflicting definitions: nothing the headers define has external linkage without being inline or a template, and no definition depends on the translation unit. The headers leave no helper macros behind other than ones with the project's prefix (BOOST_), and define nothing outside the library's namespaces except extension points of the metaprogramming library they build on.",
 ["programs","configurations"], "every program made of any number of translation units including any headers",
 "Every test is a single translation unit that is linked alone.",
 ["include/boost/metaparse/**/*.hpp","include/boost/metaparse/config.hpp","impl/no_char.hpp"],
 [("definitions at namespace scope","all headers"),("macros","all headers")]))
L.append(P("C22", "All language standards give the same outcomes",
 "A parser built from the library's parsers and combinators, within the limits of the oldest standard, gives the same verdict, the same result, the same remaining input and the same position in every supported language standard.",
 ["configurations","programs","inputs"], "every parser expression and input, C++98 through C++17",
 "The tests run separately per standard and never compare the sibling implementations beyond the sampled cases.",
 ["cpp98/*.hpp","cpp11/*.hpp","cpp14/*.hpp","include/boost/metaparse/config.hpp"],
 [("sibling implementations","cpp98/, cpp11/, cpp14/"),("selection by standard","sequence.hpp, one_of.hpp, nth_of_c.hpp, string.hpp, ...")]))
L.append(P("C23", "Parsers after a failure and operations not reached are never instantiated",
 "Evaluating a parser instantiates only what its outcome needs: the parsers of a sequence after the one that failed, the parser of a zero-count iteration, the parsers of a selection with an index out of range, and functions, predicates and fold operations on a path not taken are never instantiated, so code that would be ill-formed there does no harm. Parser definitions that refer to themselves (nested brackets, right recursion, recursion under repetition and folding) therefore terminate whenever each level consumes input.",
 ["programs","inputs"], "every combinator, every parser list, every point of failure and every recursion depth",
 "Tests have no unneeded argument that would break when instantiated, and no recursive parser definition.",
 ["cpp11/one_of.hpp","cpp98/impl/one_of_fwd_op.hpp","cpp11/sequence.hpp","cpp98/impl/sequence_impl.hpp","cpp98/impl/skip_seq.hpp","foldl.hpp","foldr_start_with_parser.hpp","impl/iterate_impl.hpp","transform.hpp","accept_when.hpp"],
 [("eval_if / if_ dispatch","every combinator")]))
L.append(P("C24", "Configured size limits are honoured in full",
 "Where a combinator or string is limited in size (sequences, choices, character sets and strings in C++98, sequence application and string literals always), every size up to the configured limit works with the same meaning as a small one, for the default and for enlarged or reduced limits the underlying libraries allow. Going beyond a limit is a compile-time error, never a silently shortened string or a dropped parser.",
 ["configurations","programs"], "every limit value and every size up to it",
 "Tests run with default limits and small sizes only.",
 ["include/boost/metaparse/limit_*.hpp","cpp98/*.hpp","cpp98/impl/*.hpp","sequence_apply.hpp","cpp11/impl/string.hpp"],
 [("preprocessor repetition bounds","cpp98/*.hpp, cpp98/impl/*.hpp, sequence_apply.hpp")]))
L.append(P("C25", "The run-time parse report tells exactly what happened at compile time",
 "Constructing the debugging report prints the input text and then either that parsing failed together with exactly the line, column and message text of the failure, or that it succeeded together with exactly the remaining input; it then terminates the program normally. Wrapping the parser as a finished parser does not change the report.",
 ["programs","inputs"], "every parser and input",
 "No test constructs the report.",
 ["debug_parsing_error.hpp"],
 [("report constructor","debug_parsing_error.hpp")]))
L.append(P("C26", "Remaining input and position always describe the same point of the input",
 "For every parser composed from the library, the remaining input of a success is a suffix of the input, and its position is the starting position advanced over exactly the characters before that suffix; a failure's position is likewise that of some point of the input reached from the start. No combinator ever pairs the remaining input of one step with the position of another.",
 ["programs","inputs"], "every parser expression, input and starting position",
 "Tests look at remaining input or position in isolation; the invariant ties them together for all compositions.",
 ["one_char.hpp","foldl.hpp","foldr_start_with_parser.hpp","cpp11/sequence.hpp","cpp98/impl/sequence_impl.hpp","cpp11/one_of.hpp","keyword.hpp","impl/iterate_impl_unchecked.hpp","look_ahead.hpp"],
 [("one_char is the only consumer","one_char.hpp"),("threading in every combinator","every combinator")]))
import glob, sys
if os.path.isdir("/repo"):
    for d in L:
        for f in d["anchors"]["files"]:
            if not glob.glob("/repo/" + f, recursive=True): print("no such anchor:", d["id"], f)
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in L: f.write(json.dumps(d) + "\n")
print(len(L))
