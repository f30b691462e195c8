"""C19 message texts, C20 headers, C21 linkage and hygiene, C25 run-time report"""
import concurrent.futures as cf
import glob, json, os, random, re
from .common import *
from .. import core, harvest

API = json.load(open(os.path.join(core.VERIF, "data", "api.json")))
# documentation examples that are wrong as documentation (they compare int_<N> with integral_c<int, N> by type)
NOT_AN_EXAMPLE = {"repeated_reject_incomplete", "repeated_reject_incomplete1"}

def pool(jobs):
    with cf.ThreadPoolExecutor(core.JOBS) as ex: return list(ex.map(lambda j: j(), jobs))

def first_error(err):
    for l in err.splitlines():
        if "error:" in l: return l[:400]
    return err[:400]

# ---------------------------------------------------------------------- C19
def text_of(n): return json.dumps(n)

def c19_rule(ctx):
    """texts of the messages as constant expressions"""
    obs = []   # (id, type, expected text, subject)
    E = "boost::metaparse::error::"
    simple = dict(digit_expected="Digit expected", end_of_input_expected="End of input expected", expected_to_fail="Parser expected to fail",
                  letter_expected="Letter expected", none_of_the_expected_cases_found="None of the expected cases found", unexpected_character="Unexpected character",
                  unexpected_end_of_input="Unexpected end of input", whitespace_expected="Whitespace expected")
    def lit(s):
        return 'std::string("%s", %d)' % ("".join(chr(c) if 32 <= c < 127 and chr(c) not in '"\\?' else "\\%03o" % c for c in s), len(s))
    enc = lambda s: [ord(x) for x in s]
    for n, t in simple.items(): obs.append(("text." + n, E + n, enc(t), n))
    for c in range(256): obs.append(("literal.%d" % c, E + "literal_expected<%s>" % cch(c), enc("Expected: ") + [c], "literal_expected"))
    ns = sorted({0, 1, -1, 2, 7, 9, 10, 11, 42, 99, 100, 101, 127, 128, 255, 256, 999, 1000, 32767, 65535, 65536, 123456789, 2147483647, -2147483647, -2, -10, -99, -100} | {x for x in ctx.ints if abs(x) <= 2147483647})
    I = lambda n: "(-%d)" % -n if n < 0 else "%d" % n
    for a in ns:
        for (f, t, n) in ((a, 5, 6), (3, a, 6), (3, 5, a)) + (((a, a + 1, a - 1),) if abs(a) < 2**31 - 2 else ()):
            i = "index.%d.%d.%d" % (f, t, n)
            if any(o[0] == i for o in obs[-8:]): continue
            obs.append((i, E + "index_out_of_range<%s, %s, %s>" % (I(f), I(t), I(n)), enc("index (%d) out of range [%d-%d]" % (n, f, t)), "index_out_of_range"))
        for (l, c, m, mt) in ((a, 5, E + "digit_expected", "Digit expected"), (5, a, E + "literal_expected<'('>", "Expected: ("), (a, a + (1 if a < 2**31 - 1 else 0), "user_msg", "A user's \"text\"\\ \n")):
            obs.append(("unpaired.%d.%d.%s" % (l, c, mt[:4]), E + "unpaired<%s, %s, %s>" % (I(l), I(c), m), enc("%s (see %d:%d)" % (mt, l, c)), "unpaired"))
    for c in range(256): obs.append(("unpaired.literal.%d" % c, E + "unpaired<7, 8, %sliteral_expected<%s> >" % (E, cch(c)), enc("Expected: ") + [c] + enc(" (see 7:8)"), "unpaired"))
    obs.append(("unpaired.deep", E + "unpaired<1, 2, %sunpaired<3, 4, %sunpaired<5, 6, %sliteral_expected<'\\0'> > > >" % (E, E, E), enc("Expected: \0 (see 5:6) (see 3:4) (see 1:2)"), "unpaired"))
    for i, (m, mt) in enumerate(((E + "whitespace_expected", "Whitespace expected"), (E + "index_out_of_range<1, 2, 3>", "index (3) out of range [1-2]"), (E + "unpaired<1, 2, %sdigit_expected>" % E, "Digit expected (see 1:2)"), ("empty_msg", ""))):
        obs.append(("unpaired.apply%d" % i, E + "unpaired<11, 22>::apply<%s >::type" % m, enc("%s (see 11:22)" % mt), "unpaired"))
        obs.append(("unpaired.nest%d" % i, E + "unpaired<11, 22, %s >" % m, enc("%s (see 11:22)" % mt), "unpaired"))
    users = [("user_msg", "A user's \"text\"\\ \n"), ("empty_msg", ""), ("comma_msg", "a, b (c) %s %d {}"), ("long_msg", "x" * 300), ("nonascii_msg", "\x01\x7f\xff"), ("percent_msg", "100%")]
    def slit(t): return '"%s"' % "".join(ch if 32 <= ord(ch) < 127 and ch not in '"\\?' else "\\%03o" % ord(ch) for ch in t)
    pre = ["#include <string>", "#include <boost/metaparse/define_error.hpp>"] + ["#include <boost/metaparse/error/%s.hpp>" % n for n in list(simple) + ["literal_expected", "index_out_of_range", "unpaired"]]
    pre += ["template <class A, class B> struct same { static const bool value = false; }; template <class A> struct same<A, A> { static const bool value = true; };"]
    for k, (n, t) in enumerate(users):
        M = "BOOST_METAPARSE_DEFINE_ERROR" if k % 2 == 0 else "BOOST_METAPARSE_V1_DEFINE_ERROR"
        pre.append("%s(%s, %s);" % (M, n, slit(t)))
        obs.append(("defined." + n, n, enc(t), "define_error"))
    pre.append("namespace user { namespace inner { BOOST_METAPARSE_DEFINE_ERROR(msg, \"nested\"); } struct holder { BOOST_METAPARSE_DEFINE_ERROR(member, \"in a class\"); }; }")
    obs.append(("defined.inner", "user::inner::msg", enc("nested"), "define_error")); obs.append(("defined.member", "user::holder::member", enc("in a class"), "define_error"))
    problems, undecided, ok, total = [], [], 0, 0
    flags = ["-w", "-fsyntax-only", "-I" + core.INC, "-fno-diagnostics-show-caret", "-fmax-errors=0", "-ftemplate-backtrace-limit=0"]
    # 1. in every standard: get_value() gives a std::string, ::type is the message itself
    for std in ALL:
        lines = list(pre)
        lines.append("template <class T> std::string (*chk(std::string (*)()))(); template <class T> struct text_fn { static std::string f() { return T::get_value(); } };")
        where = {}
        for i, ty, t, sub in obs:
            lines.append(core.fix98("char s%d[same<%s::type, %s >::value ? 1 : -1]; std::string g%d() { return %s::get_value(); }" % (len(lines), ty, ty, len(lines), ty)) if ty.find("apply") < 0 else core.fix98("std::string g%d() { return %s::get_value(); }" % (len(lines), ty)))
            where[len(lines)] = (i, sub)
        p = os.path.join(ctx.workdir, "usable.cxx%d.cpp" % std); open(p, "w").write("\n".join(lines) + "\n")
        rc, _, err = core.sh([core.GXX, "-std=c++%d" % std] + flags + [p])
        total += len(where); bad = set()
        if rc:
            for l, msg, fr in core.attribute(err, p):
                w = where.get(l)
                k = w[0] if w else "surroundings"
                if k in bad: continue
                bad.add(k)
                problems.append(dict(id="usable/%s@c++%d" % (k, std), what="message class cannot be used as documented: " + msg, subject=w[1] if w else "error", cmd=" ".join([core.GXX, "-std=c++%d" % std] + flags + [p])))
            if not bad: raise core.Broken("C19: " + err[:500])
        ok += len(where) - len(bad)
    # 2. the texts, evaluated by the compiler
    lines = list(pre); where = {}
    for i, ty, t, sub in obs:
        lines.append("static_assert(%s::get_value() == %s, \"%s\");" % (ty, lit(t), i)); where[len(lines)] = (i, sub, t)
    n = 4; per = (len(obs) + n - 1) // n
    def part(k):
        p = os.path.join(ctx.workdir, "texts%d.cpp" % k)
        L = list(pre); wh = {}
        for i, ty, t, sub in obs[k * per:(k + 1) * per]:
            L.append("static_assert(%s::get_value() == %s, \"%s\");" % (ty, lit(t), i)); wh[len(L)] = (i, sub, t)
        open(p, "w").write("\n".join(L) + "\n")
        cmd = [core.GXX, "-std=c++20", "-fimplicit-constexpr"] + flags + ["-isystem", os.path.join(core.VERIF, "witness", "shim_text"), p]
        return p, wh, cmd, core.sh(cmd)
    for p, wh, cmd, (rc, _, err) in pool([lambda k=k: part(k) for k in range(n)]):
        total += len(wh)
        seen = {}
        if rc:
            for l, msg, fr in core.attribute(err, p):
                w = wh.get(l)
                if w is None: seen.setdefault(None, msg); continue
                # a definite mismatch is a failed assertion; anything else means the text is not a constant expression here
                if "static assertion failed" in msg: seen[w[0]] = "mismatch"
                else: seen.setdefault(w[0], msg)
            if not seen: raise core.Broken("C19: " + err[:500])
        if None in seen:
            undecided.append("%s: %s" % (os.path.basename(p), seen[None])); continue
        for l, (i, sub, t) in wh.items():
            if i not in seen: ok += 1
            elif seen[i] == "mismatch": problems.append(dict(id="text/" + i, what="the text of the message is not %r" % "".join(map(chr, t)), subject=sub, cmd=" ".join(cmd)))
            else: undecided.append(i + ": " + seen[i])
    ctx.extra["undecided_texts"] = undecided[:20]
    return dict(obligations=total, discharged=ok, problems=problems, info="%d message texts decided as constant expressions, %d undecided" % (len(obs), len(undecided)))

# ---------------------------------------------------------------------- C20
def ns_of(h):
    return "error::" if "/error/" in h else "util::" if "/util/" in h else ""
def names_of(header):
    out = []
    for a in API["api"]:
        if header in a["headers"]:
            nm = a["section"] if a["section"] != "sequence_apply" else "sequence_apply1"
            out.append((nm, a["kind"]))
    return out
def probe(names, header, std, v1=False):
    L = []
    for i, (n, k) in enumerate(names):
        if k == "macro":
            if std == 98 and n.startswith("BOOST_METAPARSE_STRING"): continue
            if v1: continue
            L.append("#ifndef %s\n#error %s is not defined\n#endif" % (n, n))
        else: L.append("namespace mpv_probe { namespace n%d { using boost::metaparse::%s%s%s; } }" % (i, "v1::" if v1 else "", ns_of(header), n))
    return "\n".join(L)
def tree_headers():
    base = core.INC + "/"
    fac = [h[len(base):] for h in harvest.headers() if "/v1/" not in h and h.endswith(".hpp")]
    v1 = [h[len(base):] for h in harvest.headers() if re.search(r"/v1/(error/|util/)?[^/]+\.hpp$", h)]
    return sorted(fac), sorted(v1)

def compile_job(ctx, name, text, std, flags=()):
    p = os.path.join(ctx.workdir, name.replace("/", "_") + ".cxx%d.cpp" % std)
    open(p, "w").write(text + "\n")
    cmd = core.base_cmd(std, flags) + [p]
    rc, _, err = core.sh(cmd)
    if rc not in (0, 1): rc, _, err = core.sh(cmd)
    if rc not in (0, 1): raise core.Broken("compiler did not finish on %s" % name)
    return rc, err, " ".join(cmd)

def c20_alone(ctx):
    fac, v1 = tree_headers()
    doc = sorted({h for a in API["api"] for h in a["headers"]})
    problems, total, ok = [], 0, 0
    for h in doc:
        total += 1
        if not os.path.exists(os.path.join(core.INC, h)): problems.append(dict(id="exists/" + h, what="documented header %s does not exist" % h, subject=os.path.basename(h)[:-4]))
        else: ok += 1
    # frozen list of public headers: none may disappear
    for h in API["public_headers"]:
        total += 1
        if not os.path.exists(os.path.join(core.INC, h)): problems.append(dict(id="exists/" + h, what="public header %s does not exist" % h, subject=os.path.basename(h)[:-4]))
        else: ok += 1
    jobs, meta = [], []
    for std in (tier_stds(ctx, 98, 17)):
        for h in fac + v1:
            if h in v1 and not ctx.thorough and std != 98: continue
            text = "#include <%s>\n#include <%s>\n%s" % (h, h, probe(names_of(h.replace("/v1/", "/")), h, std, v1=h in v1))
            jobs.append(lambda h=h, t=text, s=std: compile_job(ctx, "alone_" + h, t, s)); meta.append((h, std))
    for (h, std), (rc, err, cmd) in zip(meta, pool(jobs)):
        total += 1
        if rc == 0: ok += 1
        else: problems.append(dict(id="alone/%s@c++%d" % (h, std), what="%s cannot be included on its own, or does not provide its documented name: %s" % (h, first_error(err)), subject=os.path.basename(h)[:-4], cmd=cmd, where=["include/" + h]))
    return dict(obligations=total, discharged=ok, problems=problems, info="%d headers included alone and twice" % len(meta))

# each header used: with nothing else but a parser that accepts, fails or consumes one character, a text and the start
INNER = dict(ok=("return_.hpp", "bm::return_<R>"), bad=("fail.hpp", "bm::fail<M>"), one=("one_char.hpp", "bm::one_char"))
USES = dict(accept=[("", "bm::accept<R, E, bm::start>")], reject=[("", "bm::reject<M, bm::start>")],
    accept_when=[("ok bad one", "bm::accept_when<%s, yes, M>"), ("ok bad one", "bm::accept_when<%s, no, M>")], always=[("ok bad one", "bm::always<%s, R>")], always_c=[("", "bm::always_c<'a', R>")],
    change_error_message=[("ok bad one", "bm::change_error_message<%s, M>")], empty=[("", "bm::empty<R>")], entire_input=[("ok bad one", "bm::entire_input<%s >"), ("ok bad one", "bm::entire_input<%s, M>")],
    fail=[("", "bm::fail<M>")], return_=[("", "bm::return_<R>")], fail_at_first_char_expected=[("ok bad one", "bm::fail_at_first_char_expected<%s >")], first_of=[("ok bad one", "bm::first_of<%s >"), ("ok bad one", "bm::first_of<%s, %s >")],
    last_of=[("ok bad one", "bm::last_of<%s >"), ("ok bad one", "bm::last_of<%s, %s >")], sequence=[("ok bad one", "bm::sequence<%s >"), ("ok bad one", "bm::sequence<%s, %s >")], middle_of=[("ok bad one", "bm::middle_of<%s, %s, %s >")],
    nth_of=[("ok bad one", "bm::nth_of<boost::mpl::int_<0>, %s >")], nth_of_c=[("ok bad one", "bm::nth_of_c<1, %s, %s >"), ("ok bad one", "bm::nth_of_c<3, %s, %s >")], if_=[("ok bad one", "bm::if_<%s, R, M>")], look_ahead=[("ok bad one", "bm::look_ahead<%s >")],
    optional=[("ok bad one", "bm::optional<%s, R>")], one_of=[("ok bad one", "bm::one_of<%s >"), ("ok bad one", "bm::one_of<%s, %s >")], iterate=[("ok bad one", "bm::iterate<%s, boost::mpl::int_<2> >")], iterate_c=[("ok bad one", "bm::iterate_c<%s, 2>"), ("ok bad one", "bm::iterate_c<%s, 0>")],
    transform=[("ok bad one", "bm::transform<%s, fun>")], transform_error=[("ok bad one", "bm::transform_error<%s, fun>")], transform_error_message=[("ok bad one", "bm::transform_error_message<%s, fun>")], token=[("ok bad one", "bm::token<%s >")], sequence_apply=[("ok bad one", "bm::sequence_apply1<box, %s >"), ("ok bad one", "bm::sequence_apply2<box2, %s, %s >")],
    foldl=[("bad one", "bm::foldl<%s, R, op>")], foldl1=[("bad one", "bm::foldl1<%s, R, op>")], foldr=[("bad one", "bm::foldr<%s, R, op>")], foldr1=[("bad one", "bm::foldr1<%s, R, op>")], foldl_start_with_parser=[("bad one", "bm::foldl_start_with_parser<%s, %s, op>")], foldr_start_with_parser=[("bad one", "bm::foldr_start_with_parser<%s, %s, op>")],
    foldl_reject_incomplete=[("bad one", "bm::foldl_reject_incomplete<%s, R, op>")], foldl_reject_incomplete1=[("bad one", "bm::foldl_reject_incomplete1<%s, R, op>")], foldr_reject_incomplete=[("bad one", "bm::foldr_reject_incomplete<%s, R, op>")], foldr_reject_incomplete1=[("bad one", "bm::foldr_reject_incomplete1<%s, R, op>")],
    foldl_reject_incomplete_start_with_parser=[("bad one", "bm::foldl_reject_incomplete_start_with_parser<%s, %s, op>")], repeated=[("bad one", "bm::repeated<%s >")], repeated1=[("bad one", "bm::repeated1<%s >")], repeated_reject_incomplete=[("bad one", "bm::repeated_reject_incomplete<%s >")], repeated_reject_incomplete1=[("bad one", "bm::repeated_reject_incomplete1<%s >")],
    repeated_one_of=[("bad one", "bm::repeated_one_of<%s >")], repeated_one_of1=[("bad one", "bm::repeated_one_of1<%s, %s >")], keyword=[("", "bm::keyword<A, R>"), ("", "bm::keyword<A>")], one_char=[("", "bm::one_char")], lit=[("", "bm::lit<boost::mpl::char_<'a'> >")], lit_c=[("", "bm::lit_c<'a'>")],
    digit=[("", "bm::digit")], digit_val=[("", "bm::digit_val")], letter=[("", "bm::letter")], alphanum=[("", "bm::alphanum")], space=[("", "bm::space")], spaces=[("", "bm::spaces")], int_=[("", "bm::int_")], range=[("", "bm::range<boost::mpl::char_<'a'>, boost::mpl::char_<'f'> >")], range_c=[("", "bm::range_c<'a', 'f'>")],
    one_of_c=[("", "bm::one_of_c<'a', 'b'>")], one_char_except=[("", "bm::one_char_except<boost::mpl::char_<'b'> >")], one_char_except_c=[("", "bm::one_char_except_c<'a', 'c'>")])
USES["except"] = [("ok bad one", "bm::except<%s, R, M>")]
OTHER = {"get_result": ("accept", "bm::get_result<bm::accept<R, E, bm::start> >::type", "R"), "get_remaining": ("accept", "bm::get_remaining<bm::accept<R, E, bm::start> >::type", "E"), "get_position": ("accept", "bm::get_position<bm::accept<R, E, bm::start> >::type", "bm::start::type"),
    "get_message": ("reject", "bm::get_message<bm::reject<M, bm::start> >::type", "M"), "is_error": ("reject", "boost::mpl::bool_<bm::is_error<bm::reject<M, bm::start> >::type::value>", "boost::mpl::bool_<true>"), "unless_error": ("accept", "bm::unless_error<bm::accept<R, E, bm::start>, box<R> >::type", "box<R>"),
    "get_line": ("source_position", "boost::mpl::int_<bm::get_line<bm::start>::type::value>", "boost::mpl::int_<1>"), "get_col": ("source_position", "boost::mpl::int_<bm::get_col<bm::start>::type::value>", "boost::mpl::int_<1>"), "get_prev_char": ("source_position", "boost::mpl::int_<bm::get_prev_char<bm::start>::type::value>", "boost::mpl::int_<0>"),
    "next_char": ("source_position", "bm::next_char<bm::start, boost::mpl::char_<'a'> >::type::type", "bm::next_char<bm::start, boost::mpl::char_<'a'> >::type"), "next_line": ("source_position", "bm::next_line<bm::start, boost::mpl::char_<'\\n'> >::type::type", "bm::next_line<bm::start, boost::mpl::char_<'\\n'> >::type"),
    "build_parser": ("return_", "bm::build_parser<bm::return_<R> >::apply<E>::type", "R"), "grammar": ("one_char", "bm::is_error_or<bm::grammar<>::import<bm::string<'S'>, bm::one_char>::type::apply<A, bm::start>::type>::type", "yes_")}
USEPRE = """#include <string>
#include <boost/mpl/bool.hpp>
#include <boost/mpl/int.hpp>
#include <boost/mpl/char.hpp>
namespace bm = boost::metaparse;
struct R { typedef R type; }; struct M { typedef M type; static std::string get_value() { return std::string(); } };
typedef bm::string<> E; typedef bm::string<'a'> A; typedef bm::string<'1'> D; typedef bm::string<' ', 'x'> W;
struct yes { typedef yes type; template <class T> struct apply : boost::mpl::bool_<true> {}; };
struct no { typedef no type; template <class T> struct apply : boost::mpl::bool_<false> {}; };
struct fun { typedef fun type; template <class T> struct apply { typedef T type; }; };
struct op { typedef op type; template <class T, class U> struct apply { typedef U type; }; };
template <class T> struct box { typedef box type; }; template <class T, class U> struct box2 { typedef box2 type; };
template <class T, class U> struct same_; template <class T> struct same_<T, T> { typedef T type; };
template <class T, bool B = (sizeof(T) > 0)> struct whole { typedef typename T::type type; };
"""
def c20_use(ctx):
    """each public header used on its own: the header, a parser to work on, a text and the start, and nothing else of the library"""
    problems, total, ok = [], 0, 0
    jobs, meta = [], []
    def add(h, hs, body, tag, others=("start.hpp", "string.hpp")):
        text = "\n".join("#include <boost/metaparse/%s>" % x for x in [h + ".hpp"] + hs + list(others)) + "\n" + USEPRE + "\n".join(body) + "\n"
        for std in tier_stds(ctx, 98, 17):
            jobs.append(lambda s=std: compile_job(ctx, "use_%s_%s" % (h, tag), core.fix98(text) if s == 98 else text, s)); meta.append((h, tag, std))
    for h, forms in sorted(USES.items()):
        kinds = sorted({k for ks, f in forms for k in ks.split()}) or [""]
        for k in kinds:
            body = []
            for ks, f in forms:
                if k and k not in ks.split(): continue
                e = f.replace("%s", INNER[k][1]) if k else f
                if h in ("accept", "reject"): body.append("typedef whole<%s::type>::type use%d;" % (e, len(body))); continue
                body += ["typedef whole<%s::apply<%s, bm::start>::type>::type use%d;" % (e, s, len(body) + i) for i, s in enumerate(("E", "A", "D", "W"))]
            add(h, [INNER[k][0]] if k else [], body, k or "use")
    for h, (w, e, x) in OTHER.items():
        if h == "grammar": body = ["typedef whole<bm::grammar<>::import<bm::string<'S'>, bm::one_char>::type::apply<A, bm::start>::type>::type use0;", "typedef whole<bm::grammar<>::rule<bm::string<'S', ':', ':', '=', 39, 'a', 39> >::type::apply<A, bm::start>::type>::type use1;"]
        else: body = ["typedef same_<%s, %s >::type use0;" % (e, x)]
        add(h, [w + ".hpp"], body, "use")
    add("source_position", [], ["typedef whole<bm::source_position<boost::mpl::int_<1>, boost::mpl::int_<2>, boost::mpl::char_<'a'> >::type>::type use0;"], "use", ("string.hpp",))
    for e, a in [(x, "") for x in ("digit_expected", "end_of_input_expected", "expected_to_fail", "letter_expected", "none_of_the_expected_cases_found", "unexpected_character", "unexpected_end_of_input", "whitespace_expected")] + [("index_out_of_range", "<0, 4, 7>"), ("literal_expected", "<'a'>"), ("unpaired", "<1, 2, M>")]:
        add("error/" + e, [], ["typedef whole<bm::error::%s%s >::type use0;" % (e, a), "inline void use1() { (void)bm::error::%s%s::get_value(); }" % (e, a)], "use", ("string.hpp",))
    for e, good in (("is_digit", "'1'"), ("is_lcase_letter", "'a'"), ("is_ucase_letter", "'A'"), ("is_letter", "'a'"), ("is_whitespace", "' '")):
        add("util/" + e, [], ["typedef same_<boost::mpl::bool_<bm::util::%s<boost::mpl::char_<%s> >::type::value>, boost::mpl::bool_<true> >::type use0;" % (e, good), "typedef same_<boost::mpl::bool_<bm::util::%s<>::apply<boost::mpl::char_<%s> >::type::value>, boost::mpl::bool_<true> >::type use1;" % (e, good)], "use", ("string.hpp",))
    for e, x, y in (("is_whitespace_c", "boost::mpl::bool_<bm::util::is_whitespace_c<' '>::type::value>", "boost::mpl::bool_<true>"), ("digit_to_int", "boost::mpl::int_<bm::util::digit_to_int<boost::mpl::char_<'7'> >::type::value>", "boost::mpl::int_<7>"), ("digit_to_int_c", "boost::mpl::int_<bm::util::digit_to_int_c<'7'>::type::value>", "boost::mpl::int_<7>"),
                    ("int_to_digit", "boost::mpl::char_<bm::util::int_to_digit<boost::mpl::int_<7> >::type::value>", "boost::mpl::char_<'7'>"), ("int_to_digit_c", "boost::mpl::char_<bm::util::int_to_digit_c<7>::type::value>", "boost::mpl::char_<'7'>"), ("in_range_c", "boost::mpl::bool_<bm::util::in_range_c<int, 1, 3>::apply<boost::mpl::int_<2> >::type::value>", "boost::mpl::bool_<true>"),
                    ("in_range", "boost::mpl::bool_<bm::util::in_range<boost::mpl::int_<1>, boost::mpl::int_<3>, boost::mpl::int_<2> >::type::value>", "boost::mpl::bool_<true>")):
        add("util/" + e, [], ["typedef same_<%s, %s >::type use0;" % (x, y)], "use", ("string.hpp",))
    add("define_error", [], ["BOOST_METAPARSE_DEFINE_ERROR(own, \"text\");", "inline void use1() { (void)own::get_value(); }", "typedef whole<own>::type use0;"], "use", ("string.hpp",))
    add("start", [], ["typedef whole<bm::start::type>::type use0;"], "use", ("string.hpp",))
    add("debug_parsing_error", ["fail.hpp"], ["inline void use0() { bm::debug_parsing_error<bm::fail<M>, A> x; (void)x; }"], "bad", ("string.hpp",))
    add("debug_parsing_error", ["return_.hpp"], ["inline void use0() { bm::debug_parsing_error<bm::return_<R>, A> x; (void)x; }"], "ok", ("string.hpp",))
    for (h, tag, std), (rc, err, cmd) in zip(meta, pool(jobs)):
        total += 1
        if rc == 0: ok += 1
        else: problems.append(dict(id="use/%s/%s@c++%d" % (h, tag, std), what="what boost/metaparse/%s.hpp provides cannot be used with that header alone: %s" % (h, first_error(err)), subject=h, cmd=cmd, where=["include/boost/metaparse/%s.hpp" % h]))
    return dict(obligations=total, discharged=ok, problems=problems, info="%d translation units using one header each" % len(meta))

def all_names(std, v1=False, v1same=False):
    L = []
    for i, a in enumerate(API["api"]):
        h = a["headers"][0]; n = a["section"] if a["section"] != "sequence_apply" else "sequence_apply1"
        if a["kind"] == "macro":
            if std == 98 and n.startswith("BOOST_METAPARSE_STRING"): continue
            L.append(("#ifndef %s\n#error %s is not defined\n#endif" % (n, n), n)); continue
        if not v1same: L.append(("namespace mpv_p%d { using boost::metaparse::%s%s; }" % (i, ns_of(h), n), n))
        # the same name declared twice by using is fine only if both name the same entity
        else: L.append(("namespace mpv_q%d { using boost::metaparse::%s%s; using boost::metaparse::v1::%s%s; }" % (i, ns_of(h), n, ns_of(h), n), n))
    return L

def c20_order(ctx):
    fac, v1 = tree_headers()
    problems, total, ok = [], 0, 0
    inc = lambda hs: "\n".join("#include <%s>" % h for h in hs)
    umb = "boost/metaparse.hpp"
    rest = [h for h in fac if h != umb]
    rnd = random.Random(97)
    orders = {"umbrella": [umb], "umbrella_first": [umb] + rest + v1, "umbrella_last": rest + [umb], "reversed": rest[::-1], "v1_first": v1 + rest, "v1_reversed": v1[::-1] + rest[::-1]}
    for i in range(24 if ctx.thorough else 5):
        x = rest + v1; rnd.shuffle(x); orders["shuffle%d" % i] = x
    if ctx.thorough:
        for h in rest: orders["first_" + h.replace("/", "_")] = [h] + [x for x in rest if x != h]
    jobs, meta = [], []
    for std in (tier_stds(ctx, 98, 11, 17)):
        for k, hs in orders.items():
            if ctx.thorough and k.startswith("first_") and std in (11, 14): continue
            body = inc(hs) + "\n" + "\n".join(x for x, _ in all_names(std)) + "\n" + ("" if k == "umbrella" and False else "\n".join(x for x, _ in all_names(std, v1same=True)))
            jobs.append(lambda k=k, b=body, s=std: compile_job(ctx, "order_" + k, b, s)); meta.append((k, std, len(all_names(std)) * 2))
    for (k, std, n), (rc, err, cmd) in zip(meta, pool(jobs)):
        total += n
        if rc == 0: ok += n
        else: problems.append(dict(id="order/%s@c++%d" % (k, std), what="headers included in order '%s' do not compile, or a documented name is missing or not the same entity as in v1: %s" % (k, first_error(err)), subject="metaparse", cmd=cmd))
    # values behind the names: a typedef could name two different types only through using-conflict, macros by expansion
    return dict(obligations=total, discharged=ok, problems=problems, info="%d include orders x names (top level and v1)" % len(meta))

def c20_identity(ctx):
    """the v1 macros and the top-level macros expand to the same thing"""
    u = Unit("macros", ["string.hpp", "string_value.hpp", "define_error.hpp", "version.hpp"], "metaparse", stds=CPP11)
    u.ob("string", "same<BOOST_METAPARSE_STRING(\"ab\"), BOOST_METAPARSE_V1_STRING(\"ab\")>::value")
    u.ob("version", "BOOST_METAPARSE_VERSION >= 10000000")
    u.ob("start", "same<mp::source_position<mpl::int_<1>, mpl::int_<1>, mpl::char_<0> >, mp::v1::source_position<mpl::int_<1>, mpl::int_<1>, mpl::char_<0> > >::value")
    return [u]

def c20_examples(ctx):
    problems, total, ok = [], 0, 0
    jobs, meta = [], []
    ex = [e for e in API["examples"] if e["section"] not in NOT_AN_EXAMPLE]
    for std in (CPP11 if ctx.thorough else (17,)):
        for e in ex: jobs.append(lambda e=e, s=std: compile_job(ctx, "example_" + e["section"], e["code"], s)); meta.append((e["section"], std))
    code = {e["section"]: e["code"] for e in ex}
    notes = []
    for (n, std), (rc, err, cmd) in zip(meta, pool(jobs)):
        total += 1
        if rc and "std::integral_constant" in code[n]:
            # which models of an integral constant the arithmetic inside takes is not what this property is about
            alt = "#include <boost/mpl/int.hpp>\n#include <boost/mpl/char.hpp>\n" + re.sub(r"std::integral_constant<\s*(int|char)\s*,", lambda q: "boost::mpl::%s_<" % q.group(1), code[n])
            if compile_job(ctx, "example_mpl_" + n, alt, std)[0] == 0: notes.append("example/%s@c++%d holds with MPL's integral constants only" % (n, std)); continue
        if rc == 0: ok += 1
        else: problems.append(dict(id="example/%s@c++%d" % (n, std), what="the documented example of %s (with exactly the headers it includes) is rejected: %s" % (n, first_error(err)), subject=n, cmd=cmd))
    ctx.extra["examples_not_decided_as_written"] = notes
    return dict(obligations=total, discharged=ok, problems=problems, info="%d documented example programs" % len(meta))

# ---------------------------------------------------------------------- C21
def c21_symbols(ctx):
    """everything the headers contribute to an object file is mergeable"""
    fac, v1 = tree_headers()
    problems, total, ok = [], 0, 0
    E = "boost::metaparse::error::"
    msgs = [E + x for x in ("digit_expected", "end_of_input_expected", "expected_to_fail", "letter_expected", "none_of_the_expected_cases_found", "unexpected_character", "unexpected_end_of_input", "whitespace_expected", "literal_expected<'x'>", "index_out_of_range<1,2,3>", "unpaired<1,2," + E + "digit_expected>")] + ["user_msg"]
    def job(std, comp):
        src = ["#include <%s>" % h for h in fac + v1] + ["BOOST_METAPARSE_DEFINE_ERROR(user_msg, \"text\");", 'extern "C" {']
        for i, m in enumerate(msgs): src.append("extern std::string (*const mpv_m%d)(); std::string (*const mpv_m%d)() = &%s::get_value;" % (i, i, m))
        for i, s in enumerate(("", "'a'", "'a','b','c'")): src.append("extern const char* const mpv_s%d; const char* const mpv_s%d = boost::mpl::c_str<boost::metaparse::string<%s> >::type::value;" % (i, i, s))
        src.append("void mpv_d0() { boost::metaparse::debug_parsing_error<boost::metaparse::int_, boost::metaparse::string<'x'> > d; (void)d; } void mpv_d1() { boost::metaparse::debug_parsing_error<boost::metaparse::build_parser<boost::metaparse::int_>, boost::metaparse::string<'1'> > d; (void)d; }")
        if std != 98: src.append("int mpv_v(){ return sizeof(BOOST_METAPARSE_STRING_VALUE(\"hello\")) + sizeof(BOOST_METAPARSE_STRING(\"hello\")); }")
        src.append("}")
        p = os.path.join(ctx.workdir, "symbols.%s.cxx%d.cpp" % (os.path.basename(comp), std)); open(p, "w").write("\n".join(src) + "\n")
        o = p[:-4] + ".o"
        cmd = [comp, "-w", "-std=c++%d" % std, "-ftemplate-depth=4096", "-O0", "-I" + core.INC, "-c", "-o", o, p]
        rc, _, err = core.sh(cmd)
        if rc: return std, comp, cmd, None, err
        rc, out, err = core.sh(["nm", "--defined-only", "--format=posix", "-C", o])
        os.unlink(o)
        return std, comp, cmd, out, err
    jobs = [lambda s=s, c=c: job(s, c) for s in ALL for c in ((core.GXX, core.CLANG) if ctx.thorough or s in (98, 17) else (core.GXX,))]
    for std, comp, cmd, out, err in pool(jobs):
        if out is None:
            total += 1
            problems.append(dict(id="symbols/compile@c++%d" % std, what="all headers together do not compile to an object: " + first_error(err), subject="metaparse", cmd=" ".join(cmd))); continue
        n = 0
        for l in out.splitlines():
            m = re.match(r"^(.*) ([A-Za-z]) [0-9a-f]*( [0-9a-f]+)?\s*$", l)
            if not m: continue
            name, kind = m.group(1), m.group(2)
            if name.startswith("mpv_") or "mpv_" in name.split("(")[0]: continue
            n += 1
            total += 1
            lib = "boost::metaparse" in name or "user_msg" in name or "boost::mpl" in name
            if kind in "TDBRGSC" : problems.append(dict(id="symbols/%s@c++%d" % (name[:120], std), what="%s has external linkage and is not inline: two translation units including the headers do not link" % name[:300], subject=name, cmd=" ".join(cmd)))
            elif kind == "r" and lib and comp == core.GXX: ok += 1      # emitted whether used or not; the other compiler emits a constant only when its address matters
            elif kind in "tdbr" and lib: problems.append(dict(id="symbols/%s@c++%d" % (name[:120], std), what="%s has internal linkage but is used from header code: each translation unit gets its own definition" % name[:300], subject=name, cmd=" ".join(cmd)))
            else: ok += 1
    return dict(obligations=total, discharged=ok, problems=problems, info="linkage of every symbol emitted for the complete set of headers")

def c21_macros(ctx):
    fac, v1 = tree_headers()
    problems, total, ok = [], 0, 0
    allowed = {"BOOST_NO_CONSTEXPR_C_STR", "BOOST_NO_CHAR"}
    for std in ALL:
        p = os.path.join(ctx.workdir, "all.cxx%d.cpp" % std); open(p, "w").write("\n".join("#include <%s>" % h for h in fac + v1) + "\n")
        cmd = [core.GXX, "-w", "-std=c++%d" % std, "-I" + core.INC, "-E", "-dD", p]
        rc, out, err = core.sh(cmd)
        if rc: problems.append(dict(id="macros/preprocess@c++%d" % std, what=first_error(err), subject="metaparse")); total += 1; continue
        f, live, hist = "", {}, {}
        for l in out.splitlines():
            m = re.match(r'^# \d+ "([^"]+)"', l)
            if m: f = m.group(1); continue
            if l.startswith("#define "):
                n = re.match(r"#define (\w+)", l).group(1)
                if f.startswith(core.INC): live[n] = f
            elif l.startswith("#undef "):
                n = l.split()[1]
                if f.startswith(core.INC) and n not in live and n in hist: problems.append(dict(id="macros/undef.%s@c++%d" % (n, std), what="%s undefines %s, which it does not own" % (f, n), subject=n, where=[f])); total += 1
                live.pop(n, None)
            if l.startswith("#define ") and not f.startswith(core.INC): hist[re.match(r"#define (\w+)", l).group(1)] = f
        for n, fn in live.items():
            total += 1
            if n.startswith("BOOST_METAPARSE_") or n in allowed: ok += 1
            else: problems.append(dict(id="macros/%s@c++%d" % (n, std), what="%s leaves the macro %s defined" % (os.path.relpath(fn, core.REPO), n), subject=n, where=[os.path.relpath(fn, core.REPO)], cmd=" ".join(cmd)))
    return dict(obligations=total, discharged=ok, problems=problems, info="macros left defined by the complete set of headers")

def c21_ast(ctx):
    """namespace-scope declarations of the headers, on clang's syntax tree"""
    fac, v1 = tree_headers()
    inc = re.escape(core.INC)
    q = ["set output diag", "set bind-root false", "set traversal AsIs", 'let lib isExpansionInFileMatching("^%s/")' % inc.replace("\\", "\\\\"),
         'let out allOf(hasDeclContext(anyOf(translationUnitDecl(), namespaceDecl())), unless(hasAncestor(namespaceDecl(hasName("::boost::metaparse")))))',
         'match cxxRecordDecl(lib, out, isDefinition(), unless(classTemplateSpecializationDecl())).bind("class_outside_library_namespace")',
         'match functionDecl(lib, out, unless(isTemplateInstantiation())).bind("function_outside_library_namespace")', 'match varDecl(lib, out).bind("variable_outside_library_namespace")',
         'match typedefNameDecl(lib, out).bind("alias_outside_library_namespace")', 'match usingDirectiveDecl(lib, out).bind("using_directive_outside_library_namespace")',
         'match usingDecl(lib, out).bind("using_outside_library_namespace")', 'match enumDecl(lib, out).bind("enum_outside_library_namespace")',
         'match functionDecl(lib, unless(cxxMethodDecl()), isStaticStorageClass()).bind("function_with_internal_linkage")',
         'match namespaceDecl(lib, isAnonymous()).bind("unnamed_namespace")',
         'match varDecl(lib, hasGlobalStorage(), hasDeclContext(namespaceDecl()), unless(hasType(isConstQualified()))).bind("mutable_variable_at_namespace_scope")',
         'match functionDecl(lib, isDefinition(), unless(isInline()), unless(isConstexpr()), unless(cxxMethodDecl()), unless(isTemplateInstantiation()), unless(hasParent(functionTemplateDecl()))).bind("function_neither_inline_nor_template")',
         # positive control
         'match namespaceDecl(lib, hasName("::boost::metaparse")).bind("control")']
    problems, total, ok = [], 0, 0
    def job(std):
        p = os.path.join(ctx.workdir, "ast.cxx%d.cpp" % std); open(p, "w").write("\n".join("#include <%s>" % h for h in fac + v1) + "\n")
        qf = p + ".query"; open(qf, "w").write("\n".join(q) + "\n")
        cmd = ["clang-query", "-f", qf, p, "--", "-w", "-std=c++%d" % std, "-ftemplate-depth=4096", "-I" + core.INC]
        return std, cmd, core.sh(cmd)
    for std, cmd, (rc, out, err) in pool([lambda s=s: job(s) for s in ALL]):
        hits = re.findall(r'^(.*?):(\d+):\d+: note: "(\w+)" binds here', out + "\n" + err, re.M)
        ctl = [h for h in hits if h[2] == "control"]
        if not ctl: raise core.Broken("clang-query control did not match: " + (out + err)[-600:])
        total += len(ctl) * 11; ok += len(ctl) * 11
        for f, l, k in sorted(set(hits)):
            if k == "control": continue
            problems.append(dict(id="ast/%s/%s:%s@c++%d" % (k, os.path.relpath(f, core.INC), l, std), what="%s at %s:%s" % (k.replace("_", " "), f, l), subject=os.path.basename(f)[:-4], where=["%s:%s" % (os.path.relpath(f, core.REPO), l)], cmd=" ".join(cmd)))
            ok -= 1
    # no definition may depend on where or when it is compiled
    for h in harvest.headers():
        total += 1
        t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", open(h, errors="replace").read(), flags=re.S)
        m = re.search(r"\b__(COUNTER|DATE|TIME|TIMESTAMP|BASE_FILE|INCLUDE_LEVEL)__\b", t)
        if m: problems.append(dict(id="ast/%s/%s" % (m.group(0), os.path.relpath(h, core.INC)), what="%s uses %s: its definitions differ between translation units" % (h, m.group(0)), subject=os.path.basename(h)[:-4], where=[os.path.relpath(h, core.REPO)]))
        else: ok += 1
    return dict(obligations=total, discharged=ok, problems=problems, info="clang syntax tree queries over namespace-scope declarations of all headers")

def defined_text(std, flags, src):
    """file -> text of its definitions after preprocessing, for the library's files in a translation unit"""
    cmd = [core.GXX, "-w", "-std=c++%d" % std, "-I" + core.INC, "-E"] + list(flags) + [src]
    rc, out, err = core.sh(cmd)
    if rc: return None, cmd, first_error(err)
    per, f = {}, ""
    for l in out.splitlines():
        m = re.match(r'^# \d+ "([^"]+)"', l)
        if m: f = m.group(1)
        elif f.startswith(core.INC) and l.strip(): per.setdefault(f, []).append(" ".join(l.split()))
    # names that assertion macros make up from a counter or a line number name nothing anybody can refer to
    return {k: re.sub(r"\b(\w*assert\w*?)_?\d+\b", r"\1", " ".join(v)) for k, v in per.items()}, cmd, ""

def c21_contexts(ctx):
    """definitions do not change with what the translation unit included before"""
    fac, v1 = tree_headers()
    problems, total, ok = [], 0, 0
    rnd = random.Random(1100 + ctx.seed)
    every = fac + v1
    mixed = list(every); rnd.shuffle(mixed)
    others = ["cassert", "string", "vector", "map", "algorithm", "iostream", "sstream", "boost/config.hpp", "boost/static_assert.hpp", "boost/type_traits.hpp", "boost/mpl/string.hpp", "boost/mpl/map.hpp", "boost/mpl/list.hpp", "boost/mpl/deque.hpp", "boost/mpl/lambda.hpp", "boost/preprocessor.hpp"]
    contexts = {"reversed": every[::-1], "v1 first": v1 + fac, "mixed": mixed, "after other headers": others + every}
    n98 = fac if not ctx.thorough else every
    def job(std, name, hs):
        p = os.path.join(ctx.workdir, "context.%s.cxx%d.cpp" % (re.sub(r"\W", "_", name), std)); open(p, "w").write("\n".join("#include <%s>" % h for h in hs) + "\n")
        return defined_text(std, [], p)
    jobs = [(std, "all", every) for std in ALL] + [(std, n, hs) for std in ALL for n, hs in contexts.items()]
    jobs += [(std, h, [h]) for std in ((98, 17) if not ctx.thorough else ALL) for h in (every if std != 98 else n98)]
    res = pool([lambda q=q: (q, job(*q)) for q in jobs])
    bases = {q[0]: o[0] for q, o in res if q[1] == "all"}
    for (std, name, hs), (per, cmd, err) in res:
        if name == "all" or per is None or bases.get(std) is None: continue      # headers that do not compile are C20's business
        for f in per:
            total += 1
            if f not in bases[std] and per[f].strip(): problems.append(dict(id="context/%s/%s@c++%d" % (name, os.path.relpath(f, core.INC), std), what="%s is part of what is defined when %s is included, but not in a translation unit that includes every header" % (os.path.relpath(f, core.INC), name), subject=os.path.basename(f)[:-4], cmd=cmd, where=["include/" + os.path.relpath(f, core.INC)]))
            elif f not in bases[std] or per[f] == bases[std][f]: ok += 1
            else: problems.append(dict(id="context/%s/%s@c++%d" % (name, os.path.relpath(f, core.INC), std), what="what %s defines when included %s differs from what it defines in another translation unit" % (os.path.relpath(f, core.INC), "as part of '%s'" % name), subject=os.path.basename(f)[:-4], where=[os.path.relpath(f, core.REPO)], cmd=" ".join(cmd)))
    return dict(obligations=total, discharged=ok, problems=problems, info="preprocessed definitions of every header compared between %d translation units" % len(jobs))

def c21_settings(ctx):
    """definitions do not change with macros that are set per translation unit (NDEBUG and the like): every macro a header tests
    that is neither the project's configuration nor a property of the compiler is switched, and what the headers define has to stay"""
    fac, v1 = tree_headers()
    problems, total, ok = [], 0, 0
    tested, texts = {}, {}
    for h in harvest.headers(): texts[h] = re.sub(r"//[^\n]*|/\*.*?\*/", " ", open(h, errors="replace").read(), flags=re.S).replace("\\\n", " ")
    own = {n for t in texts.values() for n in re.findall(r"^[ \t]*#[ \t]*define[ \t]+(\w+)", t, re.M)}     # guards and helpers of the library
    # names of the implementation describe the compiler, which is one for the whole program, save the ones that are switched per unit
    perunit = ("__OPTIMIZE__", "__NO_INLINE__", "__EXCEPTIONS", "__OPTIMIZE_SIZE__", "_DEBUG", "_NDEBUG", "_GLIBCXX_DEBUG", "_GLIBCXX_ASSERTIONS", "_REENTRANT")
    for h, t in texts.items():
        total += 1; ok += 1
        for d in re.findall(r"^[ \t]*#[ \t]*(?:if|ifdef|ifndef|elif)\b(.*)$", t, re.M):
            for n in re.findall(r"\b[A-Za-z_]\w*", d):
                if n == "defined" or n in own or n.startswith("BOOST_") or re.match(r"_[_A-Z]", n) and n not in perunit: continue
                tested.setdefault(n, set()).add(h)
    p = os.path.join(ctx.workdir, "settings.cpp"); open(p, "w").write("\n".join("#include <%s>" % h for h in fac + v1) + "\n")
    def body(std, flags): return defined_text(std, flags, p)
    # settings every library sees switched, and those the headers look at
    common = [["-DNDEBUG"], ["-D_DEBUG", "-DDEBUG"], ["-O2"], ["-fno-exceptions"], ["-fno-rtti"], ["-pthread"], ["-DBOOST_DISABLE_ASSERTS"], ["-DBOOST_ENABLE_ASSERT_HANDLER"], ["-DBOOST_ENABLE_ASSERT_DEBUG_HANDLER"], ["-D_GLIBCXX_ASSERTIONS"], ["-D_GLIBCXX_DEBUG"], ["-D_FORTIFY_SOURCE=2", "-O2"], ["-DBOOST_MPL_CFG_NO_PREPROCESSED_HEADERS"]]
    sets = common + [["-D" + n] for n in sorted(tested)] + [["-U" + n] for n in sorted(tested)]
    res = pool([lambda q=(std, f): (q, body(*q)) for std in ALL for f in [[]] + sets])
    bases = {}
    for (std, flags), (other, cmd, err) in res:
        if not flags:
            bases[std] = other
            if other is None: problems.append(dict(id="settings/preprocess@c++%d" % std, what=err, subject="metaparse")); total += 1
            continue
        base = bases[std]
        if base is None or other is None: continue            # a setting under which the headers refuse to compile makes no second definition
        for f in sorted(set(base) | set(other)):
            total += 1
            if base.get(f) == other.get(f): ok += 1
            else: problems.append(dict(id="settings/%s/%s@c++%d" % (" ".join(flags), os.path.relpath(f, core.INC), std), what="what %s defines changes with %s: translation units compiled with and without it get different definitions" % (os.path.relpath(f, core.REPO), " ".join(flags)), subject=os.path.basename(f)[:-4], where=[os.path.relpath(f, core.REPO)], cmd=" ".join(cmd)))
    return dict(obligations=total, discharged=ok, problems=problems, info="preprocessed definitions of every header compared under %d settings" % (len(common) + 2 * len(tested)))

# ---------------------------------------------------------------------- C25
def c25_rule(ctx):
    """what the constructor would write, read off the IR as the sequence of output calls"""
    from .strings import ir_globals, ll_bytes
    cases = []   # (id, parser, input codes, expected list)
    H = "Compile-time parsing results\n----------------------------\nInput text:\n"
    pre = ["#include <boost/metaparse/debug_parsing_error.hpp>"] + ["#include <boost/metaparse/%s.hpp>" % h for h in ("string", "accept", "reject", "build_parser", "int_", "digit", "sequence", "repeated", "return_", "source_position", "entire_input", "lit_c", "get_line", "get_col")]
    pre += ["#include <boost/mpl/int.hpp>", "#include <boost/mpl/char.hpp>", "#include <cstdlib>"]
    pre += ["template <int N> struct tmsg { typedef tmsg type; static mpv_tag get_value() { mpv_tag t = { N }; return t; } };",
            "template <int N> struct lazymsg { typedef tmsg<N> type; };",
            "template <int L, int C, class M> struct failat { typedef failat type; template <class S, class Pos> struct apply : boost::metaparse::reject<M, boost::metaparse::source_position<boost::mpl::int_<L>, boost::mpl::int_<C>, boost::mpl::char_<'x'> > > {}; };",
            "template <class R, class Rem> struct okay { typedef okay type; template <class S, class Pos> struct apply : boost::metaparse::accept<R, Rem, Pos> {}; };",
            # tells where it was started
            "struct started { typedef started type; template <class S, class Pos> struct apply : boost::metaparse::reject<tmsg<boost::metaparse::get_line<Pos>::type::value * 1000 + boost::metaparse::get_col<Pos>::type::value>, Pos> {}; };"]
    def esc(codes): return "".join(chr(c) for c in codes)
    texts = [[], [97], [ord(x) for x in "not an int"], [ord(x) for x in "line1"] + [10] + [ord(x) for x in "l2"], [37, 115, 92, 34, 9], [200, 255, 1], [97, 0, 98], [0], [0, 0, 120, 10]]
    from .lang import text_
    texts += [text_(n) for n in harvest.points([31, 32, 33, 64, 100, 129, 256, 257, 300], 31, 400, ctx.ints)]   # those beyond 32 from C++11 on
    k = 0
    for t in texts:
        for (l, c) in ((1, 1), (3, 17), (12345, 67890), (1, 200), (200, 1)):
            k += 1; cases.append(("fail%d" % k, "failat<%d,%d,tmsg<%d> >" % (l, c, 100 + k), t, [H, esc(t), "\n\nParsing failed:\nline ", l, ", col ", c, ": ", ("tag", 100 + k), "\n"]))
        for rem in ([], [122], [0], [122, 0, 121], [ord(x) for x in "rest of it"], t):
            k += 1; cases.append(("ok%d" % k, "okay<int, %s >" % mpstring(rem), t, [H, esc(t), "\n\nParsing was successful. Remaining string is:\n", esc(rem), "\n"]))
    k += 1; cases.append(("lazy", "failat<7,8,lazymsg<55> >", [97], [H, "a", "\n\nParsing failed:\nline ", 7, ", col ", 8, ": ", ("tag", 55), "\n"]))
    cases.append(("start", "started", [97], [H, "a", "\n\nParsing failed:\nline ", 1, ", col ", 1, ": ", ("tag", 1001), "\n"]))
    for s, rem in (("12x", "x"), ("12", ""), ("7 8", " 8")): cases.append(("int.%s" % s, "boost::metaparse::int_", [ord(x) for x in s], [H, s, "\n\nParsing was successful. Remaining string is:\n", rem, "\n"]))
    # parsers of the library, with messages that can be told apart
    from .. import model as m
    from .compose import telling, TEXTS
    rnd = random.Random(4000 + ctx.seed)
    pre += ["#include <boost/metaparse/%s>" % h for h in m.INC] + ["#include <mpv/sym.hpp>", "using namespace mpv;"] + m.PRE.splitlines()
    a, b = m.change_msg(m.lit(97), "tmsg<601>"), m.change_msg(m.lit(98), "tmsg<602>")
    ps = [("atom%d" % j, x) for j, x in enumerate(m.atoms())]
    for n, c in m.unary().items():
        for j, x in enumerate((a, m.one_char(), m.sequence(a, b)) if ctx.thorough else (a, m.sequence(a, b))):
            y = c(x)
            if y: ps.append(("%s.%d" % (n, j), y))
    extra = [("entire.msg", "bm::entire_input<%s, tmsg<603> >" % a.cpp, lambda s, i, p: (lambda r: r if r[0] != 'ok' or r[2] == len(s) else m.err("tmsg<603>", r[3]))(a(s, i, p)))]
    ps += [(n, m.P(cpp, fn, False, set())) for n, cpp, fn in extra]
    for n, x in ps:
        got = {"ok": 0, "err": 0}
        for ti in telling(rnd, x, x, 12):
            t = [ord(q) for q in TEXTS[ti]]
            r = x(t, 0, (1, 1, 0))
            if got[r[0]] >= (3 if ctx.thorough else 1): continue
            if r[0] == 'ok': e = [H, esc(t), "\n\nParsing was successful. Remaining string is:\n", esc(t[r[2]:]), "\n"]
            else:
                q = re.match(r"tmsg<(\d+)>$", r[1] or "")
                if not q: continue
                e = [H, esc(t), "\n\nParsing failed:\nline ", r[2][0], ", col ", r[2][1], ": ", ("tag", int(q.group(1))), "\n"]
            got[r[0]] += 1
            cases.append(("lib.%s.%d" % (n, ti), x.cpp, t, e))
    full = []
    for (i, P, t, e) in cases:
        full.append((i, P, t, e)); full.append((i + ".built", "boost::metaparse::build_parser<%s >" % P, t, e))
    def norm(e):
        out = []
        for x in e:
            if isinstance(x, int): x = str(x)
            if isinstance(x, str):
                if not x: continue
                if out and isinstance(out[-1], str): out[-1] += x
                else: out.append(x)
            else: out.append(x)
        return out
    def render(tr):
        """the texts the listed calls write, with the formatting state at the time of each"""
        out, width, fill, fl = [], 0, " ", 1
        for x in tr:
            if x[0] == "fmt_width": width = x[1]
            elif x[0] == "fmt_fill": fill = chr(x[1] & 255)
            elif x[0] == "fmt_set": fl = fl & ~x[2] | x[1]
            elif x[0] == "raw": out.append(x[1])
            elif x[0] in ("s", "n"):
                t = x[1]
                if x[0] == "n":
                    v = x[1]
                    if fl & 6: t = ("%x" if fl & 7 == 2 else "%o") % (v & (2 ** 64 - 1)) if fl & 7 in (2, 4) else str(v)
                    else: t = ("+" if fl & 8 and v >= 0 else "") + str(v)
                    if fl & 16 and fl & 6: t = ("0x" if fl & 2 else "0") + t
                    if fl & 32: t = t.upper()
                out.append(t.ljust(width, fill) if fl & 64 else t.rjust(width, fill)); width = 0
            elif x[0] == "tag" and width: out.append(("padded tag", x[1], width)); width = 0
            else: out.append(x)
        return out
    problems, undecided, total, ok = [], [], 0, 0
    def fits(std, n): return std != 98 or len(full[n][2]) <= 32
    def reads(ir, std):
        fns = functions(ir); g = ir_globals(ir)
        return sum(fits(std, n) and "mpv_case%d" % n in fns and not isinstance(trace("mpv_case%d" % n, fns, g, ir_chars), str) for n in range(len(full)))
    def job(std):
        L = list(pre) + ['extern "C" {']
        for n, (i, P, t, e) in enumerate(full):
            if fits(std, n): L.append(core.fix98("void mpv_case%d() { boost::metaparse::debug_parsing_error<%s, %s > d; (void)d; }" % (n, P, mpstring(t))))
        L.append("}")
        p = os.path.join(ctx.workdir, "report.cxx%d.cpp" % std); open(p, "w").write("\n".join(L) + "\n")
        cmd = [core.CLANG, "-w", "-std=c++%d" % std, "-ftemplate-depth=4096", "-O2", "-fno-exceptions", "-mllvm", "-inline-threshold=100000", "-fno-vectorize", "-S", "-emit-llvm", "-I" + core.INC, "-I" + os.path.join(core.VERIF, "witness"), "-isystem", os.path.join(core.VERIF, "witness", "shim_out"), "-o", "-", p]
        # and as an ordinary user would compile it
        L2 = [x for x in L if not x.startswith("template <int N> struct tmsg")]
        real = ["#include <boost/metaparse/debug_parsing_error.hpp>", "#include <boost/metaparse/int_.hpp>", "#include <boost/metaparse/string.hpp>", "void f() { boost::metaparse::debug_parsing_error<boost::metaparse::int_, boost::metaparse::string<'x'> > d; }"]
        p2 = os.path.join(ctx.workdir, "report_real.cxx%d.cpp" % std); open(p2, "w").write("\n".join(real) + "\n")
        got = core.sh(cmd)
        want = sum(fits(std, n) for n in range(len(full)))
        first = 0 if got[0] else reads(got[1], std)
        if first < want:   # texts kept in std::string objects
            cmd2 = list(cmd); i = cmd2.index("-isystem"); cmd2[i:i] = ["-isystem", os.path.join(core.VERIF, "witness", "shim_str")]
            again = core.sh(cmd2)
            if again[0] == 0 and (got[0] or reads(again[1], std) > first): cmd, got = cmd2, again
        return std, cmd, got, core.sh(core.base_cmd(std) + [p2]), " ".join(core.base_cmd(std) + [p2])
    for std, cmd, (rc, out, err), (rc2, _, err2), cmd2 in pool([lambda s=s: job(s) for s in (tier_stds(ctx, 98, 11, 17))]):
        total += 1
        if rc2: problems.append(dict(id="report/usable@c++%d" % std, what="the report cannot be used with its documented headers: " + first_error(err2), subject="debug_parsing_error", cmd=cmd2))
        else: ok += 1
        total += sum(fits(std, n) for n in range(len(full)))
        if rc: undecided.append("c++%d: %s" % (std, first_error(err))); continue
        g = ir_globals(out)
        fns = functions(out)
        for n, (i, P, t, e) in enumerate(full):
            if not fits(std, n): continue
            if "mpv_case%d" % n not in fns: undecided.append("%s@c++%d: not in the IR" % (i, std)); continue
            tr = trace("mpv_case%d" % n, fns, g, ir_chars)
            if isinstance(tr, str): undecided.append("%s@c++%d: %s" % (i, std, tr)); continue
            tr = render(tr)
            if norm(tr) == norm(e) + [("exit", 0)]: ok += 1
            else: problems.append(dict(id="report/%s@c++%d" % (i, std), what="the report for %s on %r writes %r instead of %r followed by exit(0)" % (P, esc(t), norm(tr), norm(e)), subject="debug_parsing_error", cmd=" ".join(cmd)))
    ctx.extra["undecided_reports"] = undecided[:20]
    return dict(obligations=total, discharged=ok, problems=problems, info="output call sequences of %d report constructors per standard, %d undecided" % (len(full), len(undecided)))

def ir_chars(g, name):
    v = g.get(name)
    if v is None: return None
    if v[0] == "bytes": return v[2] if v[2] is not None else [0] * v[1]
    return None

def functions(ir):
    """name -> ([parameter names], body)"""
    out = {}
    for head, name, params, body in re.findall(r'^(define [^\n]*?)@([\w.$]+|"[^"]+")\(([^\n]*?)\)[^\n()]*?\{\n(.*?)^\}', ir, re.M | re.S):
        out[name.strip('"')] = (re.findall(r"(%[\w.]+)(?:,|$)", params), body)
    return out

def split_args(a):
    res, depth, cur = [], 0, ""
    for ch in a:
        if ch in "([{": depth += 1
        if ch in ")]}": depth -= 1
        if ch == "," and depth == 0: res.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): res.append(cur.strip())
    return res

def trace(name, fns, g, chars, env=None, depth=0):
    """sequence of observable calls made by a function without branches, following calls of functions
    defined in the module, or the reason why it cannot be told"""
    if depth > 60: return "recursion"
    params, body = fns[name]
    env = dict(zip(params, env or []))
    if re.search(r"^\s*(br|switch|indirectbr) .*label.*label", body, re.M) or re.search(r"^\s*%?\S* ?=? ?invoke ", body, re.M): return "the function branches"
    out = []
    for l in body.splitlines():
        w = re.match(r"\s*(%[\w.]+) = (?:sext|zext)(?: nneg)? i\d+ (%[\w.]+) to (i\d+)", l)
        if w and re.fullmatch(r".*\bi\d+ .*?(-?\d+)", env.get(w.group(2), "")): env[w.group(1)] = w.group(3) + " " + re.search(r"(-?\d+)$", env[w.group(2)]).group(1)
        if not re.search(r"\bcall\b", l): continue
        m = re.search(r"@([\w.$]+|\"[^\"]+\")\((.*)\)", l)
        if not m:
            m = re.search(r"\bcall\b.*?(%[\w.]+)\((.*)\)", l)
            if not m or m.group(1) not in env or "@" not in env[m.group(1)]: return "indirect call"
            f = re.search(r"@([\w.$]+|\"[^\"]+\")", env[m.group(1)]).group(1).strip('"')
            a = m.group(2)
        else: f, a = m.group(1).strip('"'), m.group(2)
        args = []
        for x in split_args(a):
            v = re.search(r"(%[\w.]+)$", x)
            args.append(env.get(v.group(1), x) if v else x)
        if f.startswith("llvm."): continue
        a = ", ".join(args)
        if f in ("mpv_put_str", "mpv_put_mem", "mpv_put_fmem"):
            p = re.search(r"@([\w.$]+|\"[^\"]+\")", args[0])
            b = chars(g, p.group(1).strip('"')) if p else None
            off = re.search(r"i64 0, i64 (\d+)\)", args[0]) or re.search(r"getelementptr inbounds \(i8, ptr @\S+ i64 (\d+)\)", args[0])
            if b is None: return "text is not a constant"
            if off: b = b[int(off.group(1)):]
            if f == "mpv_put_str":
                if 0 not in b: return "text is not terminated"
                b = b[:b.index(0)]
            else:
                n = re.search(r"(\d+)$", args[1])
                if not n or "%" in args[1]: return "length is not a constant"
                b = b[:int(n.group(1))]
            out.append(("raw" if f == "mpv_put_mem" else "s", "".join(map(chr, b))))
        elif f in ("mpv_put_num", "mpv_put_chr", "mpv_raw_chr", "mpv_put_tag", "mpv_fmt_width", "mpv_fmt_fill", "mpv_fmt_set", "exit"):
            ns = [re.search(r"(-?\d+)$", x) for x in args]
            if not all(ns) or "%" in a: return "number is not a constant"
            v = int(ns[0].group(1))
            if f == "mpv_put_num": out.append(("n", v))
            elif f in ("mpv_put_chr", "mpv_raw_chr"): out.append(("s" if f == "mpv_put_chr" else "raw", chr(v & 255)))
            elif f.startswith("mpv_fmt_"): out.append((f[4:], v, int(ns[-1].group(1))))
            elif f == "mpv_put_tag": out.append(("tag", v))
            else: out.append(("exit", v)); return out
        elif f in ("mpv_flush", "mpv_fmt_get"): pass
        elif f == "mpv_put_obj": return "text object"
        elif f in fns:
            r = trace(f, fns, g, chars, args, depth + 1)
            if isinstance(r, str): return r
            out += r
            if r and r[-1][0] == "exit": return out
        else: out.append(("call", f))
    return out
