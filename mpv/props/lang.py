"""C15 keyword/token/spaces/empty/entire_input, C17 build_parser, C18 grammar notation"""
import os, re, itertools
from .common import *
from .. import core
from .chars import np, WS, ALLC
BM = "namespace bm = boost::metaparse;\n"

def adv(codes, l=1, c=1, prev=0):
    for x in codes:
        l, c = np(x, l, c, prev); prev = x & 255
    return l, c, prev
def P_(codes, l=1, c=1, prev=0): return "pos<%d,%d,%d>::type" % adv(codes, l, c, prev)
STARTS = (("bm::start", 1, 1, 0), ("P0", 17, 23, 113))

PRE15 = BM + r'''
// succeeds with a given outcome
template <class R, class Rem, class At> struct gives {
  typedef gives type;
  template <class S, class Pos> struct apply : bm::accept<R, Rem, At> {};
};
typedef bm::string<> E;
'''
INC15 = ["keyword.hpp", "token.hpp", "spaces.hpp", "space.hpp", "empty.hpp", "entire_input.hpp", "lit.hpp", "string.hpp", "start.hpp", "error/end_of_input_expected.hpp", "error/literal_expected.hpp", "error/whitespace_expected.hpp", "fail_tag.hpp", "<boost/mpl/vector.hpp>"]

def c15(ctx):
    us = []
    u = Unit("keyword", INC15, "keyword", pre=ODD_PRE + PRE15, chunk=120, stds=tier_stds(ctx, 98, 14))
    def kw(t, k, res="sym<5>", starts=STARTS):
        K = "bm::keyword<%s, %s >" % (mpstring(k), res)
        for (p, l, c, pv) in starts:
            for ti, tail in enumerate(([], [0x78], k[:1] or [10], [32, 10])):
                if len(k) + len(tail) > 30 and ti: continue
                u.ob("%s.ok.%s.%d" % (t, p[-2:], ti), "accepts<%s::apply<%s, %s>, %s, %s, %s>::value" % (K, mpstring(k + tail), p, res, mpstring(tail), P_(k, l, c, pv)), "keyword")
            for i in range(len(k)):
                msg = "bm::error::literal_expected<%s>" % cch(k[i])
                at = P_(k[:i], l, c, pv)
                o = []
                for x in ([], [k[i] ^ 1] + k[i + 1:], [k[i] ^ 32], k[i + 1:] if k[i + 1:i + 2] != [k[i]] else [k[i] ^ 2], [k[i] ^ 128] + k[i + 1:]):
                    if x and x[0] == k[i]: continue
                    o.append("rejects<%s::apply<%s, %s>, %s, %s>::value" % (K, mpstring(k[:i] + x), p, msg, at))
                u.ob("%s.no.%s.%d" % (t, p[-2:], i), " && ".join(o), "keyword")
    for n in (0, 1, 2, 3, 4, 5, 8, 12) + ((16, 20, 24, 30) if ctx.thorough else (20,)):
        kw("len%d" % n, [97 + (i * 7) % 26 for i in range(n)], starts=STARTS if n < 6 or ctx.thorough else STARTS[1:])
    kw("same", [97, 97, 97, 97], starts=STARTS[:1])
    kw("nl", [97, 10, 98, 13, 10, 99, 13, 100, 0, 255, 32], starts=STARTS[:1])
    for c in ALLC if ctx.thorough else (0, 9, 10, 13, 32, 39, 92, 127, 128, 200, 255):
        kw("chr%d" % c, [c, 65], starts=STARTS[1:])
    for i, r in enumerate(ODD): kw("result%d" % i, [105, 102], r, starts=STARTS[1:])
    u.ob("default", "ends_at<bm::keyword<bm::string<'i','f'> >::apply<bm::string<'i','f','x'>, bm::start>, bm::string<'x'>, pos<1,3,'f'>::type>::value && rejects<bm::keyword<bm::string<'i','f'> >::apply<bm::string<'i','x'>, bm::start>, bm::error::literal_expected<'f'>, pos<1,2,'i'>::type>::value && ends_at<bm::keyword<bm::string<> >::apply<bm::string<'i','x'>, P0>, bm::string<'i','x'>, P0>::value", "keyword")
    us.append(u)

    v = Unit("spacing", INC15, "token", pre=ODD_PRE + PRE15, chunk=150, stds=tier_stds(ctx, 98, 17))
    ws = sorted(WS)
    runs = [()] + [x for n in (1, 2, 3) for x in itertools.product(ws, repeat=n)]
    runs += [tuple(ws[(i * i + i // 3) % 4] for i in range(n)) for n in (4, 5, 7, 12, 20)]
    runs += [(32,) * n for n in (4, 8, 15, 16, 17, 24)]
    for k, r in enumerate(runs):
        r = list(r)
        for j, tail in enumerate(([], [120, 32], [0], [255, 10])):
            if len(r) + len(tail) > 30 or (k > 30 and j > 1 and not ctx.thorough): continue
            for (p, l, c, pv) in STARTS if k < 21 or ctx.thorough else STARTS[k % 2:k % 2 + 1]:
                S = mpstring(r + tail)
                t = "%d.%d.%s" % (k, j, p[-2:])
                end = P_(r, l, c, pv)
                if r: v.ob("spaces." + t, "ends_at<bm::spaces::apply<%s, %s>, %s, %s>::value" % (S, p, mpstring(tail), end), "spaces")
                elif tail: v.ob("spaces." + t, "rejects<bm::spaces::apply<%s, %s>, bm::error::whitespace_expected, %s>::value" % (S, p, p), "spaces")
                else: v.ob("spaces." + t, "rejects_at<bm::spaces::apply<%s, %s>, %s>::value" % (S, p, p), "spaces")
                # what the inner parser leaves behind is unrelated to the input it was given
                v.ob("token." + t, "accepts<bm::token<gives<sym<9>, %s, %s> >::apply<str<1>, P1>, sym<9>, %s, %s>::value" % (S, p, mpstring(tail), end), "token")
    for c in ALLC:
        if c in WS: continue
        v.ob("stop.%d" % c, "ends_at<bm::spaces::apply<%s, bm::start>, %s, pos<1,3,' '>::type>::value && accepts<bm::token<gives<sym<9>, %s, bm::start> >::apply<str<1>, P1>, sym<9>, %s, bm::start>::value && rejects<bm::spaces::apply<%s, P0>, bm::error::whitespace_expected, P0>::value" % (
            mpstring([32, 32, c, 32]), mpstring([c, 32]), mpstring([c, 32]), mpstring([c, 32]), mpstring([c, 32])), "spaces")
    for i, r in enumerate(ODD):
        v.ob("token.result%d" % i, "accepts<bm::token<gives<%s, bm::string<' ','x'>, P0> >::apply<str<1>, P1>, %s, bm::string<'x'>, pos<17,24,' '>::type>::value" % (r, r), "token")
    v.ob("token.symbolic", "rejects<bm::token<rej<3> >::apply<str<1>, P0>, rej_msg<3,str<1>,P0>::type, rej_pos<3,str<1>,P0>::type>::value && rejects<bm::token<bm::lit<boost::mpl::char_<'a'> > >::apply<bm::string<' ','a'>, P0>, bm::error::literal_expected<'a'>, P0>::value", "token")
    v.ob("token.nested", "accepts<bm::token<bm::token<gives<sym<9>, bm::string<' ','\\n','x'>, bm::start> > >::apply<str<1>, P1>, sym<9>, bm::string<'x'>, pos<2,1,'\\n'>::type>::value", "token")
    us.append(v)

    w = Unit("whole", INC15, "entire_input", pre=ODD_PRE + PRE15, chunk=150)
    for i, r in enumerate(ODD):
        w.ob("empty.result%d" % i, "accepts<bm::empty<%s >::apply<E, P0>, %s, E, P0>::value && accepts<bm::empty<%s >::apply<E, bm::start>, %s, E, bm::start>::value" % (r, r, r, r), "empty")
        w.ob("entire.result%d" % i, "accepts<bm::entire_input<gives<%s, E, P0> >::apply<str<1>, P1>, %s, E, P0>::value && accepts<bm::entire_input<gives<%s, E, P0>, sym<8> >::apply<str<1>, P1>, %s, E, P0>::value" % (r, r, r, r), "entire_input")
    eoi = "bm::error::end_of_input_expected"
    rests = [[c] for c in ALLC] + [[c, 97] for c in (0, 10, 32, 255)] + [text_(n) for n in (2, 3, 5, 16, 31, 32)]
    for k, s in enumerate(rests):
        S = mpstring(s)
        w.ob("empty.no%d" % k, "rejects<bm::empty<sym<1> >::apply<%s, P0>, %s, P0>::value" % (S, eoi), "empty")
        w.ob("entire.no%d" % k, "rejects<bm::entire_input<gives<sym<1>, %s, P0> >::apply<str<1>, P1>, %s, P0>::value && rejects<bm::entire_input<gives<sym<1>, %s, P0>, sym<8> >::apply<str<1>, P1>, sym<8>, P0>::value && rejects<bm::entire_input<gives<sym<1>, %s, P0>, %s>::apply<str<1>, P1>, %s, P0>::value" % (S, eoi, S, S, eoi, eoi), "entire_input")
    for m in ("", ", sym<8>", ", " + eoi, ", lazysym<4>"):
        w.ob("entire.fail" + m, "rejects<bm::entire_input<rej<3>%s>::apply<str<1>, P0>, rej_msg<3,str<1>,P0>::type, rej_pos<3,str<1>,P0>::type>::value && rejects<bm::entire_input<rej<3>%s>::apply<E, P0>, rej_msg<3,E,P0>::type, rej_pos<3,E,P0>::type>::value" % (m, m), "entire_input")
        w.ob("entire.noconsume" + m, "rejects_at<bm::entire_input<gives<sym<1>, bm::string<'a'>, P0>%s>::apply<bm::string<'a'>, P0>, P0>::value" % m, "entire_input")
    us.append(w)
    return us

def text_(n): return [33 + (i * 31) % 94 for i in range(n)]

# ---------------------------------------------------------------------- C17
PRE17 = BM + r'''
// reports where it was started as its result
struct where_ { typedef where_ type; template <class S, class Pos> struct apply :
  bm::accept<sym<bm::get_line<Pos>::type::value * 100000 + bm::get_col<Pos>::type::value * 300 + bm::get_prev_char<Pos>::type::value, S>, S, Pos> {}; };
template <class R, class Rem, class At> struct gives { typedef gives type; template <class S, class Pos> struct apply : bm::accept<R, Rem, At> {}; };
typedef bm::string<> E;
'''
INC17 = ["build_parser.hpp", "start.hpp", "string.hpp", "int_.hpp", "digit.hpp", "repeated.hpp", "sequence.hpp", "<boost/mpl/apply_wrap.hpp>", "<boost/mpl/apply.hpp>", "fail_tag.hpp", "<boost/mpl/vector.hpp>"]
def c17(ctx):
    u = Unit("built", INC17, "build_parser", pre=ODD_PRE + PRE17, chunk=100)
    for i, s in enumerate(("str<1>", "E", "bm::string<'a','b'>", "in<3>")):
        u.ob("start%d" % i, "same<bm::build_parser<where_>::apply<%s >::type, sym<100300, %s > >::value && same<bm::build_parser<where_>::type::apply<%s >::type, sym<100300, %s > >::value && same<mpl::apply_wrap1<bm::build_parser<where_>, %s >::type, sym<100300, %s > >::value" % (s, s, s, s, s, s))
    from .envlaws import VALS, ERRS, KNOWN_INC
    u.inc += [h for h in KNOWN_INC if h not in u.inc]
    for i, r in enumerate(VALS + ERRS):
        for j, (rem, at) in enumerate((("E", "bm::start"), ("bm::string<'z'>", "P0"), ("str<4>", "P1"))):
            if r in ("bm::fail",): continue
            u.ob("result%d.%d" % (i, j), "same<bm::build_parser<gives<%s, %s, %s> >::apply<str<1> >::type, %s >::value" % (r, rem, at, r))
    for n in (0, 1, 7, 10, 42, 123, 99999, 2000000000):
        for tail in ("", "x", "+1"):
            u.ob("int.%d%s" % (n, tail), "bm::build_parser<bm::int_>::apply<%s >::type::value == %d" % (mpstring([ord(x) for x in str(n) + tail]), n))
    return [u]

def c17_reject(ctx):
    """every use of the outcome of a failed parse is rejected and the diagnostic carries line, column and message"""
    uses = [("type", "typedef bm::build_parser<%(P)s >::apply<%(S)s >::type use%(i)d;"),
            ("type.type", "typedef bm::build_parser<%(P)s >::type::apply<%(S)s >::type use%(i)d;"),
            ("wrap", "typedef boost::mpl::apply_wrap1<bm::build_parser<%(P)s >, %(S)s >::type use%(i)d;"),
            ("base", "struct use%(i)d : bm::build_parser<%(P)s >::apply<%(S)s > {};"),
            ("sizeof", "char use%(i)d[sizeof(bm::build_parser<%(P)s >::apply<%(S)s >)];"),
            ("object", "bm::build_parser<%(P)s >::apply<%(S)s > use%(i)d;"),
            ("value", "int use%(i)d() { return bm::build_parser<%(P)s >::apply<%(S)s >::type::value; }"),
            ("param", "template <class> struct need%(i)d; template <class T> struct need%(i)d { typedef typename T::type type; }; typedef need%(i)d<bm::build_parser<%(P)s >::apply<%(S)s > >::type use%(i)d;")]
    places = [(1, 1), (1, 20871), (10417, 1), (10417, 20823), (2, 2), (31999, 31998), (7, 7), (65536, 65537), (300000001, 300000002)]
    problems, total, ok = [], 0, 0
    for std in (tier_stds(ctx, 98, 17)):
        pre = ["#include <boost/metaparse/%s>" % h if not h.startswith("<") else "#include " + h for h in INC17]
        pre += ["#include <boost/metaparse/lit_c.hpp>", "#include <boost/metaparse/define_error.hpp>", "#include <boost/metaparse/fail.hpp>", "#include <boost/metaparse/entire_input.hpp>", "#include <boost/metaparse/grammar.hpp>", "#include <mpv/sym.hpp>", "using namespace mpv;"] + PRE17.splitlines()
        cases = []
        # one message class per use: the compiler reports an instantiation only once per translation unit
        def sympar(nm, l, c, valued=False):
            body = "struct apply { typedef bm::reject<msg_%s_x, pos<%d,%d,'c'>::type> type; static const int value = 5; };" if valued else "struct apply : bm::reject<msg_%s_x, pos<%d,%d,'c'>::type> {};"
            pre.append(("struct msg_%s_x { static const int value = 13; typedef int type; }; struct pfail_%s { typedef pfail_%s type; template <class S, class Pos> " % (nm, nm, nm)) + body % (nm, l, c) + " };")
        for k, (l, c) in enumerate(places):
            for z, (n, t) in enumerate(uses):
                if k > 2 and not ctx.thorough and z % 3 != k % 3: continue
                nm = "%d_%d" % (k, z); sympar(nm, l, c)
                cases.append(("sym%d.%s" % (k, n), "pfail_" + nm, "str<1>", t, l, c, "msg_%s_x" % nm))
        # a failing parser whose application is lazy and looks like a value
        for z, (n, t) in enumerate(uses):
            nm = "v_%d" % z; sympar(nm, 444444, 555555, True)
            cases.append(("lazy." + n, "pfail_" + nm, "str<1>", t, 444444, 555555, "msg_%s_x" % nm))
        # named aliases so that the parser type does not spell line, column and message
        pre.append("BOOST_METAPARSE_DEFINE_ERROR(user_msg_z, \"user\"); struct palways : bm::fail<user_msg_z> {};")
        for n, t in uses[:1]:
            cases.append(("int." + n, "bm::int_", "bm::string<'x'>", t, 1, 1, "digit_expected"))
            cases.append(("fail." + n, "palways", "bm::string<'x'>", t, 1, 1, "user_msg_z"))
        pre.append("struct pthird : bm::sequence<bm::digit, bm::digit, bm::digit> {}; struct pline : bm::sequence<bm::lit_c<'a'>, bm::lit_c<'\\n'>, bm::lit_c<'b'>, bm::digit> {}; struct pwhole : bm::entire_input<bm::int_> {};")
        cases.append(("third", "pthird", "bm::string<'1','2','x'>", uses[0][1], 1, 3, "digit_expected"))
        cases.append(("line", "pline", "bm::string<'a','\\n','b','c'>", uses[0][1], 2, 2, "digit_expected"))
        cases.append(("whole", "pwhole", "bm::string<'1','2','c'>", uses[0][1], 1, 3, "end_of_input_expected"))
        pre.append("struct g1 : bm::grammar<>::rule<bm::string<'S',':',':','=','\\'','x','\\''> >::type {};")
        cases.append(("grammar", "g1", "bm::string<'y'>", uses[0][1], 1, 1, "literal_expected"))
        for (nm, txt, col) in (("norhs", "S ::= ", 7), ("nodef", "S = 'x'", 3), ("bracket", "S ::= ('x'", 11), ("quote", "S ::= 'x", 9), ("junk", "S ::= 'x' ]", 11), ("empty", "", 1), ("closing", "S ::= 'x')", 10)):
            cases.append(("notation." + nm, None, mpstring([ord(x) for x in txt]), "typedef bm::grammar<>::rule<%(S)s >::type::apply<bm::string<'x'>, bm::start>::type use%(i)d;", 1, col, None))
        pre0 = list(pre)
        lines = list(pre); where = {}
        for i, (n, P, S, t, l, c, m) in enumerate(cases):
            lines.append(core.fix98(t % dict(P=P, S=S, i=i))); where[len(lines)] = (n, P, S, l, c, m)
        src = os.path.join(ctx.workdir, "reject.cxx%d.cpp" % std)
        open(src, "w").write("\n".join(lines) + "\n")
        bare = os.path.join(ctx.workdir, "reject.bare.cxx%d.cpp" % std)
        open(bare, "w").write("\n".join(pre0) + "\n")
        rc, _, err = core.sh(core.base_cmd(std) + [bare])
        if rc: raise core.Broken("C17 preamble: " + err[:800])
        rc, _, err = core.sh(core.base_cmd(std) + [src])
        diag = groups(err, src)
        for line, (n, P, S, l, c, m) in where.items():
            total += 1
            d = diag.get(line)
            if d is None: d = alone(ctx, std, pre0, lines[line - 1], "use%d" % line)
            if d is None:
                problems.append(dict(id="reject/%s@c++%d" % (n, std), what="a use of the outcome of a failed parse compiles: %s" % lines[line - 1], subject="build_parser", cmd=" ".join(core.base_cmd(std) + [src]))); continue
            txt = re.sub(r"int_<\s*\d+\s*>", "int_<>", d)
            if re.search(r"[<,]\s*%d,\s*%d\s*[,>]%s" % (l, c, "[^<>]*" + m if m else ""), txt): ok += 1
            else: problems.append(dict(id="reject/%s@c++%d" % (n, std), what="the diagnostic of a failed parse does not carry line %d, column %d and message %s: %s" % (l, c, m, d[:600]), subject="build_parser", cmd=" ".join(core.base_cmd(std) + [src])))
    return dict(obligations=total, discharged=ok, problems=problems, info="%d uses of failed parses that have to be refused with the line, column and message in the diagnostic" % total)

def alone(ctx, std, pre, line, tag):
    """the witness line in a translation unit of its own (the compiler reports a shared instantiation only once)"""
    src = os.path.join(ctx.workdir, "alone.%s.cxx%d.cpp" % (tag, std)); open(src, "w").write("\n".join(pre + [line]) + "\n")
    rc, _, err = core.sh(core.base_cmd(std) + [src])
    return err if rc else None

def groups(err, path):
    """witness line -> diagnostic text of the errors it causes"""
    out, buf, pend = {}, [], None
    for ln in err.splitlines():
        m = core.ERR.match(ln)
        lo = core.LOC.match(ln)
        buf.append(ln)
        if m:
            at = int(m.group(2)) if m.group(1) == path else pend
            out[at] = out.get(at, "") + "\n".join(buf) + "\n"
            buf, pend = [], None
        elif ": note:" in ln: buf.pop()
        elif lo and lo.group(1) == path: pend = int(lo.group(2))
    return out

# ---------------------------------------------------------------------- C18
# independent interpreter of the notation.  AST: ('c',code) ('n',name) ('s',a,b) ('o',a,b) ('*',a) ('+',a) ('b',a)
FAIL = None
def interp(g, e, s, i):
    """-> (result, next index) or FAIL; results: ('chr',code) | ('seq',[..]) | ('act',k,res)"""
    k = e[0]
    if k == 'c': return (('chr', e[1]), i + 1) if i < len(s) and s[i] == e[1] else FAIL
    if k == 'n':
        if e[1] in g["imports"]: r = g["imports"][e[1]][1](s, i)
        else: r = interp(g, g["rules"][e[1]], s, i)
        if r is FAIL: return FAIL
        a = g["actions"].get(e[1])
        return (('act', a, r[0]), r[1]) if a is not None else r
    if k == 'b': return interp(g, e[1], s, i)
    if k == 's':
        a = interp(g, e[1], s, i)
        if a is FAIL: return FAIL
        b = interp(g, e[2], s, a[1])
        return FAIL if b is FAIL else (('seq', [a[0], b[0]]), b[1])
    if k == 'o':
        a = interp(g, e[1], s, i)
        return a if a is not FAIL else interp(g, e[2], s, i)
    out = []
    while True:
        r = interp(g, e[1], s, i)
        if r is FAIL: break
        if r[1] == i: raise RuntimeError("empty repetition")
        out.append(r[0]); i = r[1]
    if k == '+' and not out: return FAIL
    return (('seq', out), i)

def nullable_rep(g, e):
    """would the expression repeat something that can succeed without consuming?"""
    def nul(x):
        k = x[0]
        if k == 'c': return False
        if k == 'n': return nul(g["rules"][x[1]]) if x[1] in g["rules"] else g["imports"][x[1]][2]
        if k in 'b+': return nul(x[1])
        if k == '*': return True
        if k == 's': return nul(x[1]) and nul(x[2])
        return nul(x[1]) or nul(x[2])
    def walk(x):
        if x[0] in '*+' and nul(x[1]): return True
        return any(walk(y) for y in x[1:] if isinstance(y, tuple))
    return walk(e)

ESC = {10: "\\n", 13: "\\r", 9: "\\t", 92: "\\\\", 39: "\\'"}
def show(e, sp="", prec=0):
    """text of an expression; sp separates symbols; brackets where needed.  prec: 0 or, 1 seq, 2 rep"""
    k = e[0]
    if k == 'c': t, q = "'%s'" % (ESC.get(e[1]) or chr(e[1])), 3
    elif k == 'n': t, q = e[1], 3
    elif k == 'b': t, q = "(" + sp + show(e[1], sp, 0) + sp + ")", 3
    elif k in '*+': t, q = show(e[1], sp, 2) + sp + k, 2
    elif k == 's':
        a, b = show(e[1], sp, 1), show(e[2], sp, 2)
        need = (a[-1:].isalnum() or a[-1:] == "_") and (b[:1].isalnum() or b[:1] == "_")
        t, q = a + (sp or (" " if need else "")) + b, 1
    else: t, q = show(e[1], sp, 0) + sp + "|" + sp + show(e[2], sp, 1), 0
    return t if q >= prec else "(" + t + ")"

def rexpr(r):
    """C++ description of an expected result"""
    if r[0] == 'chr': return "rc<%d>" % schar(r[1])
    if r[0] == 'act': return "ra<%d, %s >" % (r[1], rexpr(r[2]))
    if r[0] == 'sym': return "rs<%s >" % r[1]
    s = "nil"
    for x in reversed(r[1]): s = "cons<%s, %s >" % (rexpr(x), s)
    return "rl<%s >" % s

PRE18 = BM + r'''
template <int C> struct rc; template <int K, class R> struct ra; template <class L> struct rl; template <class T> struct rs;
template <int K, class A> struct acted { typedef acted type; };
template <class K, class A> struct actm { typedef acted<K::value, A> type; };
template <int K> struct act { typedef act type; template <class A> struct apply { typedef acted<K, A> type; }; };
template <class Got, class Want> struct agrees;
template <class Got, int C> struct agrees<Got, rc<C> > { static const bool value = (int)Got::type::value == C; };
template <class Got, class T> struct agrees<Got, rs<T> > : same<Got, T> {};
template <class Got, int K, class R> struct agrees<Got, ra<K, R> > { static const bool value = false; };
template <int K, class A, class R> struct agrees<acted<K, A>, ra<K, R> > : agrees<A, R> {};
template <class I, class E_, class L> struct lagrees;
template <class E_> struct lagrees<E_, E_, nil> { static const bool value = true; };
template <class I, class E_> struct lagrees<I, E_, nil> { static const bool value = false; };
template <class E_, class H, class T> struct lagrees<E_, E_, cons<H, T> > { static const bool value = false; };
template <bool G, class I, class E_, class T> struct lstep { static const bool value = false; };
template <class I, class E_, class T> struct lstep<true, I, E_, T> : lagrees<typename mpl::next<I>::type, E_, T> {};
template <class I, class E_, class H, class T> struct lagrees<I, E_, cons<H, T> > : lstep<agrees<typename mpl::deref<I>::type, H>::value, I, E_, T> {};
template <class Got, class L> struct agrees<Got, rl<L> > : lagrees<typename mpl::begin<Got>::type, typename mpl::end<Got>::type, L> {};
template <class O, bool Err, class R, class Rem, class Pos> struct gacc_ { static const bool value = false; };
template <class O, class R, class Rem, class Pos> struct gacc_<O, false, R, Rem, Pos> {
  static const bool value = same<typename bm::get_remaining<O>::type, Rem>::value && pos_eq<typename bm::get_position<O>::type, Pos>::value && agrees<typename bm::get_result<O>::type, R>::value; };
template <class G, class S, class Pos, class R, class Rem, class End> struct gacc : gacc_<typename G::template apply<S, Pos>, bm::is_error<typename G::template apply<S, Pos> >::type::value, R, Rem, End> {};
template <class G, class S, class Pos> struct grej { static const bool value = bm::is_error<typename G::template apply<S, Pos> >::type::value; };
// imported parser that takes any one character and yields a recognisable value
struct any_ { typedef any_ type; template <class S, class Pos> struct apply : bm::one_char::apply<S, Pos> {}; };
'''
INC18 = ["grammar.hpp", "string.hpp", "one_char.hpp", "digit.hpp", "lit_c.hpp", "start.hpp", "int_.hpp", "return_.hpp", "<boost/mpl/vector.hpp>", "<boost/mpl/lambda.hpp>", "<boost/mpl/placeholders.hpp>"]

def oc(s): return [ord(x) for x in s]

class Grams:
    def __init__(self, unit): self.u, self.k = unit, 0
    def add(self, t, defs, inputs, start=None, rules=None, imports=None, actions=None, starts=None):
        """defs: list of C++ suffixes; rules/imports/actions: model"""
        self.k += 1
        G = "G%d" % self.k
        self.u.pre += "typedef bm::grammar<%s>%s %s;\n" % (mpstring(oc(start[0])) + " " if start else "", "".join(defs), G)
        g = dict(rules=rules, imports=imports or {}, actions=actions or {})
        st = ('n', start[1] if start else 'S')
        for j, s in enumerate(inputs):
            r = interp(g, st, s, 0)
            for (p, l, c, pv) in (starts or (STARTS[j % 2],)):
                if r is FAIL: self.u.ob("%s.%d.%s" % (t, j, p[-2:]), "grej<%s, %s, %s>::value" % (G, mpstring(s), p), "grammar")
                else: self.u.ob("%s.%d.%s" % (t, j, p[-2:]), "gacc<%s, %s, %s, %s, %s, %s>::value" % (G, mpstring(s), p, rexpr(r[0]), mpstring(s[r[1]:]), P_(s[:r[1]], l, c, pv)), "grammar")

def rule(name, e, sp="", action=None, pre="", text=None):
    t = text if text is not None else pre + name + sp + "::=" + sp + show(e, sp)
    return "::rule<%s%s >::type" % (mpstring(oc(t)), ", " + action if action else "")

def exprs(depth):
    a, b = ('c', 97), ('c', 98)
    lv = [[a, b]]
    allx = [a, b]
    for d in range(depth):
        new = []
        for x in allx:
            new += [('*', x), ('+', x)]
        for x in allx:
            for y in allx:
                new += [('s', x, y), ('o', x, y)]
        allx = allx + [n for n in new if n not in allx]
    return allx

def c18(ctx):
    import random
    us = []
    def unit(name, stds, chunk=60):
        u = Unit(name, INC18, "grammar", pre=PRE18, stds=stds, chunk=10**6); us.append(u); return Grams(u)
    # terminals: every character in quotes, the escapes
    g = unit("terminals", (98, 17) if not ctx.thorough else ALL)
    for c in sorted((set(range(256)) if ctx.thorough else {0, 1, 8, 9, 10, 11, 13, 32, 34, 40, 41, 42, 43, 58, 61, 65, 95, 97, 110, 114, 116, 124, 126, 127, 128, 200, 255}) - {39, 92}):
        e = ('c', c)
        g.add("quoted%d" % c, ["::rule<%s >::type" % mpstring(oc("S::='") + [c] + oc("'"))], [[c], [c, c], [c ^ 1], []], rules={"S": e})
    for c in ESC:
        g.add("escape%d" % c, [rule("S", ('c', c))], [[c], [c, 120], [ord(ESC[c][1])] if ord(ESC[c][1]) != c else [120], [92] if c != 92 else [110], []], rules={"S": ('c', c)})
        g.add("escseq%d" % c, [rule("S", ('s', ('c', c), ('c', 97)), " ")], [[c, 97], [c], [97]], rules={"S": ('s', ('c', c), ('c', 97))})
    # structure: all small expressions over two terminals
    ins = [list(x) for n in range(0, 4) for x in itertools.product((97, 98), repeat=n)] + [oc(x) for x in ("abab", "aabb", "bbaa", "abba", "aaaa", "c", "ac", "abc")]
    xs = [x for x in exprs(2) if not nullable_rep(dict(rules={}, imports={}), x)]
    rnd = random.Random(20240501)
    small = [x for x in exprs(1) if not nullable_rep(dict(rules={}, imports={}), x)]
    deep = [x for x in xs if x not in small]
    def grow(n):
        while True:
            x = rnd.choice(deep); y = rnd.choice(deep); z = rnd.choice([('s', x, y), ('o', x, y), ('*', x), ('+', x), ('s', x, ('o', y, ('c', 97))), ('o', ('s', x, ('c', 98)), y)])
            if not nullable_rep(dict(rules={}, imports={}), z) and len(show(z)) <= n: return z
    for nm, stds, pick, sps in (("structure", tier_stds(ctx, 98, 14), small + rnd.sample(deep, 150 if ctx.thorough else 40), ("", " ")),
                                ("structure11", CPP11 if ctx.thorough else (11, 17), [grow(60) for _ in range(200 if ctx.thorough else 40)], ("", "  ", "\n", "\t \r"))):
        parts = 4 if ctx.thorough else 2
        gs = [unit("%s%d" % (nm, i), stds) for i in range(parts)]
        for i, e in enumerate(pick):
            sp = sps[i % len(sps)]
            if len(show(e, sp)) + 5 > 30 and 98 in stds: sp = ""
            if len(show(e, sp)) + 5 > 32 and 98 in stds: continue
            ii = ins if ctx.thorough else [ins[j] for j in range(len(ins)) if j < 7 or (j + i) % 3 == 0]
            gs[i % parts].add("%d[%s]" % (i, "".join(x if x in "ab|*+()" else "" for x in show(e))), [rule("S", e, sp)], ii, rules={"S": e})
    # brackets, doubled operators, spacing before names
    g = unit("notation", ALL)
    A, B, C = ('c', 97), ('c', 98), ('c', 99)
    abc = [oc(x) for x in ("a", "b", "ab", "aab", "abab", "ba", "", "abc", "ac", "bc", "aac", "abbc")]
    g.add("bracket1", [rule("S", ('b', A))], abc, rules={"S": A})
    g.add("bracket2", [rule("S", ('b', ('b', A)), " ")], abc, rules={"S": A})
    g.add("bracketor", [rule("S", ('s', ('b', ('o', A, B)), C))], abc, rules={"S": ('s', ('o', A, B), C)})
    g.add("bracketrep", [rule("S", ('*', ('b', ('s', A, B))))], abc, rules={"S": ('*', ('s', A, B))})
    g.add("seq3", [rule("S", ('s', ('s', A, B), C))], abc, rules={"S": ('s', ('s', A, B), C)})
    g.add("seqr3", [rule("S", ('s', A, ('b', ('s', B, C))))], abc, rules={"S": ('s', A, ('s', B, C))})
    g.add("or3", [rule("S", ('o', ('o', A, B), C))], abc, rules={"S": ('o', ('o', A, B), C)})
    g.add("seq4", [rule("S", ('s', ('s', ('s', A, B), B), C))], abc, rules={"S": ('s', ('s', ('s', A, B), B), C)})
    g.add("prec1", [rule("S", ('o', A, ('s', B, C)))], abc, rules={"S": ('o', A, ('s', B, C))})
    g.add("prec2", [rule("S", ('o', ('s', A, B), C))], abc, rules={"S": ('o', ('s', A, B), C)})
    g.add("prec3", [rule("S", ('s', A, ('*', B)))], abc, rules={"S": ('s', A, ('*', B))})
    g.add("prec4", [rule("S", ('s', ('+', A), B), " ")], abc, rules={"S": ('s', ('+', A), B)})
    g.add("prec5", [rule("S", ('o', A, ('+', B)))], abc, rules={"S": ('o', A, ('+', B))})
    g.add("prec6", [rule("S", ('*', ('b', ('o', A, B))))], abc, rules={"S": ('*', ('o', A, B))})
    for i, t in enumerate(("S::='a'", "S ::='a'", "S::= 'a'", "S  ::=  'a'  ", "S\n::=\t'a'\r\n", "S::='a' ")):
        g.add("space%d" % i, [rule("S", A, text=t)], abc[:4] + [[]], rules={"S": A})
    # names, symbols, imports, actions, start symbols
    g = unit("symbols", ALL)
    one = lambda s, i: (('chr', s[i]), i + 1) if i < len(s) else FAIL
    dig = lambda s, i: (('chr', s[i]), i + 1) if i < len(s) and 48 <= s[i] <= 57 else FAIL
    one_ret = lambda s, i: (('sym', 'sym<7>'), i)
    names = ["a", "Z", "0", "_", "aZ", "a1", "1a", "_x", "x_", "S1", "S_", "abcdefghij", "A_b_9", "__", "zz9", "SS", "s"]
    def imp(n, p): return "::import<%s, %s >::type" % (mpstring(oc(n)), p)
    for n in names:
        g.add("name[%s]" % n, [rule(n, A), rule("S", ('n', n))], [[97], [98], []], rules={n: A, "S": ('n', n)})
        g.add("import[%s]" % n, [imp(n, "any_"), rule("S", ('s', ('n', n), ('n', n)), " ")], [[97, 98, 99], [97], []], rules={"S": ('s', ('n', n), ('n', n))}, imports={n: ("any_", one, False)})
        g.add("start[%s]" % n, [rule(n, A), rule("S", B)], [[97], [98]], start=(n, n), rules={n: A, "S": B})
    allr = {"x": A, "y": B, "xy": ('s', A, B), "x1": C, "S": None}
    for i, e in enumerate((('s', ('n', "x"), ('n', "y")), ('n', "xy"), ('s', ('n', "xy"), ('n', "x1")), ('o', ('n', "xy"), ('n', "x")), ('*', ('n', "xy")), ('+', ('o', ('n', "x"), ('n', "x1"))), ('s', ('+', ('n', "x")), ('n', "y")), ('s', ('n', "x"), ('o', ('n', "y"), ('n', "x1"))))):
        m = dict(allr); m["S"] = e
        g.add("refs%d" % i, [rule(k, v) for k, v in m.items()], abc, rules=m)
        # definitions in another order mean the same
        g.add("refsrev%d" % i, [rule(k, v) for k, v in reversed(list(m.items()))], abc, rules=m)
    m = {"D": ('+', ('n', "d")), "S": ('s', ('n', "D"), ('c', 46))}
    g.add("imports", [imp("d", "bm::digit"), rule("D", m["D"]), rule("S", m["S"])], [oc(x) for x in ("1.", "123.", ".", "12", "1.2", "")], rules=m, imports={"d": ("bm::digit", dig, False)})
    g.add("import.symbolic", [imp("q", "bm::return_<sym<7> >"), rule("S", ('s', ('n', "q"), A))], abc[:3], rules={"S": ('s', ('n', "q"), A)}, imports={"q": ("", one_ret, True)})
    # actions transform the result of their rule only
    for i, (e, acts) in enumerate(((('n', "x"), {"x": 3}), (('n', "x"), {"S": 4}), (('n', "x"), {"x": 3, "S": 4}), (('s', ('n', "x"), ('n', "y")), {"y": 5}), (('s', ('n', "x"), ('n', "y")), {"x": 1, "y": 2, "S": 3}), (('*', ('n', "x")), {"x": 6}), (('*', ('n', "x")), {"S": 6}), (('+', ('o', ('n', "x"), ('n', "y"))), {"y": 8}), (('o', ('n', "y"), ('n', "x")), {"y": 9, "S": 1}))):
        m = {"x": A, "y": B, "S": e}
        g.add("act%d" % i, [rule(k, v, " ", "act<%d>" % acts[k] if k in acts else None) for k, v in m.items()], abc, rules=m, actions=acts)
        g.add("actmeta%d" % i, [rule(k, v, "", "actm<mpl::int_<%d>, mpl::_1>" % acts[k] if k in acts else None) for k, v in m.items()], abc[:6], rules=m, actions=acts)
    return us

BADTEXTS = ["", " ", "S", "S ::=", "S::= ", "S:='a'", "S:: ='a'", "S='a'", "::='a'", " S::='a'", "S S::='a'", "S::='a", "S::=a'", "S::=''", "S::='ab'", "S::='a'|", "S::=|'a'", "S::='a'||'b'",
            "S::=('a'", "S::='a')", "S::=(('a')", "S::=()", "S::=*", "S::=+'a'", "S::='a' $", "S::='a']", "S::='\\q'", "S::='\\0'", "S::='\\x'", "S::='\\", "S::='\\'", "S::='a'?", "S::='a'-'b'", "S-T::='a'", "S::='a' ::='b'", "S::='a';", "S::='a'(", "S::=('a'|)", "S::=(|'a')", "S::='''", "S::=\"a\"", "S::='a',",
            "S->'a'", "S::='a'::=", "*::='a'", "'a'", "S::=S2'", "S::=[a]", "S::={a}", "S::='a'&'b'", "S::='a'!", "S;='a'"]
BADREFS = [("undef", "::rule<%s >::type" % mpstring([ord(x) for x in "S::=x"])), ("undefseq", "::rule<%s >::type" % mpstring([ord(x) for x in "S::='a' y"])), ("nostart", "::rule<%s >::type" % mpstring([ord(x) for x in "T::='a'"])), ("none", ""), ("case", "::rule<%s >::type::rule<%s >::type" % (mpstring([ord(x) for x in "X::='a'"]), mpstring([ord(x) for x in "S::=x"])))]
def c18_reject(ctx):
    """texts outside the notation and references to unknown symbols are refused by the compiler"""
    problems, total, ok = [], 0, 0
    good = ["S::='a'", "S ::= 'a' ", "S::=('a'|'b')*", "S::='\\''", "S::='*'+"]
    for std in (tier_stds(ctx, 98, 17)):
        pre = ["#include <boost/metaparse/%s>" % h if not h.startswith("<") else "#include " + h for h in INC18] + [BM.strip()]
        for i, t in enumerate(good): pre.append("typedef bm::grammar<>::rule<%s >::type::apply<%s, bm::start>::type good%d;" % (mpstring(oc(t)), mpstring(oc("a")), i))
        lines = list(pre); where = {}
        cases = [("text[%s]" % t, "::rule<%s >::type" % mpstring(oc(t))) for t in BADTEXTS] + BADREFS
        for i, (n, g) in enumerate(cases):
            lines.append(core.fix98("typedef bm::grammar<>%s::apply<%s, bm::start>::type use%d; char need%d[sizeof(use%d)];" % (g, mpstring(oc("a")), i, i, i))); where[len(lines)] = n
        src = os.path.join(ctx.workdir, "refuse.cxx%d.cpp" % std); open(src, "w").write("\n".join(lines) + "\n")
        bare = os.path.join(ctx.workdir, "refuse.bare.cxx%d.cpp" % std); open(bare, "w").write("\n".join(pre) + "\n")
        rc, _, err = core.sh(core.base_cmd(std) + [bare])
        if rc:
            problems.append(dict(id="refuse/wellformed@c++%d" % std, what="a well-formed rule is refused: %s" % err[:400], subject="grammar", cmd=" ".join(core.base_cmd(std) + [bare]))); total += len(where); continue
        rc, _, err = core.sh(core.base_cmd(std) + [src])
        diag = groups(err, src)
        for line, n in where.items():
            total += 1
            if line in diag or alone(ctx, std, pre, lines[line - 1], "refuse%d" % line): ok += 1
            else: problems.append(dict(id="refuse/%s@c++%d" % (n, std), what="a text outside the notation (or an unknown symbol) is accepted: %s" % lines[line - 1], subject="grammar", cmd=" ".join(core.base_cmd(std) + [src])))
    return dict(obligations=total, discharged=ok, problems=problems, info="%d malformed rules and unknown symbols that have to be refused" % total)
