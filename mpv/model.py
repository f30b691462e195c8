"""Reference semantics of the library's parsers, written from the documentation.
A parser is P(cpp, fn, nullable); fn(s, i, pos) -> ('ok', result, j, pos') or ('err', message or None, pos').
results: ('v', n) integral value | ('s', type) exactly this type | ('l', [..]) sequence | None not specified"""
from .props.common import cch, schar
BM = "bm::"
WS = (32, 9, 10, 13)
def step(pos, ch):
    l, c, k = pos
    return (l + 1, 1, ch) if ch == 13 or (ch == 10 and k != 13) else (l, c + 1, ch)
class P:
    __slots__ = ("cpp", "fn", "nullable", "used")
    def __init__(self, cpp, fn, nullable, used): self.cpp, self.fn, self.nullable, self.used = cpp, fn, nullable, used
    def __call__(self, s, i, pos): return self.fn(s, i, pos)
def ok(r, j, p): return ('ok', r, j, p)
def err(m, p): return ('err', m, p)
def charp(cpp, name, test, msg):
    def fn(s, i, pos):
        if i < len(s) and test(s[i]): return ok(('v', schar(s[i])), i + 1, step(pos, s[i]))
        return err(msg if i < len(s) else None, pos)
    return P(cpp, fn, False, {name})
def one_char(): return charp("bm::one_char", "one_char", lambda c: True, None)
def lit(c): return charp("bm::lit_c<%s>" % cch(c), "lit_c", lambda x: x == c, "bm::error::literal_expected<%s>" % cch(c))
def digit(): return charp("bm::digit", "digit", lambda x: 48 <= x <= 57, "bm::error::digit_expected")
def space(): return charp("bm::space", "space", lambda x: x in WS, "bm::error::whitespace_expected")
def letter(): return charp("bm::letter", "letter", lambda x: chr(x).isalpha() and x < 128, "bm::error::letter_expected")
def range_(a, b): return charp("bm::range_c<%s, %s>" % (cch(a), cch(b)), "range_c", lambda x: schar(a) <= schar(x) <= schar(b), None)
def one_of_c(*cs): return charp("bm::one_of_c<%s>" % ", ".join(map(cch, cs)), "one_of_c", lambda x: x in cs, None)
def except_c(*cs): return charp("bm::one_char_except_c<%s>" % ", ".join(map(cch, cs)), "one_char_except_c", lambda x: x not in cs, None)
def return_(t): return P("bm::return_<%s >" % t, lambda s, i, p: ok(('s', t), i, p), True, {"return_"})
def fail(t): return P("bm::fail<%s >" % t, lambda s, i, p: err(t, p), False, {"fail"})
def empty(t): return P("bm::empty<%s >" % t, lambda s, i, p: ok(('s', t), i, p) if i == len(s) else err("bm::error::end_of_input_expected", p), True, {"empty"})
def keyword(k, t):
    def fn(s, i, p):
        for c in k:
            if i >= len(s) or s[i] != c: return err("bm::error::literal_expected<%s>" % cch(c), p)
            p = step(p, c); i += 1
        return ok(('s', t), i, p)
    return P("bm::keyword<bm::string<%s>, %s >" % (",".join(map(cch, k)), t), fn, not k, {"keyword"})
def digit_val():
    d = digit()
    def fn(s, i, p):
        r = d(s, i, p)
        return ok(('v', s[i] - 48), r[2], r[3]) if r[0] == 'ok' else err("bm::error::digit_expected" if i < len(s) else None, p)
    return P("bm::digit_val", fn, False, {"digit_val"})
def int_():
    d = digit()
    def fn(s, i, p):
        n, j, q = 0, i, p
        while True:
            r = d(s, j, q)
            if r[0] != 'ok': break
            n = n * 10 + s[j] - 48; j, q = r[2], r[3]
        return ok(('v', n), j, q) if j > i else err("bm::error::digit_expected" if i < len(s) else None, p)
    return P("bm::int_", fn, False, {"int_"})
def U(name, ps): return set().union(*[x.used for x in ps]) | {name}
def T(name, *args): return "bm::%s<%s >" % (name, ", ".join(a.cpp if isinstance(a, P) else str(a) for a in args))
def seq_(ps):
    def fn(s, i, p):
        out = []
        for x in ps:
            r = x(s, i, p)
            if r[0] != 'ok': return r
            out.append(r[1]); i, p = r[2], r[3]
        return ok(('l', out), i, p)
    return fn
def sel(fn, k):
    def g(s, i, p):
        r = fn(s, i, p)
        return r if r[0] != 'ok' else ok(r[1][1][k], r[2], r[3])
    return g
def sequence(*ps): return P(T("sequence", *ps), seq_(ps), all(x.nullable for x in ps), U("sequence", ps))
def first_of(*ps): return P(T("first_of", *ps), sel(seq_(ps), 0), all(x.nullable for x in ps), U("first_of", ps))
def last_of(*ps): return P(T("last_of", *ps), sel(seq_(ps), -1), all(x.nullable for x in ps), U("last_of", ps))
def nth_of(k, *ps): return P(T("nth_of_c", k, *ps), sel(seq_(ps), k), all(x.nullable for x in ps), U("nth_of_c", ps))
def middle_of(a, b, c):
    def fn(s, i, p):
        j, q, v = i, p, None
        for k, x in enumerate((a, b, c)):
            r = x(s, j, q)
            if r[0] != 'ok':
                return r if k < 2 or r[1] is None else err("bm::error::unpaired<%d, %d, %s >" % (p[0], p[1], r[1]), r[2])
            if k == 1: v = r[1]
            j, q = r[2], r[3]
        return ok(v, j, q)
    return P(T("middle_of", a, b, c), fn, a.nullable and b.nullable and c.nullable, U("middle_of", (a, b, c)))
def one_of(*ps):
    def fn(s, i, p):
        es = []
        for x in ps:
            r = x(s, i, p)
            if r[0] == 'ok': return r
            es.append(r)
        m = max([e[2] for e in es] + [p], key=key)
        at = [e for e in es if key(e[2]) == key(m)]
        return err(at[0][1] if len(at) == 1 and key(m) > key(p) else None, m)
    return P(T("one_of", *ps), fn, any(x.nullable for x in ps), U("one_of", ps))
def key(p): return (p[0], p[1], schar(p[2]))
def run(x, s, i, p):
    """greedy matches -> results, i, p, the ending failure, where it started"""
    out = []
    while True:
        r = x(s, i, p)
        if r[0] != 'ok': return out, i, p, r
        out.append(r[1]); i, p = r[2], r[3]
def rep(name, x, at_least, ri):
    def fn(s, i, p):
        out, j, q, e = run(x, s, i, p)
        if len(out) < at_least: return e
        if ri and e[2] != q: return e
        return ok(('l', out), j, q)
    return P(T(name, x), fn, at_least == 0 or x.nullable, U(name, [x]))
def repeated(x): return rep("repeated", x, 0, False)
def repeated1(x): return rep("repeated1", x, 1, False)
def repeated_ri(x): return rep("repeated_reject_incomplete", x, 0, True)
def repeated_ri1(x): return rep("repeated_reject_incomplete1", x, 1, True)
def fresh(k, x):
    """a value no combinator inside x uses"""
    return "sym<%d>" % (k + 100 * x.cpp.count("bm::"))
OPL = "ops<1>"; OPS = "ops<7>"
def fold(name, x, left, at_least, ri):
    """operation builds a pair list so that order and association are visible"""
    def fn(s, i, p):
        out, j, q, e = run(x, s, i, p)
        if len(out) < at_least: return e
        if ri and e[2] != q: return e
        st = ('s', fresh(70, x))
        for r in (out if left else reversed(out)): st = ('p', st, r)
        return ok(st, j, q)
    return P("bm::%s<%s, %s, pairop>" % (name, x.cpp, fresh(70, x)), fn, at_least == 0 or x.nullable, U(name, [x]))
def foldl(x): return fold("foldl", x, True, 0, False)
def foldl1(x): return fold("foldl1", x, True, 1, False)
def foldr(x): return fold("foldr", x, False, 0, False)
def foldr1(x): return fold("foldr1", x, False, 1, False)
def foldl_ri(x): return fold("foldl_reject_incomplete", x, True, 0, True)
def foldl_ri1(x): return fold("foldl_reject_incomplete1", x, True, 1, True)
def foldr_ri(x): return fold("foldr_reject_incomplete", x, False, 0, True)
def foldr_ri1(x): return fold("foldr_reject_incomplete1", x, False, 1, True)
def foldl_sp(x, st, ri=False):
    name = "foldl_reject_incomplete_start_with_parser" if ri else "foldl_start_with_parser"
    def fn(s, i, p):
        a = st(s, i, p)
        if a[0] != 'ok': return a
        out, j, q, e = run(x, s, a[2], a[3])
        if ri and e[2] != q: return e
        v = a[1]
        for r in out: v = ('p', v, r)
        return ok(v, j, q)
    return P("bm::%s<%s, %s, pairop>" % (name, x.cpp, st.cpp), fn, st.nullable, U(name, [x, st]))
def foldr_sp(x, st):
    def fn(s, i, p):
        out, j, q, e = run(x, s, i, p)
        a = st(s, j, q)
        if a[0] != 'ok': return a
        v = a[1]
        for r in reversed(out): v = ('p', v, r)
        return ok(v, a[2], a[3])
    return P("bm::foldr_start_with_parser<%s, %s, pairop>" % (x.cpp, st.cpp), fn, st.nullable, U("foldr_start_with_parser", [x, st]))
def optional(x, t):
    def fn(s, i, p):
        r = x(s, i, p)
        return r if r[0] == 'ok' else ok(('s', t), i, p)
    return P(T("optional", x, t), fn, True, U("optional", [x]))
def look_ahead(x):
    def fn(s, i, p):
        r = x(s, i, p)
        return ok(r[1], i, p) if r[0] == 'ok' else r
    return P(T("look_ahead", x), fn, True, U("look_ahead", [x]))
def except_(x, t, m):
    def fn(s, i, p): return err(m, p) if x(s, i, p)[0] == 'ok' else ok(('s', t), i, p)
    return P(T("except", x, t, m), fn, True, U("except", [x]))
def if_(x, t, f):
    def fn(s, i, p): return ok(('s', t if x(s, i, p)[0] == 'ok' else f), i, p)
    return P(T("if_", x, t, f), fn, True, U("if_", [x]))
def fafce(x):
    def fn(s, i, p):
        r = x(s, i, p)
        if r[0] == 'ok': return err(None, p)
        return ok(None, i, p) if r[2] == p else r
    return P(T("fail_at_first_char_expected", x), fn, True, U("fail_at_first_char_expected", [x]))
def transform(x):
    def fn(s, i, p):
        r = x(s, i, p)
        return ok(('w', r[1]), r[2], r[3]) if r[0] == 'ok' else r
    return P(T("transform", x, "wrapop"), fn, x.nullable, U("transform", [x]))
def always(x, t):
    def fn(s, i, p):
        r = x(s, i, p)
        return ok(('s', t), r[2], r[3]) if r[0] == 'ok' else r
    return P(T("always", x, t), fn, x.nullable, U("always", [x]))
def change_msg(x, m):
    def fn(s, i, p):
        r = x(s, i, p)
        return r if r[0] == 'ok' else err(m, p)
    return P(T("change_error_message", x, m), fn, x.nullable, U("change_error_message", [x]))
def transform_msg(x):
    """the function wraps the message it is given"""
    def fn(s, i, p):
        r = x(s, i, p)
        return r if r[0] == 'ok' else err("wr<%s >" % r[1] if r[1] is not None else None, r[2])
    return P(T("transform_error_message", x, "wrapop"), fn, x.nullable, U("transform_error_message", [x]))
def transform_err(x, m):
    """the function gives a failure with message m where the inner one was"""
    def fn(s, i, p):
        r = x(s, i, p)
        return r if r[0] == 'ok' else err(m, r[2])
    return P(T("transform_error", x, "failop<%s >" % m), fn, x.nullable, U("transform_error", [x]))
def rewrap_err(x):
    """the function gives a failure where the inner one was, whose message wraps the inner one's"""
    def fn(s, i, p):
        r = x(s, i, p)
        return r if r[0] == 'ok' else err("wr<%s >" % r[1] if r[1] is not None else None, r[2])
    return P(T("transform_error", x, "rewrapop"), fn, x.nullable, U("transform_error", [x]))
def accept_when(x, verdict, m):
    def fn(s, i, p):
        r = x(s, i, p)
        return r if r[0] != 'ok' or verdict else err(m, p)
    return P(T("accept_when", x, "sayop<%s>" % ("true" if verdict else "false"), m), fn, x.nullable, U("accept_when", [x]))
def seq_apply(*ps):
    inner = seq_(ps)
    def fn(s, i, p):
        r = inner(s, i, p)
        if r[0] != 'ok': return r
        v = r[1][1]
        return ok(('p', v[0], v[1]), r[2], r[3])
    return P("bm::sequence_apply2<pr, %s >" % ", ".join(x.cpp for x in ps), fn, all(x.nullable for x in ps), U("sequence_apply", ps))
def rep_one_of(at_least, *ps):
    r = rep("repeated", one_of(*ps), at_least, False)
    return P(T("repeated_one_of1" if at_least else "repeated_one_of", *ps), r.fn, r.nullable, U("repeated_one_of1" if at_least else "repeated_one_of", ps))
def spaces():
    def fn(s, i, p):
        j, q = i, p
        while j < len(s) and s[j] in WS: q = step(q, s[j]); j += 1
        return ok(None, j, q) if j > i else err("bm::error::whitespace_expected" if i < len(s) else None, p)
    return P("bm::spaces", fn, False, {"spaces"})
def alphanum(): return charp("bm::alphanum", "alphanum", lambda x: chr(x).isalnum() and x < 128, None)
def token(x):
    def fn(s, i, p):
        r = x(s, i, p)
        if r[0] != 'ok': return r
        j, q = r[2], r[3]
        while j < len(s) and s[j] in WS: q = step(q, s[j]); j += 1
        return ok(r[1], j, q)
    return P(T("token", x), fn, x.nullable, U("token", [x]))
def entire(x, msg=None):
    def fn(s, i, p):
        r = x(s, i, p)
        return r if r[0] != 'ok' or r[2] == len(s) else err(msg or "bm::error::end_of_input_expected", r[3])
    return P(T("entire_input", x, msg) if msg else T("entire_input", x), fn, x.nullable, U("entire_input", [x]))
def iterate(x, n):
    def fn(s, i, p):
        out = []
        for _ in range(n):
            r = x(s, i, p)
            if r[0] != 'ok': return r
            out.append(r[1]); i, p = r[2], r[3]
        return ok(('l', out), i, p)
    return P(T("iterate_c", x, n), fn, n == 0 or x.nullable, U("iterate_c", [x]))

REPS = [repeated, repeated1, repeated_ri, repeated_ri1, foldl, foldl1, foldr, foldr1, foldl_ri, foldl_ri1, foldr_ri, foldr_ri1]
def unary():
    """name -> constructor of one inner parser (None if not applicable: would repeat an empty match for ever)"""
    A, B, SP = lit(97), lit(98), lit(10)
    d = {}
    for f in REPS: d[f.__name__] = (lambda x, f=f: None if x.nullable else f(x))
    d["sequence.1"] = lambda x: sequence(x, A)
    d["sequence.2"] = lambda x: sequence(A, x)
    d["sequence.3"] = lambda x: sequence(x, x, x)
    d["first_of.1"] = lambda x: first_of(x, B)
    d["first_of.2"] = lambda x: first_of(A, x)
    d["last_of.1"] = lambda x: last_of(x, A)
    d["last_of.2"] = lambda x: last_of(B, x)
    d["nth_of.0"] = lambda x: nth_of(0, x, A, x)
    d["nth_of.1"] = lambda x: nth_of(1, A, x, B)
    d["nth_of.2"] = lambda x: nth_of(2, A, B, x)
    d["sequence.one"] = lambda x: sequence(x)
    d["first_of.one"] = lambda x: first_of(x)
    d["last_of.one"] = lambda x: last_of(x)
    d["nth_of.one"] = lambda x: nth_of(0, x)
    d["middle_of.1"] = lambda x: middle_of(x, A, B)
    d["middle_of.2"] = lambda x: middle_of(A, x, B)
    d["middle_of.3"] = lambda x: middle_of(A, B, x)
    d["one_of.1"] = lambda x: one_of(x, A)
    d["one_of.2"] = lambda x: one_of(A, x)
    d["one_of.3"] = lambda x: one_of(sequence(A, B, A), x, SP)
    d["one_of.one"] = lambda x: one_of(x)
    d["foldl_sp.i"] = lambda x: None if x.nullable else foldl_sp(x, A)
    d["foldl_sp.s"] = lambda x: foldl_sp(A, x)
    d["foldl_ri_sp.i"] = lambda x: None if x.nullable else foldl_sp(x, B, True)
    d["foldl_ri_sp.s"] = lambda x: foldl_sp(sequence(A, B), x, True)
    d["foldr_sp.i"] = lambda x: None if x.nullable else foldr_sp(x, B)
    d["foldr_sp.s"] = lambda x: foldr_sp(A, x)
    d["optional"] = lambda x: optional(x, fresh(71, x))
    d["look_ahead"] = look_ahead
    d["except"] = lambda x: except_(x, fresh(72, x), fresh(73, x))
    d["if_"] = lambda x: if_(x, fresh(74, x), fresh(75, x))
    d["fafce"] = fafce
    d["transform"] = transform
    d["always"] = lambda x: always(x, fresh(76, x))
    d["change_error_message"] = lambda x: change_msg(x, fresh(77, x))
    d["transform_error_message"] = transform_msg
    d["transform_error"] = lambda x: transform_err(x, fresh(78, x))
    d["transform_error.wrap"] = rewrap_err
    d["accept_when.yes"] = lambda x: accept_when(x, True, fresh(79, x))
    d["accept_when.no"] = lambda x: accept_when(x, False, fresh(79, x))
    d["sequence_apply.1"] = lambda x: seq_apply(x, A)
    d["sequence_apply.2"] = lambda x: seq_apply(B, x)
    d["repeated_one_of"] = lambda x: None if x.nullable else rep_one_of(0, x, A)
    d["repeated_one_of1"] = lambda x: None if x.nullable else rep_one_of(1, B, x)
    d["token"] = token
    d["entire_input"] = entire
    d["entire_input.msg"] = lambda x: entire(x, fresh(85, x))
    d["iterate.0"] = lambda x: iterate(x, 0)
    d["iterate.1"] = lambda x: iterate(x, 1)
    d["iterate.2"] = lambda x: iterate(x, 2)
    d["iterate.3"] = lambda x: iterate(x, 3)
    return d
def atoms():
    return [one_char(), lit(97), lit(98), lit(10), lit(13), digit(), space(), letter(), range_(97, 98), one_of_c(97, 10), except_c(97, 10), return_("sym<80>"), fail("sym<81>"), empty("sym<82>"),
            keyword([97, 98], "sym<83>"), keyword([97, 13, 10], "sym<84>"), int_(), digit_val(), spaces(), alphanum()]

def rexpr(r):
    if r is None: return "r_any"
    if r[0] == 'v': return "r_v<%d>" % r[1]
    if r[0] == 's': return "r_s<%s >" % r[1]
    if r[0] == 'p': return "r_p<%s, %s >" % (rexpr(r[1]), rexpr(r[2]))
    if r[0] == 'w': return "r_w<%s >" % rexpr(r[1])
    s = "nil"
    for x in reversed(r[1]): s = "cons<%s, %s >" % (rexpr(x), s)
    return "r_l<%s >" % s

INC = ["one_char.hpp", "lit_c.hpp", "digit.hpp", "space.hpp", "letter.hpp", "range_c.hpp", "one_of_c.hpp", "one_char_except_c.hpp", "return_.hpp", "fail.hpp", "empty.hpp", "keyword.hpp", "int_.hpp", "digit_val.hpp",
       "sequence.hpp", "first_of.hpp", "last_of.hpp", "nth_of_c.hpp", "middle_of.hpp", "one_of.hpp", "foldl.hpp", "foldl1.hpp", "foldr.hpp", "foldr1.hpp", "foldl_start_with_parser.hpp", "foldr_start_with_parser.hpp",
       "repeated.hpp", "repeated1.hpp", "foldl_reject_incomplete.hpp", "foldl_reject_incomplete1.hpp", "foldl_reject_incomplete_start_with_parser.hpp", "foldr_reject_incomplete.hpp", "foldr_reject_incomplete1.hpp",
       "repeated_reject_incomplete.hpp", "repeated_reject_incomplete1.hpp", "optional.hpp", "look_ahead.hpp", "except.hpp", "if_.hpp", "fail_at_first_char_expected.hpp", "transform.hpp", "always.hpp", "change_error_message.hpp",
       "token.hpp", "entire_input.hpp", "iterate_c.hpp", "transform_error_message.hpp", "transform_error.hpp", "accept_when.hpp", "sequence_apply.hpp", "repeated_one_of.hpp", "repeated_one_of1.hpp", "spaces.hpp", "alphanum.hpp", "reject.hpp", "get_position.hpp", "string.hpp", "start.hpp", "error/literal_expected.hpp", "error/digit_expected.hpp", "error/whitespace_expected.hpp", "error/letter_expected.hpp", "error/end_of_input_expected.hpp", "error/unpaired.hpp"]
PRE = r'''
namespace bm = boost::metaparse;
struct r_any; template <int V> struct r_v; template <class T> struct r_s; template <class A, class B> struct r_p; template <class A> struct r_w; template <class L> struct r_l;
template <class A, class B> struct pr { typedef pr type; };
template <class A> struct wr { typedef wr type; };
struct pairop { typedef pairop type; template <class S, class X> struct apply { typedef pr<S, X> type; }; };
struct wrapop { typedef wrapop type; template <class X> struct apply { typedef wr<X> type; }; };
template <class M> struct failop { typedef failop type; template <class E> struct apply : bm::reject<M, bm::get_position<E> > {}; };
struct rewrapop { typedef rewrapop type; template <class E> struct apply : bm::reject<wr<typename bm::get_message<E>::type>, bm::get_position<E> > {}; };
template <bool V> struct sayop { typedef sayop type; template <class> struct apply { typedef apply type; static const bool value = V; }; };
template <class G, class W> struct agr;
template <class G> struct agr<G, r_any> { static const bool value = true; };
template <class G, int V> struct agr<G, r_v<V> > { static const bool value = (int)G::type::value == V; };
template <class G, class T> struct agr<G, r_s<T> > : same<G, T> {};
template <class G, class A, class B> struct agr<G, r_p<A, B> > { static const bool value = false; };
template <class X, class Y, class A, class B> struct agr<pr<X, Y>, r_p<A, B> > { static const bool value = agr<X, A>::value && agr<Y, B>::value; };
template <class G, class A> struct agr<G, r_w<A> > { static const bool value = false; };
template <class X, class A> struct agr<wr<X>, r_w<A> > : agr<X, A> {};
template <class I, class E_, class L> struct lagr;
template <class E_> struct lagr<E_, E_, nil> { static const bool value = true; };
template <class I, class E_> struct lagr<I, E_, nil> { static const bool value = false; };
template <class E_, class H, class T> struct lagr<E_, E_, cons<H, T> > { static const bool value = false; };
template <bool G, class I, class E_, class T> struct lst_ { static const bool value = false; };
template <class I, class E_, class T> struct lst_<true, I, E_, T> : lagr<typename mpl::next<I>::type, E_, T> {};
template <class I, class E_, class H, class T> struct lagr<I, E_, cons<H, T> > : lst_<agr<typename mpl::deref<I>::type, H>::value, I, E_, T> {};
template <class G, class L> struct agr<G, r_l<L> > : lagr<typename mpl::begin<G>::type, typename mpl::end<G>::type, L> {};
template <class O, bool E, class R, class Rem, class Pos> struct good_ { static const bool value = false; };
template <class O, class R, class Rem, class Pos> struct good_<O, false, R, Rem, Pos> { static const bool value =
  same<typename bm::get_remaining<O>::type, Rem>::value && pos_eq<typename bm::get_position<O>::type, Pos>::value && agr<typename bm::get_result<O>::type, R>::value; };
template <class O, class R, class Rem, class Pos> struct good : good_<O, bm::is_error<O>::type::value, R, Rem, Pos> {};
// model independent: the pair (remaining input, position) is one of the points of the input; the position of a failure is that of one of them
template <class R, class P> struct pt;
template <class Rem, class Pos, class L> struct at_pt;
template <class Rem, class Pos> struct at_pt<Rem, Pos, nil> { static const bool value = false; };
template <class Rem, class Pos, class R, class P, class T> struct at_pt<Rem, Pos, cons<pt<R, P>, T> > : at_pt<Rem, Pos, T> {};
template <class Rem, class Pos, class P, class T> struct at_pt<Rem, Pos, cons<pt<Rem, P>, T> > : pos_eq<Pos, P> {};
template <class Pos, class L> struct pos_at;
template <class Pos> struct pos_at<Pos, nil> { static const bool value = false; };
template <class Pos, class R, class P, class T> struct pos_at<Pos, cons<pt<R, P>, T> > { static const bool value = pos_eq<Pos, P>::value || pos_at<Pos, T>::value; };
template <class O, bool E, class L> struct consist_ : at_pt<typename bm::get_remaining<O>::type, typename bm::get_position<O>::type, L> {};
template <class O, class L> struct consist_<O, true, L> : pos_at<typename bm::get_position<O>::type, L> {};
template <class O, class L> struct consist : consist_<O, bm::is_error<O>::type::value, L> {};
'''
