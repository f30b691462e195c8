from ..core import Unit, ALL, CPP11
from .. import harvest

def cch(c):
    """char literal for code 0..255, usable as template argument of type char"""
    c &= 255
    if 32 <= c < 127 and chr(c) not in "'\\": return "'%s'" % chr(c)
    return "'\\%03o'" % c

def schar(c):
    c &= 255
    return c - 256 if c >= 128 else c

def lst(xs):
    s = "nil"
    for x in reversed(list(xs)): s = "cons<%s, %s>" % (x, s)
    return s

def mpstring(codes):
    return "boost::metaparse::string<%s>" % ",".join(cch(c) for c in codes)

class Chain:
    """S0,P0 -> acc<1> -> S1,P1 -> acc<2> ... as typedefs"""
    def __init__(self, n, s0="str<1>", p0="P0", pfx="h"):
        self.n = n; self.pfx = pfx
        L = ["typedef %s %sS0; typedef %s %sP0;" % (s0, pfx, p0, pfx)]
        for i in range(1, n + 1):
            a = dict(i=i, j=i - 1, p=pfx)
            L.append("typedef acc_res<{i},{p}S{j},{p}P{j}>::type {p}R{i}; typedef acc_rem<{i},{p}S{j},{p}P{j}>::type {p}S{i}; typedef acc_pos<{i},{p}S{j},{p}P{j}>::type {p}P{i}; typedef rej_msg<{i},{p}S{j},{p}P{j}>::type {p}M{i}; typedef rej_pos<{i},{p}S{j},{p}P{j}>::type {p}Q{i};".format(**a))
        self.pre = "\n".join(L) + "\n"
    def S(self, i): return "%sS%d" % (self.pfx, i)
    def P(self, i): return "%sP%d" % (self.pfx, i)
    def R(self, i): return "%sR%d" % (self.pfx, i)
    def M(self, i): return "%sM%d" % (self.pfx, i)   # message of rej<i> at state i-1
    def Q(self, i): return "%sQ%d" % (self.pfx, i)   # position of that error

def ap(parser, s, p):
    return "%s::apply<%s, %s>" % (parser, s, p)

# odd result types: must be carried unchanged through everything
ODD = ["inc_t", "void", "int", "int&", "int[3]", "void (int)", "sym<61>", "lazysym<62>", "const volatile sym<63>",
       "boost::mpl::vector<>", "boost::metaparse::accept<sym<1>, str<2>, P1>",
       "boost::metaparse::reject<sym<1>, P1>", "boost::metaparse::fail_tag", "boost::mpl::int_<0>", "boost::mpl::true_", "boost::mpl::false_"]
ODD_PRE = "struct inc_t;\n"

def tier_stds(ctx, *stds):
    """standards of the quick tier (siblings 98 and 11+ always both present); all of them in the thorough tier"""
    return ALL if ctx.thorough or ctx.std_dependent else stds
