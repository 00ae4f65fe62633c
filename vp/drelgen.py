"""Hypothesis strategies for dREL expressions and programs (see drel.py)."""
from hypothesis import strategies as st
from vp import drel
from vp.core import Discard

NAMES = ["x1", "iffy", "ordinal", "android", "nothing", "inner", "doit", "forum", "u", "r", "e5", "j", "printer", "Asa", "breaker", "nextone", "elsewhere",
         "loop_1", "b0", "x$y", "lambda", "from", "class", "IN", "OR", "withal", "Lst", "qq", "AND", "switch1", "functional", "E", "ur"]
STRS = [("'abc'", "abc"), ('"it\'s"', "it's"), ("'say \"hi\"'", 'say "hi"'), ("''", ""), ('""', ""), ("'''tri'ple'''", "tri'ple"), ('"""tri"ple"""', 'tri"ple'),
        ("'# no comment'", "# no comment"), ("'a,b;c'", "a,b;c"), ("'(['", "(["), ("r'raw'", "raw"), ("'tab\\tstop'", "tab\tstop"), ("'it\\'s'", "it's"), ('"q\\"q"', 'q"q'),
        ("'back\\\\'", "back\\"), ("r'a\\d'", "a\\d"), ("''''", None), ("'12'", "12"), ("u'uni'", "uni"), ("'else if'", "else if"), ("' '", " "), ("''''''", ""), ('""""""', ""),
        ("'x.y'", "x.y"), ("'_a.b'", "_a.b"), (u"'\u00e9\u4e2d'", u"\u00e9\u4e2d"), ("'''it\\'''s'''", None), ("R\"Raw\"", "Raw"), ("'}'", "}"), ("'`'", "`")]
STRS = [s for s in STRS if s[1] is not None]


def int_lits():
    n = st.one_of(st.integers(0, 12), st.integers(0, 300))
    return n.flatmap(lambda v: st.sampled_from([str(v)] * 5 + ["0x%x" % v, "0X%X" % v, "0b" + bin(v)[2:], "0B" + bin(v)[2:], "0o%o" % v, "0O%o" % v]).map(lambda t: ["int", t, v]))


REALS = ["1.5", "0.25", "2.", ".5", "3.0e1", "1.e-1", ".5E+1", "12.75", "0.0", "1.0", "7.5e0", "100.5", "2.5E-2", "1.5e08", "2.e-02", ".25E+01", "4.5e001", "00.5", "1.25E01"]


class G(object):
    """Builds (expression, value) pairs; value is what the expression means."""
    def __init__(self, draw, env):
        self.draw, self.env = draw, env      # env: name -> (type, value)
        self.run = drel.Run(env=dict((n, v) for n, (t, v) in env.items()))
        self.feat = set()

    def i(self, lo, hi):
        return self.draw(st.integers(lo, hi))

    def pick(self, seq):
        return self.draw(st.sampled_from(seq))

    def val(self, e):
        self.run.fuel = 10000
        return self.run.ev(e)

    def var(self, t):
        names = [n for n, (k, v) in self.env.items() if k == t]
        return ["var", self.pick(names)] if names else None

    def gen(self, t, d):
        """an expression of type t"""
        for _ in range(4):
            e = getattr(self, "g" + t)(d)
            if e is None:
                continue
            try:
                self.val(e)
            except (Discard, ZeroDivisionError, OverflowError):
                continue
            return e
        return getattr(self, "leaf" + t)()

    def lit(self, k):
        return ["int", str(k), k] if k >= 0 else ["neg", ["int", str(-k), -k]]

    # leaves
    def leafI(self):
        if self.i(0, 3) == 0:
            v = self.var("I")
            if v:
                return v
        return self.draw(int_lits())

    def leafF(self):
        c = self.i(0, 6)
        if c == 0:
            v = self.var("F")
            if v:
                return v
        if c == 1:
            import math
            return self.pick([["const", "pi", math.pi], ["const", "Pi", math.pi], ["const", "TwoPi", 2 * math.pi], ["const", "twopi", 2 * math.pi]])
        return ["real", self.pick(REALS)]

    def leafS(self):
        if self.i(0, 4) == 0:
            v = self.var("S")
            if v:
                return v
        t, v = self.pick(STRS)
        return ["str", t, v]

    def leafB(self):
        a, b = self.leafI(), self.leafI()
        return ["cmp", self.pick(["<", ">", "<=", ">=", "==", "!="]), a, b]

    def leafL(self):
        if self.i(0, 2) == 0:
            v = self.var("L")
            if v:
                return v
        return ["list", [self.draw(int_lits()) for _ in range(self.pick([1, 2, 3, 4, 5, 6, 9, 13]))]]

    def leafV(self):
        v = self.var("V") if self.i(0, 1) else None
        if v:
            return v
        e = ["list", [self.leafI() for _ in range(3)]]
        return ["call", "array", [e]] if self.i(0, 1) else e

    def leafM(self):
        v = self.var("M") if self.i(0, 1) else None
        if v:
            return v
        e = ["list", [["list", [self.leafI() for _ in range(3)]] for _ in range(3)]]
        return ["call", "matrix", [e]] if self.i(0, 1) else e

    def leafC(self):
        return ["imag", self.pick(["1j", "2.5J", ".5j", "3.e1j", "0j", "1.5e01j", "2.5E-1J", ".5e+01j", "12j"])]

    # composites
    def gI(self, d):
        if d <= 0:
            return self.leafI()
        c = self.i(0, 20)
        if c <= 6:
            op = self.pick(["+", "-", "*", "+", "-", "*", "&", "|"])
            a, b = self.gen("I", d - 1), self.gen("I", d - 1)
            return ["bin", op, a, b]
        if c <= 8:
            return [self.pick(["neg", "neg", "pos"]), self.gen("I", d - 1)]
        if c == 9:
            return ["bin", "**", self.gen("I", d - 1), self.exponent(0, 4, d)]
        if c == 10:
            return ["paren", self.gen("I", d - 1)]
        if c == 11:
            return ["call", "len", [self.gen(self.pick(["L", "S"]), d - 1)]]
        if c == 12:
            return ["call", "mod", [self.gen("I", d - 1), self.lit(self.i(1, 9))]]
        if c == 13:
            return ["call", self.pick(["max", "min"]), [self.gen("I", d - 1) for _ in range(self.pick([2, 2, 3, 5]))]]
        if c == 14:
            return ["call", "abs", [self.gen("I", d - 1)]]
        if c == 15:
            v = str(self.i(0, 99))
            return ["call", "atoi", [["str", "'%s'" % v, v]]]
        if c <= 18:
            l = self.gen("L", d - 1)
            n = len(self.val(l))
            if not n:
                return None
            k = self.i(-n, n - 1)
            ix = self.lit(k)
            if l[0] not in ("var", "list", "sub", "slice", "call", "paren"):
                l = ["paren", l]
            return ["sub", l, [ix], "chain"]
        if c == 19:
            m = self.var("T")
            if m:
                k = self.pick(sorted(self.env[m[1]][1]))
                return ["sub", m, [["str", "'%s'" % k, k]], "chain"]
            return None
        if c == 20:
            return ["call", "int", [self.gen("F", d - 1)]]

    def gF(self, d):
        if d <= 0:
            return self.leafF()
        c = self.i(0, 15)
        if c <= 5:
            ta, tb = self.pick([("F", "F"), ("I", "F"), ("F", "I")])
            return ["bin", self.pick(["+", "-", "*", "/"]), self.gen(ta, d - 1), self.gen(tb, d - 1)]
        if c == 6:
            return ["bin", "/", self.gen("I", d - 1), self.gen("I", d - 1)]
        if c == 7:
            return [self.pick(["neg", "pos"]), self.gen("F", d - 1)]
        if c == 8:
            ix = self.exponent(-3, 3, d)
            k = self.val(ix)
            base = self.gen(self.pick(["F", "I"]), d - 1)
            if k >= 0 and isinstance(self.val(base), int):
                return None
            return ["bin", "**", base, ix]
        if c == 9:
            return ["paren", self.gen("F", d - 1)]
        if c == 10:
            return ["call", self.pick(["sqrt", "exp", "sind", "cosd", "tand", "acosd", "asind", "atand", "float", "abs"]), [self.gen("F", d - 1)]]
        if c == 11:
            return ["call", "atan2d", [self.gen("F", d - 1), self.gen("F", d - 1)]]
        if c == 12:
            return ["call", "norm", [self.gen("V", d - 1)]]
        if c == 13:
            return ["call", self.pick(["real", "imag"]), [self.gen("C", d - 1)]]
        if c == 15:
            m = self.var("M")
            if m:
                return ["sub", m, [["int", str(k), k] for k in (self.i(0, 2), self.i(0, 2))], "comma"]
            return None
        if c == 14:
            return ["call", self.pick(["max", "min"]), [self.gen("F", d - 1), self.gen("F", d - 1)]]

    def gS(self, d):
        if d <= 0:
            return self.leafS()
        c = self.i(0, 7)
        if c <= 2:
            return ["bin", "+", self.gen("S", d - 1), self.gen("S", d - 1)]
        if c == 3:
            return ["tick", self.gen("I", d - 1)] if self.i(0, 1) else ["call", "str", [self.gen("I", d - 1)]]
        if c == 4:
            return ["call", "upper", [self.gen("S", d - 1)]]
        if c == 5:
            s = self.gen("S", d - 1)
            n = len(self.val(s))
            if not n:
                return None
            k = self.i(0, n - 1)
            if s[0] == "bin":
                s = ["paren", s]
            return ["sub", s, [["int", str(k), k]], "chain"]
        if c == 6:
            s = self.gen("S", d - 1)
            return self.slice(["paren", s] if s[0] == "bin" else s, d)
        return ["paren", self.gen("S", d - 1)]

    def exponent(self, lo, hi, d):
        """a small whole number, at times a power, a sign or a call itself"""
        c = self.i(0, 5)
        if c == 0 and d > 1:
            return ["bin", "**", self.lit(self.i(1, 3)), self.lit(self.i(0, 2))]
        if c == 1:
            return ["pos", self.lit(self.i(max(lo, 0), hi))]
        if c == 2:
            return ["call", "max", [self.lit(self.i(max(lo, 0), hi)), self.lit(0)]]
        if c == 3:
            return ["paren", self.lit(self.i(lo, hi))]
        return self.lit(self.i(lo, hi))

    def slice(self, prim, d):
        n = len(self.val(prim))

        def b():
            c = self.i(0, 3)
            if c == 0:
                return None
            k = self.i(-n - 1, n + 1)
            return ["int", str(k), k] if k >= 0 else ["neg", ["int", str(-k), -k]]
        step = None
        if self.i(0, 2) == 0:
            step = self.pick([["int", "2", 2], ["int", "1", 1], ["neg", ["int", "1", 1]], ["neg", ["int", "2", 2]]])
        self.feat.add("slice")
        return ["slice", prim, [b(), b(), step]]

    def gB(self, d):
        if d <= 0:
            return self.leafB()
        c = self.i(0, 11)
        ops = ["<", ">", "<=", ">=", "==", "!="]
        if c <= 2:
            t = self.pick(["I", "I", "F"])
            return ["cmp", self.pick(ops), self.gen(t, d - 1), self.gen(t, d - 1)]
        if c == 3:
            return ["cmp", self.pick(["==", "!=", "<", "in", "not in"]), self.gen("S", d - 1), self.gen("S", d - 1)]
        if c == 4:
            return ["cmp", self.pick(["in", "not in"]), self.gen("I", d - 1), self.gen("L", d - 1)]
        if c <= 8:
            return [self.pick(["and", "or"]), self.gen("B", d - 1), self.gen("B", d - 1)]
        if c <= 10:
            return ["not", self.gen("B", d - 1)]
        return ["paren", self.gen("B", d - 1)]

    def gL(self, d):
        if d <= 0:
            return self.leafL()
        c = self.i(0, 6)
        if c <= 2:
            n = self.pick([0, 1, 2, 3, 4, 7, 10])
            return ["list", [self.gen("I", d - 1 if n < 5 else 0) for _ in range(n)]]
        if c == 3:
            l = self.gen("L", d - 1)
            return self.slice(["paren", l] if l[0] == "bin" else l, d)
        if c == 4:
            return ["call", "list", [self.gen("I", d - 1) for _ in range(self.i(2, 4))]]
        if c == 5:
            rows = [["list", [self.gen("I", d - 2) for _ in range(2)]] for _ in range(self.i(1, 3))]
            k = self.i(0, 1)
            return ["call", "strip", [["list", rows], ["int", str(k), k]]]
        rows = [self.gen("L", d - 1) for _ in range(self.i(1, 3))]
        k = self.i(0, len(rows) - 1)
        return ["sub", ["list", rows], [["int", str(k), k]], "chain"]

    def gV(self, d):
        if d <= 0:
            return self.leafV()
        c = self.i(0, 9)
        if c <= 2:
            return ["bin", self.pick(["+", "-", "^"]), self.gen("V", d - 1), self.gen("V", d - 1)]
        if c == 3:
            return ["bin", "*", self.gen("I", d - 1), self.gen("V", d - 1)]
        if c == 4:
            return ["bin", self.pick(["*", "/"]), self.gen("V", d - 1), self.gen("I", d - 1)]
        if c == 5:
            return ["bin", "*", self.gen("M", d - 1), self.gen("V", d - 1)]
        if c == 6:
            return ["bin", "*", self.gen("V", d - 1), self.gen("M", d - 1)]
        if c == 7:
            return [self.pick(["neg", "pos"]), self.gen("V", d - 1)]
        if c == 8:
            return ["paren", self.gen("V", d - 1)]
        return self.leafV()

    def gM(self, d):
        if d <= 0:
            return self.leafM()
        c = self.i(0, 6)
        if c <= 1:
            return ["bin", self.pick(["*", "*", "+", "-"]), self.gen("M", d - 1), self.gen("M", d - 1)]
        if c == 2:
            return ["bin", "*", self.gen("I", d - 1), self.gen("M", d - 1)]
        if c == 3:
            return ["call", "transpose", [["call", "matrix", [self.gen("M", d - 1)]]]]
        if c == 4:
            return ["neg", self.gen("M", d - 1)]
        if c == 5:
            return ["bin", "*", self.gen("M", d - 1), self.gen("I", d - 1)]
        return self.leafM()

    def gC(self, d):
        if d <= 0:
            return self.leafC()
        c = self.i(0, 4)
        if c <= 1:
            return ["bin", self.pick(["+", "-", "*"]), self.gen(self.pick("FIC"), d - 1), self.gen("C", d - 1)]
        if c == 2:
            return ["call", "complex", [self.gen("F", d - 1), self.gen("F", d - 1)]]
        if c == 3:
            return ["call", "expimag", [self.gen("F", d - 1)]]
        return self.leafC()


@st.composite
def expressions(draw):
    """A case: variables, an expression and a layout."""
    names = draw(st.permutations(NAMES))[:8]
    types = draw(st.lists(st.sampled_from("IIFSLVMT"), min_size=2, max_size=6))
    env, pre = {}, []
    for n, t in zip(names, types):
        g = G(draw, {})
        if t == "T":
            ks = draw(st.lists(st.sampled_from(["a", "B b", "x_1", "0", "q", "A", "z:z", "", "1.5"]), min_size=1, max_size=7, unique=True))
            e = ["table", [[draw(st.sampled_from(["'%s'", '"%s"'])) % k, k, g.leafI()] for k in ks]]
        else:
            e = getattr(g, "leaf" + t)()
            if e[0] == "var":
                continue
        env[n] = (t, g.val(e))
        pre.append(["set", n, e])
    g = G(draw, env)
    t = draw(st.sampled_from("IIIFFSBBBLVMC"))
    d = draw(st.integers(2, 5))
    for _ in range(5):
        e = g.gen(t, d)
        if e[0] not in ("int", "real", "var", "imag", "str", "const"):
            break
    return {"pre": pre, "e": e, "t": t, "seed": draw(st.one_of(st.just(0), st.integers(0, 10 ** 6))), "extra": draw(st.booleans())}


def lit(k):
    return ["int", str(k), k] if k >= 0 else ["neg", ["int", str(-k), -k]]


class P(object):
    """Statements over a few variables of fixed type: ints, a list of whole numbers (never empty), text."""
    def __init__(self, draw, names, funcs):
        self.draw, self.funcs = draw, funcs
        self.ints, self.lists, self.texts = names[:4], names[4:6], names[6:7]
        self.free = list(names[7:])
        self.rw = list(self.ints)           # variables that may be assigned
        self.bounded = 0

    def i(self, lo, hi):
        return self.draw(st.integers(lo, hi))

    def pick(self, seq):
        return self.draw(st.sampled_from(seq))

    def I(self, d=2):
        c = self.i(0, 9 if d > 0 else 2)
        if c == 0:
            return lit(self.i(-9, 20))
        if c <= 2:
            return ["var", self.pick(self.ints)]
        if c <= 5:
            return ["bin", self.pick(["+", "-", "*"]), self.I(d - 1), self.I(d - 1)]
        if c == 6:
            return ["call", "mod", [self.I(d - 1), lit(self.i(2, 7))]]
        if c == 7:
            l = self.pick(self.lists)
            return ["sub", ["var", l], [["call", "mod", [self.I(d - 1), ["call", "len", [["var", l]]]]]], "chain"]
        if c == 8 and self.funcs:
            f = self.pick(sorted(self.funcs))
            return ["call", f, [self.I(d - 1) for _ in self.funcs[f]]]
        return ["call", self.pick(["max", "min"]), [self.I(d - 1), self.I(d - 1)]]

    def B(self, d=2):
        c = self.i(0, 6 if d > 0 else 2)
        if c <= 2:
            return ["cmp", self.pick(["<", ">", "<=", ">=", "==", "!="]), self.I(d - 1), self.I(d - 1)]
        if c == 3:
            return ["cmp", self.pick(["in", "not in"]), self.I(d - 1), self.L(d - 1)]
        if c <= 5:
            return [self.pick(["and", "or"]), self.B(d - 1), self.B(d - 1)]
        return ["not", self.B(d - 1)]

    def L(self, d=1):
        c = self.i(0, 2)
        if c == 0:
            return ["list", [self.I(0) for _ in range(self.pick([1, 2, 3, 4, 8]))]]
        if c == 1 and d > 0:
            return ["slice", ["var", self.pick(self.lists)], [None if self.i(0, 1) else lit(self.i(-2, 3)), None if self.i(0, 1) else lit(self.i(-2, 4)), None]]
        return ["var", self.pick(self.lists)]

    def simple(self):
        c = self.i(0, 11)
        v = self.pick(self.rw) if self.rw else None
        if c == 10:
            if self.i(0, 2) == 0:
                return ["aug", "nst", "--=", lit(self.i(-4, 9))]
            return ["aug", "nst", "++=", ["list", [self.I(0) for _ in range(self.i(1, 3))]] if self.i(0, 2) == 0 else self.I(1)]
        if c == 11:
            return ["aug", self.pick(self.lists), self.pick(["+=", "-="]), self.I(1)]
        if c <= 3 and v:
            return ["set", v, self.I()]
        if c <= 5 and v:
            return ["aug", v, self.pick(["+=", "-=", "+=", "*="]), self.I(1)]
        if c == 6:
            return ["aug", self.pick(self.lists), "++=", self.I(1)]
        if c == 7:
            t = self.texts[0]
            return ["set", t, ["bin", "+", ["var", t], self.pick([["tick", self.I(1)], ["str", "'-'", "-"], ["call", "str", [self.I(0)]]])]]
        if c == 8:
            l = self.pick(self.lists)
            return ["setat", l, ["call", "mod", [self.I(1), ["call", "len", [["var", l]]]]], self.I(1)]
        if c == 9 and len(self.rw) > 1:
            a, b = self.rw[self.i(0, 1)], self.rw[-1]
            if a != b:
                return ["multi", [a, b], [self.I(1), self.I(1)]]
        return ["print", self.I(1)]

    def leave(self, inloop):
        """a conditional break or next"""
        return ["if", [[self.B(1), [[self.pick(inloop)]]]], None]

    def stmts(self, d, inloop, n=None):
        out = []
        for _ in range(n or self.i(1, 3)):
            c = self.i(0, 9) if d > 0 else 0
            if c <= 3:
                out.append(self.simple())
            elif c <= 5:
                arms = [[self.B(), self.stmts(d - 1, inloop)] for _ in range(self.pick([1, 1, 2, 3]))]
                out.append(["if", arms, self.stmts(d - 1, inloop) if self.i(0, 1) else None])
            elif c == 6 and self.free:
                v = self.free.pop()
                step = self.pick([None, None, lit(1), lit(2), lit(-1), lit(-2), lit(3)])
                a, b = self.pick([(lit(self.i(-3, 6)), lit(self.i(-3, 6))), (lit(self.i(-2, 4)), ["call", "min", [self.I(1), lit(6)]])])
                self.ints = self.ints + [v]
                out.append(["do", v, a, b, step, self.loop(d, [])])
                self.ints = [x for x in self.ints if x != v]
            elif c == 7 and self.free:
                v = self.free.pop()
                e = self.L()
                self.ints = self.ints + [v]
                out.append(["for", [v], e, self.loop(d, [])])
                self.ints = [x for x in self.ints if x != v]
            elif c == 8 and len(self.free) > 1:
                vs = [self.free.pop() for _ in range(min(len(self.free), self.pick([2, 2, 3, 4])))]
                e = ["list", [["list", [self.I(0) for _ in vs]] for _ in range(self.i(1, 3))]]
                self.ints = self.ints + vs
                out.append(["for", vs, e, self.loop(d, [])])
                self.ints = [x for x in self.ints if x not in vs]
            elif c == 9 and self.free:
                v = self.free.pop()
                out.append(["set", v, lit(0)])
                self.ints = self.ints + [v]
                out.append(["repeat", self.loop(d, [["aug", v, "+=", lit(1)], ["if", [[["cmp", ">", ["var", v], lit(self.i(1, 5))], [["break"]]]], None]])])
                self.ints = [x for x in self.ints if x != v]
            else:
                out.append(self.simple())
            if inloop and self.i(0, 4) == 0:
                out.append(self.leave(inloop))
        return out

    def loop(self, d, head):
        return head + self.stmts(d - 1, ["break", "next"])


@st.composite
def programs(draw, depth=3):
    names = list(draw(st.permutations([n for n in NAMES])))[:20]
    fn = ["f_one", "Iffunc", "orderer"]
    funcs, defs = {}, []
    for f in fn[:draw(st.sampled_from([0, 0, 1, 2]))]:
        params = ["p", "q2", "zz", "aa"][:draw(st.integers(1, 4))]
        g = P(draw, (params + ["loc"] + params)[:3] + [params[0]] + ["ll", "ll", "tt"] + ["k1", "k2"], dict(funcs))
        g.ints = params + ["loc"]
        g.rw = params + ["loc"]
        body = [["set", "loc", lit(1)], ["set", "ll", ["list", [lit(3), ["var", "p"]]]], ["set", "tt", ["str", "''", ""]], ["set", "nst", ["list", [lit(1)]]]] + g.stmts(1, []) + [["set", f, g.I()]]
        defs.append(["def", f, params, body])
        funcs[f] = params
    g = P(draw, names, funcs)
    pre = [["set", n, lit(g.i(-5, 9))] for n in g.ints] + [["set", n, ["list", [lit(g.i(-4, 9)) for _ in range(g.i(1, 4))]]] for n in g.lists] + [["set", g.texts[0], ["str", "'s'", "s"]], ["set", "nst", ["list", [lit(g.i(-4, 9)) for _ in range(g.i(1, 3))]]]]
    outs = [["var", n] for n in g.ints + g.lists + g.texts + ["nst"]]
    body = g.stmts(depth, [], draw(st.integers(2, 5)))
    return {"pre": defs + pre, "body": body, "out": ["list", outs], "seed": draw(st.one_of(st.just(0), st.integers(0, 10 ** 6)))}
