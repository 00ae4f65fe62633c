"""dREL programs: a small syntax tree of our own, its meaning (an evaluator over
plain Python values), and a printer that varies the surface form.

Expressions are lists:
  ["int", text, value] ["real", text] ["imag", text] ["str", text, value] ["var", name]
  ["const", text, value]
  ["bin", op, a, b]     + - * / ^ & | **       ["cmp", op, a, b]  < > <= >= == != in, not in
  ["and", a, b] ["or", a, b] ["not", a] ["neg", a] ["pos", a] ["paren", a]
  ["list", items] ["table", [[text, key, expr], ...]] ["tick", a]
  ["sub", prim, [index, ...]]  ["slice", prim, [lo, hi, step]]  (None where left out)
  ["call", name, args]
Statements:
  ["set", name, expr] ["aug", name, op, expr] ["setat", name, index, expr] ["multi", names, exprs]
  ["if", [[cond, body], ...], else_body or None] ["do", var, a, b, step or None, body]
  ["for", names, expr, body] ["repeat", body] ["break"] ["next"] ["print", expr]
  ["def", name, params, body]  ["out", expr]   (assignment to the target)
"""
import math, random
from vp.core import Discard

BIG = 10 ** 9


class Brk(Exception):
    pass


class Nxt(Exception):
    pass


# ---------------------------------------------------------------- meaning
def num(x):
    return isinstance(x, (int, float, complex)) and not isinstance(x, bool)


def lim(v):
    if isinstance(v, list):
        for x in v:
            lim(x)
    elif num(v) and (abs(v) > BIG or v != v):
        raise Discard()
    elif isinstance(v, str) and len(v) > 400:
        raise Discard()
    return v


def elementwise(f, a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            raise Discard()
        return [elementwise(f, x, y) for x, y in zip(a, b)]
    if isinstance(a, list):
        return [elementwise(f, x, b) for x in a]
    if isinstance(b, list):
        return [elementwise(f, a, y) for y in b]
    return f(a, b)


def rank(v):
    return 1 + rank(v[0]) if isinstance(v, list) else 0


def matmul(a, b):
    ra, rb = rank(a), rank(b)
    if not ra or not rb:
        return elementwise(lambda x, y: x * y, a, b)
    if ra == 1 and rb == 1:
        return sum(x * y for x, y in zip(a, b))
    if ra == 2 and rb == 1:
        return [sum(x * y for x, y in zip(r, b)) for r in a]
    cols = list(zip(*b))
    if ra == 1:
        return [sum(x * y for x, y in zip(a, c)) for c in cols]
    return [[sum(x * y for x, y in zip(r, c)) for c in cols] for r in a]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def divide(x, y):
    if y == 0:
        raise Discard()
    return x / y


def power(a, b):
    if isinstance(a, int) and isinstance(b, int):
        if abs(b) > 12 or (a == 0 and b < 0):
            raise Discard()
        return a ** b if b >= 0 else 1.0 / (a ** -b)
    if abs(b) > 12 or (a <= 0):
        raise Discard()
    return a ** b


BIN = {"+": lambda a, b: a + b if isinstance(a, str) else elementwise(lambda x, y: x + y, a, b),
       "-": lambda a, b: elementwise(lambda x, y: x - y, a, b),
       "*": matmul, "/": lambda a, b: elementwise(divide, a, b), "^": cross,
       "&": lambda a, b: a & b, "|": lambda a, b: a | b, "**": power}
CMP = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b,
       "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "in": lambda a, b: a in b, "not in": lambda a, b: a not in b}


def need(c):
    if not c:
        raise Discard()


def fn_table():
    r = math.radians

    def tr(m):
        return [list(x) for x in zip(*m)]

    def sq(x):
        need(x >= 0)
        return math.sqrt(x)

    def unit(f):
        def g(x):
            need(-1 <= x <= 1)
            return math.degrees(f(x))
        return g

    def mod(a, b):
        need(b != 0)
        return a % b

    def expo(x):
        need(abs(x) < 15)
        return math.exp(x)
    return {
        "len": len, "abs": abs, "magn": abs, "atoi": int, "float": float, "int": int, "str": lambda v: str(v),
        "sqrt": sq, "exp": expo, "max": max, "min": min, "mod": mod, "upper": lambda s: s.upper(),
        "sind": lambda x: math.sin(r(x)), "cosd": lambda x: math.cos(r(x)), "tand": lambda x: math.tan(r(x)),
        "acosd": unit(math.acos), "asind": unit(math.asin), "atand": lambda x: math.degrees(math.atan(x)),
        "atan2d": lambda y, x: math.degrees(math.atan2(y, x)), "norm": lambda v: math.sqrt(sum(x * x for x in v)),
        "transpose": tr, "matrix": lambda m: [[float(x) for x in r] for r in m], "array": lambda v: v, "list": lambda *a: list(a) if len(a) != 1 else list(a[0]),
        "complex": complex, "real": lambda z: complex(z).real, "imag": lambda z: complex(z).imag,
        "expimag": lambda x: complex(math.cos(x), math.sin(x)), "strip": lambda l, n: [x[n] for x in l],
    }


FN = fn_table()


class Run(object):
    """Executes statements; variables hold plain Python values."""
    def __init__(self, fuel=3000, env=None, funcs=None):
        self.env, self.fuel, self.target = dict(env or {}), fuel, None
        self.funcs = funcs if funcs is not None else {}
        self.events = set()

    def ev(self, e):
        self.fuel -= 1
        if self.fuel < 0:
            raise Discard()
        k = e[0]
        if k == "int" or k == "str" or k == "const":
            return e[2]
        if k == "real":
            return float(e[1])
        if k == "imag":
            return complex(e[1].lower())
        if k == "var":
            return self.env[e[1]]
        if k == "bin":
            return lim(BIN[e[1]](self.ev(e[2]), self.ev(e[3])))
        if k == "cmp":
            return CMP[e[1]](self.ev(e[2]), self.ev(e[3]))
        if k == "and":
            return self.ev(e[1]) and self.ev(e[2])
        if k == "or":
            return self.ev(e[1]) or self.ev(e[2])
        if k == "not":
            return not self.ev(e[1])
        if k == "neg":
            return elementwise(lambda x, y: -x, self.ev(e[1]), 0)
        if k == "pos" or k == "paren":
            return self.ev(e[1])
        if k == "list":
            return [self.ev(x) for x in e[1]]
        if k == "table":
            return dict((key, self.ev(x)) for t, key, x in e[1])
        if k == "tick":
            return str(self.ev(e[1]))
        if k == "sub":
            v = self.ev(e[1])
            for i in e[2]:
                i = self.ev(i)
                if isinstance(v, dict):
                    need(i in v)
                else:
                    need(isinstance(i, int) and -len(v) <= i < len(v))
                v = v[i]
            return v
        if k == "slice":
            lo, hi, step = [None if x is None else self.ev(x) for x in e[2]]
            need(step != 0)
            return self.ev(e[1])[lo:hi:step]
        if k == "call":
            args = [self.ev(x) for x in e[2]]
            if e[1] in self.funcs:
                self.events.add("call")
                params, body = self.funcs[e[1]]
                sub = Run(self.fuel, dict(zip(params, args)), self.funcs)
                sub.events = self.events
                sub.run(body)
                self.fuel = sub.fuel
                return sub.env[e[1]]
            return lim(FN[e[1].lower()](*args))
        raise ValueError(k)

    def run(self, stmts):
        for s in stmts:
            self.one(s)

    def one(self, s):
        self.fuel -= 1
        if self.fuel < 0:
            raise Discard()
        k = s[0]
        env = self.env
        if k == "set":
            env[s[1]] = self.ev(s[2])
        elif k == "out":
            self.target = self.ev(s[1])
        elif k == "multi":
            vals = [self.ev(x) for x in s[2]]
            for n, v in zip(s[1], vals):
                env[n] = v
        elif k == "setat":
            v = self.ev(s[3])
            c = env[s[1]]
            i = self.ev(s[2])
            if isinstance(c, dict):
                c = dict(c)
            else:
                need(-len(c) <= i < len(c))
                c = list(c)
            c[i] = v
            env[s[1]] = c
        elif k == "aug":
            v, cur = self.ev(s[3]), env[s[1]]
            if s[2] == "++=":
                env[s[1]] = cur + [v]
            elif s[2] == "--=":
                c = list(cur)
                if v in c:
                    c.remove(v)
                env[s[1]] = c
            elif isinstance(cur, list):
                env[s[1]] = [lim(BIN[s[2][0]](x, v)) for x in cur]
            else:
                env[s[1]] = lim(BIN[s[2][0]](cur, v))
        elif k == "if":
            for n, (c, body) in enumerate(s[1]):
                if self.ev(c):
                    self.events.add("if" if n == 0 else "elseif")
                    return self.run(body)
            if s[2] is not None:
                self.events.add("else")
                self.run(s[2])
        elif k == "do":
            a, b = self.ev(s[2]), self.ev(s[3])
            step = 1 if s[4] is None else self.ev(s[4])
            need(step != 0)
            i = a
            self.events.add("do" if step > 0 else "do down")
            while (i <= b) if step > 0 else (i >= b):
                env[s[1]] = i
                if self.body(s[5]):
                    break
                i += step
        elif k == "for":
            for x in list(self.ev(s[2])):
                self.events.add("for" if len(s[1]) == 1 else "for pairs")
                if len(s[1]) == 1:
                    env[s[1][0]] = x
                else:
                    for n, v in zip(s[1], x):
                        env[n] = v
                if self.body(s[3]):
                    break
        elif k == "repeat":
            while not self.body(s[1]):
                self.events.add("repeat")
        elif k == "break":
            raise Brk()
        elif k == "next":
            raise Nxt()
        elif k == "print":
            self.ev(s[1])
        elif k == "def":
            self.funcs[s[1]] = (s[2], s[3])
        else:
            raise ValueError(k)

    def body(self, stmts):
        """True when a break ended the loop."""
        try:
            self.run(stmts)
        except Brk:
            self.events.add("break")
            return True
        except Nxt:
            self.events.add("next")
        return False


# ---------------------------------------------------------------- surface
PREC = {"or": 1, "and": 2, "not": 3, "cmp": 4, "neg": 7, "pos": 7}
BPREC = {"+": 5, "-": 5, "*": 6, "/": 6, "^": 6, "&": 6, "|": 6, "**": 8}


def prec(e):
    if e[0] == "bin":
        return BPREC[e[1]]
    return PREC.get(e[0], 9)


OPT = "\0opt"       # a place where line breaks and comments are allowed
EOS = "\0eos"       # the end of a simple statement
JOIN = "\0join"     # between two simple statements: newline or semicolon
RESERVED = set("and or in not do for loop as with where else elseif next break if switch case function print repeat default".split())
COMMENTS = ["# plain", "#", "# it's (not [closed", '# "quoted', "# a = b; c", "# { } '''", u"# caf\u00e9"]
CASED = {"do": "Do", "for": "For", "loop": "Loop", "with": "With", "else": "Else", "next": "Next", "break": "Break", "if": "If",
         "function": "Function", "print": "Print", "repeat": "Repeat", "where": "Where"}


class Printer(object):
    """seed 0 gives the plain form; others vary blanks, line breaks, comments,
    separators, keyword case, braces.  extra=True also adds parentheses."""
    SMALL = ("set", "out", "multi", "setat", "aug", "print", "break", "next")

    def __init__(self, seed=0, extra=False, fcase=True):
        self.plain, self.r, self.extra, self.fcase = not seed, random.Random(seed), extra, fcase

    def chance(self, p):
        return not self.plain and self.r.random() < p

    def kw(self, w):
        return CASED[w] if w in CASED and self.chance(0.4) else w

    def fname(self, n):
        if n.lower() not in FN or not self.fcase:
            return n
        return self.r.choice([n, n.capitalize(), n.upper()]) if self.chance(0.5) else n

    def wrap(self, e, level):
        t = self.ex(e)
        if prec(e) < level or (self.extra and self.chance(0.12)):
            return ["("] + t + [")"]
        return t

    def seq(self, items):
        out = []
        for n, x in enumerate(items):
            if n:
                out += [",", OPT]
            out += x
        return out

    def ex(self, e):
        k = e[0]
        if k in ("int", "real", "imag", "str", "const"):
            return [e[1]]
        if k == "var":
            return [e[1]]
        if k == "bin":
            p = BPREC[e[1]]
            if e[1] == "**":
                return self.wrap(e[2], 9) + ["**"] + self.wrap(e[3], 7)
            return self.wrap(e[2], p) + [e[1]] + self.wrap(e[3], p + 1)
        if k == "cmp":
            return self.wrap(e[2], 5) + e[1].split() + self.wrap(e[3], 5)
        if k == "and":
            return self.wrap(e[1], 2) + [self.r.choice(["and", "&&"]) if not self.plain else "and"] + self.wrap(e[2], 3)
        if k == "or":
            return self.wrap(e[1], 1) + [self.r.choice(["or", "||"]) if not self.plain else "or"] + self.wrap(e[2], 2)
        if k == "not":
            return ["not"] + self.wrap(e[1], 3)
        if k in ("neg", "pos"):
            return ["-" if k == "neg" else "+"] + self.wrap(e[1], 7)
        if k == "paren":
            return ["("] + self.ex(e[1]) + [")"]
        if k == "list":
            if not e[1]:
                return ["[", OPT, "]"]
            return ["[", OPT] + self.seq([self.wrap(x, 0) for x in e[1]]) + [OPT, "]"]
        if k == "table":
            if not e[1]:
                return ["{", OPT, "}"]
            return ["{", OPT] + self.seq([[t, ":"] + self.wrap(x, 0) for t, key, x in e[1]]) + [OPT, "}"]
        if k == "tick":
            return ["`"] + self.ex(e[1]) + ["`"]
        if k == "sub":
            out = self.wrap(e[1], 9)
            if len(e[2]) > 1 and e[3] == "comma":
                return out + ["["] + [t for t in self.seq([self.wrap(x, 0) for x in e[2]]) if t != OPT] + ["]"]
            for x in e[2]:
                out = out + ["["] + self.wrap(x, 0) + ["]"]
            return out
        if k == "slice":
            lo, hi, step = [None if x is None else self.wrap(x, 0) for x in e[2]]
            out = self.wrap(e[1], 9) + ["["] + (lo or []) + [":"] + (hi or [])
            if step is not None:
                out += [":"] + step
            return out + ["]"]
        if k == "call":
            return [self.fname(e[1]), "("] + [t for t in self.seq([self.wrap(x, 0) for x in e[2]])] + [")"]
        raise ValueError(k)

    def block(self, stmts, inline_ok=True):
        """tokens of a suite; the suite must start on the line of its head"""
        single = len(stmts) == 1 and inline_ok and stmts[0][0] in ("set", "aug", "out", "break", "next")
        if single and (self.plain or self.chance(0.5)):
            return self.small(stmts[0]) + [EOS]
        return ["{", OPT] + self.stmts(stmts) + ["}", OPT]

    def small(self, s):
        k = s[0]
        if k == "set":
            return [s[1], "="] + self.wrap(s[2], 0)
        if k == "out":
            return ["_a", ".", "b", "="] + self.wrap(s[1], 0)
        if k == "multi":
            return self.seq([[n] for n in s[1]]) + ["="] + self.seq([self.wrap(x, 0) for x in s[2]])
        if k == "setat":
            return [s[1], "["] + self.wrap(s[2], 0) + ["]", "="] + self.wrap(s[3], 0)
        if k == "aug":
            return [s[1], s[2]] + self.wrap(s[3], 0)
        if k == "print":
            return [self.kw("print")] + self.wrap(s[1], 0)
        return [self.kw(k)]

    def stmts(self, stmts):
        out = []
        prev_small = False
        for s in stmts:
            k = s[0]
            if k in self.SMALL:
                if prev_small:
                    out[-1] = JOIN
                out += self.small(s) + [EOS]
                prev_small = True
                continue
            prev_small = False
            if k == "if":
                for n, (c, body) in enumerate(s[1]):
                    if n:
                        out += ["\0elseif"]
                    else:
                        out += [self.kw("if")]
                    out += ["("] + self.ex(c) + [")", OPT] + self.block(body)
                if s[2] is not None:
                    out += [self.kw("else")] + self.block(s[2])
            elif k == "do":
                out += [self.kw("do"), s[1], "="] + [t for t in self.seq([self.wrap(x, 0) for x in s[2:5] if x is not None]) if t != OPT]
                out += self.block(s[5])
            elif k == "for":
                names = self.seq([[n] for n in s[1]])
                names = [t for t in names if t != OPT]
                if len(s[1]) > 1 and (self.plain or self.chance(0.7)):
                    names = ["["] + names + ["]"]
                out += [self.kw("for")] + names + ["in"] + self.wrap(s[2], 0) + self.block(s[3])
            elif k == "repeat":
                out += [self.kw("repeat")] + self.block(s[1])
            elif k == "def":
                out += [self.kw("function"), s[1], "("]
                for n, p in enumerate(s[2]):
                    out += ([","] if n else []) + [p, ":", "[", "Single", ",", "Integer", "]"]
                out += [")"] + self.block(s[3], False)
            else:
                raise ValueError(k)
        return out

    def newline(self):
        if self.plain:
            return "\n"
        out = ""
        if self.chance(0.15):
            out += " " + self.r.choice(COMMENTS)
        out += "\n"
        while self.chance(0.25):
            out += self.r.choice(["\n", "   \n", "\t", "  ", " " + self.r.choice(COMMENTS) + "\n"])
        return out

    def gap(self, a, b, depth):
        must = glued(a, b)
        if self.plain:
            if must or b not in ")],]" and a not in "([" and b not in "([.:" and a != ".":
                return " "
            return ""
        x = self.r.random()
        if x < 0.30:
            return " " if must else ""
        if x < 0.93:
            return " "
        if x < 0.95:
            return "\t"
        if x < 0.965:
            return "   "
        if depth and x < 0.985:
            return self.r.choice(["\n", " \n  ", " " + self.r.choice(COMMENTS) + "\n"])
        return " \\\n" + self.r.choice(["", " ", "\t"])

    def program(self, stmts, edit=None):
        toks = self.stmts(stmts)
        if edit:
            toks = edit(toks)
        out = []
        if self.chance(0.3):
            out.append(self.newline())
        depth = 0
        prev = None
        for t in toks:
            if t == EOS:
                out.append((";" if self.chance(0.1) else "") + self.newline())
                prev = None
                continue
            if t == JOIN:
                out.append(self.r.choice([";", " ; ", self.newline(), self.newline()]) if not self.plain else "\n")
                prev = None
                continue
            if t == OPT:
                if self.chance(0.2) or (self.plain and prev in ("{", "}")):
                    out.append(self.newline())
                    prev = None
                elif prev == "}" and self.chance(0.5):
                    out.append("\n")
                    prev = None
                continue
            if t == "\0elseif":
                t = "else if" if self.plain else self.r.choice(["else if", "Else If", "ELSE IF", "else  if", "Else\tif", "else\nif"])
            if prev is not None:
                out.append(self.gap(prev, t, depth))
            out.append(t)
            if t == "(":
                depth += 1
            elif t == ")":
                depth -= 1
            prev = t
        return "".join(out)


WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$\"'")


def glued(a, b):
    """would the two tokens run together?"""
    x, y = a[-1], b[0]
    if (x in WORD or x == ".") and (y in WORD or y == "."):
        return not (a in (".", ) or b == ".") or x.isdigit()
    return x in "+-*/=<>!&|.:" and y in "+-*/=<>!&|.:" and not (x == ":" or y == ":")


# ---------------------------------------------------------------- running the real thing
def parse(text):
    from CifFile.drel import drel_ast_yacc
    return drel_ast_yacc.parser.parse(text, lexer=drel_ast_yacc.lexer)


class NoDic(object):
    cat_obj_lookup_table = {}

    def get_name_by_cat_obj(self, cat, obj, give_default=False):
        return "_" + cat.lstrip("_") + "." + obj


def compile_method(ast, target="_a.b", dic=None, **kw):
    from CifFile.drel import py_from_ast
    return py_from_ast.make_python_function(ast, "myfunc", target, have_sn=False, cif_dic=dic or NoDic(), **kw)


def globs():
    from CifFile import CifFile_module
    return dict(vars(CifFile_module))


def execute(ast, ciffile=None):
    src = compile_method(ast)
    g = globs()
    exec(src, g)
    return g["myfunc"](ciffile)


def plainval(v):
    import numpy
    if isinstance(v, numpy.ndarray):
        return plainval(v.tolist())
    if isinstance(v, numpy.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [plainval(x) for x in v]
    if isinstance(v, dict):
        return dict((k, plainval(x)) for k, x in v.items())
    return v


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(a) == sorted(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and a == b
    if num(a) and num(b):
        return abs(a - b) <= 1e-9 * (1 + abs(a))
    return type(a) == type(b) and a == b


def flat(ast):
    """The tree with nested statement lists joined up."""
    if isinstance(ast, (list, tuple)):
        out = [flat(x) for x in ast]
        if out and out[0] == "STATEMENTS" and isinstance(out[1], list):
            body = []
            for s in out[1]:
                if isinstance(s, list) and s and s[0] == "STATEMENTS":
                    body.extend(s[1])
                else:
                    body.append(s)
            out[1] = body
        return out
    return ast
