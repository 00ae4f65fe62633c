"""Turn a model (see refcif) into conformant text, with every free choice of the
syntax taken from a list of integers."""
import re
from .core import Discard

WS_CHARS = " \t\n"
SEPS = [" ", " ", "  ", "\t", "\n", "\n", "\n\n", "\n  ", " \t \n", " # comment here\n", "\n# it's a \"comment\" _x loop_ data_y\n",
        "\n#\n\n", " #;\n", "\n\n\n  \t", "\n# [ { ] }\n", "\n ## save_ ''' \n"]
FLAT = [" ", " ", "  ", "\t"]


def bare_ok(v, g, nested):
    if v == "" or re.search(r"\s", v) or v[0] in "_#$'\"":
        return False
    if any(ord(c) < 33 or ord(c) == 127 for c in v):
        return False
    low = v.lower()
    if low.startswith(("data_", "save_", "loop_", "stop_", "global_")):
        return False
    two = g in ("2.0", "STAR2")
    if two and (any(c in "[]{}" for c in v) or not re.match(r"^[^\s\"#$'_{}\[\]]", v)):
        return False
    if g == "STAR2" and "," in v:
        return False
    if g == "1.1" and v[0] in "[]":
        return False
    return True


def quote_ok(v, q, g):
    if "\n" in v or "\f" in v:
        return False
    if g in ("2.0", "STAR2"):
        return q not in v
    return not re.search(q + r"[ \t]", v)


def triple_ok(v, q, g):
    return g in ("2.0", "STAR2") and q * 3 not in v and not v.endswith(q)


def header_like(v):
    return re.match(r"[^\n]*\\[ \t]*\n", v) is not None


def fold(v, ch):
    """Folded form of v: header line, then lines broken anywhere."""
    out = ["\\" + ["", "", " ", "\t"][ch(4)]]
    for l in v.split("\n"):
        while len(l) > 1 and ch(3) == 0:
            k = 1 + ch(len(l) - 1)
            head = l[:k]
            out.append(head + "\\" + ["", "", "", "  "][ch(4)])
            l = l[k:]
        if re.search(r"\\[ \t]*$", l):
            out.append(l + "\\")
            out.append("")
        else:
            out.append(l)
    return "\n".join(out)


PREFIXES = [">", "> ", "CIF:", "CIF:> ", "ab c|", "_", "#", "loop_ ", "'", "x"]


def text_field(v, g, ch):
    body = v
    folded = header_like(v) or ch(4) == 0
    if "\f" in v or "\v" in v:
        folded = header_like(v)
    if folded:
        body = fold(v, ch)
    if "\n;" in body or ch(5) == 0:
        p = PREFIXES[ch(len(PREFIXES))]
        lines = body.split("\n")
        if folded and ch(2):
            body = "\n".join([p + "\\\\"] + [p + l for l in lines[1:]])
        else:
            body = "\n".join([p + "\\"] + [p + l for l in lines])
    if "\n;" in body:
        raise Discard()
    return "\n;" + body + "\n;"


class Emitter(object):
    def __init__(self, g, choices, maxline=2048):
        self.g, self.c, self.i = g, choices, 0
        self.out = []
        self.two = g in ("2.0", "STAR2")

    def ch(self, n):
        if not self.c:
            return 0
        v = self.c[self.i % len(self.c)] + self.i // len(self.c)
        self.i += 1
        return v % n

    def w(self, s):
        self.out.append(s)

    def bol(self):
        for s in reversed(self.out):
            if s:
                return s[-1] == "\n"
        return True

    def sep(self, flat=False):
        self.w((FLAT if flat else SEPS)[self.ch(len(FLAT if flat else SEPS))])

    def kw(self, s):
        k = self.ch(4)
        return [s, s, s.upper(), s.capitalize()][k]

    def scalar(self, v, nested=False):
        """Write v (whitespace already precedes it)."""
        opts = []
        if bare_ok(v, self.g, nested) and not (v[0] == ";" and self.bol()):
            opts += ["b", "b", "b"]
        for q in "'\"":
            if quote_ok(v, q, self.g):
                opts.append(q)
            if triple_ok(v, q, self.g):
                opts.append(q * 3)
        opts.append(";")
        if "\n" in v:
            opts.append(";")
        o = opts[self.ch(len(opts))]
        if o == "b":
            self.w(v)
        elif o == ";":
            self.w(text_field(v, self.g, self.ch))
            return "\n;"
        else:
            self.w(o + v + o)
        return o

    def value(self, v, nested=False):
        if isinstance(v, list):
            self.w("[")
            for i, a in enumerate(v):
                if i or self.ch(2):
                    self.sep()
                    if i and self.g == "STAR2":
                        self.w(",")
                        if self.ch(2):
                            self.sep()
                self.value(a, True)
            if self.ch(3) == 0 or (self.out[-1] == "\n;"):
                self.sep()
            self.w("]")
        elif isinstance(v, dict):
            self.w("{")
            for i, (k, a) in enumerate(v.items()):
                if i or self.ch(2):
                    self.sep()
                    if i and self.g == "STAR2":
                        self.w(",")
                        if self.ch(2):
                            self.sep()
                ks = [q for q in ("'", '"') if quote_ok(k, q, self.g)] + \
                     [q * 3 for q in ("'", '"') if triple_ok(k, q, self.g)]
                if not ks:
                    raise Discard()
                q = ks[self.ch(len(ks))]
                self.w(q + k + q + ":")
                self.value(a, True)
            if self.ch(3) == 0:
                self.sep()
            self.w("}")
        else:
            if nested and self.g == "STAR2" and not self.bol() and v.startswith(";"):
                pass
            self.scalar(v, nested)

    def items(self, b):
        pos = [self.ch(len(b["items"]) + 1) for s in b["saves"]]
        pos.sort()
        p = 0
        for i, e in enumerate(b["items"] + [None]):
            while p < len(pos) and pos[p] == i:
                self.frame(b["saves"][p])
                p += 1
            if e is None:
                break
            self.sep()
            if e[0] == "k":
                self.w(e[1])
                self.sep()
                self.value(e[2])
            else:
                self.w(self.kw("loop_"))
                for n in e[1]:
                    self.sep()
                    self.w(n)
                for r in e[2]:
                    for v in r:
                        self.sep()
                        self.value(v)

    def frame(self, s):
        self.sep()
        self.w(self.kw("save_") + s["name"])
        self.items(s)
        self.sep()
        self.w(self.kw("save_"))

    def file(self, model):
        if self.g == "2.0":
            self.w("#\\#CIF_2.0")
            self.w(["\n", " \n", "\n\n# first\n"][self.ch(3)])
        elif self.ch(3) == 0:
            self.w(["# a comment first\n", "\n\n", "#\\#CIF_1.1\n", " \n"][self.ch(4)])
        for i, b in enumerate(model):
            if i:
                self.sep()
            self.w(self.kw("data_") + b["name"])
            self.items(b)
        self.w(["\n", "", " ", "\n# last comment", "\n\n", "  \n#\n"][self.ch(6)])
        return "".join(self.out)


def emit(model, g, choices):
    return Emitter(g, choices).file(model)
