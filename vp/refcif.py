"""An independent, strict reader for CIF 1.0/1.1, CIF 2.0 and STAR2 text.

Written from the published syntax (International Tables G 2.2, Bernstein et al.
2016), not from the code under test.  Returns the plain model used by the checks:

  [block, ...];  block = {"name", "items": [entry...], "saves": [block...]}
  entry = ["k", name, value] | ["l", [names], [[value...] per row]]
  value = str | list | dict
"""
import re

RESERVED = ("data_", "save_", "loop_", "stop_", "global_")


class RefError(Exception):
    pass


WS = " \t\n"


def unprefix(text):
    lines = text.split("\n")
    first = lines[0]
    m = re.match(r"^(.*?)(\\{1,2})[ \t]*$", first)
    if not m or len(lines) < 2:
        return text
    prefix, sl = m.group(1), m.group(2)
    if prefix == "" or prefix[0] == ";" or "\\" in prefix:
        return text
    for l in lines[1:]:
        if not l.startswith(prefix):
            return text
    rest = [l[len(prefix):] for l in lines[1:]]
    if len(sl) == 2:
        return "\n".join(["\\"] + rest)
    return "\n".join(rest)


def unfold(text):
    lines = text.split("\n")
    if len(lines) < 2 or not re.match(r"^\\[ \t]*$", lines[0]):
        return text
    out = ""
    for i, l in enumerate(lines[1:]):
        last = i == len(lines) - 2
        m = re.match(r"^(.*)\\[ \t]*$", l, re.S)
        if m:
            out += m.group(1)
        else:
            out += l + ("" if last else "\n")
    return out


class Tok(object):
    __slots__ = ("kind", "val", "pos", "sep", "end")

    def __init__(self, kind, val, pos, sep, end):
        self.kind, self.val, self.pos, self.sep, self.end = kind, val, pos, sep, end

    def __repr__(self):
        return "%s %r @%d" % (self.kind, self.val, self.pos)


def tokenize(text, g):
    """kind: ws-separated tokens.  sep says whether whitespace preceded the token."""
    i, n = 0, len(text)
    two = g in ("2.0", "STAR2")
    toks = []
    sep = True
    depth = 0
    if text.startswith("\ufeff"):
        i = 1
    while i < n:
        c = text[i]
        if c in WS:
            sep = True
            i += 1
            continue
        bol = i == 0 or text[i - 1] == "\n"
        if c == "#" and (sep or depth):
            j = text.find("\n", i)
            i = n if j < 0 else j
            sep = True
            continue
        if c == ";" and bol and i > 0:
            j = text.find("\n;", i)
            if j < 0:
                raise RefError("unterminated text field at %d" % i)
            raw = text[i + 1:j]
            toks.append(Tok("text", unfold(unprefix(raw)), i, True, j + 2))
            i = j + 2
            sep = False
            continue
        if two and text.startswith(("'''", '"""'), i):
            q = text[i:i + 3]
            j = text.find(q, i + 3)
            if j < 0:
                raise RefError("unterminated triple quote at %d" % i)
            toks.append(Tok("quoted", text[i + 3:j], i, sep, j + 3))
            i = j + 3
            sep = False
            continue
        if c in "'\"":
            if two:
                j = text.find(c, i + 1)
                e = text.find("\n", i + 1)
                if j < 0 or (0 <= e < j):
                    raise RefError("unterminated string at %d" % i)
            else:
                j = i + 1
                while True:
                    j = text.find(c, j)
                    e = text.find("\n", i + 1)
                    if j < 0 or (0 <= e < j):
                        raise RefError("unterminated string at %d" % i)
                    if j + 1 >= n or text[j + 1] in WS:
                        break
                    j += 1
            toks.append(Tok("quoted", text[i + 1:j], i, sep, j + 1))
            i = j + 1
            sep = False
            continue
        if two and c in "[]{}":
            toks.append(Tok(c, c, i, sep, i + 1))
            depth += 1 if c in "[{" else -1
            i += 1
            sep = False
            continue
        if two and c == ":" and toks and toks[-1].kind == "quoted" and not sep and toks[-1].end == i:
            toks.append(Tok(":", ":", i, sep, i + 1))
            i += 1
            sep = False
            continue
        if g == "STAR2" and c == "," and depth:
            toks.append(Tok(",", ",", i, sep, i + 1))
            i += 1
            sep = True
            continue
        stop = WS + ("[]{}" if two else "") + ("," if g == "STAR2" and depth else "")
        j = i
        while j < n and text[j] not in stop:
            j += 1
        if two and j < n and text[j] in "[{" and c != "_" and text[i:i + 5].lower() not in ("data_", "save_"):
            raise RefError("bracket inside unquoted value at %d" % j)
        w = text[i:j]
        if w == "":
            raise RefError("unexpected %r at %d" % (c, i))
        if c == "_":
            # datanames may hold any printing character
            while j < n and text[j] not in WS:
                j += 1
            w = text[i:j]
            kind = "name"
        else:
            low = w.lower()
            if low.startswith("data_"):
                while j < n and text[j] not in WS:
                    j += 1
                w = text[i:j]
                kind = "data"
            elif low.startswith("save_"):
                while j < n and text[j] not in WS:
                    j += 1
                w = text[i:j]
                kind = "save"
            elif low in ("loop_", "stop_", "global_"):
                kind = low
            else:
                if c in "$" or (g == "1.1" and c in "[]") or (c == "#"):
                    raise RefError("bad first character in %r at %d" % (w, i))
                kind = "bare"
        toks.append(Tok(kind, w, i, sep, j))
        i = j
        sep = False
    return toks


class Parser(object):
    def __init__(self, text, g):
        self.t = tokenize(text, g)
        self.g = g
        self.i = 0

    def peek(self):
        return self.t[self.i].kind if self.i < len(self.t) else None

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def err(self, what):
        raise RefError("%s: at %r" % (what, self.t[self.i:self.i + 3]))

    def parse(self):
        blocks = []
        while self.peek() is not None:
            if self.peek() != "data":
                self.err("expected data_ heading")
            h = self.next()
            if not h.sep:
                self.err("no whitespace before data heading")
            if len(h.val) == 5:
                self.err("empty block name")
            blocks.append(self.body(h.val[5:], 0))
        return blocks

    def body(self, name, depth):
        b = {"name": name, "items": [], "saves": []}
        while True:
            k = self.peek()
            if k is None or k == "data":
                if depth:
                    self.err("unterminated save frame")
                return b
            t = self.t[self.i]
            if not t.sep:
                self.err("tokens not separated by whitespace")
            if k == "save":
                self.next()
                if len(t.val) == 5:
                    if not depth:
                        self.err("save_ outside frame")
                    return b
                if depth and self.g != "STAR2":
                    self.err("nested save frame")
                b["saves"].append(self.body(t.val[5:], depth + 1))
            elif k == "name":
                self.next()
                v = self.value(True)
                b["items"].append(["k", t.val, v])
            elif k == "loop_":
                self.next()
                names = []
                while self.peek() == "name":
                    names.append(self.next().val)
                if not names:
                    self.err("loop without datanames")
                vals = []
                while self.peek() in ("bare", "quoted", "text", "[", "{"):
                    vals.append(self.value(True))
                if not vals or len(vals) % len(names):
                    self.err("%d values in a loop of %d" % (len(vals), len(names)))
                w = len(names)
                b["items"].append(["l", names, [vals[x:x + w] for x in range(0, len(vals), w)]])
            else:
                self.err("unexpected token")

    def value(self, needsep):
        k = self.peek()
        if k is None:
            self.err("missing value")
        t = self.t[self.i]
        if needsep and not t.sep:
            self.err("value not separated by whitespace")
        if k in ("bare", "quoted", "text"):
            self.next()
            return t.val
        comma = self.g == "STAR2"
        if k == "[":
            self.next()
            out = []
            first = True
            while self.peek() != "]":
                if not first and comma:
                    if self.peek() != ",":
                        self.err("missing comma")
                    self.next()
                out.append(self.value(not first and not comma))
                first = False
            self.next()
            return out
        if k == "{":
            self.next()
            out = {}
            first = True
            while self.peek() != "}":
                if not first and comma:
                    if self.peek() != ",":
                        self.err("missing comma")
                    self.next()
                if self.peek() not in ("quoted",):
                    self.err("table key must be quoted")
                kt = self.next()
                if not first and not comma and not kt.sep:
                    self.err("table entries not separated")
                if self.peek() != ":":
                    self.err("missing colon")
                self.next()
                if kt.val in out:
                    self.err("duplicate key")
                out[kt.val] = self.value(False)
                first = False
            self.next()
            return out
        self.err("expected a value")


def parse(text, g):
    text = text.replace("\r\n", "\n").replace("\r", "\n")
    return Parser(text, g).parse()
