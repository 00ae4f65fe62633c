"""A text that is refused is reported where it breaks, by what breaks it."""
import ast, contextlib, io, re
from hypothesis import strategies as st
from vp import cif, refcif
from vp.core import Sub, Fail, Discard, expect, same
from vp.props import read_conformant as RC

RULE = ("a conformant text (see C02) is cut before a drawn token and goes on with a text that cannot stand there: another token, the end of the input, an open quote, a reserved word. "
        "Before it, another text with an error is read. The error must name the last value and the last ten tokens before the fault with their texts and places, the report on standard error "
        "the line and column of the fault. Or the conformant text goes on with a name, block, frame or line that is not allowed there, which the error must name. "
        "Non-trivial: at least two tokens stand before the fault.")
ASSUMPTIONS = ["the report may or may not list the offending token after those before it, and may name any line of an offending token of several lines",
               "lines named by the compiled scanner are those of the start or end of the token, counted from zero", "no line or column is asked of the report made with the compiled scanner"]
TWO = ("2.0", "STAR2")
VALUE = ("bare", "quoted", "text", "[", "{")


class State(object):
    """What may follow the tokens seen."""

    def __init__(self, g):
        self.g, self.st, self.depth, self.n, self.vals, self.br, self.last, self.open = g, "start", 0, 0, 0, [], None, []

    def value(self, v):
        self.last = v
        if self.open:
            c, k = self.open[-1]
            if isinstance(c, dict):
                c[k] = v
            else:
                c.append(v)
        elif self.st == "kv":
            self.st = "block"
        elif self.st in ("names", "values"):
            self.st = "values"
            self.vals += 1

    def push(self, t):
        k = t.kind
        if self.open:
            c = self.open[-1]
            if k in ("]", "}"):
                self.open.pop()
                self.value(c[0])
            elif k in (",", ":"):
                self.key = k == ":"
            elif k in "[{":
                self.open.append([{} if k == "{" else [], None])
                self.key = False
            elif isinstance(c[0], dict) and not self.key:
                c[1] = t.val
                self.wait = True
                return
            else:
                self.value(t.val)
                self.key = False
            self.wait = False
            return
        if k in "[{":
            self.open.append([{} if k == "{" else [], None])
            self.key = self.wait = False
        elif k in VALUE:
            self.value(t.val)
        elif k == "name":
            self.st = "names" if self.st == "names" else "kv"
            if self.st == "names":
                self.n += 1
        elif k == "loop_":
            self.st, self.n, self.vals = "names", 0, 0
        else:
            self.depth = self.depth + (1 if len(t.val) > 5 else -1) if k == "save" else 0
            self.st = "block"
            self.last = None if k == "save" and len(t.val) == 5 or k == "data" else self.last      # a frame or block, perhaps

    def faults(self):
        never = ["$x", "'open", '"open', "stop_", "STOP_", "global_", "Global_", "$", "_"]
        if self.g in TWO:
            never += ["]zz", "} 1"] if not self.open else []
        if self.g == "1.1":
            never += ["[1,2]", "]", "[a"]
        names, plain, block, frame, ends, loop, end = ["_zzq", "_ZZ.q[1]"], ["zzq", "12(3)", "?", "'z q'", "\"z\"", "\n;z\nq\n;"], ["data_zzb", "DATA_x"], ["save_zzf", "SAVE_f"], ["save_", "Save_"], ["loop_", "LOOP_"], [""]
        if self.open:
            c = self.open[-1]
            f = never + names + block + frame + ends + loop + end
            if isinstance(c[0], dict) and self.wait:
                f += plain[:3]
            elif isinstance(c[0], dict) and not self.key and not c[0]:
                f += plain[:3]
            return f
        if self.st == "start":
            return never + names + plain + frame + ends + loop
        if self.st == "kv":
            return never + names + block + frame + ends + loop + end
        if self.st == "names":
            return never + block + frame + ends + loop + end if self.n else never + loop + block + frame + ends + end
        if self.st == "values":
            return never
        return never + plain + (ends if not self.depth else block + end)


def pieces(t, text):
    """The code's tokens of one token: [(start, text)]"""
    if t.kind != "text":
        return [(t.pos, text[t.pos:t.end])]
    out, p = [], t.pos - 1
    m = re.compile(r"\n;[^\n]*\n+").match(text, p)
    out.append((p, m.group(0)))
    p = m.end()
    while text[p] != ";":
        m = re.compile(r"[^;\n][^\n]*\n+").match(text, p)
        out.append((p, m.group(0)))
        p = m.end()
    return out + [(p, ";")]


def cases():
    def s():
        return st.fixed_dictionaries({"host": st.one_of(*[RC.strategy(g)() for g in cif.GRAMMARS]), "at": st.integers(0, 60), "kind": st.integers(0, 60), "gap": st.integers(0, 7),
                                      "rest": st.booleans(), "scan": st.sampled_from(["standard", "standard", "flex"]), "before": st.integers(0, 3)})
    return s


def attempt(text, g, scan, **kw):
    from CifFile import ReadCif
    from CifFile.StarFile import StarError
    err, out = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
            ReadCif(io.StringIO(text), grammar=g, scantype=scan, **kw)
    except StarError as e:
        return str(e), err.getvalue(), out.getvalue()
    raise Fail("accepted (%s, %s): %r" % (g, scan, text[-1500:]))


def listed(report):
    """[(place, text)] of the tokens in a report"""
    out, head = [], None
    for m in re.finditer(r"^  \((@|~line )(-?\d+)\)  (\S+)  =  (.*)$", report, re.M):
        out.append((m.group(1), int(m.group(2)), ast.literal_eval(m.group(4))))
    return out


def check(case, rec):
    g = case["host"]["g"]
    model, text = RC.make(case["host"])
    scan = case["scan"] if g not in TWO else "standard"
    if text.startswith("\ufeff"):
        raise Discard()
    toks = refcif.tokenize(text, g)
    n = case["at"] % (len(toks) + 1)
    state = State(g)
    for t in toks[:n]:
        state.push(t)
    fs = state.faults()
    fault = fs[case["kind"] % len(fs)]
    if fault == "]zz" and not (n and toks[n - 1].kind not in ("]", "}")):
        raise Discard()
    # the text up to the fault
    good = text[:toks[n - 1].end] if n else text[:10] if g == "2.0" else ""
    gap = [" ", "\n", "\n\n", " \t ", " # a 'comment'\n", "\n  ", "\n#c\n   ", "\t\n\n "][case["gap"]]
    if fault.startswith("\n"):
        gap = gap.rstrip("\n") if "#" not in gap else " "
    if not n:
        gap = "\n" + gap
    bad = good + gap + fault
    p = len(good + gap)
    if fault[:4] not in ("'ope", '"ope') and fault and case["rest"]:
        bad += "\n" + (text[toks[n].pos:] if n < len(toks) and toks[n].kind != "text" else "_zzend 1\n")
    elif case["rest"] and fault.startswith(("'open", '"open')):
        bad += "\n_zzend 1\n"
    if fault and max(len(l) for l in bad.split("\n")) > 2048:
        raise Discard()
    if not fault:
        bad += ["", "\n", "  "][case["kind"] % 3]
        p = len(bad)
    if scan == "flex" and any(ord(c) > 126 for c in bad):
        scan = "standard"
    if scan == "flex":
        from CifFile import ReadCif
        from CifFile.StarFile import StarError
        try:
            ReadCif(io.StringIO(text), grammar=g, scantype=scan)
        except StarError:
            raise Discard()      # C06's business
    rec.nontrivial(n >= 2)
    rec.label("%s %s" % (state.st, "bracket" if state.open else ""))
    rec.label("flex" if scan == "flex" else g)
    before = [None, "data_left _over 'from before' _x", "data_left loop_ _a 1 2 'q r' $", "_left\n"][case["before"]]
    if before:
        attempt(["", "#\\#CIF_2.0\n"][g == "2.0"] + before, g, scan)
    msg, err, out = attempt(bad, g, scan)
    where = "%s, %s: %r goes on with %r at %d\n%s\n%s" % (g, scan, good[-600:], bad[p:p + 40], p, msg, err)
    # the last value
    m = re.search(r"last value parsed was (.*)\n?Parser status", msg, re.S)
    expect(m, "no last value: %s", where)
    if not any(t.kind in VALUE for t in toks[:n]):
        expect(m.group(1).strip() in ("", "''") or m.group(1)[:1] == "<", "a last value, although there is none: %s", where)
    elif state.last is not None:
        try:
            got = ast.literal_eval(m.group(1).strip())
        except Exception:
            raise Fail("last value %r: %s" % (m.group(1), where))
        same(got, state.last, "last value, " + where)
    # the tokens
    want = [x for t in toks[:n] for x in pieces(t, text)]
    got = listed(msg[m.end():])
    extra = fault.strip("\n") and len(fault) or 0
    ok = False
    for k in (len(want), len(want) + 1):
        shown = want[max(0, k - 10):]
        if len(got) == min(10, k) and all(a[2] == b[1] for a, b in zip(got, shown)):
            for a, b in zip(got, shown):
                if a[0] == "@":
                    same(a[1], b[0], "place of %r, %s" % (b[1], where))
                else:
                    lo = text[:b[0]].count("\n")
                    expect(lo <= a[1] <= lo + b[1].count("\n"), "line of %r, which is %d: %s", b[1], lo, where)
            ok = True
            if k > len(want):
                a = got[-1]
                rest = bad[p:]
                expect(a[2] == "" or bad[p:].startswith(a[2]) or bad[p - 1:].startswith(a[2]), "the last token is %r, not the fault: %s", a[2], where)
                if a[0] == "@":
                    same(a[1], p, "place of the fault, " + where)
                else:
                    expect(bad[:p].count("\n") - (a[2][:1] == "\n") <= a[1] <= bad.count("\n") + 1, "line of the fault: %s", where)
            break
    expect(ok, "the last tokens should be %r, are %r: %s", want[-10:], got, where)
    # the report
    if scan == "standard":
        lines = err.split("\n")
        at = [i for i, l in enumerate(lines) if re.match(r"\d+:\d+: ", l)]
        expect(len(at) == 1, "not one place reported: %s", where)
        r = re.match(r"(\d+):(\d+): ", lines[at[0]])
        first = 1 + bad[:p].count("\n")
        expect(first <= int(r.group(1)) <= first + bad[p:].count("\n"), "line %s reported, is %d: %s", r.group(1), first, where)
        if int(r.group(1)) == first and len(got) == min(10, len(want)) and [x[2] for x in got] == [x[1] for x in want[-10:]]:
            same(int(r.group(2)), p - (bad.rfind("\n", 0, p) + 1), "column, " + where)
        shown, pointer = lines[at[0] + 1:at[0] + 3]
        expect(shown.startswith(">  ") and pointer.startswith(">  ") and pointer.endswith("^") and not pointer.strip("> ^"), "no pointer: %s", where)
        rest = shown[len(pointer) - 1:]
        line = bad[p:].split("\n")[0]
        expect(line.startswith(rest) and (rest or not line), "the pointer shows %r, the fault is %r: %s", rest, line, where)
        start = shown[3:len(pointer) - 1]
        upto = bad[:p].split("\n")[-1]
        expect(upto.endswith(start.replace("...", "", 1)) or upto == start, "the line shown starts with %r, is %r: %s", start, upto, where)


NAMED = ("item", "column", "within", "block", "frame", "long item", "long column", "ragged", "long line", "long frame")


def named_cases():
    def s():
        return st.fixed_dictionaries({"host": st.one_of(*[RC.strategy(g)() for g in cif.GRAMMARS]), "kind": st.sampled_from(NAMED), "k": st.integers(0, 60), "scan": st.sampled_from(["standard", "flex"])})
    return s


def check_named(case, rec):
    g, k = case["host"]["g"], case["k"]
    model, text = RC.make(case["host"])
    scan = case["scan"] if g not in TWO and all(ord(c) < 127 for c in text) else "standard"
    last = model[-1]
    text += "\n"
    names = [n for e in last["items"] for n in ([e[1]] if e[0] == "k" else e[1])]
    kind = case["kind"]
    kw = {}
    low = lambda s: [s.upper(), s.lower(), s][k % 3] if s.upper().lower() == s.lower() else s
    if kind in ("item", "column"):
        if not names:
            raise Discard()
        n = names[k % len(names)]
        bad = "%s 1" % low(n) if kind == "item" else "loop_ _zz1 %s 1 2" % low(n)
    elif kind == "within":
        n = "_zz1"
        bad = "loop_ _zz1 _zz2 _ZZ1 1 2 3"
    elif kind == "block":
        n = model[k % len(model)]["name"]
        bad = "data_%s _zz1 2" % low(n)
    elif kind == "frame":
        if not last["saves"]:
            raise Discard()
        n = last["saves"][k % len(last["saves"])]["name"]
        bad = "save_%s _zz1 3 save_" % low(n)
    elif kind in ("long item", "long column"):
        n = "_zz" + "q" * (73 + k)
        bad = "%s 1" % n if kind == "long item" else "loop_ _zz1 %s 1 2" % n
    elif kind == "long frame":
        n = "zz" + "q" * (74 + k)
        bad = "data_%s" % n
    elif kind == "ragged":
        n = "_zz2"
        bad = "loop_ _zz1 _zz2 _zz3 1 2 3 " + "4 " * (1 + k % 2)
    else:
        width = max(len(l) for l in text.split("\n")) + k
        kw = {"maxlength": width}
        bad = "_zz1" + " " * width + "\n_zz2 " + "y" * (width + 5)
        n = None
    rec.nontrivial(bool(list(cif.walk_values(model))))
    rec.label(kind)
    from CifFile import ReadCif
    from CifFile.StarFile import StarError
    try:
        ReadCif(io.StringIO(text), grammar=g, scantype=scan)
    except StarError:
        raise Discard()          # C02's and C06's business
    if kw:
        from CifFile.StarFile import ReadStar
        try:
            ReadStar(io.StringIO(text + bad), grammar=g, scantype=scan, **kw)
        except StarError as e:
            m = re.search(r"Line (\d+) contains more than (\d+) characters", str(e))
            expect(m, "the report of a long line: %s", e)
            same((int(m.group(1)), int(m.group(2))), (text.count("\n") + 1, width), "line and limit reported")
            return
        raise Fail("a line of over %d characters accepted" % width)
    msg, err, out = attempt(text + bad + "\n", g, scan)
    expect(n.lower() in (msg + (err if kind == "ragged" else "")).lower(), "%r (%s) is not named in the error: %s\n%s\n%s", n, kind, msg, err, (text + bad)[-600:])


SUBS = [Sub("place", cases(), check, quick=(4, 1500), thorough=(8, 12000)),
        Sub("named", named_cases(), check_named, quick=(2, 400), thorough=(4, 3000))]
