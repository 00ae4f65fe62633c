"""Parsers generated by yapps accept exactly the language of their grammar."""
import contextlib, io, os, re
from vp import yapps as y
from vp.core import Sub, Discard, Harness, expect, same

RULE = ("random grammars (repaired to be LL(1) in most cases) through the generator's command, then random sentences and edited sentences through the generated parser, against an "
        "interpreter of the grammar; edited grammars through both grammar parsers. Non-trivial: one input accepted, one refused, more than eight nodes; or a grammar refused.")
ASSUMPTIONS = ["inputs are judged only for grammars whose choices, options and repetitions can be decided by the next token, whose rules can all end and are not left recursive, and whose goal ends in EOF",
               "in context insensitive mode, only tokens that cannot match the same text are used", "the line reported for a refused text of several lines may be any of them"]


def warnings_of(err):
    """parsed warnings of the generator"""
    out, lines, i = [], err.split("\n"), 0
    while i < len(lines):
        m = re.match(r"(Warning|Error) in rule (\w+):(.*)", lines[i])
        expect(m or not lines[i].strip(), "unexpected message %r in:\n%s", lines[i], err)
        i += 1
        if not m:
            continue
        if m.group(3).strip():
            out.append(("empty", m.group(2), True))
        elif lines[i].startswith(" * The repeated"):
            out.append(("empty", m.group(2), False))
            i += 1
        else:
            expect(lines[i + 1].startswith(" * These tokens"), "unexpected message:\n%s", err)
            out.append(("clash", m.group(2), tuple(sorted(lines[i + 2][3:].split(" ")))))
            i += 3
    return sorted(out, key=repr)


def parse_dump(text):
    out, rule = {}, None
    for l in text.split("\n"):
        m = re.match(r"___/Rule (\w+)\\_", l)
        if m:
            rule = m.group(1)
            out[rule] = []
        m = re.match(r"Rule (.*) of class (\w+)", l)
        if m:
            out[rule].append([m.group(2)])
        m = re.match(r" *(FIRST|FOLLOW): ?(.*)", l)
        if m:
            out[rule][-1].append(sorted(x for x in m.group(2).split(", ") if x))
    return out


CLASSES = {"t": "Terminal", "n": "NonTerminal", "a": "Eval", "seq": "Sequence", "alt": "Choice", "o": "Option", "s": "Star", "p": "Plus"}


def expected_dump(g):
    out = {}
    for n, r in g.rules.items():
        rows, queue = [], [r]
        while queue:
            x = queue.pop(0)
            rows.append([CLASSES[x.kind], sorted(list(x.efirst) + (["(null)"] if x.nullable else [])), sorted(x.efollow)])
            queue += x.kids
        out[n] = rows
    return out


def run_parser(ns, text):
    """('ok', value) or ('error', exception)"""
    from CifFile import yapps3_compiled_rt as rt
    p = ns["Test"](ns["TestScanner"](text))
    try:
        return "ok", p.goal()
    except rt.YappsSyntaxError as e:
        return "error", e
    except rt.NoMoreTokens as e:
        return "error", e


def make_input(case, g, spec, n):
    seed, how, a, b = spec
    toks = [t for _, t in g.derive(seed)]
    if how == 1 and toks:
        del toks[a % len(toks)]
    elif how == 2:
        used = y.used_tokens(case)
        ts = y.TEXTS[used[b % len(used)]] if used else ["?"]
        toks.insert(a % (len(toks) + 1), ts[b % len(ts)])
    elif how == 3 and toks:
        toks = toks[:a % len(toks)]
    elif how == 4 and toks:
        toks.insert(a % (len(toks) + 1), ["!", "\x00", "\u00e9", "&", "_"][b % 5])
    lay = y.Layout(seed + 77)
    out = []
    wide = not lay.next(4)       # long lines
    for t in toks:
        sep = [" ", "\n", "  ", "\n\n ", "\t", ""][lay.next(6 if how else 5)]
        if wide:
            sep = sep.replace("\n", "  ") * (1 + lay.next(24))
        if case["ignore"] == 2 and not lay.next(6):
            sep += "% skipped 'if' (\n"
        out.append(sep + t)
    return "".join(out) + ["", "\n", " ", "\n\n"][lay.next(4)], how == 0


def check_report(ns, text, rej, msg):
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        same(ns["parse"]("goal", text), None, msg)
    lines = err.getvalue().split("\n")
    m = re.match(r"(\d+):(\d+): .", lines[0])
    expect(m, "no position in the report %r\n%s", err.getvalue(), msg)
    end = max([rej.end] + [m2.end() for m2 in [re.compile(r).match(text, rej.pos) for n, r, t in y.NAMED] if m2])
    lo, hi = 1 + text[:rej.pos].count("\n"), 1 + text[:end].count("\n")      # the text refused may be several lines
    expect(lo <= int(m.group(1)) <= hi, "error reported on line %s, but is on line %d\n%s\n%s", m.group(1), lo, err.getvalue(), msg)
    for shown, pointer in zip(lines, lines[1:]):
        if pointer.startswith(">  ") and pointer.endswith("^") and not pointer.strip("> ^"):
            expect(shown.startswith(">  "), "pointer without line:\n%s\n%s", err.getvalue(), msg)
            rest = shown[len(pointer) - 1:]
            if lines[1] == shown:        # points at the offending text
                want = text[rej.pos:].split("\n")[0].split("\r")[0]
                expect(want.startswith(rest) and (rest or not want), "pointer at %r, error at %r:\n%s\n%s", rest, want, err.getvalue(), msg)


def check(case, rec, plain=False):
    g = y.Grammar(case)
    if not y.used_tokens(case):
        raise Discard()
    src = y.text_of(case)
    with y.Scratch() as d:
        name = os.path.join(d, "test.g")
        with open(name, "w") as f:
            f.write(src)
        flags = ["--use-devel-grammar"] if case["devel"] else []
        if case["insensitive"] == 2:
            flags.append("-fcontext-insensitive-scanner")
        rc, out, err = y.command(flags + [name] + ([os.path.join(d, "named.py")] if case["order"] == 1 else []))
        msg = "grammar:\n" + src
        expect(rc == 0, "the generator failed (%r): %s\n%s", rc, err, msg)
        got = os.path.join(d, "named.py" if case["order"] == 1 else "test.py")
        expect(os.path.exists(got), "no parser was written: %s\n%s", err, msg)
        with open(got) as f:
            text = f.read()
        problems = g.problems()
        same(warnings_of(err), problems, "warnings\n" + err + msg)
        rc2, dump, _ = y.command(["--dump", name])
        same(parse_dump(dump), expected_dump(g), "sets of the grammar\n" + msg)
    if not g.sound() or problems:
        rec.label("problems" if problems else "unsound")
        return
    ns = y.loaded(text)
    if case["sections"] > 0:
        same(ns.get("FIRST"), [1, 2], "first section\n" + msg)
    if case["sections"] > 1:
        same((ns.get("LAST"), ns.get("AGAIN")), ("part", 1), "last section\n" + msg)
    ok = bad = 0
    for n, spec in enumerate(case["inputs"]):
        t, derived = make_input(case, g, spec, n)
        it = y.Interp(g, t)
        try:
            want = it.call("goal", None)
            rej = None
        except y.Reject as r:
            want, rej = None, r
        if plain and derived and rej:
            raise Harness("derived sentence %r refused at %d\n%s" % (t, rej.pos, msg))
        how, val = run_parser(ns, t)
        m2 = "input %r\n%s" % (t, msg)
        if rej is None:
            expect(how == "ok", "refused a sentence of the language: %r %r\n%s", val, getattr(val, "charpos", None), m2)
            same(val, want, m2)
            same(ns["parse"]("goal", t), want, m2)
            ok += 1
        else:
            expect(how == "error", "accepted an input outside the language (which breaks it at %d), giving %r\n%s", rej.pos, val, m2)
            str(val)
            if hasattr(val, "charpos"):
                same(val.charpos, rej.pos, "position of the error\n" + m2)
            check_report(ns, t, rej, m2)
            bad += 1
    rec.label("parsed")
    rec.nontrivial(ok and bad and len(g.nodes) > 8)


def check_plain(case, rec):
    check(case, rec, plain=True)


def check_malformed(case, rec):
    src, start = y.edited(y.text_of(case), case["edits"])
    if case["sections"] == 0 and "\n%%\n" in src or src.count("\n%%\n") > 2:
        raise Discard()
    end = src.find("\n%%\n", start)
    desc = src[start:end] if end >= 0 else src[start:]
    n = y.Notation(desc)
    try:
        n.description()
        rej = None
    except y.Reject as r:
        rej = r
    for t in n.strings:
        try:
            eval(t, {}, {})
        except SyntaxError:
            raise Discard()
    msg = "grammar:\n" + src
    outs = []
    with y.Scratch() as d:
        name = os.path.join(d, "test.g")
        with open(name, "w") as f:
            f.write(src)
        for flags in ([], ["--use-devel-grammar"]):
            got = os.path.join(d, "test.py")
            if os.path.exists(got):
                os.unlink(got)
            rc, out, err = y.command(flags + [name])
            if rej:
                expect(rc != 0, "accepted a malformed grammar (broken at %r)\n%s", desc[rej.pos:rej.pos + 20], msg)
                m = re.match(r"(\d+):(\d+): .", err)
                expect(m, "no position in the report %r\n%s", err, msg)
                want = 1 + src[:start + rej.pos].count("\n")
                same(int(m.group(1)), want, "line of the report: %s\n%s" % (err, msg))
            else:
                expect(rc == 0, "refused a grammar: %s\n%s", err, msg)
                for x in set(n.names) - set(n.tokens) - set(n.rules):
                    expect("no rule <%s>" % x in err, "undefined %s not reported: %s\n%s", x, err, msg)
                with open(got) as f:
                    outs.append((f.read(), out, err))
    if outs:
        same(outs[0], outs[1], "by the two grammar parsers\n" + msg)
    rec.label("malformed" if rej else "well formed")
    rec.nontrivial(rej is not None)


SUBS = [Sub("plain", lambda: y.cases(plain=True), check_plain, quick=(4, 300), thorough=(8, 4000)),
        Sub("malformed", y.malformed, check_malformed, quick=(3, 200), thorough=(8, 2500)),
        Sub("overlapping", y.cases, check, quick=(4, 300), thorough=(8, 4000))]
