"""The compiled scanner and the Python scanner accept and return the same."""
import io, re
from hypothesis import strategies as st
from vp import cif, refcif, emit, mutate
from vp.core import Sub, Fail, Discard, Known, same, expect
from vp.props import read_conformant as RC

RULE = ("ASCII texts (conformant ones from the emitter, the same with 1-4 mutations, and large ones of up to several "
        "thousand values, 20000-character values and 100 KB) are read twice, with the Python and the compiled scanner. "
        "Non-trivial: the text holds at least two values, or a mutation.")
ASSUMPTIONS = ["printable ASCII, tab and line ends only (CIF 1.x character set)"]


def outcome(text, g, scan):
    from CifFile import ReadCif
    from CifFile.StarFile import StarError
    try:
        return cif.file_model(ReadCif(io.StringIO(text), grammar=g, scantype=scan)), None
    except StarError as e:
        return None, str(e)


def compare(text, g):
    a, ea = outcome(text, g, "standard")
    b, eb = outcome(text, g, "flex")
    if g == "1.0" and a is not None and b is None and re.search(r"(^|[ \t\r\n])[][]", text):
        raise Known("flex-1.0-bracket")
    if a != b and re.search(r"(?i)(^|[\s'\";])loop_[^\s]", text):
        # the Python scanner takes loop_x for loop_ followed by x where only
        # loop_ may come, the compiled one never; the syntax reserves such
        # words, so no conformant text holds one unquoted
        raise Discard()
    if (a is None) != (b is None):
        raise Fail("Python scanner: %s\ncompiled scanner: %s\ntext: %r" % (
            a if ea is None else "error " + ea[-600:], b if eb is None else "error " + eb[-600:], text[-1500:]))
    same(b, a, "compiled scanner differs from the Python scanner\n%s" % text[-1500:])
    return a


def check_valid(case, rec):
    model, text = RC.make(case)
    RC.mark(case, rec, model)
    text = text.replace("\n", RC.EOL[case["eol"]])
    a = compare(text, case["g"])
    same(a, cif.flat_model(model), "both scanners differ from the text")


def mut_strategy(g):
    base = RC.strategy(g)

    def s():
        return st.fixed_dictionaries({
            "base": base(), "ops": st.lists(st.tuples(st.integers(0, 7), st.integers(0, 3000), st.integers(0, 80)).map(list),
                                            min_size=1, max_size=4)})
    return s


def check_mut(case, rec):
    base = case["base"]
    for v in cif.walk_values(base["model"]):
        for s in cif.strings_in(v):
            if not cif.in_charset(s, False):
                raise Discard()
    text = mutate.mutate(emit.emit(base["model"], base["g"], base["ch"]), case["ops"], True)
    rec.nontrivial()
    a = compare(text, base["g"])
    rec.label("accepted" if a is not None else "rejected")


def check_any(case, rec):
    """Any characters at all: what the compiled scanner accepts it returns like the Python scanner."""
    base = case["base"]
    text = mutate.mutate(emit.emit(base["model"], base["g"], base["ch"]), case["ops"])
    rec.nontrivial(any(ord(c) > 126 or (ord(c) < 32 and c not in "\t\r\n") for c in text))
    b, eb = outcome(text, base["g"], "flex")
    rec.label("accepted" if b is not None else "rejected")
    if b is None:
        return
    try:
        compare(text, base["g"])
    except Known:
        raise Discard()


def big_strategy():
    return st.fixed_dictionaries({
        "g": st.sampled_from(["1.0", "1.1"]), "rows": st.sampled_from([10, 500, 1395, 1396, 1397, 2100, 4200, 9000]),
        "cols": st.integers(1, 4), "vals": st.lists(cif.texts(False, huge=True).filter(lambda s: len(s) < 300), min_size=1, max_size=9),
        "long": st.lists(st.tuples(st.sampled_from([2000, 4095, 4096, 8190, 8191, 8192, 8193, 16383, 16384, 16385, 20000, 40000]),
                                   st.integers(0, 3)).map(list), max_size=4),
        "exact": st.one_of(st.none(), st.tuples(st.sampled_from([4096, 8192, 16384, 24576, 32768, 65536]), st.sampled_from([0, 0, 0, -1, 1, -2, 2])).map(list)),
        "pad": st.integers(0, 9000), "ch": st.lists(st.integers(0, 60), min_size=1, max_size=13)})


def check_big(case, rec):
    vals = case["vals"]
    for s in vals:
        if not cif.in_charset(s, False):
            raise Discard()
    if case["g"] == "1.0":      # known finding flex-1.0-bracket
        vals = [s for s in vals if not re.search(r"(^|[ \t\r\n])[][]", s)] or ["v"]
    w = case["cols"]
    rows = [[vals[(r * w + c) % len(vals)] if (r + c) % 3 else str(r * w + c) for c in range(w)] for r in range(case["rows"])]
    items = [["l", ["_c%d" % i for i in range(w)], rows]]
    for n, (ln, kind) in enumerate(case["long"]):
        v = {0: "x" * ln, 1: "ab " * (ln // 3), 2: ("y" * 70 + "\n") * (ln // 71), 3: "q" * 5 + " \n" * (ln // 2)}[kind]
        items.insert(0, ["k", "_long%d" % n, v])
    items.insert(0, ["k", "_pad", "p" * case["pad"] or "p"])
    items.append(["k", "_last", "end"])
    model = [{"name": "big", "items": items, "saves": []}]
    text = emit.emit(model, case["g"], case["ch"])
    if case["exact"]:        # a text of just this length
        n = case["exact"][0] + case["exact"][1]
        while n < len(text) + 20:
            n += 8192
        text = text.rstrip("\n") + "\n"
        i = n - len(text) - len("_vpend  12345")
        text += "#" + "z" * (i - 2) + "\n_vpend  12345"
        model[0]["items"].append(["k", "_vpend", "12345"])
        assert len(text) == n
        rec.label("exact length")
    rec.nontrivial(len(text) > 4096)
    if len(text) > 16384:
        rec.label("over 16K")
    if w * case["rows"] > 4192:
        rec.label("over 4192 tokens")
    want = cif.flat_model(model)
    a, ea = outcome(text, case["g"], "flex")
    expect(a is not None, "compiled scanner rejects a conformant text: %s", (ea or "")[-500:])
    same(a, want, "compiled scanner")
    if len(text) < 60000:
        same(outcome(text, case["g"], "standard")[0], want, "Python scanner")


def seq_strategy():
    return st.lists(st.one_of(mut_strategy("1.1")(), mut_strategy("1.0")()), min_size=2, max_size=4)


def check_seq(case, rec):
    """What was read before (an error in particular) does not influence the next reading."""
    first = []
    texts = []
    for c in case:
        b = c["base"]
        for v in cif.walk_values(b["model"]):
            for s in cif.strings_in(v):
                if not cif.in_charset(s, False):
                    raise Discard()
        texts.append((mutate.mutate(emit.emit(b["model"], b["g"], b["ch"]), c["ops"], True), b["g"]))
    for t, g in texts:
        first.append(outcome(t, g, "flex")[0])
    rec.nontrivial(any(f is None for f in first))
    for i, (t, g) in reversed(list(enumerate(texts))):
        same(outcome(t, g, "flex")[0], first[i], "the same text read in a different order")
        compare(t, g)


SUBS = []
for g in ("1.0", "1.1"):
    SUBS.append(Sub("valid_" + g.replace(".", "_"), RC.strategy(g), check_valid, quick=(1, 1500), thorough=(4, 5000)))
    SUBS.append(Sub("mutated_" + g.replace(".", "_"), mut_strategy(g), check_mut, quick=(2, 1500), thorough=(6, 5000)))
SUBS.append(Sub("anychar", lambda: st.one_of(mut_strategy("1.1")(), mut_strategy("1.0")()), check_any, quick=(1, 1500), thorough=(4, 5000)))
SUBS.append(Sub("large", big_strategy, check_big, quick=(3, 60), thorough=(8, 400)))
SUBS.append(Sub("sequence", seq_strategy, check_seq, quick=(1, 500), thorough=(6, 2000)))
