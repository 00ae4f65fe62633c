"""Whatever the input, reading ends with a coherent file or a STAR error."""
import io
from hypothesis import strategies as st
from vp import cif, refcif, emit, mutate
from vp.core import Sub, Fail, Discard, Known, same, expect
from vp.props import read_conformant as RC

RULE = ("texts: conformant ones with 1-6 mutations (insertions of delimiters, reserved words and stray or non-ASCII characters, deletions, "
        "truncation), fragments strung together at random, and raw bytes; read with any grammar setting, scanner and input kind. "
        "Non-trivial: the text is not empty.")
ASSUMPTIONS = ["a reading that succeeds is only re-read when every value lies in the grammar's character set"]
GOOD = "data_good\n_a 1\nloop_\n_b\n_c\n1 2\n3 'x y'\n_d\n;\ntext\n;\n"
GOODMODEL = {"good": {"id": "good", "parent": None, "items": [["k", "_a", "1"], ["l", ["_b", "_c"], [["1", "2"], ["3", "x y"]]], ["k", "_d", "\ntext"]]}}


def opts():
    return st.fixed_dictionaries({"grammar": st.sampled_from(["auto", None, "1.0", "1.1", "2.0", "STAR2"]),
                                  "scan": st.sampled_from(["standard", "standard", "flex"]),
                                  "bytes": st.sampled_from([None, "utf8", "utf8-sig", "latin1", "raw"]),
                                  "perm": st.booleans(), "scoping": st.sampled_from(["instance", "dictionary"])})


def mutated(g):
    def s():
        return st.fixed_dictionaries({
            "base": RC.strategy(g)(), "magic": st.booleans(),
            "ops": st.lists(st.tuples(st.integers(0, 7), st.integers(0, 3000), st.integers(0, 80)).map(list), min_size=1, max_size=6),
            "o": opts()})
    return s


def frags():
    f = st.sampled_from(mutate.FRAGS + ["\ndata_x\n", " _a", " 1 ", "\nloop_\n", "\nsave_y\n", "\nsave_\n", " _b 'q' "])
    return st.fixed_dictionaries({"t": st.lists(f, max_size=25), "magic": st.booleans(), "o": opts()})


def mktext(case):
    if "base" in case:
        b = case["base"]
        text = mutate.mutate(emit.emit(b["model"], b["g"], b["ch"]), case["ops"])
    else:
        text = "".join(case["t"])
    if case["magic"] and not text.startswith("#\\#CIF_2.0"):
        text = "#\\#CIF_2.0\n" + text
    return text


def source(text, o):
    if o["bytes"] is None:
        return io.StringIO(text)
    if o["bytes"] == "latin1":
        return io.BytesIO(text.encode("latin1", "replace"))
    if o["bytes"] == "raw":
        return io.BytesIO(text.encode("utf8", "surrogatepass")[:-1] + b"\xff")
    return io.BytesIO(text.encode(o["bytes"].replace("utf8", "utf-8"), "surrogatepass"))


def attempt(text, o):
    from CifFile import ReadCif, CifFile
    from CifFile.StarFile import StarError
    try:
        cf = ReadCif(source(text, o), grammar=o["grammar"], scantype=o["scan"], permissive=o["perm"], scoping=o["scoping"])
    except StarError as e:
        str(e)
        return None
    expect(isinstance(cf, CifFile), "ReadCif returned %r", cf)
    return cf


def check(case, rec):
    text, o = mktext(case), case["o"]
    rec.nontrivial(len(text) > 0)
    cf = attempt(text, o)
    if cf is None:
        rec.label("rejected")
    else:
        rec.label("accepted")
        coherent(cf, text, rec)
    # nothing is left over
    from CifFile import ReadCif
    for scan in ("standard", "flex"):
        same(cif.file_model(ReadCif(io.StringIO(GOOD), grammar="1.1", scantype=scan)), GOODMODEL, "a good text read afterwards")


def coherent(cf, text, rec):
    m = cif.file_model(cf)
    for n, b in m.items():
        expect(b["parent"] is None or b["parent"] in m, "parent of %r missing", n)
        same(n, b["id"].lower(), "block index")
    vals = [v for b in m.values() for e in b["items"] for v in ([e[2]] if e[0] == "k" else [x for r in e[2] for x in r])]
    g = cf.grammar
    uni = g in ("2.0", "STAR2")
    names = [n for b in m.values() for e in b["items"] for n in ([e[1]] if e[0] == "k" else e[1])]
    if not m:
        return
    for s in [x for v in vals for x in cif.strings_in(v)] + names:
        if not cif.in_charset(s, uni):
            return
    try:
        out = cf.WriteOut()
    except Exception as e:
        raise Fail("what was read cannot be written: %s %s\n%r" % (type(e).__name__, e, text[-1500:]))
    rec.label("rewritten")
    o = {"grammar": g, "scan": "standard", "bytes": None, "perm": False, "scoping": "dictionary"}
    again = attempt(out, o)
    expect(again is not None, "what was read and written is rejected:\n%s\n%r", out, text[-1500:])
    same(cif.file_model(again), m, "what was read, written and read again; text %r" % text[-1500:])


SUBS = [Sub("mutated_" + g.replace(".", "_"), mutated(g), check, quick=(1, 1200), thorough=(5, 5000)) for g in ("1.0", "1.1", "2.0", "STAR2")]
SUBS.append(Sub("fragments", frags, check, quick=(3, 3000), thorough=(8, 15000)))
