"""Line limits on output are honoured, without changing what is written."""
from hypothesis import strategies as st
from vp import cif, refcif
from vp.core import Sub, Fail, Discard, same, expect

RULE = ("Blocks of text values (many of them long, multi-line or with long words), numbers and loops with many columns are "
        "written with drawn wraplength (20-120) and maxoutlength (100-2048, given to WriteOut or to the constructor). "
        "Non-trivial: some value or loop row is longer than the wrap length.")
ASSUMPTIONS = ["maxoutlength is at least 100 (a data name alone may take 75 characters)",
               "the limit on line length is judged for text and number values, not for nested lists and tables, whose "
               "delimiters are never split off"]


def strategy(g):
    uni = g in ("2.0", "STAR2")

    def s():
        t = st.one_of(cif.texts(uni, huge=False), cif.texts(uni),
                      st.lists(st.text(alphabet="ab;\\ \n'\"x", min_size=0, max_size=130), max_size=4).map(" ".join),
                      st.floats(allow_nan=False, allow_infinity=False), st.integers(-9, 10 ** 30))
        return st.fixed_dictionaries({
            "g": st.just(g), "model": cif.blocks(t, g, max_blocks=2, max_items=3, max_rows=3),
            "wide": st.lists(t, min_size=0, max_size=12), "edge": st.one_of(st.just([]), st.lists(st.tuples(st.integers(-8, 4), st.sampled_from(["x", " ", "\n", "'", "short"])).map(list), min_size=2, max_size=5)),
            "wrap": st.one_of(st.integers(20, 120), st.just(4096)), "max": st.one_of(
                st.integers(100, 130), st.integers(100, 2048), st.just(2048)),
            "via": st.sampled_from(["call", "init", "call_default_wrap"])})
    return s


def check(case, rec):
    g = case["g"]
    model = [dict(b) for b in case["model"]]
    if case["wide"]:
        model[0]["items"] = model[0]["items"] + [["l", ["_w%d_zz" % i for i in range(len(case["wide"]))],
                                                   [case["wide"], case["wide"][::-1]]]]
    if case["edge"]:
        # values that just fill, or just overfill, a line of the maximum length
        vals = [{"x": "x" * (case["max"] + d), "short": "s" * (d % 9), "\n": "t\nu"}.get(c) or ("w" * 30 + c) * 90 for d, c in case["edge"]]
        vals = [v[:case["max"] + d] if len(v) > 2000 else v for v, (d, c) in zip(vals, case["edge"])]
        vals = [v[:-1] + "e" if v[-1] == " " else v for v in vals]
        model[0]["items"] = model[0]["items"] + [["l", ["_w_edge%d" % i for i in range(len(vals))], [vals, vals[::-1]]]]
    for v in cif.walk_values(model):
        for s in cif.strings_in(v):
            if not cif.in_charset(s, g in ("2.0", "STAR2")):
                raise Discard()
            rec.nontrivial(len(s) > case["wrap"])
    names = [n.lower() for e in model[0]["items"] for n in ([e[1]] if e[0] == "k" else e[1])]
    if len(set(names)) != len(names):
        raise Discard()
    want = cif.model_text(model)
    cf = cif.build(model, g)
    m, w = case["max"], min(case["wrap"], case["max"])
    if case["via"] == "init":
        text = cif.build(model, g, maxoutlength=m).WriteOut(wraplength=w)
    elif case["via"] == "call":
        text = cf.WriteOut(wraplength=w, maxoutlength=m)
    else:
        text = cf.WriteOut(maxoutlength=m)
    try:
        got = refcif.parse(text, g)
    except refcif.RefError as e:
        raise Fail("written text is not valid %s: %s\n%s" % (g, e, text[-2500:]))
    same(got, want, "independent reading of the written text\n%s" % text[-2500:])
    long = [l for l in text.split("\n") if len(l) > m]
    expect(not long, "%d lines exceed maxoutlength=%d, e.g. %d characters: %r", len(long), m,
           len(long[0]) if long else 0, (long or [""])[0][:300])
    same(cif.file_model(cif.read(text, g)), cif.flat_model(want), "re-read")


SUBS = [Sub("g_" + g.replace(".", "_"), strategy(g), check, quick=(2, 500), thorough=(8, 4000)) for g in cif.GRAMMARS]
