from hypothesis import strategies as st
from vp import cif, refcif
from vp.core import Sub, Fail, same

RULE = ("A file of 1-2 blocks is built through the API from generated values (text assembled from CIF syntax "
        "fragments, reserved words, protocol look-alikes, Unicode white space, lines up to 8300 characters; numbers; "
        "nested lists and tables), placed as plain items and as loop cells, then written and re-read. Non-trivial: at "
        "least one value that cannot be written as a bare word (delimiter, white space, reserved word, over-long or "
        "compound).")
ASSUMPTIONS = ["carriage returns inside values are outside the domain (CIF treats CR as a line terminator)",
               "an empty loop column is outside the domain"]


def numbers():
    return st.one_of(st.integers(-10 ** 12, 10 ** 12), st.floats(allow_nan=False, allow_infinity=False),
                     st.sampled_from([0, -1, 1e-300, 1.5, 1e22]))


def nontrivial(v):
    if not isinstance(v, str):
        return True
    import re
    return v == "" or len(v) > 75 or not re.match(r"^[A-Za-z0-9.?+-][A-Za-z0-9.+-]*$", v)


def case_strategy(g, compound):
    uni = g in ("2.0", "STAR2")
    def s():
        t = cif.texts(uni)
        leaf = st.one_of(t, t, t, numbers())
        vals = leaf
        if compound:
            vals = st.one_of(cif.compound(uni), cif.compound(uni, st.one_of(cif.texts(uni, huge=False), numbers())), t)
        k = vals.map(lambda v: ["k", v])
        l = st.integers(1, 3).flatmap(lambda w: st.lists(st.lists(vals, min_size=w, max_size=w), min_size=1, max_size=4)
                                      ).map(lambda r: ["l", r])
        return st.fixed_dictionaries({"g": st.just(g), "es": st.lists(st.one_of(k, k, l), min_size=1, max_size=4),
                                      "nl": st.integers(1, 20)})
    return s


def to_model(case):
    n = 0
    items = []
    stem = "_" + "a" * case["nl"]
    for e in case["es"]:
        n += 1
        if e[0] == "k":
            items.append(["k", "%s%d" % (stem, n), e[1]])
        else:
            items.append(["l", ["%s%d.%d" % (stem, n, i) for i in range(len(e[1][0]))], e[1]])
    items.append(["k", "_sentinel", "end"])
    return [{"name": "blk", "items": items, "saves": []}]


def check(case, rec):
    g = case["g"]
    model = to_model(case)
    uni = g in ("2.0", "STAR2")
    for v in cif.walk_values(model):
        for s in cif.strings_in(v):
            if not cif.in_charset(s, uni):
                from vp.core import Discard
                raise Discard()
        rec.nontrivial(nontrivial(v))
    want = cif.model_text(model)
    text = cif.build(model, g).WriteOut()
    try:
        got = refcif.parse(text, g)
    except refcif.RefError as e:
        raise Fail("the text written is not valid %s: %s\n%s" % (g, e, text[-3000:]))
    same(got, want, "independent reading of the written text differs\n%s" % text[-3000:])
    back = cif.read(text, g)
    same(cif.file_model(back), cif.flat_model(want), "re-read file differs\n%s" % text[-3000:])
    if g == "2.0" or g == "1.1":
        back = cif.read(text, "auto")
        same(cif.file_model(back), cif.flat_model(want), "re-read file (auto) differs\n%s" % text[-3000:])


SUBS = []
for g in cif.GRAMMARS:
    SUBS.append(Sub("text_" + g.replace(".", "_"), case_strategy(g, False), check, quick=(2, 1500), thorough=(6, 4000)))
for g in ("2.0", "STAR2"):
    SUBS.append(Sub("compound_" + g.replace(".", "_"), case_strategy(g, True), check, quick=(2, 1200), thorough=(6, 4000)))
