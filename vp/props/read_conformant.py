"""Conformant text is read as exactly what it says."""
import io
from hypothesis import strategies as st
from vp import cif, refcif, emit
from vp.core import Sub, Fail, Discard, Harness, same

RULE = ("A model of 1-3 blocks (items, loops, save frames, names of mixed case, values assembled from syntax fragments, "
        "nested lists/tables) is emitted as text; every free choice of the syntax (delimiters, white space, comments, "
        "keyword case, folding, prefixes, line endings, position of frames) is drawn. Non-trivial: at least two values, "
        "one of them not a bare word.")
ASSUMPTIONS = ["the reference reader must agree with the model before the code is judged (otherwise the case is a "
               "harness error)", "save frame names are unique in the file; prefix protocol used in every grammar as the "
               "package documents"]
EOL = {"lf": "\n", "crlf": "\r\n", "cr": "\r"}


def values(g):
    uni = g in ("2.0", "STAR2")
    t = cif.texts(uni, huge=False)
    if not uni:
        return t
    return st.one_of(t, t, t, cif.compound(uni))


def strategy(g, small=False):
    def s():
        return st.fixed_dictionaries({
            "g": st.just(g), "model": cif.blocks(values(g), g, max_blocks=2, max_items=4, max_rows=3),
            "ch": st.lists(st.integers(0, 60), min_size=1, max_size=40),
            "eol": st.sampled_from(["lf", "lf", "crlf", "cr"])})
    return s


def make(case):
    g = case["g"]
    model = case["model"]
    for v in cif.walk_values(model):
        for s in cif.strings_in(v):
            if not cif.in_charset(s, g in ("2.0", "STAR2")):
                raise Discard()
    text = emit.emit(model, g, case["ch"])
    if max(len(l) for l in text.split("\n")) > 2048:
        raise Discard()
    try:
        ref = refcif.parse(text, g)
    except refcif.RefError as e:
        raise Harness("emitted text rejected by the reference reader: %s\n%s" % (e, text))
    if ref != model:
        raise Harness("emitter and reference reader disagree\n%r\n%r\n%s" % (model, ref, text))
    return model, text


def mark(case, rec, model):
    vs = list(cif.walk_values(model))
    rec.nontrivial(len(vs) > 1 and any(not isinstance(v, str) or not v.isalnum() for v in vs))


def check(case, rec):
    from CifFile import ReadCif
    g = case["g"]
    model, text = make(case)
    mark(case, rec, model)
    text = text.replace("\n", EOL[case["eol"]])
    want = cif.flat_model(model)
    got = cif.read(text, g)
    same(cif.file_model(got), want, "read as %s\n%s" % (g, text[-2500:]))
    # the order of blocks and the case of names, seen through what is written out again
    same([b.lower() for b in got.keys()], [b.lower() for b in top_and_frames(model, got)], "keys()")
    # bytes, and a stream of bytes
    if case["ch"][0] % 3 == 0:
        got = ReadCif(io.BytesIO(text.encode("utf8")), grammar=g)
        same(cif.file_model(got), want, "read from bytes as %s\n%s" % (g, text[-2500:]))


def top_and_frames(model, got):
    # default scoping shows the data blocks only ('instance')
    return [b["name"] for b in model]


def sequences():
    return st.lists(st.one_of(*[strategy(g)() for g in cif.GRAMMARS]), min_size=2, max_size=4)


def check_sequence(case, rec):
    """Files of several CIF versions one after the other in one process."""
    for c in case:
        model, text = make(c)
        got = cif.read(text.replace("\n", EOL[c["eol"]]), c["g"])
        same(cif.file_model(got), cif.flat_model(model), "read as %s after %s\n%s" % (c["g"], [x["g"] for x in case], text[-2500:]))
    rec.nontrivial(len(set(c["g"] for c in case)) > 1)


SUBS = [Sub("mixed", sequences, check_sequence, quick=(1, 500), thorough=(4, 3000))] + [Sub("g_" + g.replace(".", "_"), strategy(g), check, quick=(2, 2000), thorough=(8, 4000)) for g in cif.GRAMMARS]
