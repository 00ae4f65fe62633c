"""Whole files survive write / re-read, and writing is stable."""
import io, os, tempfile
from hypothesis import strategies as st
from vp import cif, refcif
from vp.core import Sub, Fail, Discard, same, expect

RULE = ("A file of 1-3 blocks with save frames (nested for STAR2), items and loops in drawn order, names of mixed case, is "
        "built through the API, optionally written with a permuted block order, custom comment or dictionary layout, "
        "through a string or a file on disk, and re-read. Non-trivial: at least two blocks or frames, or an item and a "
        "loop in one block.")
ASSUMPTIONS = ["save frame names are unique in the file", "within a block the frames are written as a group, before the items"]


def strategy(g):
    uni = g in ("2.0", "STAR2")

    def s():
        t = cif.texts(uni, huge=False)
        vals = st.one_of(st.sampled_from(["1", "abc", "?", ".", "a b", "x\ny"]), t) if not uni else \
            st.one_of(st.sampled_from(["1", "abc", "?", ".", "a b", "x\ny"]), t, cif.compound(uni))
        return st.fixed_dictionaries({
            "g": st.just(g), "model": cif.blocks(vals, g, max_blocks=3, max_items=6, max_rows=3),
            "perm": st.one_of(st.none(), st.integers(0, 10 ** 6)), "comment": st.sampled_from(["", "", "# mine\n", "#\n# two\n"]),
            "std": st.sampled_from(["CIF", "CIF", "Dic"]), "disk": st.integers(0, 9),
            "scoping": st.sampled_from(["instance", "instance", "dictionary"])})
    return s


FILENAMES = ["a.cif", "with space.cif", "per%20cent.cif", "h#ash?.cif", u"\u00e9t\u00e9.cif", "plus+&=.cif"]


def permute(names, k):
    names = list(names)
    out = []
    while names:
        out.append(names.pop(k % len(names)))
        k = k // 3 + 7
    return out


def check(case, rec):
    g, model = case["g"], case["model"]
    for v in cif.walk_values(model):
        for s in cif.strings_in(v):
            if not cif.in_charset(s, g in ("2.0", "STAR2")):
                raise Discard()
    nframes = [0]

    def count(b):
        nframes[0] += 1
        for s in b["saves"]:
            count(s)
    for b in model:
        count(b)
    rec.nontrivial(nframes[0] > 1 or any(len(set(e[0] for e in b["items"])) > 1 for b in model))
    cf = cif.build(model, g)
    cf.standard = case["std"]
    order = [b["name"].lower() for b in model]
    kw = {}
    if case["comment"]:
        kw["comment"] = case["comment"]
    want_model = model
    if case["perm"] is not None:
        perm = permute(order, case["perm"])
        allorder = list(perm)

        def add(b):
            for s in b["saves"]:
                allorder.append(s["name"].lower())
                add(s)
        for b in model:
            add(b)
        kw["blockorder"] = allorder
        want_model = [next(b for b in model if b["name"].lower() == n) for n in perm]
    want_model = cif.model_text(want_model)
    text = cf.WriteOut(**kw)
    same(cf.WriteOut(**kw), text, "writing twice gives different text")
    if case["comment"]:
        expect(case["comment"] in text, "the comment is not in the output")
    if g == "2.0":
        expect(text.startswith("#\\#CIF_2.0\n"), "no CIF2.0 magic line:\n%s", text[:80])
    try:
        got = refcif.parse(text, g)
    except refcif.RefError as e:
        raise Fail("written text is not valid %s: %s\n%s" % (g, e, text[-2500:]))
    same(got, want_model, "independent reading of the written text\n%s" % text[-2500:])
    kwr = {"scoping": case["scoping"]}
    if case["disk"] < 2 * len(FILENAMES) and case["disk"] % 2:
        d = tempfile.mkdtemp()
        try:
            p = os.path.join(d, FILENAMES[case["disk"] % len(FILENAMES)])
            with open(p, "w", encoding="utf8") as f:
                f.write(text)
            from CifFile import ReadCif
            back = ReadCif(p, grammar=g, **kwr)
        finally:
            import shutil
            shutil.rmtree(d)
    else:
        back = cif.read(text, g, **kwr)
    same(cif.file_model(back), cif.flat_model(want_model), "re-read file\n%s" % text[-2500:])
    if case["scoping"] == "instance":
        same([k.lower() for k in back.keys()], [b["name"].lower() for b in want_model], "keys() of the re-read file")
        same(len(back), len(want_model), "len() of the re-read file")
    if case["perm"] is None and case["std"] == "CIF":
        same(back.WriteOut(**kw), text, "write - read - write is not stable")


SUBS = [Sub("g_" + g.replace(".", "_"), strategy(g), check, quick=(2, 700), thorough=(8, 4000)) for g in cif.GRAMMARS]
