"""The programs that document and convert dictionaries keep what these say."""
import contextlib, io, os, re, runpy, shutil, sys, tempfile
from hypothesis import strategies as st
from vp import cif, emit, refcif
from vp.core import Sub, Fail, Discard, Harness, expect, same
from vp.ddl1 import G
from vp.yapps import source

RULE = ("random DDLm dictionaries (nested categories, keys, aliases, value sets, examples, texts with names and Greek letters, definitions whose text is imported, items of categories of the dictionaries "
        "they build on), given to output_asciidoc.py, whose document is taken apart and compared with the definitions; or with arbitrary further attributes and values, written in STAR2 and given "
        "to star2_to_cif2.py, whose output is read with an independent reader. Non-trivial: at least two categories, and an item with a value set, example, alias or list value.")
ASSUMPTIONS = ["the frame names and identifiers of a dictionary are unique", "the template given to star2_to_cif2 shows no indented text", "add_spoke.py uses functions that no longer exist and is not checked"]

# fragments of text: (as in the dictionary, as in the document)
PARTS = [("word", "word"), ("two words", "two words"), ("Of", "Of"), ("12.5(3)", "12.5(3)"), ("angle \\a", "angle &#945;"), ("\\alpha", "&#945;"), ("\\b", "&#946;"), ("\\q", "&#952;"), ("\\\\q", "&#952;"),
         ("\\l", "&#955;"), ("\\\\m", "&#956;"), ("\\\\n", "&#957;"), ("\\n", "&#957;"), ("\\\\a", "&#945;"), ("_cell.length_a", "xref:_cell_length_a[`_cell.length_a`]"), ("(_x.y)", "(xref:_x_y[`_x.y`])"),
         (",_Q_b", ",xref:_Q_b[`_Q_b`]"), ("the crystal's axis", "the crystal\\'s axis"), ("'c'", '"c"'), ("a*", "a\\*"), ("*_esd", "`*_esd`"), ("x < y & z", "x < y & z"), ("caf\u00e9", "caf\u00e9")]
SEPS = [(" ", " "), ("\n", "\n"), ("\n   ", "\n"), ("\n\n    ", "\n\n"), (" ", " ")]
STATES = ["a", "Bc", "two words", "1", "yes", "~x", "C1'"]
CATS = ["alpha", "Beta", "GAMMA", "delta_4"]
OBJS = ["id", "Label", "x_1", "value"]


def some_text(d):
    src, doc = "", ""
    for k in range(d.i(1, 5)):
        if k:
            a, b = d.pick(SEPS)
            src, doc = src + a, doc + b
        a, b = d.pick(PARTS)
        src, doc = src + a, doc + b
    return [src, doc]


@st.composite
def cases(draw):
    d = G(draw)
    deps = []
    for k in range(d.i(0, 3)):
        deps.append({"title": "DEP_%d" % k, "cats": [c for c in ["ext_one", "Ext_Two"] if d.some(2)]})
    case = {"title": d.pick(["VAL", "My_Dic"]), "version": d.pick(["1.0", "2.3.04"]), "date": "2020-0%d-01" % d.i(1, 9), "text": some_text(d), "deps": deps, "cats": [], "items": [], "templates": []}
    head = {"id": d.pick(["VAL_HEAD", "Top"]), "up": case["title"], "cls": "Head", "text": some_text(d) if d.some(2) else None, "keys": [], "examples": []}
    cats = [head]
    for n in CATS[:d.i(1, 4)]:
        cats.append({"id": n if d.some(2) else n.upper(), "up": d.pick(cats)["id"], "cls": d.pick(["Loop", "Set"]), "text": some_text(d) if not d.some(5) else None, "keys": [], "examples": []})
    case["cats"] = cats
    for _ in range(d.i(0, 2)):
        case["templates"].append(some_text(d))
    used = set()
    for c in cats[1:] + [{"id": n, "keys": [], "ext": 1} for n in ["ext_one", "Ext_Two", "nowhere"] if d.some(3)]:
        objs = list(OBJS)
        for _ in range(d.i(1, 3)):
            o = objs.pop(d.i(0, len(objs) - 1))
            i = "_%s.%s" % (c["id"] if d.some(2) else c["id"].lower(), o)
            it = {"id": i, "cat": c["id"] if d.some(2) else c["id"].lower(), "obj": o, "scope": d.pick(["Item", None]), "text": None, "from": None, "states": [], "details": None, "default": None, "aliases": [], "examples": [], "bullet": False}
            if case["templates"] and d.some(4):
                it["from"] = d.i(0, len(case["templates"]) - 1)
            elif not d.some(6):
                it["text"] = some_text(d)
            if d.some(2):
                it["states"] = list(dict.fromkeys(d.pick(STATES) for _ in range(d.i(1, 4))))
                if d.some(2):
                    it["details"] = [some_text(d) for _ in it["states"]]
                it["default"] = d.pick(it["states"] + ["other", None])
            if d.some(3):
                it["aliases"] = list(dict.fromkeys(d.pick(["_old_name", "_Old.B", "_x_%d" % d.i(0, 9), i]) for _ in range(d.i(1, 3))))
            if d.some(3):
                ex = d.some(2)
                it["examples"] = [[d.pick(["1.5", "two words", "a\nb", "it's", "?x", "[1,2]", "_name"]), some_text(d) if ex else None] for _ in range(d.i(1, 3))]
            if "ext" not in c and c["cls"] == "Loop" and d.some(2):
                c["keys"].append(i)
                it["bullet"] = True
            case["items"].append(it)
        if "ext" not in c and d.some(4):
            c["examples"] = [["loop_\n _a _b\n 1 2", some_text(d) if d.some(2) else None]]
    case["order"] = draw(st.permutations(range(len(cats) + len(case["items"]))))
    case["keycase"] = d.i(0, 2)
    case["ch"] = [d.i(0, 60) for _ in range(d.i(1, 30))]
    return case


def header(case):
    out = [["k", "_dictionary.title", case["title"]], ["k", "_dictionary.class", "Instance"], ["k", "_dictionary.version", case["version"]], ["k", "_dictionary.date", case["date"]],
           ["k", "_description.text", case["text"][0]]]
    return out


def frames(case):
    out = []
    kc = [lambda s: s, str.upper, str.lower][case["keycase"]]
    for c in case["cats"]:
        b = [["k", "_definition.id", c["id"]], ["k", "_definition.scope", "Category"], ["k", "_definition.class", c["cls"]], ["k", "_name.category_id", c["up"]], ["k", "_name.object_id", c["id"]]]
        if c["text"]:
            b.append(["k", "_description.text", c["text"][0]])
        if c["keys"]:
            b.append(["l", ["_category_key.name"], [[kc(k)] for k in c["keys"]]])
        if c["cls"] == "Head" and case["deps"]:
            b.append(["k", "_import.get", [{"file": "dep%d.dic" % k, "save": x["title"] + "_HEAD", "mode": "Full"} for k, x in enumerate(case["deps"])]])
        examples(c, b)
        out.append({"name": c["id"].upper(), "items": b, "saves": []})
    for it in case["items"]:
        b = [["k", "_definition.id", it["id"]]] + ([["k", "_definition.scope", it["scope"]]] if it["scope"] else []) + [["k", "_definition.class", "Datum"], ["k", "_name.category_id", it["cat"]], ["k", "_name.object_id", it["obj"]]]
        if it["text"]:
            b.append(["k", "_description.text", it["text"][0]])
        if it["from"] is not None:
            b.append(["k", "_import.get", [{"file": "templ.cif", "save": "t%d" % it["from"]}]])
        if it["states"]:
            b.append(["l", ["_enumeration_set.state"] + (["_enumeration_set.detail"] if it["details"] else []), [[s] + ([it["details"][k][0]] if it["details"] else []) for k, s in enumerate(it["states"])]])
        if it["default"]:
            b.append(["k", "_enumeration.default", it["default"]])
        if it["aliases"]:
            b.append(["l", ["_alias.definition_id"], [[a] for a in it["aliases"]]])
        examples(it, b)
        out.append({"name": it["id"][1:], "items": b, "saves": []})
    return [out[k] for k in case["order"]]


def examples(x, b):
    if x["examples"]:
        ex = x["examples"][0][1] is not None
        b.append(["l", ["_description_example.case"] + (["_description_example.detail"] if ex else []), [[e] + ([t[0]] if ex else []) for e, t in x["examples"]]])


def program(name, args, cwd):
    script = os.path.join(source(), "Programs", name)
    old, was, out = sys.argv, os.getcwd(), io.StringIO()
    sys.argv = [script] + args
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                runpy.run_path(script, run_name="__main__")
            except SystemExit as e:
                expect(not e.code, "%s ends with status %s\n%s", name, e.code, out.getvalue())
    finally:
        sys.argv = old
        os.chdir(was)
    return out.getvalue()


def write(path, text):
    with open(path, "w", encoding="utf8") as f:
        f.write(text)


def lines(text):
    return [l for l in text.split("\n") if l.strip()]


def anchor(s):
    return "".join(c if c.isalnum() or c == "_" else "_" for c in s)


def check_document(case, rec):
    model = [{"name": case["title"], "items": header(case), "saves": frames(case)}]
    text = emit.emit(model, "2.0", case["ch"])
    d = tempfile.mkdtemp(prefix="vp_adoc.")
    show = "\n" + text
    try:
        main = os.path.join(d, "main.dic")
        write(main, text)
        for k, x in enumerate(case["deps"]):
            hd = x["title"] + "_HEAD"
            fr = [[hd, x["title"], "Head"]] + [[c, hd, "Loop"] for c in x["cats"]]
            write(os.path.join(d, "dep%d.dic" % k), "#\\#CIF_2.0\ndata_%s\n_dictionary.title %s\n_dictionary.class Instance\n_dictionary.version 1.0\n" % (x["title"], x["title"]) + "".join(
                "save_%s\n_definition.id %s\n_definition.scope Category\n_definition.class %s\n_name.category_id %s\n_name.object_id %s\nsave_\n" % (a, a, c, b, a) for a, b, c in fr))
        write(os.path.join(d, "templ.cif"), "#\\#CIF_2.0\ndata_templ\n_dictionary.title templ\n_dictionary.class Template\n_dictionary.version 1.0\n" + "".join("save_t%d\n_description.text\n;%s\n;\nsave_\n" % (k, t[0]) for k, t in enumerate(case["templates"])))
        out = program("output_asciidoc.py", [main if case["ch"][0] % 2 else "main.dic"], d)
        doc = open(main + ".adoc", encoding="utf8").read()
    finally:
        shutil.rmtree(d)
    show += "\n---- document\n" + doc
    rec.nontrivial(len(case["cats"]) > 2 and any(it["states"] or it["examples"] or it["aliases"] for it in case["items"]))
    # take it apart
    parts = re.split(r"(?m)^(?:\[\[(\w+)\]\]\n(==|===) (.*)|== (\S+) \(Original category from: (.*)\) )\n", doc)
    top = parts[0]
    for want in (["= " + case["title"]], [":date: " + case["date"]], [":version: " + case["version"]], lines(case["text"][1])):
        ls = lines(top)
        expect(any(ls[k:k + len(want)] == want for k in range(len(ls))), "the head does not say %r%s", want, show)
    deps = [x["title"] for x in case["deps"]]
    said = re.findall(r"This dictionary builds on definitions found in (.*)\.", top)
    same(said, [", ".join(deps[:-1]) + " and " * (len(deps) > 1) + deps[-1]] if deps else [], "dictionaries built on" + show)
    expect(re.search(r"(?m)^Generated from (.*main\.dic), version \{version\}$", top), "source not named%s", show)
    cats = dict((c["id"].lower(), c) for c in case["cats"])
    items = dict((it["id"].lower(), it) for it in case["items"])
    seen, current = [], None
    for k in range(1, len(parts), 6):
        aid, level, name, ext, origin, body = parts[k:k + 6]
        raw = body.lstrip("\n")
        body = lines(body)
        if ext:
            have = [x["title"] for x in case["deps"] if ext.lower() in [c.lower() for c in x["cats"]]]
            want = have[0] if len(have) == 1 else "Ambiguous external dictionary" if have else "External category not found"
            same(origin, want, "where category %s comes from%s" % (ext, show))
            same(ext, ext.upper(), "name of a category" + show)
            expect(any(want in l for l in body) and len(body) == 1, "where category %s comes from: %r%s", ext, body, show)
            expect(ext.lower() not in cats and "ext " + ext.lower() not in seen, "section for category %s%s", ext, show)
            current = ext.lower()
            seen.append("ext " + current)
            continue
        if level == "==":
            c = cats.get(name.lower())
            expect(c is not None, "section %r%s", name, show)
            same((name, aid), (c["id"].upper(), anchor(c["id"])), "heading" + show)
            expect(c["cls"] == "Head" or c["up"].lower() in seen, "category %s comes before %s%s", name, c["up"], show)
            current = name.lower()
            x, key = c, name.lower()
        else:
            bare = name[:-len("&#8226;")] if name.endswith("&#8226;") else name
            x, key = items.get(bare.lower()), bare.lower()
            expect(x is not None, "section %r%s", name, show)
            same((bare, aid), (x["id"], anchor(x["id"])), "heading" + show)
            same(bare != name, x["bullet"], "%s is shown as a key%s" % (bare, show))
            same(current, x["cat"].lower(), "category under which %s is found%s" % (bare, show))
        expect(key not in seen, "%s has two sections%s", name, show)
        seen.append(key)
        want = lines(x["text"][1]) if x["text"] else lines(case["templates"][x["from"]][1]) if x.get("from") is not None else ["Empty"]
        what = "%s: %r%s" % (name, body, show)
        got = body[:len(want)]
        if x.get("from") is not None and got and got[0].startswith("(Generic definition) "):
            got[0] = got[0][len("(Generic definition) "):]
        same(got, want, "text of " + what)
        body = body[len(want):]
        para = x["text"][1] if x["text"] else case["templates"][x["from"]][1] if x.get("from") is not None else ""
        expect(para + "\n" in raw, "paragraphs of the text of %s", what)
        for det in x["details"] or [] if x.get("states") else []:
            expect(det[1] + "\n" in raw, "paragraphs of what is said of a value of %s", what)
        if x.get("states"):
            same(body[:3], [".Possible values%s:" % ("(default in bold)" if x["default"] else ""), "[horizontal]", "*****"], "value set of " + what)
            body = body[3:]
            for n, s in enumerate(x["states"]):
                s2 = "+%s+" % (s.replace("~", "\\~") if s != "~" else s)
                same(body[0], ("*%s*" % s2 if s == x["default"] else s2) + "::", "value of " + what)
                det = lines(x["details"][n][1]) if x["details"] else []
                same(body[1:1 + len(det)], det, "what is said of value %r of %s" % (s, what))
                body = body[1 + len(det):]
            same(body[0], "*****", "end of the values of " + what)
            body = body[1:]
        al = [a for a in x.get("aliases", []) if a != x["id"]]
        if al:
            same(body[:2 + len(al)], [".Aliases", "*****"] + ["`%s` +" % a for a in al], "aliases of " + what)
            same(body[2 + len(al)], "*****", "end of the aliases of " + what)
            body = body[3 + len(al):]
        for e, t in x["examples"]:
            cap = lines(".Example:" + (t[1] if t else ""))
            same(body[:len(cap)], cap, "example of " + what)
            same(body[len(cap)], "----", "example of " + what)
            n = body.index("----", len(cap) + 1)
            shown = "\n".join(body[len(cap) + 1:n])
            if level == "==":
                same(lines(shown), lines(e), "example of " + what)
            else:
                try:
                    v = refcif.parse("#\\#CIF_2.0\ndata_a\n_a\n" + shown + "\n", "2.0")[0]["items"][0][2]
                except refcif.RefError as err:
                    raise Fail("example %r is not a value (%s) of %s" % (shown, err, what))
                same(v, e, "example of " + what)
            body = body[n + 1:]
        same(body, [], "there is more about " + what)
    same(sorted(s for s in seen if not s.startswith("ext ")), sorted(list(cats) + list(items)), "sections" + show)


# ---- conversion

def further():
    name = st.sampled_from(["_units.code", "_enumeration.range", "_local.a", "_Local.B", "_method.text", "_import_details.x", "_type.note"])
    val = st.one_of(cif.texts(True, huge=False), cif.compound(True))
    return st.lists(st.tuples(name, val).map(list), max_size=4)


def conversion_cases():
    return st.fixed_dictionaries({"dic": cases(), "more": st.lists(further(), min_size=1, max_size=6), "desc": st.none() | st.lists(st.sampled_from(["new text", "  indented", "", ";x", "two  words", "'q'"]), min_size=1, max_size=4).map("\n".join),
                                  "comment": st.none() | st.sampled_from(["## mine\n", "# one\n# two 'x'\n", "#####\n# data_x\n#####\n"]), "template": st.integers(0, 2)})


def flat(b):
    out = {}
    for e in b["items"]:
        if e[0] == "k":
            out[e[1].lower()] = e[2]
        else:
            for n, name in enumerate(e[1]):
                out[name.lower()] = [r[n] for r in e[2]]
    return out


TEMPLATES = ["_definition.id  x\n_name.object_id   y\n", "_name.object_id  'y'\n_description.text\n;\nx\n;\n_definition.id\n    x\n", "_definition.id x\nloop_\n _alias.definition_id\n  a\n_enumeration.default   b\n"]


def check_conversion(case, rec):
    dic = case["dic"]
    fs = frames(dic)
    for k, more in enumerate(case["more"]):
        f = fs[k % len(fs)]
        have = set(flat(f))
        for n, v in more:
            if n.lower() not in have:
                have.add(n.lower())
                f["items"].append(["k", n, v])
    hd = header(dic)
    model = [{"name": dic["title"], "items": hd, "saves": fs}]
    for v in cif.walk_values(model):
        for s in cif.strings_in(v):
            if not cif.in_charset(s, True):
                raise Discard()
    text = emit.emit(model, "STAR2", dic["ch"])
    if refcif.parse(text, "STAR2") != model:
        raise Harness("emitter and reference reader disagree\n" + text)
    d = tempfile.mkdtemp(prefix="vp_s2c.")
    try:
        write(os.path.join(d, "in.dic"), text)
        write(os.path.join(d, "dic_template.dic"), "#\\#CIF_2.0\ndata_t\n_dictionary.title   a\n_dictionary.class b\n_description.text\n;\nx\n;\nsave_x\n" + TEMPLATES[case["template"]] + "save_\n")
        args = ["in.dic"]
        desc = case["desc"]
        if desc is not None or case["comment"] is not None:
            desc = "plain" if desc is None else desc
            write(os.path.join(d, "desc"), desc)
            args.append("desc")
        if case["comment"] is not None:
            write(os.path.join(d, "comment"), case["comment"])
            args.append("comment")
        program("star2_to_cif2.py", args, d)
        out = open(os.path.join(d, "in.dic.cif2"), encoding="utf8").read()
    finally:
        shutil.rmtree(d)
    show = "\n%s\n---- converted\n%s" % (text, out)
    rec.nontrivial(len(dic["cats"]) > 2 and any(not isinstance(v, str) for v in cif.walk_values(model)))
    rec.label("description" if desc is not None else "as is")
    try:
        got = refcif.parse(out, "2.0")
    except refcif.RefError as e:
        raise Fail("the output is not CIF2 (%s)%s" % (e, show))
    expect(out.startswith("#\\#CIF_2.0"), "no magic line%s", show)
    top = out[:out.lower().index("\ndata_" + dic["title"].lower())]
    if case["comment"] is not None:
        expect(case["comment"] in top, "the comment is not there%s", show)
    else:
        expect("CIF Dictionary" in top and "CIF data definitions" in top, "no comment%s", show)
    same([b["name"].lower() for b in got], [dic["title"].lower()], "blocks" + show)
    want = flat(model[0])
    if desc is not None:
        want["_description.text"] = desc
    same(flat(got[0]), want, "header" + show)
    same(sorted(f["name"].lower() for f in got[0]["saves"]), sorted(f["name"].lower() for f in fs), "frames" + show)
    by = dict((f["name"].lower(), f) for f in got[0]["saves"])
    for f in fs:
        g = by[f["name"].lower()]
        same(flat(g), flat(f), "definition %s%s" % (f["name"], show))
        loops = lambda b: sorted(sorted(n.lower() for n in e[1]) for e in b["items"] if e[0] == "l")
        same(loops(g), loops(f), "loops of %s%s" % (f["name"], show))
    # parents come before what belongs to them
    order = [f["name"].lower() for f in got[0]["saves"]]
    ups = dict((c["id"].lower(), c["up"].lower()) for c in dic["cats"] if c["cls"] != "Head")
    ups.update((it["id"][1:].lower(), it["cat"].lower()) for it in dic["items"])
    for k, u in ups.items():
        if u in order:
            expect(order.index(u) < order.index(k), "%s comes before its category %s%s", k, u, show)


SUBS = [Sub("document", cases, check_document, quick=(3, 500), thorough=(8, 2500)),
        Sub("conversion", conversion_cases, check_conversion, quick=(3, 500), thorough=(8, 2500))]
