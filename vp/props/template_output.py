"""Output through a template: same data, the template's order and layout."""
import io, re
from hypothesis import strategies as st
from vp import cif, refcif
from vp.core import Sub, Fail, Discard, same, expect

RULE = ("A template (single items with every kind of delimiter and text values, loops, comments, blank lines, any columns) over a pool of confusable names, and a block "
        "holding some of those names and others, in items and loops of its own. Non-trivial: at least two template names are in the block, out of template order "
        "or in loops.")
ASSUMPTIONS = ["templates keep to the constraints in the documentation (one name per line, alphanumeric values, loop_ alone on its line, one packet line per loop)",
               "text values for which the template asks for reformatting are compared without their white space"]

POOL = ["_a", "_a_b", "_A.b", "_a.bc", "_cell.x", "_cell.xx", "_e[1]", "_e[2]", "_x-y", "_z", "_zz", "_q"]
WORDS = ["abc", "Item", "x1", "12", "Q"]


def case_of(n, c):
    return [n, n.upper(), n.lower(), n.swapcase()][c]


def template_strategy(maxcol=60):
    item = st.fixed_dictionaries({"t": st.just("k"), "c": st.integers(0, 3), "pos": st.sampled_from([0, 0, 1, 2, 4, 7]), "gap": st.integers(1, maxcol),
                                  "form": st.sampled_from(["", "", "'", '"', "'''", '"""', ";", ";", "["]), "indent": st.integers(0, 6),
                                  "blank": st.sampled_from(["", "", "\n", "# comment\n"])})
    loop = st.fixed_dictionaries({"t": st.just("l"), "n": st.integers(1, 4), "c": st.integers(0, 3), "pos": st.lists(st.integers(0, 8), min_size=4, max_size=4),
                                  "lpos": st.sampled_from([0, 2, 5]), "gaps": st.lists(st.integers(1, 14), min_size=4, max_size=4),
                                  "forms": st.lists(st.sampled_from(["", "", "'", '"', "'''"]), min_size=4, max_size=4), "rows": st.integers(1, 2),
                                  "blank": st.sampled_from(["", "", "\n", "# comment\n"])})
    return st.tuples(st.permutations(range(len(POOL))), st.lists(st.one_of(item, item, loop), min_size=1, max_size=7))


def make_template(t):
    """text of the template, and its entries with names"""
    perm, ents = t
    perm = list(perm)
    text, out = "#\\#CIF_2.0\ndata_T\n", []
    for e in ents:
        if not perm:
            break
        text += e["blank"]
        if e["t"] == "k":
            n = case_of(POOL[perm.pop()], e["c"])
            head = " " * e["pos"] + n
            col = e["pos"] + len(n) + e["gap"]
            f = e["form"]
            if f == ";":
                text += head + "\n;" + ("\n" + " " * e["indent"] + "some text\n" + " " * e["indent"] + "and more" if e["indent"] else "text\nmore") + "\n;\n"
                out.append({"t": "k", "n": [n], "pos": e["pos"], "delim": "\n;", "re": e["indent"] >= 2, "indent": e["indent"]})
            else:
                v = "[a b]" if f == "[" else f + "val" + f
                text += head + " " * e["gap"] + v + "\n"
                out.append({"t": "k", "n": [n], "pos": e["pos"], "col": col, "delim": None if f == "[" else (f or None)})
        else:
            ns = [case_of(POOL[perm.pop()], e["c"]) for _ in range(min(e["n"], len(perm)))]
            text += " " * e["lpos"] + "loop_\n"
            for n, p in zip(ns, e["pos"]):
                text += " " * p + n + "\n"
            row, cols = "", []
            for n, g, f in zip(ns, e["gaps"], e["forms"]):
                row += " " * g
                cols.append(len(row))
                row += f + "val" + f
            text += (row + "\n") * e["rows"]
            out.append({"t": "l", "n": ns, "lpos": e["lpos"], "pos": e["pos"], "cols": cols, "delims": [f or None for f in e["forms"]]})
    return text, out


def data_strategy(values, extra):
    names = POOL + extra
    ent = st.fixed_dictionaries({"n": st.integers(0, 3), "c": st.integers(0, 3), "rows": st.integers(1, 3), "vals": st.lists(values, min_size=12, max_size=12)})
    return st.tuples(st.permutations(range(len(names))), st.lists(ent, min_size=1, max_size=7)).map(lambda t: make_data(t, names))


def make_data(t, names):
    perm, ents = t
    perm = list(perm)
    items = []
    for e in ents:
        if not perm:
            break
        vals = list(e["vals"])
        if e["n"] == 0:
            items.append(["k", case_of(names[perm.pop()], e["c"]), vals[0]])
        else:
            ns = [case_of(names[perm.pop()], e["c"]) for _ in range(min(e["n"], len(perm)))]
            items.append(["l", ns, [[vals.pop() for _ in ns] for _ in range(e["rows"])]])
    return items


def expected_order(items, tmpl):
    """items in the order in which they have to be written"""
    wanted = [n.lower() for e in tmpl for n in e["n"]]
    where = {}
    for i, e in enumerate(items):
        for n in ([e[1]] if e[0] == "k" else e[1]):
            where[n.lower()] = i
    order = []
    for n in wanted:
        if n in where and where[n] not in order:
            order.append(where[n])
    order += [i for i in range(len(items)) if i not in order]
    out = []
    for i in order:
        e = items[i]
        if e[0] == "k":
            out.append(e)
        else:
            low = [n.lower() for n in e[1]]
            cols = [low.index(n) for n in wanted if n in low]
            cols += [j for j in range(len(low)) if j not in cols]
            out.append(["l", [e[1][j] for j in cols], [[r[j] for j in cols] for r in e[2]]])
    return out


def squeeze(v):
    return "".join(v.split())


def compare(got, want, reform, what):
    same([e[1] for e in got], [e[1] for e in want], "order of the items, " + what)
    for g, w in zip(got, want):
        if w[0] == "k" and w[1].lower() in reform and isinstance(w[2], str) and "\n" in w[2]:
            same(squeeze(g[2]), squeeze(w[2]), "reformatted %s, %s" % (w[1], what))
        else:
            same(g, w, what)


def strat(g, layout):
    def s():
        if layout:
            vals = st.sampled_from(WORDS)
        else:
            vals = st.one_of(cif.texts(g in ("2.0", "STAR2"), huge=False), st.sampled_from(WORDS), st.sampled_from(["one\ntwo three", "one\n\ntwo\n three-four   x"]))
            if g in ("2.0", "STAR2"):
                vals = st.one_of(vals, vals, cif.compound(True))
        return st.fixed_dictionaries({"g": st.just(g), "tmpl": template_strategy(30 if layout else 60), "data": data_strategy(vals, ["_m", "_M.n", "_a.b_c"]),
                                      "second": data_strategy(vals, ["_m"]), "late": st.booleans(), "file": st.booleans()})
    return s


def write(case):
    import os, tempfile
    from CifFile import CifBlock
    text, tmpl = make_template(case["tmpl"])
    g = case["g"]
    cf = cif.new_file(g)

    def setit():
        if case["file"]:
            d = tempfile.mkdtemp(prefix="vp_t_")
            p = os.path.join(d, "t.cif")
            try:
                with open(p, "w") as f:
                    f.write(text)
                cf.SetTemplate(p)
            finally:
                if os.path.exists(p):
                    os.unlink(p)
                os.rmdir(d)
        else:
            cf.SetTemplate(io.StringIO(text))
    if not case["late"]:
        setit()
    for name, items in (("one", case["data"]), ("two", case["second"])):
        cf[name] = CifBlock()
        cif.fill(cf[name], items)
    if case["late"]:
        setit()
    return cf, cf.WriteOut(), text, tmpl


def check_safe(case, rec):
    for items in (case["data"], case["second"]):
        for e in items:
            for v in ([e[2]] if e[0] == "k" else sum(e[2], [])):
                for s in cif.strings_in(v):
                    if not cif.in_charset(s, case["g"] in ("2.0", "STAR2")):
                        raise Discard()
    g = case["g"]
    cf, out, text, tmpl = write(case)
    names = set(n.lower() for e in tmpl for n in e["n"])
    mine = [n.lower() for e in case["data"] for n in ([e[1]] if e[0] == "k" else e[1])]
    rec.nontrivial(len(names & set(mine)) > 1)
    reform = set(n.lower() for e in tmpl if e.get("re") for n in e["n"])
    try:
        got = refcif.parse(out, g)
    except refcif.RefError as e:
        raise Fail("text written with a template is not valid %s: %s\ntemplate\n%s\noutput\n%s" % (g, e, text, out[-2500:]))
    for b, items in zip(got, (case["data"], case["second"])):
        compare(b["items"], expected_order(items, tmpl), reform, "template\n%s\noutput\n%s" % (text, out[-2500:]))
    same(cf.WriteOut(), out, "second writing with the same template")
    # the values held are as before
    for name, items in (("one", case["data"]), ("two", case["second"])):
        same(sorted(cif.block_model(cf[name]), key=str), sorted(cif.low_items(expected_order(items, tmpl)), key=str), "values held after writing")


def check_layout(case, rec):
    g = case["g"]
    cf, out, text, tmpl = write(case)
    lines = out[out.index("data_one"):].split("\n")
    lines = lines[:lines.index("data_two")] if "data_two" in lines else lines
    info = "template\n%s\noutput\n%s" % (text, "\n".join(lines))
    single = dict((e["n"][0].lower(), e) for e in tmpl if e["t"] == "k")
    looped = dict((n.lower(), (e, i)) for e in tmpl if e["t"] == "l" for i, n in enumerate(e["n"]))
    first_loop = [e for e in tmpl if e["t"] == "l"][:1]
    allowed = ["'", '"', "\n;", None] + (["'''", '"""'] if g in ("2.0", "STAR2") else [])
    n = 0
    for e in expected_order(case["data"], tmpl):
        if e[0] == "k":
            h = single.get(e[1].lower())
            if h is None:
                continue
            n += 1
            at = [i for i, l in enumerate(lines) if re.match(r"[ ]*" + re.escape(e[1]) + r"( |$)", l)]
            expect(len(at) == 1, "%s appears %d times\n%s", e[1], len(at), info)
            l = lines[at[0]]
            same(len(l) - len(l.lstrip(" ")), h["pos"], "column of %s\n%s" % (e[1], info))
            d = h["delim"] if h["delim"] in allowed else "'"
            if d == "\n;":
                same([l.strip()] + lines[at[0] + 1:at[0] + 3], [e[1], ";" + e[2], ";"], "text value of %s\n%s" % (e[1], info))
                continue
            v = (d or "") + e[2] + (d or "")
            if h["col"] > h["pos"] + len(e[1]) and h["col"] + len(v) <= 78:
                same(l, " " * h["pos"] + e[1] + " " * (h["col"] - h["pos"] - len(e[1])) + v, "line of %s\n%s" % (e[1], info))
        else:
            at = [i for i, l in enumerate(lines) if re.match(r"[ ]*" + re.escape(e[1][0]) + r"( |$)", l)]
            expect(len(at) == 1, "%s appears %d times\n%s", e[1][0], len(at), info)
            at = at[0]
            if first_loop:
                same(lines[at - 1], " " * first_loop[0]["lpos"] + "loop_", "loop_ line before %s\n%s" % (e[1][0], info))
            for j, nm in enumerate(e[1]):
                h = looped.get(nm.lower())
                if h:
                    n += 1
                    same(lines[at + j], " " * h[0]["pos"][h[1]] + nm, "line of loop name %s\n%s" % (nm, info))
            # rows: checked up to the first column without a hint, or without room
            for r, row in enumerate(e[2]):
                if any(single.get(nm.lower(), {}).get("delim") == "\n;" for nm in e[1]):
                    break    # rows of several lines
                l = lines[at + len(e[1]) + r]
                pos = 0
                for nm, v in zip(e[1], row):
                    h = looped.get(nm.lower())
                    if not h or h[0]["cols"][h[1]] < pos + (1 if pos else 0):
                        break
                    d = h[0]["delims"][h[1]]
                    d = d if d in allowed else "'"
                    if d is None and not first_loop:
                        break
                    v = (d or "") + v + (d or "")
                    col = h[0]["cols"][h[1]]
                    expect(l[pos:col].strip() == "" and l[col:col + len(v)] == v and l[col + len(v):col + len(v) + 1] in ("", " "),
                           "value of %s should be at column %d\n%s", nm, col, info)
                    pos = col + len(v)
    rec.nontrivial(n > 1)


SUBS = [Sub("safe_" + g.replace(".", "_"), strat(g, False), check_safe, quick=(2, 500), thorough=(4, 4000)) for g in ("1.1", "2.0", "STAR2")] + \
       [Sub("layout_" + g.replace(".", "_"), strat(g, True), check_layout, quick=(2, 700), thorough=(4, 4000)) for g in ("1.1", "2.0")]
