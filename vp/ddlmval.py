"""DDLm dictionaries, data judged against them, and a model of validity."""
from hypothesis import strategies as st
from vp.ddl1 import G, NUMS, ESDS, WORDS, MISSING, number, q

NUMERIC = ["Real", "Integer", "Count", "Index"]
OBJS = ["u", "Volume", "x_1", "type_symbol", "B_iso", "kind", "n"]
CATS = [("cell", "Set", None), ("atom_site", "Loop", None), ("atom_site_aniso", "Loop", "atom_site"), ("aniso_part", "Loop", "atom_site_aniso"),
        ("refln", "Loop", None), ("Exptl", "Set", None)]


@st.composite
def cases(draw):
    d = G(draw)
    cats = [{"name": n, "kind": k, "parent": p} for n, k, p in CATS if not d.some(4) and True]
    names = [c["name"] for c in cats]
    for c in cats:
        if c["parent"] not in names:
            c["parent"] = None
    cats = cats or [{"name": "atom_site", "kind": "Loop", "parent": None}]
    items = []
    for c in cats:
        c["keys"] = []
        if c["kind"] == "Loop":
            up = [p["keys"] for p in cats if p["name"] == c["parent"]]
            for o in ([k.split(".")[1] for k in up[0]] if up else ["id"] if not d.some(4) else ["id", "Part"]):
                c["keys"].append("_%s.%s" % (c["name"], o))
                items.append({"name": c["keys"][-1], "cat": c["name"], "obj": o, "purpose": "Link" if up else "Key", "contents": d.pick(["Code", "Index"]), "enum": [],
                              "container": "Single", "link": "_%s.%s" % (c["parent"], o) if up else None})
        objs = list(OBJS)
        for _ in range(d.i(1, 3)):
            o = objs.pop(d.i(0, len(objs) - 1))
            t = d.pick(NUMERIC + ["Text", "Code", "Text"])
            purpose = d.pick(["Number", "Measurand"]) if t in NUMERIC else d.pick(["Describe", "State"])
            it = {"name": "_%s.%s" % (c["name"], o), "cat": c["name"], "obj": o, "purpose": purpose, "contents": t, "enum": [], "container": "Single"}
            if purpose == "State":
                it["enum"] = sorted(set(d.pick(WORDS) for _ in range(d.i(1, 3))))
            elif d.some(6):
                it["container"], it["contents"] = "List", d.pick(["Real", "Text"])
            items.append(it)
    blocks = [data_block(d, cats, items, n) for n in range(d.i(1, 3))]
    return {"cats": cats, "items": items, "blocks": blocks, "order": d.i(0, 3)}


def value(d, it):
    if d.some(12):
        return d.pick([".", "?"])
    if it["container"] == "List":
        return [d.pick(NUMS[:5] + ESDS[:2] if it["contents"] == "Real" else ["a", "b"]) for _ in range(d.i(1, 3))]
    if it["enum"] and not d.some(15):
        return d.pick(it["enum"])
    if it["contents"] in NUMERIC:
        return d.pick(ESDS if d.some(2 if it["purpose"] == "Measurand" else 15) else NUMS)
    return d.pick(WORDS)


def data_block(d, cats, items, n):
    scal, loops, used = [], [], set()
    sp = lambda s: s if not d.some(5) else d.pick([s.lower(), s.upper()])
    for c in cats:
        mine = [i for i in items if i["cat"] == c["name"] and i["name"] not in used and not d.some(5)]
        if c["kind"] == "Set" and not d.some(20):
            for i in mine:
                used.add(i["name"])
                scal.append([sp(i["name"]), value(d, i)])
            continue
        for other in cats:          # a joined loop
            if other["parent"] == c["name"] and d.some(3):
                mine += [i for i in items if i["cat"] == other["name"] and i["name"] not in used and d.some(2)]
        if d.some(10):
            mine.append(d.pick(items))
        seq = []
        for i in mine:
            if i["name"] not in used:
                used.add(i["name"])
                seq.append(i)
        if not seq:
            continue
        k = d.i(0, len(seq) - 1)
        seq = seq[k:] + seq[:k]
        names = [sp(i["name"]) for i in seq]
        rows = [[value(d, i) for i in seq] for _ in range(d.i(1, 3))]
        if d.some(6):
            k = d.i(0, len(names))
            names.insert(k, "_unknown.loop_%d" % len(loops))
            for r in rows:
                r.insert(k, d.pick(WORDS))
        loops.append([names, rows])
    if d.some(3):
        scal.append(["_Unknown.thing", d.pick(WORDS)])
    return {"name": ["one", "Two", "b3"][n], "scal": scal, "loops": loops}


def shown(v):
    return "[%s]" % " ".join(q(x) for x in v) if isinstance(v, list) else (q(v) if not v.startswith("[") else '"%s"' % v)


def frame(name, items):
    return "save_%s\n%s\nsave_\n" % (name, "\n".join(" %s %s" % i for i in items))


def dictionary(case):
    out = ["#\\#CIF_2.0\ndata_VAL\n_dictionary.title VAL\n_dictionary.class Instance\n_dictionary.version 1.0\n_dictionary.ddl_conformance 3.14\n"]
    fr = [frame("VAL_HEAD", [("_definition.id", "VAL_HEAD"), ("_definition.scope", "Category"), ("_definition.class", "Head"), ("_name.object_id", "VAL_HEAD"), ("_name.category_id", "VAL")])]
    for c in case["cats"]:
        it = [("_definition.id", c["name"].upper()), ("_definition.scope", "Category"), ("_definition.class", c["kind"]),
              ("_name.object_id", c["name"].upper()), ("_name.category_id", (c["parent"] or "VAL_HEAD").upper())]
        if c["keys"]:
            it.append(("loop_ _category_key.name", " ".join("'%s'" % k for k in c["keys"])))
        fr.append(frame(c["name"].upper(), it))
    for i in case["items"]:
        it = [("_definition.id", "'%s'" % i["name"]), ("_name.category_id", i["cat"]), ("_name.object_id", i["obj"]), ("_type.purpose", i["purpose"]),
              ("_type.source", "Assigned"), ("_type.container", i["container"]), ("_type.contents", i["contents"])]
        if i.get("link"):
            it.append(("_name.linked_item_id", "'%s'" % i["link"]))
        if len(i["enum"]) == 1 and len(i["name"]) % 2:
            it.append(("_enumeration_set.state", shown(i["enum"][0])))
        elif i["enum"]:
            it.append(("loop_ _enumeration_set.state _enumeration_set.detail", " ".join(shown(e) + " 'a'" for e in i["enum"])))
        fr.append(frame(i["name"][1:], it))
    return out[0] + "\n".join(fr)


def data(case):
    out = ["#\\#CIF_2.0\n"]
    for b in case["blocks"]:
        out.append("data_%s\n" % b["name"] + "".join("%s %s\n" % (n, shown(v)) for n, v in b["scal"]) +
                   "".join("loop_\n%s\n%s\n" % ("\n".join(" " + n for n in ns), "\n".join(" " + " ".join(shown(v) for v in r) for r in rows)) for ns, rows in b["loops"]))
    return "\n".join(out)


class Judge(object):
    def __init__(self, case):
        self.items = dict((i["name"].lower(), i) for i in case["items"])
        self.cats = dict((c["name"].lower(), c) for c in case["cats"])

    def chain(self, cat):
        """looped categories from this one upwards"""
        out = []
        while cat and self.cats[cat.lower()]["kind"] == "Loop":
            out.append(cat.lower())
            cat = self.cats[cat.lower()]["parent"]
        return out

    def judge(self, block):
        bad, unknown = {}, []
        for n, v in block["scal"]:
            if n.lower() in self.items:
                self.item(n.lower(), [v], bad)
            else:
                unknown.append(n.lower())
        for names, rows in block["loops"]:
            mine = []
            for k, n in enumerate(names):
                if n.lower() not in self.items:
                    unknown.append(n.lower())
                    continue
                mine.append(n.lower())
                self.item(n.lower(), [r[k] for r in rows], bad)
            if mine:
                self.loop(mine, bad)
        return bad, set(), sorted(unknown)

    def item(self, n, vs, bad):
        it = self.items[n]
        if it["container"] != "Single":
            return
        real = [v for v in vs if v not in MISSING]
        if it["enum"]:
            w = [v for v in real if v not in it["enum"]]
            if w:
                bad[n, "validate_item_enum"] = w
        if it["contents"] in NUMERIC and it["purpose"] != "Measurand":
            w = [v for v in real if number(v) and number(v)[1]]
            if w:
                bad[n, "validate_item_esd_ddlm"] = w

    def loop(self, names, bad):
        cats = [self.items[n]["cat"] for n in names]
        chains = [self.chain(c) for c in cats]
        if not all(chains):
            bad[names[0], "validate_looping_ddlm"] = None
        tops = [c[-1] for c in chains if c]
        if len(set(tops)) > 1:
            bad[names[0], "validate_loop_membership"] = None
        keys = [k.lower() for ch in chains for c in ch for k in self.cats[c]["keys"]]
        if tops and not set(keys) & set(names):
            bad[names[0], "validate_loop_key_ddlm"] = None
