"""Items whose default depends on the value of another item (_enumeration.def_index_id)."""
import re
from hypothesis import strategies as st
from vp.ddlmgen import D

CODES = ["Fe", "o2", "NA", "c", "Zn2+", "H"]
TEXTS = ["red", "Red", "a b", "mono clinic", "x", "7"]
INTS = ["1", "2", "-3", "10", "0", "25"]
KEYS = {"Code": CODES, "Name": ["aB", "Cd", "e_f", "G1", "h"], "Text": TEXTS, "Integer": INTS}
VALS = {"Real": ["1.5", "-0.25", "12.0", "100.5", "3"], "Integer": ["1", "-7", "22", "0"], "Text": ["one", "Two", "x y", "4"], "Code": ["AB", "cd", "eF"]}


@st.composite
def cases(draw):
    d = D(draw)
    items = []

    def index(cat, obj):
        t = d.pick(["Code", "Code", "Name", "Text", "Integer"])
        items.append({"cat": cat, "obj": obj, "type": t, "index": None, "alias": d.i(0, 4) == 0, "present": d.i(0, 7) > 0})
        return items[-1]

    def defaulted(cat, obj, on):
        # on an indexed item: what its table gives is in turn an index
        pool = KEYS[on["type"]] if on["index"] is None else sorted(set(v for k, v in on["table"]))
        ks = [d.pick(pool) for _ in range(d.i(1, 5))]
        seen, tab = set(), []
        t = d.pick(["Real", "Integer", "Text", "Code"])
        for k in ks + ([x for x in pool] if d.i(0, 2) else []):
            if fold(on["type"], k) not in seen:
                seen.add(fold(on["type"], k))
                tab.append([k if on["type"] not in ("Code", "Name") else d.pick([k, k.lower(), k.upper()]), d.pick(VALS[t])])
        items.append({"cat": cat, "obj": obj, "type": t, "index": [on["cat"], on["obj"]], "table": tab, "alias": False, "present": d.i(0, 6) == 0})
        return items[-1]

    k = index("top", "kind")
    v = defaulted("top", "first", k)
    if d.i(0, 1):
        defaulted("top", "next", v if v["type"] in ("Code", "Integer", "Text") else k)
    e = index("site", "element")
    e["present"] = e["present"] or d.i(0, 2) > 0
    m = defaulted("site", "mass", e)
    if d.i(0, 1):
        defaulted("site", "Radius", k)
    if d.i(0, 2) == 0:
        defaulted("site", "after", m if m["type"] in ("Code", "Integer", "Text") else e)
    rows = d.i(1, 4)
    for it in items:
        if it["present"]:
            pool = KEYS[it["type"]] if it["index"] is None else VALS[it["type"]]
            it["data"] = [d.pick(pool) for _ in range(rows if it["cat"] == "site" else 1)]
            it["where"] = "alias" if it["alias"] and d.i(0, 1) else "name"
    return {"items": items, "rows": rows, "case": d.i(0, 2), "order": [d.i(0, 99) for _ in items]}


def fold(t, v):
    if t == "Integer":
        return int(v)
    if t == "Real":
        return float(v)
    return v.lower() if t in ("Code", "Name") else v


def name(it):
    return "_%s.%s" % (it["cat"], it["obj"])


def q(s):
    return s if re.fullmatch(r"[A-Za-z0-9.+_-]+", s) else "'%s'" % s


def dictionary(case):
    sp = [str, str.lower, str.upper][case["case"]]
    out = ["#\\#CIF_2.0\ndata_gen_dic\n_dictionary.title gen_dic\n_dictionary.class Instance\n_dictionary.version 1.0\n"]
    for cat, parent, cls, key in (("HEAD", "gen_dic", "Head", ""), ("TOP", "HEAD", "Set", ""), ("SITE", "HEAD", "Loop", "_category.key_id '_site.id'\nloop_ _category_key.name '_site.id'\n")):
        out.append("save_%s\n_definition.id %s\n_definition.scope Category\n_definition.class %s\n_name.category_id %s\n_name.object_id %s\n%ssave_\n" % (cat, cat, cls, parent, cat, key))
    out.append("save_site.id\n_definition.id '_site.id'\n_name.category_id site\n_name.object_id id\n_type.purpose Key\n_type.container Single\n_type.contents Code\nsave_\n")
    for it in case["items"]:
        t = "save_%s.%s\n_definition.id '%s'\n_name.category_id %s\n_name.object_id %s\n_type.purpose Describe\n_type.container Single\n_type.contents %s\n" % (it["cat"], it["obj"], name(it), it["cat"], it["obj"], it["type"])
        if it["alias"]:
            t += "loop_ _alias.definition_id '_old_%s'\n" % it["obj"]
        if it["index"]:
            t += "_enumeration.def_index_id '%s'\n" % sp("_%s.%s" % tuple(it["index"]))
            if len(it["table"]) == 1 and it["obj"] > "m":
                t += "_enumeration_default.index %s\n_enumeration_default.value %s\n" % tuple(map(q, it["table"][0]))
            else:
                t += "loop_\n_enumeration_default.index\n_enumeration_default.value\n" + "".join("%s %s\n" % (q(a), q(b)) for a, b in it["table"])
        out.append(t + "save_\n")
    return "\n".join(out)


def data(case):
    out, cols = ["#\\#CIF_2.0\ndata_d\n"], [["_site.id", ["r%d" % n for n in range(case["rows"])]]]
    for it in case["items"]:
        if it["present"]:
            n = "_old_" + it["obj"] if it["where"] == "alias" else name(it)
            if it["cat"] == "site":
                cols.append([n, it["data"]])
            else:
                out.append("%s %s\n" % (n, q(it["data"][0])))
    out.append("loop_\n%s\n%s\n" % ("\n".join(c[0] for c in cols), "\n".join(" ".join(q(v) for v in r) for r in zip(*[c[1] for c in cols]))))
    return "".join(out)


def values(case):
    """what each item is: a list (of one, for a Set), or None"""
    out = {}
    for it in case["items"]:
        me = (it["cat"], it["obj"])
        if it["present"]:
            out[me] = [fold(it["type"], v) for v in it["data"]]
        elif it["index"] is None:
            out[me] = None
        else:
            on = out[tuple(it["index"])]
            t = [i for i in case["items"] if [i["cat"], i["obj"]] == it["index"]][0]["type"]
            tab = dict((fold(t, a), fold(it["type"], b)) for a, b in it["table"])
            if on is None or any(v not in tab for v in on):
                out[me] = None
            else:
                out[me] = [tab[v] for v in on]
                if it["cat"] == "site" and it["index"][0] == "top":
                    out[me] *= case["rows"]
    return out
