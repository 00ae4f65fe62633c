"""Categories that are constructed from others: filters and pullbacks, and the way back."""
import re
from hypothesis import strategies as st
from vp.ddlmgen import D

IDS = ["a1", "B2", "c3", "D4", "e5", "f6"]
POOL = {"Code": ["red", "Blue", "x1"], "Text": ["one", "One", "a b"], "Integer": ["1", "2", "3"]}
EXTRA = {"note": ("Text", ["n1", "Other", "x y", "z"]), "size": ("Real", ["1.5", "2.0", "-3.25"]), "Grp": ("Code", ["AA", "bb", "Cc"]), "rank": ("Integer", ["5", "6", "-7"])}
SHARED = ["note", "size", "Grp", "rank"]


def fold(t, v):
    return int(v) if t == "Integer" else float(v) if t == "Real" else v.lower() if t == "Code" else v


def source(d, name, t):
    """a category with a key, an attribute that is compared and some items"""
    extras = [o for o in SHARED if d.i(0, 2)]
    rows = [dict([("id", i), ("kind", d.pick(POOL[t]))] + [(o, d.pick(EXTRA[o][1])) for o in extras]) for i in IDS[:d.i(1, 5)]]
    return {"name": name, "type": t, "extras": extras, "rows": rows, "given": [o for o in extras if d.i(0, 3)]}


@st.composite
def cases(draw, back):
    d = D(draw)
    ta = d.pick(["Code", "Text", "Integer"])
    srcs = [source(d, "alpha", ta), source(d, "beta", ta if d.i(0, 3) else d.pick(["Code", "Integer"]))]
    made = []

    def filt(name, on, obj, t, pool):
        vals = sorted(set(d.pick(pool) for _ in range(d.i(1, 2))))
        seen, keep = set(), []
        for v in vals:
            if fold(t, v) not in seen:
                seen.add(fold(t, v))
                keep.append(v if t != "Code" else d.pick([v, v.lower(), v.upper()]))
        made.append({"name": name, "how": "Filter", "on": [[on, obj]], "type": t, "values": keep, "ids": ["id"], "extras": [o for o in SHARED if d.i(0, 2)], "copy_kind": d.i(0, 2) == 0})
        return made[-1]

    if not back:
        f = filt("flt", "alpha", "kind", ta, POOL[ta])
        kinds = [["alpha", "kind", ta], ["beta", "kind", srcs[1]["type"]]] + [["alpha", o, EXTRA[o][0]] for o in srcs[0]["extras"]] + [["beta", o, EXTRA[o][0]] for o in srcs[1]["extras"]] \
            + [["flt", o, EXTRA[o][0]] for o in f["extras"] if o in srcs[0]["extras"]]
        if d.i(0, 2):
            a = d.pick(kinds)
            o = [k for k in kinds if k[0] != a[0] and k[2] == a[2]]
            if o:
                b = d.pick(o)
                objs = dict([(s["name"], s["extras"]) for s in srcs] + [(f["name"], f["extras"])])
                ex = [x for x in SHARED if d.i(0, 1) and not (x in objs[a[0]] and x in objs[b[0]])]
                made.append({"name": "pull", "how": "Pullback", "on": [a[:2], b[:2]], "type": a[2], "values": [], "ids": ["id", d.pick(["other", "to_id"])], "extras": ex, "copy_kind": False})
        chain = [k for k in kinds if k[0] == "flt" and k[2] in ("Code", "Text", "Integer")]
        if chain and d.i(0, 1):
            c = d.pick(chain)
            filt("sub", "flt", c[1], c[2], EXTRA[c[1]][1])
        if d.i(0, 1):
            filt("third", "beta", "kind", srcs[1]["type"], POOL[srcs[1]["type"]])
    else:
        vals = [v for n, v in enumerate(POOL[ta]) if d.i(0, 2)]
        while vals:
            k = d.i(1, 2)
            made.append({"name": ["flt", "sub", "third"][len(made)], "how": "Filter", "on": [["alpha", "kind"]], "type": ta, "values": vals[:k], "ids": ["id"], "extras": [o for o in SHARED if d.i(0, 2)], "copy_kind": False,
                         "given": d.i(0, 5) > 0})
            vals = vals[k:]
        if d.i(0, 2) == 0:
            made.append({"name": "pull", "how": "Pullback", "on": [["alpha", "kind"], ["beta", "kind"]], "type": ta, "values": [], "ids": ["id", "other"], "extras": [o for o in SHARED if d.i(0, 1)], "copy_kind": False, "given": True})
            if srcs[1]["type"] != ta:
                srcs[1] = source(d, "beta", ta)
    names = [s["name"] for s in srcs] + [m["name"] for m in made]
    return {"back": back, "srcs": srcs, "made": made, "up": [d.i(0, 3) == 0 for _ in names], "order": [d.i(0, 999) for _ in range(40)], "absent": [] if back or d.i(0, 5) else [d.pick(["alpha", "beta"])]}


# ---- what is to be

def tables(case):
    """category -> (items in the order of the definition, rows of folded values) or None"""
    out = {}
    for s in case["srcs"]:
        cols = ["id", "kind"] + s["given"]
        rows = [dict((c, fold(typ(case, s["name"], c), r[c])) for c in cols) for r in s["rows"]]
        out[s["name"]] = None if s["name"] in case["absent"] else (cols, rows)
    for m in case["made"]:
        out[m["name"]] = construct(case, m, out)
    return out


def typ(case, cat, obj):
    if obj in ("id", "other", "to_id"):
        return "Code"
    if obj == "kind":
        while True:
            for s in case["srcs"]:
                if s["name"] == cat:
                    return s["type"]
            cat = [m for m in case["made"] if m["name"] == cat][0]["on"][0][0]
    return EXTRA[obj][0]


def objects(m):
    return m["ids"] + m["extras"] + (["kind"] if m["copy_kind"] else [])


def construct(case, m, out):
    froms = []
    for cat, obj in m["on"]:
        if out[cat] is None or obj not in out[cat][0]:
            return None
        froms.append(out[cat])
    if m["how"] == "Filter":
        want = [fold(m["type"], v) for v in m["values"]]
        pairs = [(r,) for r in froms[0][1] if r[m["on"][0][1]] in want]
    else:
        pairs = [(r, s) for r in froms[0][1] for s in froms[1][1] if r[m["on"][0][1]] == s[m["on"][1][1]]]
    if not pairs:
        return None
    cols, rows = list(m["ids"]), [dict((i, p["id"]) for i, p in zip(m["ids"], ps)) for ps in pairs]
    for n, f in enumerate(froms):
        for o in objects(m)[len(m["ids"]):]:
            if o in f[0]:
                if o not in cols:
                    cols.append(o)
                for row, ps in zip(rows, pairs):
                    row[o] = ps[n][o]
    return cols, rows


def back_tables(case):
    """the categories that are given, and what the source of the filters is made of"""
    full = tables(dict(case, absent=[]))
    out = dict((m["name"], full[m["name"]] if m["given"] else None) for m in case["made"])
    src = case["srcs"][0]
    parts = []
    for m in case["made"]:
        if out[m["name"]] is None:
            continue
        cols, rows = out[m["name"]]
        cols = ["id"] + [c for c in cols if c in src["extras"]]
        rows = [dict((c, r[c]) for c in cols) for r in rows]
        if m["how"] == "Filter" and len(m["values"]) == 1:
            cols = cols + ["kind"]
            for r in rows:
                r["kind"] = fold(m["type"], m["values"][0])
        parts.append((cols, rows))
    if not parts:
        out["alpha"] = None
    else:
        cols = [c for c in parts[0][0] if all(c in p[0] for p in parts)]
        seen, rows = set(), []
        for p in parts:
            for r in p[1]:
                if r["id"] not in seen:
                    seen.add(r["id"])
                    rows.append(dict((c, r[c]) for c in cols))
        out["alpha"] = (cols, rows)
    return out


# ---- texts

def q(s):
    return s if re.fullmatch(r"[A-Za-z0-9.+_-]+", s) else "'%s'" % s


def head(case):
    """spelling of the categories"""
    names = [s["name"] for s in case["srcs"]] + [m["name"] for m in case["made"]]
    return dict((n, n.capitalize() if u else n) for n, u in zip(names, case["up"]))


def dictionary(case):
    sp = head(case)
    out = ["#\\#CIF_2.0\ndata_gen_dic\n_dictionary.title gen_dic\n_dictionary.class Instance\n_dictionary.version 1.0\n",
           "save_HEAD\n_definition.id HEAD\n_definition.scope Category\n_definition.class Head\n_name.category_id gen_dic\n_name.object_id HEAD\nsave_\n"]

    def cat(name, objs, keys, more=""):
        n = sp[name]
        out.append("save_%s\n_definition.id %s\n_definition.scope Category\n_definition.class Loop\n_name.category_id HEAD\n_name.object_id %s\n_category.key_id '_%s.id'\n%sloop_\n_category_key.name\n%s\nsave_\n" % (
            n, n, n, name, more, " ".join("'_%s.%s'" % (name, k) for k in keys)))
        for o in objs:
            out.append("save_%s.%s\n_definition.id '_%s.%s'\n_name.category_id %s\n_name.object_id %s\n_type.purpose %s\n_type.container Single\n_type.contents %s\nsave_\n" % (
                name, o, name, o, n, o, "Key" if [o] == keys else "Describe", typ(case, name, o)))

    for s in case["srcs"]:
        cat(s["name"], ["id", "kind"] + s["extras"], ["id"])
    for m in case["made"]:
        more = "_category_construct_local.type %s\n_category_construct_local.components [%s]\n_category_construct_local.new_ids [%s]\n" % (
            m["how"], " ".join("'_%s.%s'" % tuple(c) for c in m["on"]), " ".join(m["ids"]))
        if m["how"] == "Filter":
            more += "_category_construct_local.%s_filter [%s]\n" % ("integer" if m["type"] == "Integer" else "text", " ".join(map(q, m["values"])))
        cat(m["name"], objects(m), m["ids"], more)
    return "\n".join(out)


def given(case):
    """categories in the data: name, items, rows of texts"""
    if not case["back"]:
        return [(s["name"], ["id", "kind"] + s["given"], s["rows"]) for s in case["srcs"] if s["name"] not in case["absent"]]
    t = back_tables(case)
    return [(m["name"], t[m["name"]][0], t[m["name"]][1]) for m in case["made"] if t[m["name"]]]


def data(case):
    out = ["#\\#CIF_2.0\ndata_d\n_other.thing 1\n"]
    for name, cols, rows in given(case):
        out.append("loop_\n%s\n%s\n" % (" ".join("_%s.%s" % (name, c) for c in cols), "\n".join(" ".join(q(str(r[c])) for c in cols) for r in rows)))
    return "".join(out)
