"""DDLm dictionaries that import from one another: generator, texts, and a model of the result."""
from hypothesis import strategies as st
from vp.ddl1 import G

ATTS = ["_description.text", "_type.purpose", "_type.source", "_type.contents", "_units.code", "_type.container", "_enumeration.default", "_alias.xref_code"]
LOOPS = [["_enumeration_set.state", "_enumeration_set.detail"], ["_description_example.case", "_description_example.detail"]]
WORDS = ["one", "two", "a b", "x", "Count", "Real", "1.5", "metres", "it's"]


class Defs(dict):
    clash = False


class Err(Exception):
    """the imports cannot be carried out"""


def attributes(d, names, loops):
    """some of these attributes with values"""
    out = dict((n, d.pick(WORDS)) for n in names if not d.some(2))
    lp = [[l, [[d.pick(WORDS) for _ in l] for _ in range(d.i(1, 3))]] for l in loops if d.some(3)]
    return {"att": out, "loops": lp}


@st.composite
def cases(draw):
    d = G(draw)
    files = []
    n = d.i(1, 3)
    # templates first, then dictionaries that may import from anything before them, the last is the one loaded
    templ = []
    for k in range(d.i(1, 3)):
        templ.append(dict(attributes(d, ATTS[4:], LOOPS[1:]), id="tmpl_%d" % k, block="tmpl_%d" % k))
    files.append({"file": "templ.dic", "title": "TEMPL", "kind": "Template", "defs": templ})
    for k in range(n + 1):
        title = "D%d" % k
        head = "%s_HEAD" % title
        defs = [{"id": head, "block": head, "cls": "Head", "cat": title, "obj": head, "scope": "Category", "att": {}, "loops": []}]
        cats = [head]
        for c in ["alpha", "Beta", "GAMMA", "delta"]:
            if d.some(2):
                continue
            c = c if d.some(2) else c + str(k)
            defs.append(dict(attributes(d, ATTS[:1], []), id=c, block=c.upper(), cls=d.pick(["Set", "Loop"]), cat=d.pick(cats), obj=c, scope="Category"))
            cats.append(c)
        for c in cats[1:]:
            for o in ["id", "x", "Value_2"]:
                if d.some(3):
                    i = "_%s.%s" % (c, o)
                    defs.append(dict(attributes(d, ATTS[:4], LOOPS[:1]), id=i, block=i[1:] if not d.some(3) else "frame%d_%d" % (k, len(defs)), cls="Datum", cat=c, obj=o, scope="Item"))
        importer = d.i(0, len(cats) - 1) if not d.some(2) else 0        # one category imports others: the order of frames does not matter
        for f in defs:
            refs = []
            if f["scope"] == "Item" and d.some(2):
                t = d.pick(templ)
                refs.append([t, "templ.dic"])
                if d.some(4):
                    u = d.pick(templ)
                    if not overlap(t, u):
                        refs.append([u, "templ.dic"])
                f["imports"] = [{"file": fn, "save": t["id"] if not d.some(12) else "missing", "mode": d.pick([None, "Contents", "Contents"]),
                                 "dupl": None, "miss": d.pick([None, "Ignore", "Ignore", "Exit"])} for t, fn in refs]
            elif f["id"] == cats[importer] and len(files) > 1 and not d.some(4):
                f["imports"] = []
                for src in files[1:]:
                    if d.some(2):
                        ts = [x for x in src["defs"] if x["scope"] == "Category" and (x["cls"] != "Head") == (f["cls"] != "Head" or d.some(3))]
                        if ts:
                            t = d.pick(ts)
                            f["imports"].append({"file": src["file"], "save": d.pick([t["id"], t["block"]]) if not d.some(15) else "missing", "mode": "Full",
                                                 "dupl": d.pick([None, "Ignore", "Ignore", "Ignore"]), "miss": d.pick([None, "Ignore", "Ignore"])})
        files.append({"file": "d%d.dic" % k, "title": title, "kind": "Instance", "defs": defs})
    return {"files": files, "sub": d.some(3)}


def overlap(a, b):
    flat = lambda t: set(t["att"]) | set(n for l in t["loops"] for n in l[0])
    return flat(a) & flat(b)


def q(v):
    return '"%s"' % v


def table(r, sub):
    out = ["'file':'%s'" % r["file"], "'save':'%s'" % r["save"]]
    for k in ("mode", "dupl", "miss"):
        if r[k]:
            out.append("'%s':'%s'" % (k, r[k]))
    return "{%s}" % " ".join(out)


def text(f):
    out = ["#\\#CIF_2.0\ndata_%s\n_dictionary.title %s\n_dictionary.class %s\n_dictionary.version 1.0\n" % (f["title"], f["title"], f["kind"])]
    for x in f["defs"]:
        t = ["save_%s" % x["block"]]
        if "cls" in x:
            t += ["_definition.id '%s'" % x["id"], "_definition.scope %s" % x["scope"], "_definition.class %s" % x["cls"], "_name.category_id %s" % x["cat"], "_name.object_id '%s'" % x["obj"]]
        t += ["%s %s" % (a, q(v)) for a, v in sorted(x["att"].items())]
        for names, rows in x["loops"]:
            t.append("loop_\n%s\n%s" % ("\n".join(names), "\n".join(" ".join(q(v) for v in r) for r in rows)))
        if x.get("imports"):
            t.append("_import.get [%s]" % " ".join(table(r, 0) for r in x["imports"]))
        out.append("\n".join(t) + "\nsave_\n")
    return "\n".join(out)


# ---- what comes of it

def flat(x):
    out = dict(x["att"])
    for names, rows in x["loops"]:
        for k, n in enumerate(names):
            out[n] = [r[k] for r in rows]
    return out


def load(case, name):
    """definitions by lower id: {"id", "cat", "obj", "scope", "cls", "att"} and by frame name"""
    f = [x for x in case["files"] if x["file"] == name][0]
    defs, blocks = Defs(), {}
    for x in f["defs"]:
        k = x["id"].lower()
        defs[k] = dict((n, x.get(n)) for n in ("id", "cat", "obj", "scope", "cls"))
        defs[k]["att"] = flat(x)
        blocks[x["block"].lower()] = k
    full = 0
    for x in f["defs"]:
        k = x["id"].lower()
        for r in x.get("imports", []):
            src, sblocks, deeper = load(case, r["file"])
            t = r["save"].lower()
            t = t if t in src else sblocks.get(t)
            if t is None:
                if r["miss"] in (None, "Exit"):
                    raise Err()
                continue
            if (r["mode"] or "Contents") == "Contents":
                defs[k]["att"].update(src[t]["att"])
                continue
            s = r["save"].lower()
            if s in defs or s in blocks:
                if r["dupl"] in (None, "Exit"):
                    raise Err()
                defs.clash = True
                continue
            full += 1
            take = below(src, t)
            h2h = defs[k]["cls"] == "Head" and src[t]["cls"] == "Head"
            defs.clash |= src.clash or deeper > 0
            for n in take:
                if n in defs:
                    defs.clash = True           # which one is found depends on the way of importing
                else:
                    defs[n] = dict(src[n], att=dict(src[n]["att"]))
            if h2h:
                obj = src[t]["obj"].lower()
                for n in defs:
                    if n != t and defs[n]["cat"].lower() == obj:
                        defs[n]["cat"] = defs[k]["obj"]
                del defs[t]
            elif t in take and defs.get(t):
                defs[t]["cat"] = defs[k]["obj"]
    return defs, blocks, full


def below(defs, k):
    out = [k]
    for n in defs:
        if n != k and defs[n]["cat"].lower() == defs[k]["obj"].lower() and defs[n]["cls"] != "Head":
            out += below(defs, n) if defs[n]["scope"] == "Category" else [n]
    return out
