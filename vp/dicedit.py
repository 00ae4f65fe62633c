"""DDLm dictionaries under edit: generator, text, and a model of the definitions."""
from hypothesis import strategies as st
from vp.ddl1 import G

CATS = ["Alpha", "beta_site", "GAMMA", "Delta_2", "eps"]
OBJS = ["id", "Label", "x_1", "value", "B_iso"]
NEWCATS = ["zeta", "New_Cat", "alpha", "VAL_HEAD", "beta_site", "out_side", "Theta.x"[:5]]
NEWOBJS = ["id", "brand_new", "Label", "Q", "_under_", "x.Other", "_a.b"]


@st.composite
def cases(draw):
    d = G(draw)
    defs = [{"block": "VAL_HEAD", "id": d.pick(["VAL_HEAD", "Val_Head"]), "scope": "Category", "class": "Head", "cat": "VAL", "obj": "VAL_HEAD", "text": "top"}]
    cats = []
    for n in CATS[:d.i(1, 5)]:
        up = d.pick(["VAL_HEAD"] + cats + (["Elsewhere"] if d.some(4) else []))
        name = n if d.some(2) else n.upper()
        defs.append({"block": name, "id": name, "scope": "Category", "class": d.pick(["Loop", "Set"]), "cat": up if d.some(2) else up.lower(), "obj": name, "text": "about " + n})
        cats.append(n)
    for c in cats + (["elsewhere", "Nowhere"] if d.some(3) else []):
        objs = list(OBJS)
        for _ in range(d.i(0, 3)):
            o = objs.pop(d.i(0, len(objs) - 1))
            i = "_%s.%s" % (c if d.some(2) else c.lower(), o)
            defs.append({"block": i[1:] if not d.some(4) else "frame%d" % len(defs), "id": i, "scope": "Item" if d.some(2) else None, "class": "Datum",
                         "cat": c if d.some(2) else c.upper(), "obj": o, "text": "item %d" % len(defs)})
    head = defs[0]
    rest = defs[1:]
    for k in range(len(rest)):
        j = d.i(k, len(rest) - 1)
        rest[k], rest[j] = rest[j], rest[k]
    ops = [[d.pick(["addcat", "adddef", "adddef", "rencat", "rencat", "move", "move", "move", "name", "name", "remove", "del", "set", "rename", "text", "reread", "copy", "title"]),
            d.i(0, 30), d.i(0, 30), d.i(0, 3)] for _ in range(d.i(2, 10))]
    return {"defs": [head] + rest, "ops": ops}


def frame(f):
    out = ["save_%s" % f["block"], "_definition.id '%s'" % f["id"]]
    if f["scope"]:
        out.append("_definition.scope %s" % f["scope"])
    out += ["_definition.class %s" % f["class"], "_name.category_id %s" % f["cat"], "_name.object_id '%s'" % f["obj"], "_description.text '%s'" % f["text"], "save_\n"]
    return "\n".join(out)


def dictionary(defs):
    return "#\\#CIF_2.0\ndata_VAL\n_dictionary.title VAL\n_dictionary.class Instance\n_dictionary.version 1.0\n\n" + "\n".join(frame(f) for f in defs)


class Model(object):
    def __init__(self, defs):
        self.d = dict((f["id"].lower(), dict((k, v) for k, v in f.items() if k != "block")) for f in defs)
        self.title = "VAL"

    def clone(self):
        m = Model([])
        m.d = dict((k, dict(v)) for k, v in self.d.items())
        m.title = self.title
        return m

    def iscat(self, k):
        return self.d[k]["scope"] == "Category"

    def cats(self):
        return [k for k in self.d if self.iscat(k)]

    def kids(self, c):
        return [k for k in self.d if self.d[k]["cat"].lower() == c.lower()]

    def below(self, c):
        out = []
        for k in self.kids(c):
            out += self.below(k) if self.iscat(k) else [k]
        return out + [c.lower()]

    def head(self):
        return [k for k in self.d if self.d[k]["class"] == "Head"]

    def move_id(self, k, new):
        self.d = dict((new.lower() if x == k else x, v) for x, v in self.d.items())
        self.d[new.lower()]["id"] = new
