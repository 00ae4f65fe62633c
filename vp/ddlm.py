"""DDLm dictionaries with dREL methods: generator, text, data file, and the meaning
of every item (an evaluator of our own).

A case:  {"cats": [{"name", "kind": "Set"|"Loop", "keys": n}], "items": [...], "funcs": [...], ...}
item: {"cat", "obj", "t": I|R|S, "state": data|alias|unknown|none, "vals", "default", "methods", "role": item|key|link}
Expressions and statements are those of drel.py and
  ["own", obj]                an item of the method's own category (of the current packet)
  ["item", cat, obj]          an item of a Set category
  ["keyed", cat, keys, obj]   an item of the packet with the key
  ["att", alias, obj]         an item of the packet a loop has reached; or of a packet variable
  ["row"]                     Current_Row()
  ["loop", alias, cat, index, [cmp, var], body]   ["packet", var, cat, keys]   ["with", alias, body]
  ["fancy", cat, [[obj, expr], ...]]
"""
from vp import drel
from vp.core import Discard

TYPES = {"I": "Integer", "R": "Real", "S": "Text"}


class Under(Exception):
    """cannot be derived"""


class DRun(drel.Run):
    def __init__(self, model, cat, row, defaults, stack, env=None, funcs=None, fuel=4000):
        drel.Run.__init__(self, fuel, env, funcs if funcs is not None else model.funcs)
        self.model, self.cat, self.row, self.defaults, self.stack = model, cat, row, defaults, stack
        self.places = {}      # alias -> (cat, row)
        self.fancy = {}

    def column(self, cat, obj):
        return self.model.derive(cat, obj, self.defaults, self.stack)

    def find(self, cat, keys):
        vals = [self.ev(k) for k in keys]
        cols = [self.column(cat, k) for k in self.model.cats[cat]["keyobjs"]]
        hits = [n for n, row in enumerate(zip(*cols)) if [low(x) for x in row] == [low(x) for x in vals]]
        if len(hits) != 1:
            raise Discard()
        return hits[0]

    def ev(self, e):
        k = e[0]
        if k == "own":
            c = self.column(self.cat, e[1])
            return c if self.row is None else c[self.row]
        if k == "item":
            return self.column(e[1], e[2])
        if k == "keyed":
            row = self.find(e[1], e[2])
            return self.column(e[1], e[3])[row]
        if k == "att":
            cat, row = self.places[e[1]]
            return self.column(cat, e[2])[row]
        if k == "row":
            return self.row
        if k == "call" and e[1] in self.funcs:
            params, body = self.funcs[e[1]]
            sub = DRun(self.model, None, None, self.defaults, self.stack, dict(zip(params, [self.ev(x) for x in e[2]])), self.funcs, self.fuel)
            sub.run(body)
            return sub.env[e[1]]
        return drel.Run.ev(self, e)

    def one(self, s):
        k = s[0]
        if k == "loop":
            alias, cat, index, test, body = s[1:]
            self.events.add("loop")
            n = self.model.length(cat, self.defaults, self.stack)
            for i in range(n):
                if test and not drel.CMP[test[0]](i, self.env[test[1]]):
                    continue
                self.places[alias] = (cat, i)
                if index:
                    self.env[index] = i
                if self.body(body):
                    break
        elif k == "packet":
            self.places[s[1]] = (s[2], self.find(s[2], s[3]))
        elif k == "with":
            self.run(s[2])
        elif k == "fancy":
            for obj, e in s[2]:
                self.fancy.setdefault(obj, []).append(self.ev(e))
        else:
            drel.Run.one(self, s)


def low(x):
    return x.lower() if isinstance(x, str) else x


def own_refs(node):
    """own items that occur outside of the branches of 'if'"""
    if not isinstance(node, list):
        return set()
    if node[:1] == ["own"]:
        return {node[1]}
    if node[:1] == ["if"]:
        return own_refs(node[1][0][0])
    return set().union(*[own_refs(x) for x in node]) if node else set()


class Model(object):
    def __init__(self, case):
        self.cats, self.items = {}, {}
        for c in case["cats"]:
            self.cats[c["name"]] = dict(c, keyobjs=[])
        for it in case["items"]:
            if it["role"] != "item" and it["t"] == "S":      # of type Code, case does not count
                it = dict(it, vals=[v.lower() for v in it["vals"]])
            self.items[(it["cat"], it["obj"])] = it
            if it["role"] == "key":
                self.cats[it["cat"]]["keyobjs"].append(it["obj"])
        self.funcs = dict((f["name"], (f["params"], f["body"])) for f in case["funcs"])
        self.done = {}
        self.events = set()

    def length(self, cat, defaults, stack):
        return len(self.derive(cat, self.cats[cat]["keyobjs"][0], defaults, stack))

    def derive(self, cat, obj, defaults=True, stack=()):
        it = self.items[(cat, obj)]
        if it["state"] in ("data", "alias"):
            return it["vals"]
        if (cat, obj) in stack:
            self.events.add("cycle")
            raise Under()
        if (cat, obj, defaults) in self.done:
            v = self.done[(cat, obj, defaults)]
            if v is None:
                raise Under()
            return v
        v = None
        loop = self.cats[cat]["kind"] == "Loop"
        if self.cats[cat].get("method"):
            table = self.populate(cat, defaults, stack)
            if obj in table:
                self.events.add("category method")
                return table[obj]
        for m in it["methods"]:
            try:
                v = self.method(it, m, loop, defaults, stack + ((cat, obj),))
                self.events.add("derived" if len(stack) == 0 else "derived indirectly")
                break
            except Under:
                pass
        if v is None and defaults and it["default"] is not None:
            v = it["default"]
            self.events.add("default")
            if loop:
                v = [v] * self.length(cat, defaults, stack + ((cat, obj),))
        if not self.cyclic:
            self.done[(cat, obj, defaults)] = v
        if v is None:
            raise Under()
        return v
    cyclic = False

    def populate(self, cat, defaults, stack):
        """the items of a category that a category method gives"""
        name = (cat, None)
        if (name, defaults) not in self.done:
            if name in stack:
                raise Under()
            self.done[name, defaults] = None
            try:
                r = DRun(self, None, None, defaults, stack + (name,))
                r.run(self.cats[cat]["method"])
                self.done[name, defaults] = r.fancy
            except Under:
                pass
        t = self.done[name, defaults]
        if t is None:
            raise Under()
        if not t:
            raise Discard()
        return t

    def method(self, it, stmts, loop, defaults, stack):
        out = []
        for row in range(self.length(it["cat"], defaults, stack)) if loop else [None]:
            r = DRun(self, it["cat"], row, defaults, stack)
            r.run(stmts)
            self.events |= r.events
            for obj in own_refs(stmts):       # may be looked up before the method starts
                try:
                    self.derive(it["cat"], obj, defaults, stack)
                except Under:
                    raise Discard()
            out.append(r.target)
        return out if loop else out[0]

    def value(self, cat, obj):
        """what a request for the item gives; None when it has no value"""
        for defaults in (False, True):
            try:
                return self.derive(cat, obj, defaults)
            except Under:
                pass
        return None


class DPrinter(drel.Printer):
    """prints method bodies; cat/obj names in the case the dictionary has, or another"""
    SMALL = drel.Printer.SMALL + ("packet", "fancy")

    def __init__(self, seed, cat, obj):
        drel.Printer.__init__(self, seed)
        self.cat, self.obj, self.alias = cat, obj, None

    def ref(self, cat, obj):
        return ["_" + self.cased(cat)] + self.tag(obj)

    def tag(self, obj):
        return ["." + obj] if obj.isdigit() else [".", self.cased(obj)]

    def cased(self, name):
        return self.r.choice([name.upper(), name.lower(), name.capitalize()]) if self.chance(0.15) else name

    def own(self, obj):
        if self.alias:
            return [self.alias] + self.tag(obj)
        return self.ref(self.cat, obj)

    def ex(self, e):
        k = e[0]
        if k == "own":
            return self.own(e[1])
        if k == "item":
            return self.ref(e[1], e[2])
        if k == "att":
            return [e[1]] + self.tag(e[2])
        if k == "row":
            return ["Current_Row", "(", ")"]
        if k == "keyed":
            return [self.cased(e[1]), "["] + self.ex(e[2][0]) + ["]"] + self.tag(e[3])
        return drel.Printer.ex(self, e)

    def small(self, s):
        if s[0] == "out":
            return self.own(self.obj) + ["="] + self.wrap(s[1], 0)
        if s[0] == "packet":
            return [s[1], "=", self.cased(s[2]), "["] + self.ex(s[3][0]) + ["]"]
        if s[0] == "fancy":
            out = [self.cased(s[1]), "("]
            for n, (obj, e) in enumerate(s[2]):
                out += ([","] if n else []) + [".", self.cased(obj), "="] + self.wrap(e, 0)
            return out + [")"]
        return drel.Printer.small(self, s)

    def stmts(self, stmts):
        out = []
        run = []
        for s in stmts:
            if s[0] in ("loop", "with"):
                out += drel.Printer.stmts(self, run)
                run = []
                if s[0] == "loop":
                    out += [self.kw("loop"), s[1], "as", self.cased(s[2])]
                    if s[3]:
                        out += [":", s[3]]
                    if s[4]:
                        out += [s[4][0], s[4][1]]
                    out += self.block(s[5])
                else:
                    self.alias = s[1]
                    out += [self.kw("with"), s[1], "as", self.cased(self.cat)] + self.block(s[2], False)
                    self.alias = None
            else:
                run.append(s)
        return out + drel.Printer.stmts(self, run)


def method_text(stmts, cat, obj, seed):
    return DPrinter(seed, cat, obj).program(stmts)


def field(text):
    return "\n;\n%s\n;\n" % text


def quoted(s):
    return "'%s'" % s


def frame(name, items):
    return "save_%s\n%s\nsave_\n" % (name, "\n".join(" %s %s" % i for i in items))


def dictionary(case):
    """the dictionary as text"""
    out = ["#\\#CIF_2.0\ndata_GEN\n_dictionary.title GEN\n_dictionary.class Instance\n_dictionary.version 1.0\n_dictionary.ddl_conformance 3.14\n"]
    out.append(frame("GEN_HEAD", [("_definition.id", "GEN_HEAD"), ("_definition.scope", "Category"), ("_definition.class", "Head"),
                                  ("_name.object_id", "GEN_HEAD"), ("_name.category_id", "GEN")]))
    for c in case["cats"]:
        keys = [i["obj"] for i in case["items"] if i["cat"] == c["name"] and i["role"] == "key"]
        items = [("_definition.id", c["name"].upper()), ("_definition.scope", "Category"), ("_definition.class", c["kind"]),
                 ("_name.object_id", c["name"].upper()), ("_name.category_id", c.get("parent", "GEN_HEAD"))]
        if keys:
            items.append(("loop_ _category_key.name", " ".join("'_%s.%s'" % (c["name"], k) for k in keys)))
        if c.get("method"):
            items.append(("loop_ _method.purpose _method.expression", "Evaluation" + field(method_text(c["method"], c["name"], None, case["seed"]))))
        out.append(frame(c["name"].upper(), items))
    if case["funcs"]:
        out.append(frame("FUNCTION", [("_definition.id", "FUNCTION"), ("_definition.scope", "Category"), ("_definition.class", "Functions"),
                                      ("_name.object_id", "FUNCTION"), ("_name.category_id", "GEN_HEAD")]))
    for f in case["funcs"]:
        text = drel.Printer(case["seed"]).program([["def", f["name"], f["params"], f["body"]]])
        out.append(frame("function." + f["name"], [("_definition.id", "'_function.%s'" % f["name"]), ("_name.object_id", f["name"]), ("_name.category_id", "function"),
                                                   ("_type.purpose", "Encode"), ("_type.container", "Single"), ("_type.contents", "Integer"),
                                                   ("loop_ _method.purpose _method.expression", "Evaluation" + field(text))]))
    for n, it in enumerate(case["items"]):
        name = "_%s.%s" % (it["cat"], it["obj"])
        code = it["role"] != "item"
        items = [("_definition.id", quoted(name)), ("_name.category_id", it["cat"]), ("_name.object_id", it["obj"]),
                 ("_type.purpose", {"key": "Key", "link": "Link"}.get(it["role"]) or ("Describe" if it["t"] == "S" else "Number")),
                 ("_type.source", "Derived" if it["methods"] else "Assigned"), ("_type.container", "Single"), ("_type.contents", "Code" if code and it["t"] == "S" else TYPES[it["t"]])]
        if it.get("linked"):
            items.append(("_name.linked_item_id", quoted(it["linked"])))
        if it.get("alias"):
            items.append(("loop_ _alias.definition_id", quoted(it["alias"])))
        if it["default"] is not None:
            items.append(("_enumeration.default", cifval(it["default"])))
        if it["methods"]:
            items.append(("loop_ _method.purpose _method.expression",
                          "".join("Evaluation" + field(method_text(m, it["cat"], it["obj"], case["seed"] and case["seed"] + 7 * n + k)) for k, m in enumerate(it["methods"]))))
        out.append(frame(name[1:], items))
    return "\n".join(out)


def cifval(v):
    return "'%s'" % v if isinstance(v, str) else repr(v)


def data(case):
    """the data file as text, and the names in it"""
    out = ["#\\#CIF_2.0\ndata_d\n"]
    raw = {}
    for c in case["cats"]:
        cols = []
        for it in case["items"]:
            if it["cat"] != c["name"] or it["state"] == "none":
                continue
            name = it["alias"] if it["state"] == "alias" else "_%s.%s" % (it["cat"], it["obj"])
            cols.append((name, it))
        if c["kind"] == "Set":
            for name, it in cols:
                t = "?" if it["state"] == "unknown" else shown(it, it["vals"])
                raw[name] = t
                out.append("%s %s\n" % (name, t if t == "?" else delimited(t)))
        elif cols:
            n = c["rows"]
            tab = []
            for name, it in cols:
                ts = ["?"] * n if it["state"] == "unknown" else [shown(it, v) for v in it["vals"]]
                raw[name] = ts
                tab.append([t if t == "?" else delimited(t) for t in ts])
            out.append("loop_ %s\n%s\n" % (" ".join(n_ for n_, i in cols), "\n".join(" ".join(r) for r in zip(*tab))))
    return "".join(out), raw


def shown(it, v):
    return v if isinstance(v, str) else repr(v) + (it.get("esd") or "" if it["t"] == "R" else "")


def delimited(t):
    return t if t[:1].isdigit() or t[:1] in "-." else "'%s'" % t
