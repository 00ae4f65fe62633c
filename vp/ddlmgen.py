"""Hypothesis strategy for DDLm dictionaries with methods and a data block (see ddlm.py)."""
from hypothesis import strategies as st
from vp.drelgen import lit

SETS = ["cell", "exptl", "refine_ls", "a"]
LOOPS = ["atom_site", "p", "geom_bond", "loop_thing", "Symop", "refln"]
OBJS = ["u", "v", "w", "x1", "volume", "B_iso", "Total", "type_symbol", "d", "kind", "ineq", "or_x", "F_calc", "12", "3", "10", "l10_2"]
WORDS = ["c1", "O2", "n_3", "Fe4", "h5a", "X6", "zz", "Na7"]
TEXTS = ["red", "Blue", "a b", "x-y", "mono clinic", "it"]
TMP = ["t1", "s", "acc", "k9", "inside", "r"]
ALIASES = ["al", "be", "ga", "de", "asx", "bondx"]


class D(object):
    def __init__(self, draw):
        self.draw = draw

    def i(self, a, b):
        return self.draw(st.integers(a, b))

    def pick(self, seq):
        return self.draw(st.sampled_from(seq))

    def value(self, t):
        if t == "I":
            return self.i(-9, 20)
        if t == "R":
            return self.i(-400, 900) / 8.0
        return self.pick(TEXTS)


class M(D):
    """bodies of methods for one item"""
    def __init__(self, draw, case, it, refs, funcs):
        D.__init__(self, draw)
        self.case, self.it, self.refs, self.funcs = case, it, list(refs), funcs
        self.tmp = list(TMP)
        self.al = list(ALIASES)

    def ref(self, t):
        c = [r for r in self.refs if r[1] == t]
        return self.pick(c)[0] if c else None

    def expr(self, t, d=2):
        r = self.ref(t)
        if r is not None and (d <= 0 or self.i(0, 2) == 0):
            return r
        if t == "S":
            if d <= 0 or self.i(0, 1):
                w = self.pick(TEXTS)
                return ["str", "'%s'" % w, w]
            return ["bin", "+", self.expr("S", d - 1), self.expr("S", d - 1)]
        if t == "I":
            if d <= 0:
                return lit(self.i(-5, 9))
            if self.funcs and self.i(0, 4) == 0:
                f = self.pick(self.funcs)
                return ["call", f["name"], [self.expr("I", d - 1) for _ in f["params"]]]
            if self.i(0, 3) == 0:
                return ["call", self.pick(["max", "min"]), [self.expr("I", d - 1), self.expr("I", d - 1)]]
            return ["bin", self.pick("+-*+-"), self.expr("I", d - 1), self.expr("I", d - 1)]
        if d <= 0:
            return ["real", self.pick(["1.5", "0.25", "2.", "12.75"])]
        if self.i(0, 3) == 0:
            return ["bin", "/", self.expr(self.pick("RI"), d - 1), lit(self.i(1, 8))]
        a, b = self.pick([("R", "I"), ("I", "R"), ("R", "R")])
        return ["bin", self.pick("+-*"), self.expr(a, d - 1), self.expr(b, d - 1)]

    def cond(self):
        t = self.pick("IIR")
        return ["cmp", self.pick(["<", ">", "<=", ">=", "==", "!="]), self.expr(t, 1), self.expr(t, 1)]

    def with_refs(self, more, fn):
        keep, self.refs = self.refs, self.refs + more * 2
        try:
            return fn()
        finally:
            self.refs = keep

    def columns(self, cat, alias):
        return m_columns(self.case, cat, alias)

    def aggregate(self, t):
        """statements that leave a value of type t in a variable; the variable"""
        v = self.tmp.pop()
        zero = {"I": lit(0), "R": ["real", "0.0"], "S": ["str", "''", ""]}[t]
        cats = [c["name"] for c in self.case["cats"] if c["kind"] == "Loop" and self.case["_usable"].get(c["name"])]
        if not cats:
            return [["set", v, zero]], v
        cat = self.pick(cats)
        return [["set", v, zero], self.loop(cat, v, t, self.i(0, 1), None)], v

    def add(self, v, t):
        if t == "S":
            return ["set", v, ["bin", "+", ["var", v], self.expr("S", 1)]]
        return ["aug", v, self.pick(["+=", "-=", "+="]), self.expr(t, 1)]

    def loop(self, cat, v, t, nest, outer):
        alias = self.al.pop()
        index = self.pick([None, "i1", "jj"][0 if outer else 0:]) if not outer else self.pick([None, "m2"])
        test = None
        if outer and index:
            test = [self.pick(["<", ">", "<=", ">=", "!=", "=="]), outer] if self.i(0, 3) else None
        more = self.columns(cat, alias) + ([(["var", index], "I")] if index else [])

        def make():
            body = []
            c = self.i(0, 5)
            if c == 0:
                body.append(["if", [[self.cond(), [[self.pick(["next", "break"])]]]], None])
            if c == 1:
                body.append(["if", [[self.cond(), [self.add(v, t)]]], [self.add(v, t)] if self.i(0, 1) else None])
            else:
                body.append(self.add(v, t))
            if nest and self.i(0, 2):
                cats = [c_["name"] for c_ in self.case["cats"] if c_["kind"] == "Loop" and self.case["_usable"].get(c_["name"])]
                body.append(self.loop(self.pick(cats), v, t, 0, index))
            return body
        return ["loop", alias, cat, index, test, self.with_refs(more, make)]

    def body(self):
        t = self.it["t"]
        c = self.i(0, 9)
        keyed = self.case["_keyed"].get(self.it["cat"], [])
        if c <= 2:
            out = [["out", self.expr(t)]]
        elif c == 3:
            v = self.tmp.pop()
            t2 = self.pick("IRS" if t == "S" else "IR" if t == "R" else "I")
            out = [["set", v, self.expr(t2)], ["out", self.with_refs([(["var", v], t2)], lambda: self.expr(t))]]
        elif c <= 5:
            pre, v = self.aggregate(t)
            out = pre + [["out", self.with_refs([(["var", v], t)], lambda: self.expr(t, 1))]]
        elif c == 6 and keyed:
            cat, key = self.pick(keyed)
            v = "pk"
            more = self.columns(cat, v)
            out = [["packet", v, cat, [key]], ["out", self.with_refs(more, lambda: self.expr(t))]]
        elif c == 7 and self.it["loop"]:
            out = [["out", self.with_refs([(["row"], "I")], lambda: self.expr(t))]]
        elif c == 8:
            out = [["if", [[self.cond(), [["out", self.expr(t)]]] for _ in range(self.i(1, 2))], [["out", self.expr(t)]]]]
        else:
            out = [["out", self.expr(t)]]
        if self.i(0, 4) == 0:
            out = [["with", "wi", out]]
        return out


def made_category(draw, d, case, source, key, refs):
    """a category that a method makes from another"""
    c = {"name": d.pick(["made_up", "Angle"]), "kind": "Loop"}
    case["cats"].append(c)
    alias = "al"
    m = M(draw, case, {"cat": None, "t": None, "loop": True}, refs + m_columns(case, source, alias) * 2, case["funcs"])
    row = [["id", ["att", alias, key["obj"]]]]
    items = [("id", key["t"], "key")]
    for obj in ["u", "val_2", "E_x", "y1", "q"][:d.i(0, 5)]:
        t = d.pick("IIR")
        row.append([obj, m.expr(t, 1)])
        items.append((obj, t, "item"))
    body = [["fancy", c["name"], row]]
    if d.i(0, 2) == 0:
        body = [["if", [[m.cond(), [["set", "nothing_1", lit(1)]]]], None]] + body
    index = d.pick([None, "n1"])
    c["method"] = [["loop", alias, source, index, None, body]]
    items.append(("later", d.pick("IR"), "item"))
    own = [(["own", o], t) for o, t, r in items[:-1] if t != "S"]
    for obj, t, role in items:
        it = {"cat": c["name"], "obj": obj, "t": t, "state": "none", "vals": [], "default": None, "methods": [], "role": role, "loop": True, "alias": None}
        if obj == "later":
            it["methods"] = [M(draw, case, it, refs + own * 2, case["funcs"]).body()]
        if role == "key":
            case["items"].insert(0, it)
        else:
            case["items"].append(it)
        if t != "S" and obj != "later":
            case["_usable"].setdefault(c["name"], []).append(obj)


def m_columns(case, cat, alias):
    return [(["att", alias, i["obj"]], i["t"]) for i in case["items"] if i["cat"] == cat and i["obj"] in case["_usable"].get(cat, [])]


@st.composite
def dictionaries(draw, cyclic=False):
    d = D(draw)
    sets = draw(st.permutations(SETS))[:d.i(1, 2)]
    loops = draw(st.permutations(LOOPS))[:d.i(1, 2)]
    cats = [{"name": s, "kind": "Set"} for s in sets] + [{"name": l, "kind": "Loop", "rows": d.i(1, 4)} for l in loops]
    case = {"cats": cats, "items": [], "funcs": [], "_usable": {}, "_keyed": {}, "seed": draw(st.one_of(st.just(0), st.integers(1, 10 ** 6)))}
    for n in range(d.pick([0, 0, 1])):
        params = ["pa", "pb"][:d.i(1, 2)]
        case["funcs"].append({"name": d.pick(["Twice", "f_sum", "iffy"]), "params": params, "body": None})
        f = case["funcs"][-1]
        f["body"] = [["set", f["name"], ["bin", d.pick("+-*"), ["var", params[0]], ["bin", d.pick("+*"), ["var", params[-1]], lit(d.i(-3, 4))]]]]
    refs = []         # (node, type) for items of Set categories, in order of definition
    own = {}
    key_of = {}
    for n, c in enumerate(cats):
        if c["kind"] == "Loop":
            t = d.pick("SSI")
            vals = list(draw(st.permutations(WORDS)))[:c["rows"]] if t == "S" else draw(st.lists(st.integers(0, 30), min_size=c["rows"], max_size=c["rows"], unique=True))
            it = {"cat": c["name"], "obj": d.pick(["id", "label", "Key"]), "t": t, "state": "data", "vals": vals, "default": None, "methods": [], "role": "key", "loop": True, "alias": None}
            case["items"].append(it)
            key_of[c["name"]] = it
            own[c["name"]] = [(["own", it["obj"]], t)]
            if t == "I":
                case["_usable"].setdefault(c["name"], []).append(it["obj"])
    # links between the loops
    if len(loops) == 2 and d.i(0, 2):
        a, b = loops
        ka = key_of[a]
        rows = [c for c in cats if c["name"] == b][0]["rows"]
        vals = [d.pick(ka["vals"]) for _ in range(rows)]
        if ka["t"] == "S":
            vals = [d.pick([v, v.upper(), v.lower()]) if d.i(0, 2) == 0 else v for v in vals]
        it = {"cat": b, "obj": "link_1", "t": ka["t"], "state": "data", "vals": vals, "default": None, "methods": [], "role": "link", "loop": True, "alias": None,
              "linked": "_%s.%s" % (a, ka["obj"])}
        case["items"].append(it)
        case["_keyed"][b] = [[a, ["own", "link_1"]]]
        own[b].append((["own", "link_1"], ka["t"]))
    ka = key_of[loops[0]]
    k0 = d.pick(ka["vals"])
    for s in sets:
        case["_keyed"][s] = [[loops[0], ["str", "'%s'" % k0, k0] if ka["t"] == "S" else lit(k0)]]
    todo = []
    for c in cats:
        objs = draw(st.permutations(OBJS))[:d.i(2, 4)]
        todo += [(c, o) for o in objs]
    todo = draw(st.permutations(todo))
    made = d.pick([0, 0, 1]) and d.i(0, len(todo))
    for n, (c, obj) in enumerate(todo):
        if made == n + 1:
            made_category(draw, d, case, loops[0], key_of[loops[0]], refs)
        loop = c["kind"] == "Loop"
        t = d.pick("IIRRS")
        n = c.get("rows", 1)
        it = {"cat": c["name"], "obj": obj, "t": t, "state": d.pick(["data", "none", "none", "alias", "unknown", "none"]), "vals": None, "default": None, "methods": [],
              "role": "item", "loop": loop, "alias": None}
        if t == "R":
            it["esd"] = d.pick([None, None, "(3)", "(12)"])
        if it["state"] == "alias" or d.i(0, 5) == 0:
            it["alias"] = "_%s_old_%s" % (c["name"], obj)
        if it["state"] in ("data", "alias"):
            it["vals"] = [d.value(t) for _ in range(n)] if loop else d.value(t)
        if d.i(0, 4) == 0:
            it["default"] = d.value(t) if t != "S" else d.pick(TEXTS)
        here = refs + own.get(c["name"], []) * 2 if loop else list(refs)
        if it["state"] not in ("data", "alias") and d.i(0, 5) or d.i(0, 3) == 0:
            m = M(draw, case, it, here, case["funcs"])
            it["methods"] = [m.body()]
            if d.i(0, 6) == 0:
                it["methods"].insert(0, [["out", ["bin", "+", ["item", sets[0], "nothing"], ["item", sets[0], "nothing"]]]])
        case["items"].append(it)
        if loop:
            own[c["name"]].append((["own", obj], t))
        else:
            refs.append((["item", c["name"], obj], t))
        if loop:
            case["_usable"].setdefault(c["name"], []).append(obj)
    case["items"].append({"cat": sets[0], "obj": "nothing", "t": "I", "state": "none", "vals": None, "default": None, "methods": [], "role": "item", "loop": False, "alias": None})
    names = [[i["cat"], i["obj"]] for i in case["items"]]
    case["order"] = [list(x) for x in draw(st.permutations(names))]
    case["provide"] = draw(st.booleans())
    del case["_usable"], case["_keyed"]
    return case
