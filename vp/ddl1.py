"""DDL1 dictionaries, data files judged against them, and a model of validity."""
import re
from hypothesis import strategies as st
from vp.ddlmgen import D

NUM = re.compile(r"[+-]?([0-9]*\.[0-9]+|[0-9]+\.?)(\([0-9]+\))?([eEdD][+-]?[0-9]+)?")
MISSING = (".", "?")

CATS = ["alpha", "beta_site", "gamma"]
TAILS = ["id", "label", "x", "y_z", "B_iso", "R_factor_%", "wt", "sym/ref", "index_h", "index_k", "n[1]", "Colour"]
# construct, good values, bad values
CONSTRUCTS = [("char", "[A-Z][a-z]?", ["A", "Ab", "Zq"], ["a", "ABC", "1", "Abc"]),
              ("char", "a|ab", ["a", "ab"], ["b", "aab", "abb", "ac"]),
              ("char", "(yes|no)", ["yes", "no"], ["Yes", "nono", "y"]),
              ("char", "[0-9]+-[0-9]+", ["1-2", "10-07"], ["1-", "a1-2", "1-2b"]),
              ("char", "x|y|[0-9]+", ["x", "y", "77"], ["xy", "x7", "z"]),
              ("numb", r"-?[0-9]+(\([0-9]+\))?", ["3", "-4", "5(1)"], ["3.5", "x", "1e3"]),
              ("numb", "0|1|[2-9][0-9]", ["0", "1", "25"], ["2", "01", "255", "x"])]
WORDS = ["C1", "c1", "O2", "red", "a b", "it's", "1", "1.0", "x y z", "C1 O2", "O2 C1", "[a]", "data1"]
NUMS = ["1", "2", "0", "-1", "-2.5", "3.25", "10", "1e1", "100.", ".5", "-.5", "+2", "+0.5", "2.5e-1", "1D1", "99", "7"]
ESDS = ["1(1)", "2.5(3)", "-1.0(12)", "1.5(2)e1", "+3(1)", "10.(2)"]
BADNUMS = ["x1", "1.2.3", "1(", "(2)", "1-", "1 2", "--1", "1e", "one", "2(3)x", "1,5"]
RANGES = ["0:10", "0:", ":10", "-1.5:2.5", "0.0:100.", "1:1", "-10:-1", ".5:1e1", "2:"]


def bounds(r):
    a, b = r.split(":")
    return (float(a) if a else None), (float(b) if b else None)


def number(s):
    """value and whether an uncertainty is given"""
    m = NUM.fullmatch(s)
    if not m:
        return None
    t = s.replace(m.group(2), "") if m.group(2) else s
    return float(t.replace("d", "e").replace("D", "e")), bool(m.group(2))


class G(D):
    def some(self, k):
        return self.i(0, k - 1) == 0


@st.composite
def cases(draw, fields=None):
    d = G(draw)
    cats = CATS[:d.i(1, 3)]
    items = []
    for c in cats:
        tails = list(TAILS)
        for n in range(d.i(2, 5)):
            t = tails.pop(d.i(0, len(tails) - 1))
            name = "_%s_%s" % (c, t)
            it = {"name": name, "cat": c, "type": d.pick(["char", "char", "numb", "numb"]), "construct": None, "esd": d.some(3), "enum": [], "range": None,
                  "list": d.pick([None, "no", "both", "both", "yes", "yes"]), "mand": d.some(6), "ref": [], "parent": None, "children": [], "rel": [], "unique": None}
            if d.some(5):
                k = d.i(0, len(CONSTRUCTS) - 1)
                it["construct"], it["type"] = k, CONSTRUCTS[k][0]
            elif it["type"] == "char" and d.some(3):
                it["enum"] = sorted(set(d.pick(WORDS) for _ in range(d.i(1, 3))))
            if it["type"] == "numb" and d.some(2):
                it["range"] = d.pick(RANGES)
            items.append(it)
    low = {}
    for it in items:
        low.setdefault(it["cat"], []).append(it)
    for it in items:
        mates = [o for o in low[it["cat"]] if o is not it]
        sp = lambda n: n if not d.some(4) else d.pick([n.lower(), n.upper()])
        if mates and it["list"] in ("yes", "both") and d.some(4):
            it["ref"] = [sp(d.pick(mates)["name"]) for _ in range(1 + d.some(4))]
            if d.some(3):
                it["ref"] = ["_%s_index_" % it["cat"]]
        if d.some(6) and it["list"] in ("yes", "both") and mates:
            it["unique"] = sp(it["name"] if d.some(2) else d.pick(mates)["name"])
        others = [o for o in items if o is not it]
        if others and d.some(8):
            it["rel"] = [[sp(d.pick(others)["name"]), d.pick(["alternate", "alternate", "replace", "conversion", "alternate_exclusive"])] for _ in range(1 + d.some(3))]
        if others and d.some(5):
            o = d.pick(others)
            if o["parent"] is None:
                how = d.i(0, 2)
                if how != 1:
                    it["parent"] = sp(o["name"])
                if how != 0:
                    o["children"].append(sp(it["name"]))
                if it["construct"] is None and not it["enum"] and o["construct"] is None:
                    it["type"], it["range"], it["pool"] = o["type"], o["range"], o["enum"]
    for it in items:       # nothing stands in for its own parent
        if it["parent"]:
            p = [o for o in items if o["name"].lower() == it["parent"].lower()][0]
            p["rel"] = [r for r in p["rel"] if r[0].lower() != it["name"].lower()]
        for o in items:
            if o["name"].lower() in [c.lower() for c in it["children"]]:
                o["rel"] = [r for r in o["rel"] if r[0].lower() != it["name"].lower()]
    for it in list(items):     # one definition of two names
        if d.some(8):
            items.append(dict(it, name=it["name"] + "_2", twin=it["name"]))
    blocks = [data_block(d, cats, items, n) for n in range(d.i(1, 3))]
    return {"cats": cats, "cover": [d.i(0, 1) for c in cats], "items": items, "blocks": blocks}


def value(d, it, parents):
    if d.some(12):
        return d.pick([".", "?"])
    if it.get("parent") and parents.get(it["parent"].lower()) and not d.some(8):
        return d.pick(parents[it["parent"].lower()])
    bad = d.some(30)
    if it["construct"] is not None:
        return d.pick(CONSTRUCTS[it["construct"]][3 if bad else 2])
    if it["enum"] and not bad:
        return d.pick(it["enum"])
    if it["type"] == "char":
        return d.pick(WORDS)
    if bad:
        return d.pick(BADNUMS)
    if d.some(3) if it["esd"] else d.some(25):
        return d.pick(ESDS)
    v = d.pick(NUMS)
    if it["range"] and not inside(v, it["range"]) and not d.some(12):
        a, b = bounds(it["range"])
        v = "%.12g" % (a if a is not None else b)
    return v


def inside(v, r):
    a, b = bounds(r)
    n = number(v)
    return n is None or ((a is None or n[0] >= a) and (b is None or n[0] <= b))


def data_block(d, cats, items, n):
    """scalars and loops, mostly obeying the dictionary"""
    scal, loops, used = [], [], set()
    vals = {}
    sp = lambda s: s if not d.some(5) else d.pick([s.lower(), s.upper()])
    for c in cats:
        mine = [i for i in items if i["cat"] == c]
        want = [i for i in mine if not d.some(3)]
        looped = [i for i in want if i["list"] == "yes" or (i["list"] == "both" and d.some(2)) or d.some(20)]
        single = [i for i in want if i not in looped and (i["list"] != "yes" or d.some(10))]
        if looped and d.some(12):
            looped.append(d.pick(items))
        # complete references, mostly
        if looped and not d.some(4):
            for i in mine:
                if i not in looped and i not in single and (i["mand"] or any(i["name"].lower().startswith(r.lower()) for l in looped for r in l["ref"])):
                    looped.append(i)
        seq, seen = [], set()
        for i in looped:
            if i["name"] not in used and i["name"] not in seen:
                seq.append(i)
                seen.add(i["name"])
        if seq:
            k = d.i(0, len(seq) - 1)
            seq = seq[k:] + seq[:k]
            rows = d.i(1, 4)
            cols = []
            for i in seq:
                col = [value(d, i, vals) for _ in range(rows)]
                if (i["unique"] or d.some(3)) and not i["parent"] and not d.some(4):
                    col = distinct(d, i, rows)
                cols.append(col)
                vals[i["name"].lower()] = col
            names = [sp(i["name"]) for i in seq]
            if d.some(6):
                names.insert(d.i(0, len(names)), "_unknown_loop_%d" % len(loops))
                cols.insert([x.startswith("_unknown") for x in names].index(True), [d.pick(WORDS) for _ in range(rows)])
            used |= seen
            loops.append([names, [list(r) for r in zip(*cols)]])
        for i in single:
            if i["name"] in used:
                continue
            used.add(i["name"])
            v = value(d, i, vals)
            vals[i["name"].lower()] = [v]
            scal.append([sp(i["name"]), v])
    if d.some(3):
        scal.append(["_Unknown_thing", d.pick(WORDS)])
    if d.some(8):
        loops.append([["_unknown_a", "_unknown_b"], [["1", "2"], ["3", "4"]]])
    return {"name": ["one", "Two", "b3"][n], "scal": scal, "loops": loops}


def distinct(d, it, rows):
    if it["construct"] is None and not it["enum"]:
        base = NUMS[:5] if it["type"] == "numb" else WORDS[:5]
        k = d.i(0, 4)
        return [base[(k + j) % 5] for j in range(rows)]
    return [value(d, it, {}) for _ in range(rows)]


# ---- text

def q(s):
    if s in MISSING:
        return s
    if re.fullmatch(r"[A-Za-z0-9.+(][A-Za-z0-9.+()%/,-]*|-[0-9.][0-9.eEdD()]*", s) and not re.match(r"(?i)data|save|loop|stop|global", s):
        return s
    return '"%s"' % s


def loop(names, rows):
    return "loop_\n%s\n%s\n" % ("\n".join(" " + n for n in names), "\n".join(" " + " ".join(r) for r in rows))


def dictionary(case):
    return "\n".join(dictionary_parts(case))


def dictionary_parts(case):
    """head and definitions"""
    out = ["data_on_this_dictionary\n_dictionary_name gen.dic\n_dictionary_version 1.0\n"]
    for c, cover in zip(case["cats"], case["cover"]):
        if cover:
            out.append("data_%s_[]\n_name '_%s_[]'\n_category category_overview\n_type null\n_definition 'all of it'\n" % (c, c))
    twins = dict((i["twin"], i["name"]) for i in case["items"] if i.get("twin"))
    for it in case["items"]:
        if it.get("twin"):
            continue
        names = "_name '%s'\n" % it["name"]
        if it["name"] in twins:
            names = loop(["_name"], [["'%s'" % it["name"]], ["'%s'" % twins[it["name"]]]])
        t = "data_%s\n%s_category %s\n_type %s\n" % (it["name"][1:], names, it["cat"], it["type"])
        if it["construct"] is not None:
            t += "_type_construct \"%s\"\n" % CONSTRUCTS[it["construct"]][1]
        if it["esd"]:
            t += "_type_conditions esd\n"
        if len(it["enum"]) == 1 and len(it["name"]) % 2:
            t += "_enumeration %s\n" % q(it["enum"][0])
        elif it["enum"]:
            t += loop(["_enumeration", "_enumeration_detail"], [[q(e), "'is %s'" % len(e)] for e in it["enum"]])
        if it["range"]:
            t += "_enumeration_range %s\n" % q(it["range"]) if it["range"][0] != ":" else "_enumeration_range '%s'\n" % it["range"]
        if it["list"]:
            t += "_list %s\n" % it["list"]
        if it["mand"]:
            t += "_list_mandatory yes\n"
        for tag, v in (("_list_reference", it["ref"]), ("_list_link_child", it["children"])):
            if len(v) == 1:
                t += "%s '%s'\n" % (tag, v[0])
            elif v:
                t += loop([tag], [["'%s'" % x] for x in v])
        if it["parent"]:
            t += "_list_link_parent '%s'\n" % it["parent"]
        if it["unique"]:
            t += "_list_uniqueness '%s'\n" % it["unique"]
        if len(it["rel"]) == 1:
            t += "_related_item '%s'\n_related_function %s\n" % tuple(it["rel"][0])
        elif it["rel"]:
            t += loop(["_related_item", "_related_function"], [["'%s'" % a, f] for a, f in it["rel"]])
        out.append(t + "_definition 'what it is'\n")
    return out


def data(case):
    out = []
    for b in case["blocks"]:
        out.append("data_%s\n" % b["name"] + "".join("%s %s\n" % (n, q(v)) for n, v in b["scal"]) + "".join(loop(n, [[q(v) for v in r] for r in rows]) for n, rows in b["loops"]))
    return "\n".join(out)


# ---- validity

class Judge(object):
    def __init__(self, case):
        self.items = dict((i["name"].lower(), i) for i in case["items"])
        self.must, self.uniq = {}, {}
        for it in case["items"]:
            if it["mand"]:
                self.must.setdefault(it["cat"], []).append(it["name"].lower())
            if it["unique"]:
                u = self.uniq.setdefault(it["cat"], [])
                for n in (it["name"].lower(), it["unique"].lower()):
                    if n not in u:
                        u.append(n)

    def alternates(self, n, funcs=("alternate", "replace")):
        return [a.lower() for a, f in self.items[n]["rel"] if f in funcs]

    def present(self, block):
        """values and loops of the items that are defined, and the names of the others"""
        vals, loops, unknown = {}, [], []
        for n, v in block["scal"]:
            if n.lower() in self.items:
                vals[n.lower()] = v
            else:
                unknown.append(n.lower())
        for names, rows in block["loops"]:
            mine = []
            for k, n in enumerate(names):
                if n.lower() in self.items:
                    vals[n.lower()] = [r[k] for r in rows]
                    mine.append(n.lower())
                else:
                    unknown.append(n.lower())
            if mine:
                loops.append(mine)
        return vals, loops, unknown

    def judge(self, block):
        vals, loops, unknown = self.present(block)
        bad, open_ = {}, set()          # (name, test) -> offending values or None; open_: not decided
        for n, v in vals.items():
            self.item(n, v, bad, open_)
            self.across(n, v, vals, loops, bad)
        for names in loops:
            self.looped(names, bad)
        return bad, open_, sorted(unknown)

    def item(self, n, v, bad, open_):
        it = self.items[n]
        vs = [x for x in (v if isinstance(v, list) else [v])]
        real = [x for x in vs if x not in MISSING]
        if it["construct"] is not None:
            wrong = [x for x in real if not re.fullmatch(CONSTRUCTS[it["construct"]][1], x)]
        elif it["type"] == "numb":
            wrong = [x for x in real if number(x) is None]
        else:
            wrong = []
        if wrong:
            bad[n, "validate_item_type"] = wrong
        if it["type"] == "numb":
            if any(number(x) is None for x in real):
                open_ |= set([(n, "validate_item_esd"), (n, "validate_enum_range")])
            else:
                w = [x for x in real if number(x)[1]]
                if w and not it["esd"]:
                    bad[n, "validate_item_esd"] = w
                if it["range"]:
                    w = [x for x in real if not inside(x, it["range"])]
                    if w:
                        bad[n, "validate_enum_range"] = w
        if it["enum"]:
            w = [x for x in real if x not in it["enum"]]
            if w:
                bad[n, "validate_item_enum"] = w
        if (it["list"] == "yes") if not isinstance(v, list) else (it["list"] in ("no", None)):
            bad[n, "validate_looping"] = None

    def looped(self, names, bad):
        first = self.items[names[0]]["cat"]
        w = [n for n in names if self.items[n]["cat"] != first]
        if w:
            bad[names[0], "validate_loop_membership"] = None
        for k in self.must.get(first, []):
            if k not in names and not any(a in names for a in self.alternates(k)):
                bad[names[0], "validate_loop_key"] = None
        for n in names:
            for r in self.items[n]["ref"]:
                r = r.lower()
                if r.endswith("_"):
                    ok = any(x.startswith(r) for x in names)
                else:
                    ok = r in names or any(a in names for a in self.alternates(r))
                if not ok:
                    bad[names[0], "validate_loop_references"] = None

    def across(self, n, v, vals, loops, bad):
        it = self.items[n]
        aslist = lambda x: x if isinstance(x, list) else [x]
        if any(a in vals for a in self.alternates(n, ("replace", "alternate_exclusive"))):
            bad[n, "validate_exclusion"] = None
        if it["parent"]:
            p = it["parent"].lower()
            if p not in vals:
                p = ([a for a in self.alternates(p) if a in vals] or [None])[0]
            have = aslist(vals[p]) if p else []
            w = [x for x in aslist(v) if x not in MISSING and x not in have]
            if w:
                bad[n, "validate_parent"] = w if p else None
        kids = [k.lower() for k in it["children"]]
        for k in list(kids):
            kids += self.alternates(k)
        for k in kids:
            if k in vals and [x for x in aslist(vals[k]) if x not in MISSING and x not in aslist(v)]:
                bad[n, "validate_child"] = None
        u = self.uniq.get(it["cat"], [])
        if n in u and isinstance(v, list):
            cols = [v]
            home = [l for l in loops if n in l][0]
            for o in u:
                if o == n:
                    continue
                if o not in vals or (isinstance(vals[o], list) and o not in home):
                    cols = None
                    break
                cols.append(vals[o] if isinstance(vals[o], list) else [vals[o]] * len(v))
            if cols is None:
                bad[n, "validate_uniqueness"] = None
            else:
                keys = list(zip(*cols))
                if len(set(keys)) < len(keys):
                    bad[n, "validate_uniqueness"] = None


# ---- changes to a validated block

@st.composite
def histories(draw):
    case = draw(cases())
    d = G(draw)
    items = case["items"]
    ops = []
    for n in range(d.i(3, 9)):
        how = d.pick(["set", "set", "set", "block", "del", "col", "addto"])
        it = d.pick(items)
        vals = {}
        for o in items:
            if o["enum"]:
                vals[o["name"].lower()] = o["enum"]
        if how == "set":
            ops.append(["set", d.i(0, 2), it["name"], value(d, it, vals)])
        elif how == "block":
            b = data_block(d, case["cats"], items, 0)
            ops += [["set", d.i(0, 2), n_, v] for n_, v in b["scal"]] + [["loop", d.i(0, 1), ns, rows] for ns, rows in b["loops"]]
        elif how == "del":
            ops.append(["del", d.i(0, 2), it["name"]])
        elif how == "col":
            ops.append(["col", d.i(0, 2), it["name"], [value(d, it, vals) for _ in range(4)]])
        else:
            ops.append(["addto", d.i(0, 2), it["name"], d.pick(items)["name"], [value(d, it, vals) for _ in range(4)]])
    case["ops"] = ops
    return case
