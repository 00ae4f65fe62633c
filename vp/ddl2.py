"""DDL2 dictionaries, data files judged against them, and a model of validity."""
import re
from hypothesis import strategies as st
from vp.ddl1 import G, MISSING, loop

CATS = ["atom", "bond_site", "cell"]
TAILS = ["id", "label", "x", "y_z", "B_iso", "wt", "kind", "num[1]", "Colour", "details"]
# code, primitive, construct, good values, bad values
TYPES = [("code", "char", r"""[_,.;:"&<>()/\{}'`~!@#$%A-Za-z0-9*|+-]*""", ["a1", "A1", "O2*", "b'", "x\\y", "p{q}", "C,D", "1"], ["a b", "a\nb", "x=y", "[c]"]),
         ("ucode", "uchar", r"[A-Z][a-z]?", ["A", "Ab", "Zq"], ["a", "ABC", "1"]),
         ("int", "numb", r"-?[0-9]+", ["0", "1", "2", "3", "10", "-4"], ["1.5", "x", "1(1)", "--1", "1 2"]),
         ("float", "numb", r"-?(([0-9]+)[.]?|([0-9]*[.][0-9]+))([(][0-9]+[)])?([eE][+-]?[0-9]+)?", ["0", "1.5", "-2.5", "3.", ".25", "10", "1e1", "2.5e-1"], ["x", "1.2.3", "+1", "1e", "1(", "2(3)x"]),
         ("text", "char", "[][ \\n\\t()_,.;:\"&<>/\\{}'`~!@#$%?+=*A-Za-z0-9|^-]*", ["two words", "line one\nline two", "it's", "a", "x\\{y}", "a=b [c]", "tab\there"], ["caf\u00e9"][:0]),
         ("alt", "char", r"x|xy|[0-9]+", ["x", "xy", "77"], ["y", "xx", "x7"]),
         ("date", "char", r"[0-9]?[0-9]?[0-9][0-9]-[0-9]?[0-9]-[0-9]?[0-9]", ["2001-01-02", "01-1-9"], ["1-1", "2001/01/02", "x2001-01-02"])]
T = dict((t[0], t) for t in TYPES)
WITH_SU = ["1.5(2)", "10(1)", "-2.5(3)e1"]
NUM = re.compile(r"[+-]?([0-9]*\.[0-9]+|[0-9]+\.?)(\([0-9]+\))?([eEdD][+-]?[0-9]+)?")
RANGES = [[["10", "0"]], [["10", "0"], ["0", "0"], ["10", "10"]], [[".", "0"]], [["0", "."], ["0", "0"]], [["2.5", "-1"], ["10", "10"]], [["1", "1"]], [[".", "2"], ["0", "-3"], ["1", "1"]]]     # maximum, minimum


def number(s):
    m = NUM.fullmatch(s)
    if not m:
        return None
    return float((s.replace(m.group(2), "") if m.group(2) else s).replace("d", "e").replace("D", "e")), bool(m.group(2))


def inside(v, r):
    n = number(v)
    for hi, lo in r:
        a, b = (None if lo == "." else float(lo)), (None if hi == "." else float(hi))
        if (a is None or n[0] > a) and (b is None or n[0] < b) or a is not None and a == b == n[0]:
            return True
    return False


@st.composite
def cases(draw):
    d = G(draw)
    cats = [{"id": c, "keys": [], "mand": d.some(7), "first": d.some(2)} for c in CATS[:d.i(1, 3)]]
    items = []
    for c in cats:
        tails = list(TAILS)
        for n in range(d.i(2, 5)):
            t = tails.pop(d.i(0, len(tails) - 1))
            ty = d.pick(["code", "code", "ucode", "int", "float", "float", "text", "alt", "date"])
            it = {"name": "_%s.%s" % (c["id"], t), "cat": c["id"], "type": ty, "esd": d.some(2), "enum": [], "range": None, "mand": d.pick(["yes", "no", "no", "implicit"]), "parent": None,
                  "links": 0, "deps": [], "rel": [], "alias": [], "bare": False, "frame": d.i(0, 2), "shape": d.i(0, 3)}
            if ty in ("code", "ucode", "alt") and d.some(3):
                it["enum"] = sorted(set(d.pick(T[ty][3]) for _ in range(d.i(1, 3))))
            if ty in ("int", "float") and d.some(2):
                it["range"] = d.pick(RANGES)
            items.append(it)
        mine = [i for i in items if i["cat"] == c["id"]]
        c["keys"] = [i["name"] for i in mine[:d.i(0, 2)]]
    for k, it in enumerate(items):
        others = [o for o in items if o is not it]
        if k and d.some(3):            # parents come first: no circles
            p = items[d.i(0, k - 1)]
            it["parent"] = p["name"]
            it["links"] = d.i(0, 3)    # where the link is written: here, in the parent's definition with or without the names, in the topmost one
            it["type"], it["range"], it["enum"], it["pool"] = p["type"], p["range"], p["enum"] if d.some(2) else [], True
            it["bare"] = it["links"] > 1 and d.some(2)
        if others and d.some(6):
            it["deps"] = [d.pick(others)["name"] for _ in range(1 + d.some(3))]
        if others and d.some(8):
            it["rel"] = [[d.pick(others)["name"], d.pick(["alternate", "replace", "alternate_exclusive", "conversion_constant"])]]
        if d.some(5):
            it["alias"] = [a for a in ["_%s_%s" % (it["cat"], it["name"].split(".")[1]), "_old_%s%d" % (it["cat"], k)][:1 + d.some(3)]]
    for it in items:       # nothing stands in for its own parent
        if it["parent"]:
            p = [o for o in items if o["name"] == it["parent"]][0]
            p["rel"] = [r for r in p["rel"] if r[0] != it["name"]]
            it["rel"] = [r for r in it["rel"] if r[0] != p["name"]]
    blocks = [data_block(d, cats, items, n) for n in range(d.i(1, 2))]
    return {"cats": cats, "items": items, "blocks": blocks, "order": d.i(0, 5)}


def value(d, it, vals):
    if d.some(12):
        return d.pick([".", "?"])
    if it["parent"] and vals.get(it["parent"].lower()) and not d.some(8):
        return d.pick(vals[it["parent"].lower()])
    bad = d.some(25)
    t = T[it["type"]]
    if bad and t[4]:
        return d.pick(t[4])
    if it["enum"] and not d.some(15):
        return d.pick(it["enum"])
    if it["type"] == "float" and (d.some(3) if it["esd"] else d.some(20)):
        return d.pick(WITH_SU)
    v = d.pick(t[3])
    if it["range"] and not inside(v, it["range"]) and not d.some(10):
        good = [x for x in t[3] if inside(x, it["range"])]
        v = d.pick(good) if good else v
    return v


def data_block(d, cats, items, n):
    scal, loops, used, vals = [], [], set(), {}
    sp = lambda s: s if not d.some(5) else d.pick([s.lower(), s.upper()])
    for c in cats:
        mine = [i for i in items if i["cat"] == c["id"]]
        if d.some(6):
            continue
        mine = [i for i in mine if i["name"] not in used]
        want = [i for i in mine if not d.some(3) or (i["name"] in c["keys"] and not d.some(6))]
        for dep in [x for i in want for x in i["deps"]]:
            want += [i for i in mine if i["name"] == dep and i not in want and not d.some(4)]
        names = {}
        for i in want:
            names[i["name"]] = d.pick(i["alias"]) if i["alias"] and d.some(3) else i["name"]
        if d.some(2) and want:
            rows, cols, seq = d.i(1, 4), [], list(want)
            if d.some(15):
                extra = d.pick(items)
                if extra["name"] not in used and extra not in seq:
                    seq.append(extra)
                    names[extra["name"]] = extra["name"]
            for i in seq:
                col = [value(d, i, vals) for _ in range(rows)]
                if i["name"] in c["keys"] and not i["parent"] and not i["enum"] and not d.some(5):
                    g = T[i["type"]][3]
                    k = d.i(0, len(g) - 1)
                    col = [g[(k + j) % len(g)] for j in range(rows)]
                cols.append(col)
                vals[i["name"].lower()] = col
                used.add(i["name"])
            head = [sp(names[i["name"]]) for i in seq]
            if d.some(8):
                head.append("_unknown.x%d" % len(loops))
                cols.append(["1"] * rows)
            loops.append([head, [list(r) for r in zip(*cols)]])
        else:
            for i in want:
                if i["name"] in used:
                    continue
                used.add(i["name"])
                v = value(d, i, vals)
                vals[i["name"].lower()] = [v]
                scal.append([sp(names[i["name"]]), v])
    if d.some(4):
        scal.append(["_Unknown.thing", "1"])
    spare = [a for i in items for a in i["alias"] if i["name"] in used]
    if spare and d.some(6):
        a = d.pick(spare)
        if a.lower() not in [n.lower() for n, v in scal] + [n.lower() for ns, r in loops for n in ns]:
            scal.append([a, "1"])
    return {"name": ["one", "Two"][n], "scal": scal, "loops": loops}


# ---- text

def q(s):
    if s in MISSING:
        return s
    if "\n" in s:
        return "\n;%s\n;" % s
    if re.fullmatch(r"[A-Za-z0-9.+(][A-Za-z0-9.+()%/,-]*|-[0-9.][0-9.eEdD()]*", s) and not re.match(r"(?i)data|save|loop|stop|global", s):
        return s
    return '"%s"' % s if not re.search(r'"([ \t]|$)', s) else "'%s'" % s


def dictionary(case):
    out = ["data_gen.dic\n_dictionary.title gen.dic\n_dictionary.version 1.0\n_datablock.id gen.dic\n_datablock.description 'made up'\nloop_\n_item_type_list.code\n_item_type_list.primitive_code\n"
           "_item_type_list.construct\n_item_type_list.detail\n" + "".join("%s %s\n;%s\n;\n'%s'\n" % (c, p, r, c) for c, p, r, g, b in TYPES)]
    items, byname = case["items"], dict((i["name"], i) for i in case["items"])
    frames = []
    listed = {}         # items named in the definition of a parent
    links = {}          # links written in a definition
    for it in items:
        if it["parent"]:
            where = it["name"]
            if it["links"] == 1:
                where = it["parent"]
            elif it["links"] == 2:
                where = it["parent"]
                listed.setdefault(where, []).append(it)
            elif it["links"] == 3:
                where = it["parent"]
                while byname[where]["parent"]:
                    where = byname[where]["parent"]
                listed.setdefault(where, []).append(it)
            links.setdefault(where, []).append((it["name"], it["parent"]))
    for c in case["cats"]:
        t = "save_%s\n_category.description 'a category'\n_category.id %s\n_category.mandatory_code %s\n" % (c["id"].upper(), c["id"], "yes" if c["mand"] else "no")
        if len(c["keys"]) == 1 and c["first"]:
            t += "_category_key.name '%s'\n" % c["keys"][0]
        elif c["keys"]:
            t += loop(["_category_key.name"], [["'%s'" % k] for k in c["keys"]])
        frames.append(t + "save_\n")
    for it in items:
        there = [o for l in listed.values() for o in l if o is it]
        if there and it["bare"] and not it["alias"] and it["name"] not in links and it["name"] not in listed and it["frame"] == 1:
            continue              # no definition of its own
        name = it["name"]
        t = "save_%s\n_item_description.description 'what it is'\n" % name
        if name in listed:
            rows = [["'%s'" % o["name"], o["cat"], o["mand"]] for o in [it] + listed[name]]
            k = case["order"] % len(rows)
            t += loop(["_item.name", "_item.category_id", "_item.mandatory_code"], rows[k:] + rows[:k])
        elif there and it["bare"]:
            pass
        elif it["shape"] == 1:
            t += loop(["_item.name", "_item.category_id", "_item.mandatory_code"], [["'%s'" % name, it["cat"], it["mand"]]])
        elif it["shape"] == 2:
            t += "_item.name '%s'\n_item.mandatory_code %s\n" % (name, it["mand"])
        else:
            t += "_item.name '%s'\n_item.category_id %s\n_item.mandatory_code %s\n" % (name, it["cat"], it["mand"])
        ls = links.get(name, [])
        if len(ls) == 1 and it["frame"] == 0:
            t += "_item_linked.child_name '%s'\n_item_linked.parent_name '%s'\n" % ls[0]
        elif ls and all(p == name for c, p in ls) and it["frame"] == 1:
            t += loop(["_item_linked.child_name"], [["'%s'" % c] for c, p in ls])
        elif len(ls) == 1 and ls[0][0] == name and it["frame"] == 2:
            t += "_item_linked.parent_name '%s'\n" % ls[0][1]
        elif ls:
            t += loop(["_item_linked.child_name", "_item_linked.parent_name"], [["'%s'" % c, "'%s'" % p] for c, p in ls])
        t += "_item_type.code %s\n" % it["type"]
        if it["esd"]:
            t += "_item_type_conditions.code esd\n"
        if len(it["enum"]) == 1 and it["shape"] % 2:
            t += "_item_enumeration.value %s\n" % q(it["enum"][0])
        elif it["enum"]:
            t += loop(["_item_enumeration.value", "_item_enumeration.detail"], [[q(e), "'is %d'" % len(e)] for e in it["enum"]])
        if it["range"] and len(it["range"]) == 1 and it["shape"] % 2:
            t += "_item_range.maximum %s\n_item_range.minimum %s\n" % tuple(it["range"][0])
        elif it["range"]:
            t += loop(["_item_range.maximum", "_item_range.minimum"], it["range"])
        if len(it["deps"]) == 1 and it["shape"] % 2:
            t += "_item_dependent.dependent_name '%s'\n" % it["deps"][0]
        elif it["deps"]:
            t += loop(["_item_dependent.dependent_name"], [["'%s'" % x] for x in it["deps"]])
        if it["rel"]:
            t += "_item_related.related_name '%s'\n_item_related.function_code %s\n" % tuple(it["rel"][0])
        if len(it["alias"]) == 1 and it["shape"] % 2:
            t += "_item_aliases.alias_name '%s'\n_item_aliases.dictionary cif_core.dic\n_item_aliases.version 2.0.1\n" % it["alias"][0]
        elif it["alias"]:
            t += loop(["_item_aliases.alias_name", "_item_aliases.dictionary", "_item_aliases.version"], [["'%s'" % a, "cif_core.dic", "2.0.1"] for a in it["alias"]])
        frames.append(t + "save_\n")
    k = case["order"] % len(frames)
    return out[0] + "\n" + "\n".join(frames[k:] + frames[:k])


def data(case):
    out = []
    for b in case["blocks"]:
        out.append("data_%s\n" % b["name"] + "".join("%s %s\n" % (n, q(v)) for n, v in b["scal"]) + "".join(loop(n, [[q(v) for v in r] for r in rows]) for n, rows in b["loops"]))
    return "\n".join(out)


# ---- validity

class Judge(object):
    def __init__(self, case):
        byname = dict((i["name"], i) for i in case["items"])
        self.items = {}                    # lower name, aliases as well -> (definition, is it an alias)
        for it in case["items"]:
            self.items[it["name"].lower()] = (it, False)
            for a in it["alias"]:
                self.items[a.lower()] = (it, True)
        self.keys = dict((c["id"], [k.lower() for k in c["keys"]]) for c in case["cats"])
        self.mand = [c["id"] for c in case["cats"] if c["mand"]]
        self.case = case
        # a definition that is only named in that of its parent says nothing else
        names = set(re.findall(r"(?m)^save_(_\S+)$", dictionary(case)))
        for it in case["items"]:
            it["empty"] = it["name"] not in names
        self.children = {}
        for it in case["items"]:
            if it["parent"]:
                self.children.setdefault(it["parent"].lower(), []).append(it["name"].lower())

    def alternates(self, n, funcs=("alternate", "replace")):
        it, alias = self.items[n]
        if it["empty"]:
            return []
        return [a.lower() for a, f in it["rel"] if f in funcs] + ([] if alias else [a.lower() for a in it["alias"]])

    def judge(self, block, everywhere={}, mand_in=None):
        """everywhere: values of parents in all definitions; mand_in: the names among which mandatory categories are looked for, if not those of the block"""
        vals, loops, unknown = {}, [], []
        for n, v in block["scal"]:
            if n.lower() in self.items:
                vals[n.lower()] = v
            else:
                unknown.append(n.lower())
        for names, rows in block["loops"]:
            mine = []
            for k, n in enumerate(names):
                if n.lower() in self.items:
                    vals[n.lower()] = [r[k] for r in rows]
                    mine.append(n.lower())
                else:
                    unknown.append(n.lower())
            if mine:
                loops.append(mine)
        bad, open_ = {}, set()
        aslist = lambda x: x if isinstance(x, list) else [x]
        for n, v in vals.items():
            it, alias = self.items[n]
            vs = aslist(v)
            real = [x for x in vs if x not in MISSING]
            if not it["empty"]:
                t = T[it["type"]]
                w = [x for x in real if not (re.fullmatch(t[2], x) if it["type"] not in ("code", "text") else x in t[3])]
                if it["type"] in ("code", "text"):          # their constructs hold backslashes that Python reads in another way
                    w = [x for x in real if not all(ch in CHARS[it["type"]] for ch in x)]
                if w:
                    bad[n, "validate_item_type"] = w
                if t[1] == "numb":
                    if any(number(x) is None for x in real):
                        open_ |= set([(n, "validate_item_esd"), (n, "validate_enum_range")])
                    else:
                        w = [x for x in real if number(x)[1]]
                        if w and not it["esd"]:
                            bad[n, "validate_item_esd"] = w
                        if it["range"]:
                            w = [x for x in real if not inside(x, it["range"])]
                            if w:
                                bad[n, "validate_enum_range"] = w
                if it["enum"]:
                    w = [x for x in real if x not in it["enum"]]
                    if w:
                        bad[n, "validate_item_enum"] = w
                for dep in it["deps"]:
                    dep = dep.lower()
                    if not any(a in vals or a in everywhere for a in [dep] + self.alternates(dep)):
                        bad[n, "validate_dependents"] = None
            if any(a in vals for a in self.alternates(n, ("replace", "alternate_exclusive"))):
                bad[n, "validate_exclusion"] = None
            if it["parent"]:
                p = it["parent"].lower()
                if p not in vals and p not in everywhere:
                    found = [a for a in self.alternates(p) if a in vals or a in everywhere]
                    if len(found) > 1:
                        open_.add((n, "validate_parent"))
                    p = (found or [None])[0]
                have = aslist(everywhere.get(p) or vals[p]) if p else []
                w = [x for x in real if x not in have]
                if w and (n, "validate_parent") not in open_:
                    bad[n, "validate_parent"] = w if p else None
            kids = []
            for k in self.children.get(it["name"].lower(), []):
                kids += [k] + self.alternates(k)
            for k in kids:
                if n not in everywhere and k in vals and [x for x in aslist(vals[k]) if x not in MISSING and x not in vs]:
                    bad[n, "validate_child"] = None
            u = self.keys[it["cat"]]
            if n in u and isinstance(v, list):
                cols, home = [v], [l for l in loops if n in l][0]
                for o in u:
                    if o == n:
                        continue
                    if o not in vals and self.items[o][0]["mand"] == "implicit":
                        cols.append(["the same"] * len(v))
                    elif o not in vals and any(a in vals for a in self.alternates(o)):
                        open_.add((n, "validate_uniqueness"))
                        cols = None
                        break
                    elif o not in vals or isinstance(vals[o], list) and o not in home:
                        cols = None
                        bad[n, "validate_uniqueness"] = None
                        break
                    else:
                        cols.append(vals[o] if isinstance(vals[o], list) else [vals[o]] * len(v))
                if cols:
                    keys = list(zip(*cols))
                    if len(set(keys)) < len(keys):
                        bad[n, "validate_uniqueness"] = None
        for names in loops:
            first = self.items[names[0]][0]["cat"]
            if any(self.items[n][0]["cat"] != first for n in names):
                bad[names[0], "validate_loop_membership"] = None
        here = set(self.items[n][0]["cat"] for n in (vals if mand_in is None else mand_in))
        if any(c not in here for c in self.mand):
            bad["whole_block", "validate_mandatory_category"] = None
        return bad, open_, sorted(unknown)


ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
CHARS = {"code": "_,.;:\"&<>()/\\{}'`~!@#$%*|+-" + ALNUM, "text": "][ \n\r\t()_,.;:\"&<>/\\{}'`~!@#$%?+=*|^-" + ALNUM}


# ---- dictionaries as data

@st.composite
def dictionaries(draw):
    case = draw(cases())
    d = G(draw)
    cats, items, bs = case["cats"], case["items"], case["blocks"]
    while len(bs) < d.i(2, 5):
        bs.append(data_block(d, cats, items, 0))
    for n, b in enumerate(bs):
        b["name"], b["order"] = ["Top", "cat_a", "_cat_a.id", "_F3", "f4", "_cat_b.u"][n], n
    return case


def as_dictionary(case):
    out = ""
    for n, b in enumerate(case["blocks"]):
        t = data({"blocks": [b]})
        out += t if n == 0 else "save_" + t[5:] + "save_\n"
    return out


class DicJudge(Judge):
    def __init__(self, case):
        Judge.__init__(self, case)
        self.names, self.everywhere = set(), {}
        ps = set(i["parent"].lower() for i in case["items"] if i["parent"])
        for b in case["blocks"]:
            for n, vs in [(n, [v]) for n, v in b["scal"]] + [(n, [r[k] for r in rows]) for ns, rows in b["loops"] for k, n in enumerate(ns)]:
                n = n.lower()
                if n in self.items:
                    self.names.add(n)
                    if n in ps:
                        self.everywhere.setdefault(n, []).extend(vs)

    def judge(self, b):
        bad, open_, unknown = Judge.judge(self, b, self.everywhere, self.names)
        if b["order"]:
            bad.pop(("whole_block", "validate_mandatory_category"), None)
        return bad, open_, unknown


class AsDictionary(object):
    Judge = DicJudge
    dictionary = staticmethod(dictionary)
    data = staticmethod(as_dictionary)
