"""DDLm attribute dictionaries that say which attributes a definition must and may not have, dictionaries judged against them, and a model of that."""
from hypothesis import strategies as st
from vp import ddlmval
from vp.ddl1 import G, q
from vp.ddlmval import shown, frame

SCOPES = ["Dictionary", "Category", "Item"]
OWN = [{"name": "_dictionary.title", "cat": "DICTIONARY", "obj": "title", "purpose": "Describe", "contents": "Text", "enum": [], "container": "Single"},
       {"name": "_definition.scope", "cat": "DEFINITION", "obj": "scope", "purpose": "State", "contents": "Code", "enum": SCOPES, "container": "Single"},
       {"name": "_definition.id", "cat": "DEFINITION", "obj": "id", "purpose": "Describe", "contents": "Text", "enum": [], "container": "Single"}]
OWNCATS = [{"name": "DICTIONARY", "kind": "Set", "parent": None, "keys": []}, {"name": "DEFINITION", "kind": "Set", "parent": None, "keys": []}]


@st.composite
def cases(draw):
    case = draw(ddlmval.cases())
    d = G(draw)
    case["cats"] += OWNCATS
    case["items"] += OWN
    names = [i["name"] for i in case["items"]] + [c["name"] for c in case["cats"]]
    rows = []
    for s in SCOPES:
        for o in ["Mandatory", "Recommended", "Prohibited"]:
            if not d.some(3):
                rows.append([s, o, [d.pick([str, str.upper, str.lower])(d.pick(names)) for _ in range(d.i(1, 3 if o == "Mandatory" else 2))]])
    k = d.i(0, len(rows))
    case["rules"] = rows[k:] + rows[:k]
    lent = [i for i in case["items"] if i not in OWN]
    blocks = case["blocks"]
    while len(blocks) < d.i(2, 5):
        blocks.append(ddlmval.data_block(d, case["cats"][:-2], lent, len(blocks) % 3))
    for n, b in enumerate(blocks):
        b["name"] = ["Top", "cat_a", "cat_a.id", "F3", "f4", "cat_b.u"][n]
        b["scal"] = [s for s in b["scal"] if s[0].lower() not in [i["name"] for i in OWN]]
        b["loops"] = [[names, r] for names, r in b["loops"]]
        have = set(s[0].lower() for s in b["scal"]) | set(x.lower() for ns, r in b["loops"] for x in ns)
        if n == 0 and not d.some(8) or n and d.some(20):
            b["scal"].insert(0, [d.pick(["_dictionary.title", "_Dictionary.TITLE"]), "A title"])
        if d.some(3) if n else d.some(15):
            b["scal"].append([d.pick(["_definition.scope", "_definition.Scope"]), d.pick(SCOPES[1:] * 6 + ["Dictionary", "Frame"])])
        if n and not d.some(3):
            b["scal"].insert(0, ["_definition.id", "'%s'" % b["name"]])
        # most of what must be there is, and most of what may not be is not
        s = scope_of(b, n)
        for sc, o, what in case["rules"]:
            if sc != s:
                continue
            for x in expand(case, what):
                if o == "Mandatory" and x not in have and not d.some(6):
                    it = [i for i in case["items"] if i["name"].lower() == x][0]
                    if x not in [t[0].lower() for t in b["scal"]] and it not in OWN:
                        b["scal"].append([it["name"], ddlmval.value(d, it)])
                elif o == "Prohibited" and not d.some(5):
                    b["scal"] = [t for t in b["scal"] if t[0].lower() != x or x in ("_dictionary.title", "_definition.scope")]
        b["order"] = n
    case["own"] = d.i(0, 3)
    return case


def scope_of(b, n):
    t = dict((k.lower(), v) for k, v in b["scal"])
    return "Dictionary" if "_dictionary.title" in t else t.get("_definition.scope", "Item" if n else "Dictionary")


def expand(case, what):
    out = []
    for w in what:
        cats = [c for c in case["cats"] if c["name"].lower() == w.lower()]
        if cats:
            c = cats[0]["name"].lower()
            out += [i["name"].lower() for i in case["items"] if i["cat"].lower() == c]
            out += expand(case, [k["name"] for k in case["cats"] if (k["parent"] or "").lower() == c])
        else:
            out.append(w.lower())
    return out


def dictionary(case):
    rules = case["rules"]
    t = ddlmval.dictionary(case)
    if not rules:
        return t
    body = "".join(" [%s %s] [%s]\n" % (s, o, " ".join("'%s'" % w for w in what)) for s, o, what in rules)
    loop = "loop_\n _dictionary_valid.application\n _dictionary_valid.attributes\n" + body
    if case["own"] == 0:
        return t + "\n" + loop
    k = t.index("\nsave_") + 1
    return t[:k] + loop + "\n" + t[k:]


def data(case):
    out = "#\\#CIF_2.0\n"
    for n, b in enumerate(case["blocks"]):
        out += ("save_%s\n" if n else "data_%s\n") % b["name"]
        out += "".join("%s %s\n" % (k, v if isinstance(v, str) and v.startswith("'") else shown(v)) for k, v in b["scal"])
        out += "".join("loop_\n%s\n%s\n" % ("\n".join(" " + x for x in ns), "\n".join(" " + " ".join(shown(v) for v in r) for r in rows)) for ns, rows in b["loops"])
        out += "save_\n" if n else ""
    return out


class Judge(ddlmval.Judge):
    def __init__(self, case):
        ddlmval.Judge.__init__(self, case)
        self.case = case

    def judge(self, b):
        bad, open_, unknown = ddlmval.Judge.judge(self, {"scal": [[k, v.strip("'") if isinstance(v, str) else v] for k, v in b["scal"]], "loops": b["loops"]})
        here = set(k.lower() for k, v in b["scal"]) | set(k.lower() for ns, r in b["loops"] for k in ns)
        here -= set(unknown)
        s = scope_of(b, b["order"])
        self.wrong = {}
        for sc, o, what in self.case["rules"]:
            if sc == s and o != "Recommended":
                w = [x for x in expand(self.case, what) if (x in here) == (o == "Prohibited")]
                if w:
                    k = ("whole_block", {"Mandatory": "check_mandatory_items", "Prohibited": "check_prohibited_items"}[o])
                    bad[k] = None
                    self.wrong[k[1]] = sorted(set(w))
        return bad, open_, unknown
