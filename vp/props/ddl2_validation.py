"""DDL2 dictionaries: definitions, and validation of data against them."""
from vp import ddl2
from vp.core import Sub, Fail, expect, same
from vp.props import validation as V

RULE = ("random DDL2 dictionaries (definitions of one or several items, links between parents and children written in either definition or that of a common ancestor, definitions without any content of their own, aliases, "
        "keys, mandatory categories, types, ranges, enumerations, dependent and related items) and data files, judged by an independent model of each rule and compared with the results and both reports. "
        "Non-trivial: two or more kinds of problem, or a fully valid file against more than four definitions.")
ASSUMPTIONS = ["no item has more than one parent, and no item stands in for its own parent or child", "that mandatory items of a category are present is not checked by validation",
               "an alias of an item of a composite key does not stand in for it (not decided)"]


def check(case, rec):
    from CifFile import CifDic
    text = ddl2.dictionary(case)
    dic = CifDic(V.quiet_read(text, "1.1"), grammar="1.1")
    same(dic.diclang, "DDL2", text)
    same(dic.dicname, "gen.dic1.0", text)
    for it in case["items"]:
        for n in [it["name"]] + it["alias"]:
            for s in (n, n.upper()):
                expect(s in dic, "%s is not defined in\n%s", s, text)
                d = dic[s]
                empty = "save_%s\n" % it["name"] not in text
                if n in it["alias"] and empty:
                    continue
                same((d["_item.category_id"], d["_item.mandatory_code"], d["_item.name"].lower()), (it["cat"], it["mand"], n.lower()), "definition of %s\n%s" % (n, text))
                if not empty:
                    same(d.get("_item_type.code"), it["type"], "type of %s\n%s" % (n, text))
                ps = [p.lower() for p in d.get("_item_linked.parent_name", [])]
                same(ps, [it["parent"].lower()] if it["parent"] else [], "parents of %s\n%s" % (n, text))
                same(sorted(c.lower() for c in d.get("_item_linked.child_name", [])), sorted(o["name"].lower() for o in case["items"] if o["parent"] == it["name"]), "children of %s\n%s" % (n, text))
    rec.label(*sorted(set("link written %d" % i["links"] for i in case["items"] if i["parent"])))
    V.judged(case, ddl2, dic, V.quiet_read(ddl2.data(case), "1.1"), rec)


SUBS = [Sub("data", ddl2.cases, check, quick=(6, 700), thorough=(8, 8000))]
