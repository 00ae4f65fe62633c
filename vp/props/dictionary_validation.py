"""Dictionaries themselves are judged by an attribute dictionary: what each kind of definition must and may not have, and all other rules."""
from vp import ddl2, ddlmdict
from vp.core import Sub, expect, same
from vp.props import validation as V

RULE = ("random DDLm attribute dictionaries with random tables of mandatory, recommended and prohibited attributes and categories for dictionaries, categories and items, and dictionaries (header and save frames) "
        "validated with isdic against them, and against DDL2 dictionaries, where parents of a value may be in any definition; results, offending names and both reports are compared with an independent model, and the dictionary has to be as before. "
        "Non-trivial: two or more kinds of problem, or a fully valid dictionary against more than four definitions.")
ASSUMPTIONS = ["scopes are written as in the table (case)", "each pair of scope and option is in the table once"]


def check(case, rec):
    from CifFile import CifDic, Validate
    dic = CifDic(V.quiet_read(ddlmdict.dictionary(case), "2.0"), grammar="2.0", do_dREL=case["own"] > 2)
    cf = V.quiet_read(ddlmdict.data(case), "2.0")
    frames = lambda: [(k, sorted(cf[k].keys())) for k in cf.keys()]
    before = frames()
    valid, unmatched = Validate(cf, dic=dic, isdic=True)
    same(frames(), before, "blocks of the dictionary after validation")
    same(sorted(k.lower() for k in valid), sorted(b["name"].lower() for b in case["blocks"]), "blocks judged")
    j = V.judged(case, ddlmdict, dic, cf, rec, isdic=True)
    for b in case["blocks"]:
        j.judge(b)
        found = dict((f, r) for f, r in valid[b["name"].lower() if b["name"] not in valid else b["name"]][1].get("whole_block", []))
        for f, w in j.wrong.items():
            same(sorted(set(x.lower() for x in found[f]["bad_items"])), w, "%s of %s\n%s\n%s" % (f, b["name"], ddlmdict.dictionary(case), ddlmdict.data(case)))
    # data are not definitions: the table is not for them
    valid, unmatched = Validate(cf, dic=dic)
    for n, (ok, found) in valid.items():
        expect("whole_block" not in found, "the block %s is judged as a definition: %r", n, found)


def check_ddl2(case, rec):
    from CifFile import CifDic
    dic = CifDic(V.quiet_read(ddl2.dictionary(case), "1.1"), grammar="1.1")
    V.judged(case, ddl2.AsDictionary, dic, V.quiet_read(ddl2.as_dictionary(case), "1.1"), rec, isdic=True)


SUBS = [Sub("ddl2", ddl2.dictionaries, check_ddl2, quick=(3, 350), thorough=(8, 5000)),
        Sub("dictionary", ddlmdict.cases, check, quick=(6, 450), thorough=(8, 6000))]
