"""Values missing from a data block are derived as the dictionary says."""
import io
from vp import ddlm, ddlmgen, ddlmidx, drel
from vp.core import Sub, Fail, Discard, expect, same

RULE = ("DDLm dictionaries of one or two Set and one or two Loop categories with keys, links, aliases, defaults, functions and dREL methods (expressions, loops over categories "
        "with indices and tests, keyed access, Current_Row, with), and a data block in which items are present, under an alias, unknown ('?') or missing. Every item is "
        "requested, in a random order, and compared with an evaluator of the dictionary. Non-trivial: at least one item is derived by a method that needs another derived item, "
        "or loops over a category. indexed: defaults which depend on the value of another item, that is itself given, under an alias, or in turn a default; non-trivial: at least one such default is used.")
ASSUMPTIONS = ["methods that succeed with and without the use of defaults give one value", "real numbers compared to 9 digits"]


def check(case, rec):
    model = ddlm.Model(case)
    want = dict(((i["cat"], i["obj"]), model.value(i["cat"], i["obj"])) for i in case["items"])
    rec.nontrivial(bool(model.events & {"derived indirectly", "loop"}))
    rec.label(*sorted(model.events))
    dtext = ddlm.dictionary(case)
    text, raw = ddlm.data(case)
    from CifFile import CifDic, ReadCif
    from CifFile.StarFile import StarDerivationFailure
    dic = CifDic(ReadCif(io.StringIO(dtext), grammar="2.0"), grammar="2.0")
    b = ReadCif(io.StringIO(text), grammar="2.0")["d"]
    b.assign_dictionary(dic)
    b.provide_value = True
    show = lambda: "\n--- dictionary\n%s\n--- data\n%s" % (dtext, text)
    for cat, obj in case["order"]:
        name = "_%s.%s" % (cat, obj)
        try:
            got = drel.plainval(b[name])
        except KeyError as e:
            got = None
        except Exception as e:
            raise Fail("%s: %s: %s, expected %r%s" % (name, type(e).__name__, e, want[cat, obj], show()))
        expect(b.provide_value is True, "provide_value changed")
        w = want[cat, obj]
        if w is None and got in ("?", ["?"] * len(got or "")):
            continue
        expect((w is None) == (got is None) and (w is None or drel.close(w, got)), "%s is %r, expected %r%s", name, got, w, show())


def check_indexed(case, rec):
    from CifFile import CifDic, ReadCif
    want = ddlmidx.values(case)
    dic = CifDic(ReadCif(io.StringIO(ddlmidx.dictionary(case)), grammar="2.0"), grammar="2.0")
    b = ReadCif(io.StringIO(ddlmidx.data(case)), grammar="2.0")["d"]
    b.assign_dictionary(dic)
    b.provide_value = True
    show = lambda: "\n--- dictionary\n%s\n--- data\n%s" % (ddlmidx.dictionary(case), ddlmidx.data(case))
    for _, n in sorted(zip(case["order"], range(len(case["items"])))) * 2:
        it = case["items"][n]
        name, w = ddlmidx.name(it), want[it["cat"], it["obj"]]
        try:
            got = drel.plainval(b[name])
        except KeyError as e:
            got = None
        except Exception as e:
            raise Fail("%s: %s: %s, expected %r%s" % (name, type(e).__name__, e, w, show()))
        if it["cat"] == "top" and w:
            w = w[0]
        expect((w is None) == (got is None) and (w is None or drel.close(w, got)), "%s is %r, expected %r%s", name, got, w, show())
        if w is not None and not it["present"]:
            rec.nontrivial(True)
            rec.label("by another default" if [i for i in case["items"] if [i["cat"], i["obj"]] == it["index"]][0]["index"] else "by a given value")


SUBS = [Sub("indexed", ddlmidx.cases, check_indexed, quick=(1, 200), thorough=(2, 4000)),
        Sub("values", ddlmgen.dictionaries, check, quick=(7, 150), thorough=(14, 1500))]
