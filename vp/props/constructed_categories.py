"""Categories are constructed from others as the dictionary says."""
import io
from vp import catcon, drel
from vp.core import Sub, Fail, expect

RULE = ("DDLm dictionaries of two looped categories with one to three categories constructed from them (filters by text or number, pullbacks, filters of filters, pullbacks of filters) that "
        "share some items with their sources, and data for the sources (forward) or for the constructed categories (back); items are requested in a random order. Non-trivial: at least one category is constructed.")
ASSUMPTIONS = ["rows are compared without regard to their order", "the back sub-check draws one source and what was constructed from it in one way"]


def run(case, want, rec):
    from CifFile import CifDic, ReadCif
    dic = CifDic(ReadCif(io.StringIO(catcon.dictionary(case)), grammar="2.0"), grammar="2.0")
    b = ReadCif(io.StringIO(catcon.data(case)), grammar="2.0")["d"]
    b.assign_dictionary(dic)
    b.provide_value = True
    show = lambda: "\n--- dictionary\n%s\n--- data\n%s" % (catcon.dictionary(case), catcon.data(case))
    there = dict((n, c) for n, c, r in catcon.given(case))
    cats = [(s["name"], ["id", "kind"] + s["extras"]) for s in case["srcs"]] + [(m["name"], catcon.objects(m)) for m in case["made"]]
    ask = [(c, o) for c, os in cats for o in os if c in want]
    ask = [x for _, x in sorted(zip(case["order"] * 2, ask))]
    got = {}
    trace = []
    for c, o in ask:
        name = "_%s.%s" % (c, o)
        trace.append(name)
        try:
            got[c, o] = drel.plainval(b[name])
        except KeyError:
            got[c, o] = None
        except Exception as e:
            raise Fail("%s: %s: %s, asking for %s%s" % (name, type(e).__name__, e, trace, show()))
        has = want[c] is not None and o in want[c][0]
        expect(has == (got[c, o] is not None), "%s is %r, expected %r, asking for %s%s", name, got[c, o], want[c] and [r.get(o) for r in want[c][1]], trace, show())
    for c, os in cats:
        if c not in want or not want[c]:
            continue
        cols, rows = want[c]
        expect(set(len(got[c, o]) for o in cols) == {len(rows)}, "%s: numbers of rows %r, expected %d, asking for %s%s", c, [(o, len(got[c, o])) for o in cols], len(rows), trace, show())
        have = sorted(zip(*[[repr(v) for v in got[c, o]] for o in cols]))
        expect(have == sorted(tuple(repr(r[o]) for o in cols) for r in rows), "rows of %s: %s %r, expected %r, asking for %s%s", c, cols, have, sorted(tuple(repr(r[o]) for o in cols) for r in rows), trace, show())
        loop = b.GetLoop("_%s.id" % c)
        expect(set(k.lower() for k in loop.keys()) >= set(("_%s.%s" % (c, o)).lower() for o in cols), "%s is not in one loop: %r%s", c, list(loop.keys()), show())
        if c not in there:
            rec.nontrivial(True)
            rec.label("constructed " + c)
    expect(b["_other.thing"] == "1", "another item changed%s", show())


def check_forward(case, rec):
    run(case, catcon.tables(case), rec)


def check_back(case, rec):
    want = catcon.back_tables(case)
    run(case, dict((k, v) for k, v in want.items() if v or k == "alpha"), rec)


SUBS = [Sub("forward", lambda: catcon.cases(False), check_forward, quick=(2, 200), thorough=(6, 3000)),
        Sub("back", lambda: catcon.cases(True), check_back, quick=(1, 150), thorough=(2, 2500))]
