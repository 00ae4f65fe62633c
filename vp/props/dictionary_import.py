"""Importing between DDLm dictionaries."""
import os, shutil, tempfile
from vp import dicimport
from vp.core import Sub, Fail, expect, same

RULE = ("two to four dictionary files that import from one another (templates, categories, heads, several levels; missing and duplicate targets), loaded with all, no or "
        "one mode of import, merged or followed on demand, and compared with a model. Non-trivial: a full import or two levels.")
ASSUMPTIONS = ["a definition and what it imports have no attribute in common", "dupl Replace is not generated"]


def check(case, rec):
    from CifFile import CifDic, CifError, StarError
    d = tempfile.mkdtemp(prefix="vp_imp.")
    show = "\n" + "\n".join("--- %s\n%s" % (f["file"], dicimport.text(f)) for f in case["files"])
    try:
        for f in case["files"]:
            open(os.path.join(d, f["file"]), "w", encoding="utf8").write(dicimport.text(f))
        main = case["files"][-1]["file"]
        try:
            want, _, full = dicimport.load(case, main)
        except dicimport.Err:
            want = None
        try:
            dic = CifDic(os.path.join(d, main), grammar="2.0", do_dREL=False)
        except (CifError, StarError) as e:
            expect(want is None, "refused (%s)%s", e, show)
            rec.label("refused")
            return
        expect(want is not None, "accepted%s", show)
        same(sorted(k.lower() for k in dic.keys()), sorted(want), "definitions" + show)
        for k in sorted(want):
            w = want[k]
            got = dic[k]
            same([got.get(a) for a in ("_definition.id", "_name.category_id", "_name.object_id", "_definition.scope", "_definition.class")],
                 [w["id"], w["cat"], w["obj"], w["scope"], w["cls"]], "definition %s%s" % (k, show))
            have = dict((n, got[n]) for n in got.keys() if n.split(".")[0] not in ("_definition", "_name", "_import"))
            same(have, w["att"], "attributes of %s%s" % (k, show))
        rec.label("full" if full else "contents only")
        rec.nontrivial(full > 0)
        # nothing imported: as written
        bare = CifDic(os.path.join(d, main), grammar="2.0", do_imports="No", do_dREL=False)
        same(sorted(k.lower() for k in bare.keys()), sorted(x["id"].lower() for x in case["files"][-1]["defs"]), "definitions without imports" + show)
        for x in case["files"][-1]["defs"]:
            same(dict((n, bare[x["id"]][n]) for n in bare[x["id"]].keys() if n.split(".")[0] not in ("_definition", "_name", "_import")), dicimport.flat(x), "%s without imports%s" % (x["id"], show))
        # followed on demand
        if not want.clash:
            light = CifDic(os.path.join(d, main), grammar="2.0", do_dREL=False, heavy=False)
            for n, k in enumerate(sorted(want)):
                k = [k, k.upper()][n % 2]
                try:
                    light[k]
                except KeyError:
                    raise Fail("%s is not found when imports are followed on demand%s" % (k, show))
                same(light[k]["_definition.id"], want[k.lower()]["id"], "%s, imports followed on demand%s" % (k, show))
                for a, v in want[k.lower()]["att"].items():
                    expect(light[k].has_key(a) and a in light[k] and light[k].get(a) is not None, "%s of %s is not found when imports are followed on demand%s", a, k, show)
                    same(light[k][a], v, "%s of %s, imports followed on demand%s" % (a, k, show))
        # written and re-read
        out = str(dic)
        if "_import.get" in out:             # a reference that was passed over stays
            return
        again = CifDic(write(d, out), grammar="2.0", do_dREL=False)
        same(sorted(k.lower() for k in again.keys()), sorted(want), "definitions re-read" + show)
    finally:
        shutil.rmtree(d)


def write(d, text):
    p = os.path.join(d, "again.dic")
    open(p, "w", encoding="utf8").write(text)
    return p


SUBS = [Sub("imports", dicimport.cases, check, quick=(8, 80), thorough=(8, 2000))]
