"""Validation of data against DDL1 and DDLm dictionaries."""
import io
from vp import ddl1, ddlmval
from vp.core import Sub, Fail, expect, same

RULE = ("random dictionaries (DDL1, DDLm) and data files, judged by an independent model of each rule and compared with the results, the object wrapping them and both "
        "reports; random histories of changes to a validated block, each compared with the model's verdict. Non-trivial: two or more kinds of problem, or a fully "
        "valid file against more than four definitions; for histories, a refusal and two accepted changes.")
ASSUMPTIONS = ["DDL2 dictionaries are not generated", "_type.container and _type.contents are not checked by validation",
               "a number with an uncertainty is not required for a Measurand (the uncertainty may be a separate item)",
               "an item's alternate does not stand in for its own parent or child"]


def quiet_read(text, grammar):
    from CifFile import ReadCif
    return ReadCif(io.StringIO(text), grammar=grammar)


def content(cf):
    return [(k, [(n, cf[k][n]) for n in cf[k].keys()], sorted(cf[k].loops.values())) for k in sorted(cf.keys())]


def compare(name, res, bad, open_, show):
    ok, found = res
    got = set((n.lower(), f) for n, l in found.items() for f, r in l)
    want = set(bad)
    extra = sorted(x for x in got - want if x not in open_)
    lost = sorted(x for x in want - got if x not in open_)
    expect(not extra and not lost, "block %s: wrongly reported %r, not reported %r%s", name, extra, lost, show())
    if bad or not open_:
        expect(ok == (not bad), "block %s: verdict %r with problems %r%s", name, ok, sorted(bad), show())
    for n, l in found.items():
        for f, r in l:
            b = bad.get((n.lower(), f))
            if b is not None and "bad_values" in r:
                expect(sorted(r["bad_values"]) == sorted(b), "block %s: %s of %s: offending values %r, expected %r%s", name, f, n, r["bad_values"], b, show())


def judged(case, ddl, dic, cf, rec, **kw):
    from CifFile import Validate, validate_report
    from CifFile.CifFile_module import ValidationResult
    j = ddl.Judge(case)
    show = lambda: "\n--- dictionary\n%s\n--- data\n%s" % (ddl.dictionary(case), ddl.data(case))
    before = content(cf)
    valid, unmatched = Validate(cf, dic=dic, **kw)
    expect(content(cf) == before, "validation changed the file%s", show())
    all_ok, undecided, kinds = True, False, set()
    for b in case["blocks"]:
        bad, open_, unknown = j.judge(b)
        compare(b["name"], valid[b["name"].lower() if b["name"] not in valid else b["name"]], bad, open_, show)
        nm = unmatched[b["name"].lower() if b["name"] not in unmatched else b["name"]]
        same(sorted(n.lower() for n in nm), unknown, "names not in the dictionary, block %s%s" % (b["name"], show()))
        all_ok = all_ok and not bad
        undecided = undecided or bool(open_ and not bad)
        kinds |= set(f for n, f in bad)
    rec.label(*sorted(kinds) or ["valid"])
    rec.nontrivial(len(kinds) >= 2 or (not kinds and len(j.items) > 4))
    r = ValidationResult((valid, unmatched))
    expect(undecided and all_ok or bool(r.is_valid()) == all_ok, "is_valid() is %r%s", r.is_valid(), show())
    expect(bool(r.has_no_match_items()) == any(j.judge(b)[2] for b in case["blocks"]), "has_no_match_items() is %r%s", r.has_no_match_items(), show())
    for html in (False, True):
        text = validate_report((valid, unmatched), use_html=html)
        for b in case["blocks"]:
            bad, open_, unknown = j.judge(b)
            expect(open_ and not bad or "Block '%s' is %s" % (b["name"].lower(), "INVALID" if bad else "VALID") in text.replace("Block '%s'" % b["name"], "Block '%s'" % b["name"].lower()),
                   "report on block %s:\n%s%s", b["name"], text, show())
            for n in set(n for n, f in bad) | set(unknown):
                expect(n in text.lower(), "report does not mention %s:\n%s%s", n, text, show())
    return j


def check_ddl1(case, rec):
    from CifFile import CifDic
    dic = CifDic(quiet_read(ddl1.dictionary(case), "1.1"), grammar="1.1")
    judged(case, ddl1, dic, quiet_read(ddl1.data(case), "1.1"), rec)


def check_ddlm(case, rec):
    from CifFile import CifDic
    dic = CifDic(quiet_read(ddlmval.dictionary(case), "2.0"), grammar="2.0", do_dREL=case["order"] > 1)
    judged(case, ddlmval, dic, quiet_read(ddlmval.data(case), "2.0"), rec)


def sp(n, k):
    return [n, n.upper(), n.lower()][k % 3]


class Guarded(object):
    """A validated block beside a table of what it should hold."""
    def __init__(self, case, b):
        self.j, self.b = ddl1.Judge(case), b
        self.scal, self.loops = {}, []            # lower names; loops: (names, columns)
        self.accepted = self.refused = 0

    def load(self, block):
        self.scal = dict((n.lower(), v) for n, v in block["scal"])
        self.loops = [[[n.lower() for n in names], [list(c) for c in zip(*rows)]] for names, rows in block["loops"]]

    def table(self):
        t = dict(self.scal)
        for names, cols in self.loops:
            t.update(zip(names, cols))
        return t

    def home(self, n):
        return ([l for l in self.loops if n in l[0]] or [None])[0]

    def as_block(self, scal, loops):
        return {"scal": list(scal.items()), "loops": [[names, [list(r) for r in zip(*cols)]] for names, cols in loops]}

    def wrong(self, names, scal, loops, looped=()):
        """problems of the named items, and of the named loops, in this state; None when some test of them is not decided"""
        vals, ls, _ = self.j.present(self.as_block(scal, loops))
        bad, open_ = {}, set()
        for n in names:
            if n in vals:
                self.j.item(n, vals[n], bad, open_)
                self.j.across(n, vals[n], vals, ls, bad)
        for l in ls:
            if set(l) & set(looped):
                self.j.looped(l, bad)
        return bad

    def without(self, names):
        scal = dict((k, v) for k, v in self.scal.items() if k not in names)
        loops = []
        for ns, cols in self.loops:
            keep = [(n, c) for n, c in zip(ns, cols) if n not in names]
            if keep:
                loops.append([[n for n, c in keep], [c for n, c in keep]])
        return scal, loops

    def step(self, op):
        """(function making the change, problems, state afterwards) or None"""
        how, k = op[0], op[1]
        b = self.b
        if how == "set":
            n, v = op[2].lower(), op[3]
            if self.home(n):
                return None
            scal, loops = dict(self.scal), self.loops
            scal[n] = v
            name = sp(op[2], k)

            def change():
                if k == 2:
                    b.AddCifItem((name, v))
                else:
                    b[name] = v
            return change, self.wrong([n], scal, loops), scal, loops
        if how == "loop":
            names, cols = [n.lower() for n in op[2]], [list(c) for c in zip(*op[3])]
            scal, loops = self.without(names)
            known = [n for n in names if n in self.j.items]
            if known and any(set(self.j.uniq.get(self.j.items[n]["cat"], [])) - set(names) for n in known if n in self.j.uniq.get(self.j.items[n]["cat"], [])):
                return None                # uniqueness together with items outside the loop
            loops = loops + [[names, cols]]
            arg = (tuple(op[2]), [tuple(c) for c in cols])
            return (lambda: b.AddCifItem(([arg[0]], [arg[1]]) if k else arg)), self.wrong(names, scal, loops, names), scal, loops
        if how == "del":
            n = op[2].lower()
            if n not in self.table():
                return None
            scal, loops = self.without([n])
            vals = self.j.present(self.as_block(scal, loops))[0]
            h = self.home(n)
            bad = self.wrong([], scal, loops, [x for x in h[0] if x != n] if h else [])
            if any(c.lower() in vals or c.lower() == n for c in self.j.items[n]["children"]):
                bad["child"] = None

            def change():
                del b[sp(op[2], k)]
            return change, bad, scal, loops
        if how == "col":
            n = op[2].lower()
            h = self.home(n)
            if not h:
                return None
            col = (op[3] * 3)[:len(h[1][0])]
            loops = [[ns, [col if x == n else c for x, c in zip(ns, cs)]] for ns, cs in self.loops]

            def change():
                b[sp(op[2], k)] = list(col)
            return change, self.wrong([n], self.scal, loops), self.scal, loops
        if how == "addto":
            n, m = op[2].lower(), op[3].lower()
            h = self.home(m)
            if not h or n in self.table() or (n in self.j.uniq.get(self.j.items[n]["cat"], []) and set(self.j.uniq[self.j.items[n]["cat"]]) - set(h[0]) - set([n])):
                return None
            col = (op[4] * 3)[:len(h[1][0])]
            loops = [[ns + [n], cs + [col]] if m in ns else [ns, cs] for ns, cs in self.loops]
            return (lambda: b.AddToLoop(sp(op[3], k), {sp(op[2], k): list(col)})), self.wrong([n], self.scal, loops, [n]), self.scal, loops

    def matches(self, what):
        b = self.b
        got = dict((n.lower(), b[n]) for n in b.keys())
        same(got, self.table(), "items after " + what)
        same(sorted(sorted(l) for l in b.loops.values()), sorted(sorted(l[0]) for l in self.loops), "loops after " + what)


def check_guard(case, rec):
    from CifFile import CifDic, ValidCifError
    from CifFile.CifFile_module import ValidCifBlock
    dic = CifDic(quiet_read(ddl1.dictionary(case), "1.1"), grammar="1.1")
    cf = quiet_read(ddl1.data(case), "1.1")
    j = ddl1.Judge(case)
    show = lambda: "\n--- dictionary\n%s\n--- data\n%s" % (ddl1.dictionary(case), ddl1.data(case))
    start = None
    for b in case["blocks"]:
        bad = j.judge(b)[0]
        try:
            vb = ValidCifBlock(data=cf[b["name"]], dic=dic)
        except ValidCifError as e:
            expect(bad, "block %s refused (%s)%s", b["name"], e, show())
            for n, f in bad:
                expect(n in str(e).lower(), "the message for block %s does not mention %s: %s%s", b["name"], n, e, show())
        else:
            expect(not bad, "block %s accepted with problems %r%s", b["name"], sorted(bad), show())
            start = (vb, b)
    g = Guarded(case, ValidCifBlock(dic=dic))
    if start:
        g.b = start[0]
        g.load(start[1])
    g.b.overwrite = True
    trace = []
    for op in case["ops"]:
        s = g.step(op)
        if s is None:
            continue
        change, bad, scal, loops = s
        trace.append(op)
        what = "%r%s" % (trace, show())
        try:
            change()
        except ValidCifError as e:
            expect(bad, "refused (%s): %s", e, what)
            g.refused += 1
        else:
            expect(not bad, "accepted with problems %r: %s", sorted(bad), what)
            g.accepted += 1
            g.scal, g.loops = scal, loops
        g.matches(what)
    rec.nontrivial(g.refused and g.accepted > 1)
    rec.label(*[x for x, f in (("refused", g.refused), ("accepted", g.accepted), ("valid start", start)) if f])


SUBS = [Sub("ddl1", ddl1.cases, check_ddl1, quick=(4, 150), thorough=(8, 2500)),
        Sub("ddlm", ddlmval.cases, check_ddlm, quick=(3, 150), thorough=(8, 1500)),
        Sub("guard", ddl1.histories, check_guard, quick=(3, 120), thorough=(8, 2000))]
