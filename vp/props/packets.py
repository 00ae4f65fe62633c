"""Loop rows: iteration, packets, lookup by key, adding and removing rows."""
from hypothesis import strategies as st
from vp import cif, refcif
from vp.core import Sub, Fail, same, expect

RULE = ("loops of 1-5 columns and 1-7 rows, built or read from text, with repeated and case-varied keys, under histories of row additions, removals and "
        "column replacements; after each step all rows, all packets and all single and compound key lookups are compared with a table. "
        "Non-trivial: three or more rows, a repeated key and an effective change.")
ASSUMPTIONS = ["case-insensitive lookup is only asked of text values"]

KEYS = ["a", "A", "b", "B", "c1", "C1", "1", "?", "it's", "x y", u"\u00e9", u"\u00c9", "3.2"]
NAMES = ["_l_id", "_L_Second", "_l.third_", "_l-4", u"_l_\u00e9"]


def strategy():
    def mk(g):
        keys = KEYS if g == "2.0" else [k for k in KEYS if ord(k[0]) < 128]
        val = st.one_of(st.sampled_from(keys), st.sampled_from(keys), st.sampled_from(keys), cif.texts(g == "2.0", huge=False).filter(lambda s: cif.in_charset(s, g == "2.0")))
        I = st.integers(0, 11)
        ops = st.lists(st.tuples(st.sampled_from(["add", "add", "addtmpl", "rm", "rm", "rmnone", "bad", "setcol", "newcol", "mutate", "reread"]), I, I, I).map(list), max_size=7)
        w = st.integers(1, 4)
        return w.flatmap(lambda n: st.fixed_dictionaries({
            "g": st.just(g), "w": st.just(n), "rows": st.lists(st.lists(val, min_size=n, max_size=n), min_size=1, max_size=7),
            "nums": st.booleans(), "src": st.sampled_from(["built", "read"]), "spell": st.integers(0, 2), "ops": ops,
            "extra": st.lists(st.lists(val, min_size=5, max_size=5), min_size=4, max_size=4)}))
    return st.sampled_from(["1.1", "2.0"]).flatmap(mk)


def sp(n, k):
    return [n, n.upper(), n.lower()][k % 3]


class T(object):
    def __init__(self, case, rec):
        from CifFile import CifBlock
        self.case, self.rec = case, rec
        self.names = [n for n in NAMES if case["g"] == "2.0" or ord(n[-1]) < 128][:case["w"]]
        self.rows = [list(r) for r in case["rows"]]
        if case["nums"] and case["src"] == "built":
            for i, r in enumerate(self.rows):
                r[-1] = i // 2
        self.g = case["g"]
        b = CifBlock(characterset="unicode" if self.g == "2.0" else "ascii")
        b["_other"] = "o"
        for i, n in enumerate(self.names):
            b[n] = [r[i] for r in self.rows]
        b.CreateLoop(self.names)
        b["_z1"], b["_z2"] = ["1", "2"], ["3", "4"]
        b.CreateLoop(["_z1", "_z2"])
        self.b = b
        if case["src"] == "read":
            self.reread()
        self.low = [n.lower() for n in self.names]
        self.lb = self.b.GetLoop(sp(self.names[0], case["spell"]))

    def text(self):
        cf = cif.new_file(self.g)
        cf["blk"] = self.b
        return cf.WriteOut()

    def reread(self):
        self.b = cif.read(self.text(), self.g)["blk"]
        self.rows = [[cif.as_text(v) for v in r] for r in self.rows]
        self.lb = self.b.GetLoop(self.names[0])

    def observe(self, t):
        b, lb, rows = self.b, self.lb, self.rows
        S = self.case["spell"]
        got = list(lb)
        same([list(p) for p in got], rows, "iterating the loop " + t)
        for i, r in enumerate(rows):
            for p in (got[i], lb[i], lb.GetPacket(i), lb[i - len(rows)]):
                same(list(p), r, "packet %d %s" % (i, t))
                for n, v in zip(self.names, r):
                    same([getattr(p, n.lower()), getattr(p, sp(n, S))], [v, v], "attribute %s of packet %d %s" % (n, i, t))
        for bad in (len(rows), -len(rows) - 1):
            try:
                lb[bad]
                raise Fail("packet %d of %d %s" % (bad, len(rows), t))
            except IndexError:
                pass
        for i, n in enumerate(self.names):
            same(list(lb[sp(n, S)]), [r[i] for r in rows], "column %s" % t)
            same(list(b[n]), [r[i] for r in rows], "column %s" % t)
            allv = [r[i] for r in rows]
            probes = []
            for v in allv + [KEYS[(i + len(rows)) % len(KEYS)], "absent value"]:
                if v not in probes:
                    probes.append(v)
            for v in probes:
                self.lookup([(i, v, False)], t)
                if all(isinstance(x, str) for x in allv) and isinstance(v, str):
                    self.lookup([(i, v, True)], t)
                    self.lookup([(i, v.swapcase(), True)], t)
                for j in range(i + 1, len(self.names)):
                    for r in rows[:2]:
                        self.lookup([(i, v, False), (j, r[j], False)], t)
                        if isinstance(v, str) and isinstance(r[j], str):
                            self.lookup([(i, v, True), (j, r[j].upper(), True)], t)
                            self.lookup([(j, r[j].lower(), True), (i, v, False)], t)

    def lookup(self, spec, t):
        def eq(a, v, nc):
            if nc:
                return str(a).lower() == str(v).lower()
            return a == v
        want = [r for r in self.rows if all(eq(r[i], v, nc) for i, v, nc in spec)]
        S = self.case["spell"]
        calls = [("compound", lambda o: o.GetCompoundKeyedPacket(dict((sp(self.names[i], S), (v, nc)) for i, v, nc in spec)))]
        if len(spec) == 1:
            i, v, nc = spec[0]
            calls.append(("keyed", lambda o: o.GetKeyedPacket(sp(self.names[i], S), v, no_case=nc)))
        for what, f in calls:
            for o in (self.b, self.lb):
                d = "%s lookup %r %s" % (what, [(self.names[i], v, nc) for i, v, nc in spec], t)
                try:
                    p = f(o)
                except (KeyError, ValueError):
                    expect(len(want) != 1, "no packet found, expected %r: %s", want, d)
                    continue
                expect(len(want) == 1, "%d packets match, got %r: %s", len(want), p, d)
                same(list(p), want[0], d)
                same([getattr(p, n.lower()) for n in self.names], want[0], d)


def check(case, rec):
    from CifFile.StarFile import StarPacket, StarError
    t = T(case, rec)
    t.observe("at first")
    changed = 0
    log = []
    for op, a, b, c in case["ops"]:
        rows, names = t.rows, t.names
        ex = case["extra"][a % 4]
        if op in ("add", "addtmpl"):
            new = [ex[(i + b) % 5] for i in range(len(names))]
            if op == "addtmpl" and rows:
                p = t.lb[c % len(rows)]
                keep = b % len(names)
                new[keep] = rows[c % len(rows)][keep]
                todo = [(n, v) for i, (n, v) in enumerate(zip(names, new)) if i != keep]
            else:
                p = StarPacket()
                todo = list(zip(names, new))
            for n, v in todo:
                setattr(p, n.lower(), v)
            t.lb.AddPacket(p)
            rows.append(new)
            changed += 1
        elif op == "bad":
            p = StarPacket()
            miss = b % len(names)
            for i, n in enumerate(names):
                if i != miss:
                    setattr(p, n.lower(), ex[i % 5])
            try:
                t.lb.AddPacket(p)
                raise Fail("packet without %s added" % names[miss])
            except (AttributeError, KeyError, ValueError, StarError):
                pass
        elif op == "rm":
            if len(rows) < 2:
                continue
            i = b % len(names)
            v = rows[c % len(rows)][i]
            (t.b if c % 2 else t.lb).RemoveKeyedPacket(sp(names[i], a), v)
            del rows[[r[i] for r in rows].index(v)]
            changed += 1
        elif op == "rmnone":
            try:
                t.b.RemoveKeyedPacket(names[b % len(names)], "absent value")
                raise Fail("removed a packet that is not there")
            except (KeyError, ValueError):
                pass
        elif op == "setcol":
            i = b % len(names)
            col = [ex[(j + c) % 5] for j in range(len(rows))]
            if c % 2:
                t.lb[sp(names[i], a)] = col
            else:
                t.b[sp(names[i], a)] = col
            for r, v in zip(rows, col):
                r[i] = v
            changed += 1
        elif op == "newcol":
            n = "_new%d" % len(names)
            col = [ex[(j + c) % 5] for j in range(len(rows))]
            if c % 2:
                t.lb[n] = col
            else:
                t.b[n] = col
                t.b.AddLoopName(sp(names[b % len(names)], a), n)
            t.names = names + [n]
            for r, v in zip(rows, col):
                r.append(v)
            changed += 1
        elif op == "mutate":      # packets are copies
            ps = list(t.lb) + [t.lb[0]]
            p = ps[b % len(ps)]
            p[c % len(p)] = "mutated"
            setattr(p, names[c % len(names)].lower(), "mutated")
            p.append("more")
        elif op == "reread":
            t.reread()
        log.append(op)
        rec.label(op)
        t.observe("after %r" % (log,))
    keys = [r[0] for r in t.rows]
    rec.nontrivial(len(t.rows) >= 3 and changed > 0 and len(set(map(str, keys))) < len(keys))
    model = refcif.parse(t.text(), t.g)
    same(cif.low_items(model[0]["items"]), [["k", "_other", "o"], ["l", [n.lower() for n in t.names], [[cif.as_text(v) for v in r] for r in t.rows]],
                                            ["l", ["_z1", "_z2"], [["1", "3"], ["2", "4"]]]], "text written after %r" % log)


SUBS = [Sub("rows", strategy, check, quick=(7, 500), thorough=(14, 4000))]
