"""Copies of blocks and files are complete, and independent of the original."""
import copy
from hypothesis import strategies as st
from vp import blockmodel as bm, cif
from vp.core import Sub, Fail, same, expect

RULE = ("blocks reached by random histories are copied (copy(), the constructor, deepcopy) and both go through further interleaved histories, each against its own "
        "model; files are copied and both edited, in place too. Non-trivial: the block holds a loop when copied and both are changed later / the file has two blocks.")
ASSUMPTIONS = ["a copy made by the constructor starts unlocked"]
WAYS = ["copy", "ctor", "deepcopy"]


def copied(b, way, g):
    from CifFile import CifBlock
    if way == "copy":
        return b.copy()
    if way == "ctor":
        return CifBlock(b, characterset="unicode" if g == "2.0" else "ascii")
    return copy.deepcopy(b)


def strategy():
    base = bm.strategy(bm.OPS, 14)()
    I = st.integers(0, 15)
    op = st.tuples(st.sampled_from(bm.OPS), I, I, I, I).map(list)
    return st.fixed_dictionaries({"base": base, "way": st.sampled_from(WAYS), "tail": st.lists(st.tuples(st.booleans(), op).map(list), min_size=2, max_size=10)})


def check(case, rec):
    r1 = bm.Run(case["base"], rec)
    for op in case["base"]["ops"]:
        r1.step(op)
    r1.observe()
    r2 = copy.copy(r1)
    r2.m = copy.deepcopy(r1.m)
    r2.trace = list(r1.trace) + [case["way"]]
    r2.b = copied(r1.b, case["way"], r1.g)
    expect(case["way"] == "ctor" or type(r2.b) is type(r1.b), "the copy is a %r", type(r2.b))
    if case["way"] == "ctor":
        r2.m.locked = False
    rec.label(case["way"])
    r2.observe()
    r1.observe()
    n = [0, 0]
    for which, op in case["tail"]:
        r = r2 if which else r1
        if r.step(op):
            n[which] += 1
            r1.observe()
            r2.observe()
    # changes made in place
    for r, o in ((r1, r2), (r2, r1)):
        for low, v in r.m.vals.items():
            if isinstance(v, list) and v:
                col = r.b[low]
                col.append("in place")
                o.observe()
                del col[-1]
    rec.nontrivial(n[0] > 0 and n[1] > 0 and bool(r1.m.loops or r2.m.loops))
    r2.finish()
    r1.finish()


def file_strategy():
    I = st.integers(0, 11)
    def mk(g):
        vals = st.one_of(st.sampled_from(["1", "abc", "x y", "?"]), cif.compound(True, st.sampled_from(["p", "q"]))) if g != "1.1" else st.sampled_from(["1", "abc", "x y", "?"])
        return st.fixed_dictionaries({"g": st.just(g), "model": cif.blocks(vals, g), "scoping": st.sampled_from(["instance", "dictionary"]),
                                      "way": st.sampled_from(["copy", "deepcopy"]),
                                      "ops": st.lists(st.tuples(st.sampled_from(["edit", "inplace", "del", "rename", "new", "frame", "delitem", "clear", "scope", "loop"]), st.booleans(), I, I).map(list), min_size=1, max_size=8)})
    return st.sampled_from(["1.1", "2.0", "STAR2"]).flatmap(mk)


def snapshot(cf):
    return (cif.file_model(cf), sorted(cf.keys()), cf.scoping, cf.WriteOut(), sorted(cf.get_roots()), cf.grammar)


def check_file(case, rec):
    cf = cif.build(case["model"], case["g"])
    cf.scoping = case["scoping"]
    cp = cf.copy() if case["way"] == "copy" else copy.deepcopy(cf)
    expect(type(cp) is type(cf), "the copy is a %r", type(cp))
    same(snapshot(cp), snapshot(cf), "the copy")
    rec.nontrivial(len(cf.child_table) > 1)
    files = [cf, cp]
    for op, which, a, b in case["ops"]:
        me, other = files[which], files[not which]
        before = snapshot(other)
        keys = sorted(me.child_table)
        k = keys[a % len(keys)] if keys else None
        if op == "new":
            try:
                me.NewBlock("n%d%d" % (a, b))
            except Exception:
                pass
        elif op == "clear":
            if a == 3:
                me.clear()
        elif op == "scope":
            me.scoping = ["instance", "dictionary"][a % 2]
        elif k is None:
            continue
        elif op == "edit":
            me[k]["_edited"] = "e%d" % b
        elif op == "frame":
            try:
                me.NewBlock("fr%d" % b, parent=k)
            except Exception:
                pass
        elif op == "del":
            del me[k]
        elif op == "rename":
            if "r%d" % b not in me.child_table:
                me.rename(k, "R%d" % b)
        elif op == "inplace":
            for n in list(me[k].keys()):
                v = me[k][n]
                if isinstance(v, list) and me[k].FindLoop(n) >= 0:
                    v[0] = "in place"
                elif isinstance(v, list):
                    v.append("in place")
                elif isinstance(v, dict):
                    v["new"] = "in place"
        elif op == "delitem":
            for n in list(me[k].keys())[:1 + b % 2]:
                del me[k][n]
        elif op == "loop":
            ns = [n for n in me[k].keys() if me[k].FindLoop(n) >= 0]
            if ns:
                me[k].ChangeItemOrder(me[k].FindLoop(ns[0]), 0)
                lb = me[k].GetLoop(ns[0])
                lb.AddPacket(lb[0])
        rec.label(op)
        same(snapshot(other), before, "the %s after %s of the %s" % (["original", "copy"][not which], op, ["original", "copy"][which]))
        snapshot(me)


SUBS = [Sub("block", strategy, check, quick=(5, 500), thorough=(10, 3000)),
        Sub("file", file_strategy, check_file, quick=(3, 700), thorough=(8, 3000))]
