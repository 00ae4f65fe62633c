"""Merging blocks and files adds or replaces exactly what is asked for."""
from hypothesis import strategies as st
from vp import cif, refcif
from vp.core import Sub, Fail, Discard, same, expect

RULE = ("pairs of blocks over a shared pool of names (items and loops of different shapes), and pairs of files over a shared pool of block names, merged in strict "
        "and replace mode, with and without match attributes, identification block and parent. Non-trivial: the two have something in common, and something not.")
ASSUMPTIONS = ["match attributes are not looped", "overlay mode is not implemented by the package and only has to refuse"]

POOL = ["_a", "_Bb", "_c.D", "_e[1]", "_f", "_G", "_name", "_name.object_id"]


def block_strategy():
    vals = st.sampled_from(["1", "x", "a b", "?", "", "it's"])
    def mk():
        return st.tuples(st.permutations(range(6)), st.lists(st.integers(1, 3), min_size=1, max_size=4), st.integers(1, 6), st.lists(vals, min_size=24, max_size=24),
                         st.lists(st.booleans(), min_size=2, max_size=2), st.integers(0, 3), st.lists(st.integers(1, 3), min_size=6, max_size=6)).map(layout)
    def layout(t):
        perm, groups, n, vs, keyed, case, lens = t
        names = [[POOL[i], POOL[i].upper(), POOL[i].lower(), POOL[i].swapcase()][(case + i) % 4] for i in perm[:n]]
        out, vs = [], list(vs) * 4
        i = 0
        for gi, g in enumerate(groups * 6):
            chunk = names[i:i + g]
            if not chunk:
                break
            i += g
            if g == 1 and gi % 2 == 0:
                out.append(["k", chunk[0], vs.pop()])
            else:
                out.append(["l", chunk, [[vs.pop() for _ in chunk] for _ in range(lens[gi % 6])]])
        for k, nm in zip(keyed, POOL[6:]):
            if k:
                out.append(["k", nm, vs.pop()])
        return out
    return st.fixed_dictionaries({"old": mk(), "new": mk(), "mode": st.sampled_from(["strict", "replace", "replace", "overlay", None]),
                                  "match": st.sampled_from([[], ["_name"], ["_name", "_name.object_id"], ["_absent"]]), "disjoint": st.booleans()})


def block_of(items):
    from CifFile import CifBlock
    b = CifBlock()
    cif.fill(b, items)
    return b


def parts(items):
    vals, loops, spell = {}, [], {}
    for e in items:
        ns = [e[1]] if e[0] == "k" else e[1]
        for i, n in enumerate(ns):
            vals[n.lower()] = e[2] if e[0] == "k" else [r[i] for r in e[2]]
            spell[n.lower()] = n
        if e[0] == "l":
            loops.append([n.lower() for n in ns])
    return vals, loops, spell


def now(b):
    vals, loops, _ = parts(cif.block_model(b))
    return vals, sorted(loops)


def check_block(case, rec):
    from CifFile.StarFile import StarError
    old, new, mode = case["old"], case["new"], case["mode"]
    if case["disjoint"]:
        taken = set(parts(old)[0]) - set(case["match"])
        new = [e for e in new if not taken & set(n.lower() for n in ([e[1]] if e[0] == "k" else e[1]))]
    ov, ol, osp = parts(old)
    nv, nl, nsp = parts(new)
    a, b = block_of(old), block_of(new)
    match = case["match"]
    shared = [k for k in nv if k in ov and k not in match]
    rec.nontrivial(bool(set(nv) & set(ov)) and bool(set(nv) - set(ov)))
    rec.label(str(mode))
    bb = now(b)
    go = (lambda: a.merge(b, match_att=match)) if mode is None else (lambda: a.merge(b, mode=mode, match_att=match))
    if mode == "overlay" or (mode != "replace" and shared):
        try:
            go()
        except StarError:
            same(now(a), (ov, sorted(ol)), "block after a refused merge")
            same(now(b), bb, "merged block")
            return
        raise Fail("%s merge accepted, common names %r" % (mode, shared))
    go()
    want, spell = dict(ov), dict(osp)
    for k, v in nv.items():
        if k not in match:
            want[k] = v
            spell[k] = nsp[k]
    taken = set(n for l in nl for n in l) | set(k for k in nv if k not in match)
    loops = [[n for n in l if n not in taken] for l in ol] + nl
    loops = sorted(l for l in loops if l)
    same(now(a), (want, loops), "%s merge of %r into %r" % (mode, new, old))
    same(now(b), bb, "the block that was merged")
    cf = cif.new_file("1.1")
    cf["x"] = a
    got = refcif.parse(cf.WriteOut(), "1.1")[0]["items"]
    v, l, s = parts(got)
    same((v, sorted(l)), (want, loops), "text written after merging")
    for k in s:
        expect(s[k] in (spell[k], osp.get(k), nsp.get(k)) if k in match else s[k] == spell[k], "%s written as %r", k, s[k])
    # nothing is shared
    for k in want:
        if isinstance(a[k], list):
            a[k].append("more")
    same(now(b), bb, "the block that was merged, after changing the result")


# ------------------------------------------------------------------ files
NAMES = ["p", "Q", "on_this_dictionary", "r.x", "s", "T_t"]
DEFS = ["_d.a", "_d.b", "_d.c", "_d.e"]


def file_strategy():
    blk = st.tuples(st.integers(0, 5), st.integers(0, 3), st.one_of(st.none(), st.integers(0, 3), st.lists(st.integers(0, 3), min_size=2, max_size=3, unique=True)),
                    st.booleans()).map(list)
    return st.fixed_dictionaries({"old": st.lists(blk, max_size=4, unique_by=lambda b: b[0]), "new": st.lists(blk, max_size=4, unique_by=lambda b: b[0]),
                                  "std": st.sampled_from(["CIF", "CIF", "Dic", None]), "mode": st.sampled_from(["strict", "replace", "replace", None, "overlay"]),
                                  "match": st.booleans(), "idblock": st.booleans(), "disjoint": st.booleans(), "kids": st.integers(0, 3),
                                  "scoping": st.sampled_from(["instance", "dictionary"])})


def make(spec, who, std, kids=0):
    from CifFile import CifFile, CifBlock
    cf = CifFile(standard=std)
    cf.set_grammar("STAR2")
    out = []
    for i, c, d, extra in spec:
        n = NAMES[i]
        n = [n, n.upper(), n.lower(), n.swapcase()][c]
        b = CifBlock()
        b["_tag"] = who + n
        if isinstance(d, list):
            b["_name"] = [DEFS[x] for x in d]
            b.CreateLoop(["_name"])
            att = [DEFS[x] for x in d]
        elif d is not None:
            b["_name"] = att = DEFS[d]
        else:
            att = None
        if extra:
            b["_only_" + who] = "1"
        cf[n] = b
        out.append([n, who + n, att])
    for k in range(kids if out else 0):
        b = CifBlock()
        b["_tag"] = "%skid%d" % (who, k)
        par = out[0][0] if k != 1 else "%skid0" % who
        cf.NewBlock("%skid%d" % (who, k), b, parent=par)
    return cf, out


def listing(cf):
    """(name, tag, tag of the parent) of each block, keys checked"""
    out = []
    for key, info in cf.child_table.items():
        out.append((info.block_id, cf[key]["_tag"], None if info.parent is None else cf[info.parent]["_tag"]))
    same(sorted(cf.keys()), sorted(k for k in cf.child_table if cf.scoping == "dictionary" or cf.child_table[k].parent is None), "visible blocks")
    same(len(set(cf.child_table)), len(cf.child_table))
    return sorted(out, key=str)


def written(cf):
    out = []
    def f(bs, parent):
        for b in bs:
            tag = [e[2] for e in b["items"] if e[1] == "_tag"][0]
            out.append((b["name"], tag, parent))
            f(b["saves"], tag)
    f(refcif.parse(cf.WriteOut(), "STAR2"), None)
    return sorted(out, key=str)


def kids_of(who, kids, spec):
    if not spec:
        return []
    return [("%skid%d" % (who, k), "%skid%d" % (who, k), (who + "kid0") if k == 1 else spec[0][1]) for k in range(kids)]


def check_file(case, rec):
    from CifFile.StarFile import StarError
    mode, std = case["mode"], case["std"]
    new_spec = case["new"]
    if case["disjoint"]:
        taken = [b[0] for b in case["old"]]
        new_spec = [b for b in new_spec if b[0] not in taken]
        if case["match"]:
            new_spec = [b[:2] + [None] + b[3:] for b in new_spec]
    overlap = set(b[0] for b in case["old"]) & set(b[0] for b in new_spec)
    kids = case["kids"] if (not overlap and not case["match"]) else 0
    cf, old = make(case["old"], "o", std, kids)
    cf.scoping = case["scoping"]
    inc, new = make(new_spec, "n", "CIF", kids)
    kw = {}
    if mode:
        kw["mode"] = mode
    eff = mode or ("strict" if std is not None else "replace")
    if case["match"]:
        kw["match_att"] = ["_name"]
    if case["idblock"] and not kids:
        # the identification block is named as in the incoming file
        ids = [n for n, t, a in new if n.lower() == "on_this_dictionary"]
        kw["idblock"] = ids[0] if ids else "on_this_dictionary"
    # expected
    want = [[n, t, a] for n, t, a in old]
    left = list(range(len(old)))
    bad = False
    for n, t, att in new:
        if n == kw.get("idblock"):
            continue
        target = n.lower()
        if case["match"] and att is not None:
            for i in left:
                x = old[i][2]
                if x == att or (isinstance(x, list) and att in x):
                    target = old[i][0].lower()
                    left.remove(i)
                    break
        hit = [w for w in want if (w[0] or w[3]).lower() == target]
        if hit and eff != "replace":
            bad = True
            break
        if hit:
            want = [w for w in want if w is not hit[0]]
            want.append([None, t, att, target])
        else:
            want.append([n, t, att])
    rec.nontrivial(bool(old) and len(new) > 1 and any(b[0] for b in new_spec))
    rec.label(eff, "refused" if bad else "merged", *(["frames"] if kids else []))
    before = listing(inc)
    olds = dict((t, sorted(cf[n].keys())) for n, t, a in old)
    if bad:
        try:
            cf.merge(inc, **kw)
        except StarError:
            got = dict((x[1], x) for x in listing(cf))
            for n, t, a in old:
                expect(t in got and got[t][0] == n, "block %s is gone or renamed after a refused merge", n)
                same(sorted(cf[n].keys()), olds[t], "block %s after a refused merge" % n)
            same(listing(inc), before, "incoming file")
            return
        raise Fail("%s merge accepted" % eff)
    cf.merge(inc, **kw)
    got = listing(cf)
    exp = []
    for w in want:
        m = [g for g in got if g[1] == w[1]]
        expect(len(m) == 1, "block %r appears %d times", w[1], len(m))
        if w[0] is None:
            expect(m[0][0].lower() == w[3], "replacement for %s is named %s", w[3], m[0][0])
            exp.append((m[0][0], w[1], None))
        else:
            exp.append((w[0], w[1], None))
    exp += kids_of("o", kids, old) + kids_of("n", kids, new)
    same(got, sorted(exp, key=str), "%s merge of %r into %r" % (eff, new, old))
    same(written(cf), sorted(exp, key=str), "text written after merging")
    same(listing(inc), before, "incoming file")


# ------------------------------------------------------------------ merge_fast
def fast_strategy():
    return st.fixed_dictionaries({"f": file_strategy(), "way": st.sampled_from(["ctor", "fast", "fastparent"]), "pick": st.integers(0, 5)})


def check_fast(case, rec):
    from CifFile import CifFile
    from CifFile.StarFile import StarError
    c = case["f"]
    inc, new = make(c["new"], "n", "CIF", c["kids"])
    nk = kids_of("n", c["kids"], new)
    exp_new = [(n, t, None) for n, t, a in new] + nk
    rec.label(case["way"])
    if case["way"] == "ctor":
        cf = CifFile(inc, scoping=c["scoping"])
        cf.set_grammar("STAR2")
        rec.nontrivial(len(exp_new) > 1)
        same(listing(cf), sorted(exp_new, key=str), "file made from another")
        same(written(cf), sorted(exp_new, key=str), "text of a file made from another")
        return
    cf, old = make(c["old"], "o", c["std"], c["kids"])
    cf.scoping = c["scoping"]
    exp_old = [(n, t, None) for n, t, a in old] + kids_of("o", c["kids"], old)
    overlap = set(n.lower() for n, t, a in old) & set(n.lower() for n, t, a in new)
    rec.nontrivial(bool(old) and bool(new))
    if case["way"] == "fast":
        if overlap and c["std"] is not None:
            try:
                cf.merge_fast(inc)
            except StarError:
                same(listing(cf), sorted(exp_old, key=str), "file after a refused merge")
                return
            raise Fail("merged repeated block names %r" % overlap)
        if overlap:
            if c["kids"]:
                raise Discard()
            exp_old = [x for x in exp_old if x[0].lower() not in overlap]
        cf.merge_fast(inc)
        exp = exp_old + exp_new
    else:
        if not old or (c["std"] is None and overlap):
            raise Discard()
        par = exp_old[case["pick"] % len(exp_old)]
        parblk = [cf[k] for k in cf.child_table if cf[k]["_tag"] == par[1]][0]
        cf.merge_fast(inc, parent=parblk)
        exp = exp_old + [(n, t, p if p is not None else par[1]) for n, t, p in exp_new]
    same(listing(cf), sorted(exp, key=str), "merge_fast of %r into %r" % (exp_new, exp_old))
    same(written(cf), sorted(exp, key=str), "text written after merge_fast")


SUBS = [Sub("block", block_strategy, check_block, quick=(3, 1500), thorough=(8, 5000)),
        Sub("file", file_strategy, check_file, quick=(3, 1500), thorough=(8, 5000)),
        Sub("fast", fast_strategy, check_fast, quick=(2, 1500), thorough=(6, 5000))]
