"""A collection of blocks through any history: names, hierarchy, visibility, output."""
import io
from hypothesis import strategies as st
from vp import cif, refcif
from vp.core import Sub, Fail, Discard, same, expect

RULE = ("random histories of adding, replacing, renaming, deleting and re-parenting blocks, switching scoping and extracting sub-collections, compared "
        "with a tree model after every step and with the text written at the end. Non-trivial: four or more effective steps with a frame among the blocks.")
ASSUMPTIONS = ["no cycles are requested of set_parent", "block names hold no white space except where `fix` is exercised"]

POOL = ["a", "Bb", "cell+", "D.d/x", "e_E", u"F", "a+", "LONG" + "g" * 71]
OPS = ["new", "new", "new", "new", "new", "frame", "frame", "frame", "frame", "frame", "del", "del", "rename", "rename", "rename", "parent", "parent", "scope", "edit", "bad",
       "setitem", "update", "sub", "makebc", "clear", "reread", "fixname"]


def strategy(big=False):
    I = st.integers(0, 15)
    op = st.tuples(st.sampled_from(OPS), I, I, I).map(list)

    def mk():
        return st.fixed_dictionaries({"g": st.sampled_from(["1.1", "2.0", "STAR2", "STAR2"]), "std": st.sampled_from(["CIF", "CIF", "Dic", None]),
                                      "ops": st.lists(op, min_size=4, max_size=40 if big else 14)})
    return mk


def sp(n, k):
    return [n, n.upper(), n.lower(), n.swapcase()][k % 4]


class Node(object):
    def __init__(self, tag, id, parent):
        self.tag, self.id, self.parent = tag, id, parent
        self.extra = {}


class Run(object):
    def __init__(self, case, rec):
        from CifFile import CifFile
        from CifFile.StarFile import StarError
        self.StarError = StarError
        self.case, self.rec = case, rec
        self.g, self.std = case["g"], case["std"]
        self.cf = CifFile(standard=self.std)
        self.cf.set_grammar(self.g)
        self.scope = "instance"
        self.nodes = []          # in input order
        self.count = 0
        self.trace = []
        self.frames = 0

    # ---------------------------------------------------------------- model
    def find_key(self, node, keys):
        return keys[node.tag]

    def keymap(self):
        """tag -> access key, from the contents alone."""
        out = {}
        for key in list(self.cf.child_table):
            t = self.cf[key]["_tag"]
            expect(t not in out, "block %s is present twice: %r", t, self.trace)
            out[t] = key
        return out

    def kids(self, node):
        return [n for n in self.nodes if n.parent is node]

    def below(self, node, among=None):
        out = []
        for k in self.kids(node):
            if among is None or k in among:
                out += [k] + self.below(k, among)
        return out

    def by_key(self, key):
        for n in self.nodes:
            if n.key == key:
                return n
        return None

    def content(self, c):
        from CifFile import CifBlock
        self.count += 1
        b = CifBlock()
        b["_tag"] = "t%d" % self.count
        if c % 3 == 1:
            b["_c"] = ["1", "2"]
            b.CreateLoop(["_c"])
        return b, "t%d" % self.count

    def pick(self, i):
        return self.nodes[i % len(self.nodes)] if self.nodes else None

    def fails(self, fn, what, exc=None):
        try:
            fn()
        except exc or (self.StarError, KeyError, ValueError):
            return
        raise Fail("%s accepted; %r" % (what, self.trace))

    # ---------------------------------------------------------------- steps
    def add(self, name, parent, c, how="new"):
        cf = self.cf
        b, tag = self.content(c)
        low = name.lower()
        clash = self.by_key(low)
        twin = [n for n in self.nodes if n.id.lower() == low and n.parent is parent]
        if twin and not clash and not self.by_key(low + "+"):
            return False
        tops = [n.key for n in self.nodes if n.parent is None]
        ok = True
        pname = sp(parent.key, c) if parent else None
        self.trace.append((how, name, pname))
        if self.std is not None and clash:
            ok = (low not in tops) if parent is None else (low in tops)
        if self.std is not None and twin:
            ok = False
        if self.std is None and clash and parent is not None and (parent is clash or parent in self.below(clash)):
            self.trace.pop()
            return False
        if how == "setitem":
            go = lambda: cf.__setitem__(name, b)
        elif how == "update":
            go = lambda: cf.update({name: b})
        elif parent is None:
            go = lambda: cf.NewBlock(name, b)
        else:
            go = lambda: cf.NewBlock(name, b, parent=pname)
        if not ok:
            self.fails(go, "a second block %r" % name, self.StarError)
            return True
        if self.std is None and clash:
            for n in self.below(clash) + [clash]:
                self.nodes.remove(n)
        key = go()
        n = Node(tag, name, parent)
        n.loop = c % 3 == 1
        self.nodes.append(n)
        km = self.keymap()
        expect(tag in km, "the new block is not there: %r", self.trace)
        if how == "new" and key is not None:
            same(key, km[tag], "key returned for the new block; %r" % self.trace)
        if not clash:
            same(km[tag], low, "key of an unambiguous new block; %r" % self.trace)
        self.frames += parent is not None
        return True

    def step(self, op):
        kind, a, b, c = op
        cf = self.cf
        name = sp(POOL[a % len(POOL)], b)
        nd = self.pick(b)
        if kind in ("new", "setitem", "update"):
            return self.add(name, None, c, kind)
        if kind == "frame":
            return nd is not None and self.add(name, nd, c)
        if kind == "fixname":
            nm = ["x y%d" % self.count, "x\ty%d" % self.count][a % 2]
            if not self.add(nm.replace(" ", "_").replace("\t", "_"), None, c):
                return False
            n = self.nodes[-1]
            cf_key = n_key = self.keymap()[n.tag]
            del cf[cf_key]
            blk, tag = self.content(c)
            self.trace.append(("fix", nm))
            same(cf.NewBlock(nm, blk, fix=True), n_key, "repaired name")
            n.tag, n.loop = tag, c % 3 == 1
            return True
        if kind == "bad":
            nm = "y" * (76 + a)
            self.trace.append(("bad", nm))
            self.fails(lambda: cf.NewBlock(nm), "a name of %d characters" % len(nm), self.StarError)
            if nd is not None:
                self.fails(lambda: cf.NewBlock(nm, parent=nd.key), "a name of %d characters" % len(nm), self.StarError)
            self.fails(lambda: cf.__getitem__("nobody"), "getting an absent block", KeyError)
            self.fails(lambda: cf.__delitem__("nobody"), "deleting an absent block", KeyError)
            self.fails(lambda: cf.rename("nobody", "else"), "renaming an absent block", KeyError)
            if nd is not None:
                self.fails(lambda: cf.set_parent("nobody", nd.key), "an absent parent", KeyError)
                self.fails(lambda: cf.set_parent(nd.key, "nobody"), "an absent child", KeyError)
            return True
        if kind == "scope":
            self.scope = ["instance", "dictionary"][a % 2]
            self.trace.append(("scope", self.scope))
            cf.scoping = self.scope
            self.fails(lambda: setattr(cf, "scoping", "other"), "an unknown scoping", self.StarError)
            return True
        if kind == "clear":
            if a % 4:
                return False
            self.trace.append("clear")
            cf.clear()
            self.nodes = []
            return True
        if nd is None:
            return False
        key = sp(nd.key, c)
        if kind == "del":
            self.trace.append(("del", key))
            del cf[key]
            for n in self.below(nd) + [nd]:
                self.nodes.remove(n)
            return True
        if kind == "rename":
            low = name.lower()
            twin = [n for n in self.nodes if n.id.lower() == low and n.parent is nd.parent]
            if twin and not self.by_key(low) and not self.by_key(low + "+"):
                return False
            self.trace.append(("rename", key, name))
            if self.by_key(low) or twin:
                self.fails(lambda: cf.rename(key, name), "renaming onto another block", self.StarError)
                return True
            cf.rename(key, name)
            nd.id = name
            return True
        if kind == "parent":
            p = self.pick(a)
            if p is nd or p in self.below(nd) or [n for n in self.nodes if n.id.lower() == nd.id.lower() and n.parent is p and n is not nd]:
                return False
            self.trace.append(("parent", p.key, key))
            cf.set_parent(sp(p.key, a), key)
            nd.parent = p
            self.frames += 1
            return True
        if kind == "edit":
            self.trace.append(("edit", key))
            blk = cf[key]
            blk["_e"] = "e%d" % a
            nd.extra["_e"] = "e%d" % a
            return True
        if kind == "sub":
            inc = bool(a % 2)
            self.trace.append(("sub", key, inc))
            scope = ["dictionary", "instance"][c % 2]
            bc = cf.get_children(key, include_parent=inc, scoping=scope)
            part = ([nd] if inc else []) + self.below(nd)
            self.subcheck(bc, [n for n in self.nodes if n in part], scope)
            return True
        if kind == "makebc":
            chosen = [n for i, n in enumerate(self.nodes) if (a * 5 + c * 3 + 1) >> i & 1]
            if not chosen:
                return False
            self.trace.append(("makebc", [n.key for n in chosen]))
            scope = ["dictionary", "instance"][b % 2]
            bc = cf.makebc([sp(n.key, c) for n in chosen], scoping=scope)
            self.subcheck(bc, chosen, scope)
            return True
        if kind == "reread":
            if not self.writable():
                return False
            self.trace.append("reread")
            text = cf.WriteOut()
            scope = ["instance", "dictionary"][a % 2]
            self.cf = cif.read(text, self.g, scoping=scope, standard=self.std) if False else self.fresh(text, scope)
            self.scope = scope
            # flattening, and the order in which a reader meets the blocks
            keep = {}
            def visit(got, parent):
                for x in got:
                    tag = [e[2] for e in x["items"] if e[1] == "_tag"][0]
                    n = [m for m in self.nodes if m.tag == tag][0]
                    n.parent = parent
                    visit(x["saves"], n)
            visit(refcif.parse(text, self.g), None)
            self.order_known = False
            return True
        raise Exception(kind)

    def fresh(self, text, scope):
        from CifFile import CifFile
        cf = CifFile(io.StringIO(text), standard=self.std or "CIF", grammar=self.g, scoping=scope)
        if self.std is None:
            cf.standard = None
        return cf

    def writable(self):
        # names of frames must differ in the flattened output of 1.1/2.0, and anywhere for re-reading
        ids = [n.id.lower() for n in self.nodes]
        return len(set(ids)) == len(ids)

    # ---------------------------------------------------------------- observation
    def subcheck(self, bc, part, scope):
        t = "sub-collection; %r" % (self.trace,)
        same(sorted(bc.child_table), sorted(n.key for n in part), t)
        for n in part:
            inside = n.parent in part
            same(bc.child_table[n.key].block_id, n.id, t)
            same(bc.get_parent(n.key), n.parent.key if inside else None, "parent of %s in %s" % (n.key, t))
            expect(bc[n.key] is self.cf[n.key], "%s is another block in %s", n.key, t)
            expect((n.key in bc) == (scope == "dictionary" or not inside), "visibility of %s in %s", n.key, t)
        same(len(bc), len([n for n in part if scope == "dictionary" or n.parent not in part]), t)
        if len(set(n.id.lower() for n in part)) == len(part):
            got = refcif.parse(bc.WriteOut(), self.g)
            same(tags(got), self.want_tags([n for n in part if n.parent not in part], part), "text of the " + t)

    def want_tags(self, tops, among=None):
        out = []
        for n in tops:
            k = self.kids(n) if self.g == "STAR2" else self.below(n, among)
            k = [x for x in k if among is None or x in among]
            if self.g != "STAR2":
                out.append([n.id, n.tag, sorted([x.id, x.tag, []] for x in k)])
            else:
                out.append([n.id, n.tag, self.want_tags(k, among)])
        return sorted(out)

    def observe(self):
        cf = self.cf
        t = "after %r" % (self.trace,)
        km = self.keymap()
        same(sorted(km), sorted(n.tag for n in self.nodes), "blocks held " + t)
        for n in self.nodes:
            n.key = km[n.tag]
        byid = {}
        for n in self.nodes:
            byid.setdefault(n.id.lower(), []).append(n)
        vis = [n for n in self.nodes if self.scope == "dictionary" or n.parent is None]
        same(sorted(cf.keys()), sorted(n.key for n in vis), "keys() " + t)
        same(len(cf), len(vis), t)
        same(sorted(b["_tag"] for b in cf), sorted(n.tag for n in vis), "iteration " + t)
        same(sorted((k, b["_tag"]) for k, b in cf.items()), sorted((n.key, n.tag) for n in vis), "items() " + t)
        same(sorted(k for k, i in cf.get_roots()), sorted(n.key for n in self.nodes if n.parent is None), "roots " + t)
        for item, want in (("_tag", [n.tag for n in vis]), ("_E", set(n.extra["_e"] for n in vis if "_e" in n.extra)), ("_c", ["1", "2"] * any(n.loop for n in vis)), ("_none", [])):
            same(sorted(cf.get_all(item)), sorted(want), "get_all(%r) %s" % (item, t))
        if vis:
            expect(cf.first_block()["_tag"] in [n.tag for n in vis], "first_block() %s", t)
        for n in self.nodes:
            base = n.key.rstrip("+")
            expect(base == n.id.lower().rstrip("+"), "key %r of block %r %s", n.key, n.id, t)
            for k in range(4):
                s = sp(n.key, k)
                same(cf[s]["_tag"], n.tag, "looking up %r %s" % (s, t))
                same([s in cf, cf.has_key(s)], [n in vis] * 2, "visibility of %r %s" % (s, t))
                same(cf.get_parent(s), n.parent.key if n.parent else None, "parent of %r %s" % (s, t))
                kids = sorted(x.key for x in self.kids(n))
                same(sorted(x[0] for x in cf.get_immediate_children(s)), kids, "children of %r %s" % (s, t))
                same(cf.get_child_list(s), sorted(x.key for x in self.below(n)), "descendants of %r %s" % (s, t))
            got = cf.get(n.key, None)
            expect((got is not None) == (n in vis), "get(%r) %s", n.key, t)
            same(cf.child_table[n.key].block_id, n.id, "printed name %s" % t)
            for x in self.nodes:
                same(cf.is_child_of_parent(n.key.upper(), x.key.upper()), x in self.below(n), "is_child_of_parent %s" % t)
            for k, v in n.extra.items():
                same(cf[n.key][k], v, "edited item " + t)
        expect("nobody" not in cf and cf.get("nobody", 5) == 5, "absent block %s", t)

    def finish(self):
        cf = self.cf
        # an order of top-level blocks may be asked for
        if self.g != "STAR2":
            for p in set(n.parent for n in self.nodes):
                pass
            flat = [n for n in self.nodes]
            ids = {}
            for n in self.nodes:
                top = n
                while top.parent is not None:
                    top = top.parent
                if n is not top:
                    if n.id.lower() in ids.setdefault(top.tag, set()):
                        raise Discard()      # cannot be written down without nesting
                    ids[top.tag].add(n.id.lower())
        text = cf.WriteOut()
        got = refcif.parse(text, self.g)
        tops = [n for n in self.nodes if n.parent is None]
        same(tags(got), self.want_tags(tops), "text written; %r" % (self.trace,))
        if self.nodes:
            order = [n.key for n in self.nodes]
            i = self.count % len(order)
            order = order[i:] + order[:i]
            got2 = refcif.parse(cf.WriteOut(blockorder=order), self.g)
            same([b["name"] for b in got2], [self.by_key(k).id for k in order if self.by_key(k).parent is None], "requested block order; %r" % (self.trace,))
            same(tags(got2), self.want_tags(tops))
        return got, tops

    def go(self):
        n = 0
        reread = False
        self.observe()
        for op in self.case["ops"]:
            if self.step(op):
                n += 1
                reread = reread or op[0] == "reread"
                self.rec.label(op[0])
                self.observe()
        got, tops = self.finish()
        if not reread:
            same([b["name"] for b in got], [x.id for x in tops], "order of blocks in the text; %r" % (self.trace,))
        self.rec.nontrivial(n >= 4 and self.frames > 0)


def tags(bs):
    out = []
    for b in bs:
        out.append([b["name"], [e[2] for e in b["items"] if e[1] == "_tag"][0], tags(b["saves"])])
    return sorted(out)


def check(case, rec):
    Run(case, rec).go()


# ------------------------------------------------ same-named frames read from files
def same_strategy():
    nm = st.sampled_from(["x", "X", "y", "Zz"])
    body = st.recursive(st.just([]), lambda ch: st.lists(st.tuples(nm, ch).map(list), max_size=3), max_leaves=6)
    return st.fixed_dictionaries({"g": st.sampled_from(["1.1", "2.0", "STAR2", "STAR2"]), "scan": st.sampled_from(["standard", "flex"]),
                                  "scoping": st.sampled_from(["instance", "instance", "dictionary"]),
                                  "tops": st.lists(st.tuples(st.sampled_from(["x", "y", "b1", "b2", "B3"]), body).map(list), min_size=1, max_size=4),
                                  "ops": st.lists(st.tuples(st.sampled_from(["del", "rename"]), st.integers(0, 9)).map(list), max_size=3)})


def check_same(case, rec):
    from CifFile import CifFile
    from CifFile.StarFile import StarError
    g = case["g"]
    n = [0]
    def make(name, kids, depth):
        n[0] += 1
        b = {"name": name, "items": [["k", "_tag", "t%d" % n[0]]], "saves": []}
        seen = set()
        for k, kk in kids:
            if k.lower() in seen or (g != "STAR2" and depth >= 1):
                continue
            seen.add(k.lower())
            b["saves"].append(make(k, kk, depth + 1))
        return b
    model, seen = [], set()
    for name, kids in case["tops"]:
        if name.lower() not in seen:
            seen.add(name.lower())
            model.append(make(name, kids, 0))
    from vp import emit
    text = emit.emit(model, g, [0])
    names = [b["name"].lower() for b in model]
    frames = []
    def collect(b):
        for s in b["saves"]:
            frames.append(s["name"].lower())
            collect(s)
    for b in model:
        collect(b)
    repeated = len(set(frames)) < len(frames) or bool(set(frames) & set(names))
    rec.nontrivial(repeated)
    try:
        cf = CifFile(io.StringIO(text), grammar=g, scoping=case["scoping"], scantype=case["scan"])
    except StarError:
        # frame names must be unique in a dictionary; repeats below one block are only told apart by nesting
        if case["scoping"] == "dictionary" and len(set(frames)) < len(frames):
            rec.label("refused")
            return
        per = []
        for b in model:
            fs = []
            def c2(x):
                for s in x["saves"]:
                    fs.append(s["name"].lower())
                    c2(s)
            c2(b)
            per.append(fs)
        if any(len(set(f)) < len(f) for f in per):
            rec.label("refused")
            return
        raise
    rec.label("read")
    def tree(parent):
        out = []
        for key, info in cf.child_table.items():
            if info.parent == parent:
                out.append([info.block_id, cf[key]["_tag"], tree(key)])
        return sorted(out)
    want = tags(model)
    same(tree(None), want, "blocks read from %r" % text)
    same(len(cf.child_table), n[0], "number of blocks")
    vis = [k for k in cf.child_table if case["scoping"] == "dictionary" or cf.child_table[k].parent is None]
    same(sorted(cf.keys()), sorted(vis), "visible keys")
    for b in model:
        key = [k for k, i in cf.get_roots() if i.block_id == b["name"]][0]
        bc = cf.get_children(key)
        same(sorted(bc[k]["_tag"] for k in bc.child_table), sorted(x[1] for x in flat(tags(b["saves"]))), "get_children(%r) of %r" % (key, text))
    for op, i in case["ops"]:
        keys = sorted(cf.child_table)
        if not keys:
            break
        k = keys[i % len(keys)]
        tag = cf[k]["_tag"]
        if op == "del":
            del cf[k]
            want = prune(want, tag)
        else:
            cf.rename(k, "New-%d" % i if "new-%d" % i not in keys else k)if "new-%d" % i not in keys else None
            if "new-%d" % i not in keys:
                want = relabel(want, tag, "New-%d" % i)
        same(tree(None), want, "after %s %r" % (op, k))
    out = cf.WriteOut()
    same(tags(refcif.parse(out, g)), want, "written again")


def flat(t):
    out = []
    for x in t:
        out += [x] + flat(x[2])
    return out


def prune(t, tag):
    return sorted([x[0], x[1], prune(x[2], tag)] for x in t if x[1] != tag)


def relabel(t, tag, nm):
    return sorted([nm if x[1] == tag else x[0], x[1], relabel(x[2], tag, nm)] for x in t)


SUBS = [Sub("history", strategy(), check, quick=(5, 2000), thorough=(10, 5000)),
        Sub("long_history", strategy(True), check, quick=(2, 1200), thorough=(8, 2500)),
        Sub("same_named", same_strategy, check_same, quick=(1, 1500), thorough=(4, 6000))]
