"""A model of a data block (items, loops, order) and an interpreter of
operation histories that runs the real block and the model side by side."""
import io
from hypothesis import strategies as st
from . import cif, refcif
from .core import Fail, Discard, same, expect

POOL = {"1.1": ["_a", "_Cell_Length", "_ATOM_site.U[1][1]", "_b-/x", "_refln_d", "_Zz", "_q1"],
        "2.0": ["_a", "_Cell_Length", u"_\u00c9t\u00e9", u"_b\u0416", "_refln_d", "_Zz", u"_\U00010400x"]}
VALS = ["1", "abc", "?", ".", "a b", "it's", "", ";x", "1.2(3)", "x\ny", "ABC", 5, -1.5, 0, "data_x", "_n"]
OPS = ["set", "set", "set", "set", "setlist", "setlist", "setlist", "del", "loop", "loop", "loop", "loop", "addname", "addto", "move", "moveloop",
       "lbmove", "lock", "unlock", "badname", "badval", "update", "lbset", "addpacket", "addpacket", "badpacket", "rmkey", "reread", "clear"]


def strategy(ops=OPS, max_ops=14, min_ops=5):
    I = st.integers(0, 15)
    op = st.tuples(st.sampled_from(ops), I, I, I, I).map(list)

    def mk():
        return st.fixed_dictionaries({"g": st.sampled_from(["1.1", "2.0"]), "ctor": st.integers(0, 3), "ops": st.lists(op, min_size=min_ops, max_size=max_ops)})
    return mk


def spell(n, k):
    return [n, n.upper(), n.lower(), n.swapcase()][k % 4]


def conv(v):
    from CifFile.StarFile import StarList
    if isinstance(v, StarList):
        return tuple(conv(a) for a in list.__iter__(v))
    if isinstance(v, list):
        return [conv(a) for a in v]
    return v


def unconv(v):
    from CifFile.StarFile import StarList
    if isinstance(v, tuple):
        return StarList([unconv(a) for a in v])
    if isinstance(v, list):
        return [unconv(a) for a in v]
    return v


def text_of(v):
    if isinstance(v, tuple):
        return [text_of(a) for a in v]
    return cif.as_text(v)


class Model(object):
    def __init__(self):
        self.vals, self.spell, self.order, self.loops, self.n = {}, {}, [], {}, 0
        self.locked = False

    def snap(self):
        return (dict((k, list(v) if isinstance(v, list) else v) for k, v in self.vals.items()), list(self.order), dict((k, list(v)) for k, v in self.loops.items()))

    def loop_of(self, low):
        for n, names in self.loops.items():
            if low in names:
                return n
        return None

    def rows(self, n):
        return len(self.vals[self.loops[n][0]])

    def set(self, name, v):
        low = name.lower()
        if low not in self.vals and self.loop_of(low) is None:
            self.order.append(low)
        self.vals[low] = v
        self.spell[low] = set([name])

    def drop_from_loop(self, low):
        n = self.loop_of(low)
        if n is not None:
            self.loops[n].remove(low)
            if not self.loops[n]:
                del self.loops[n]
                self.order.remove(("L", n))

    def delete(self, low):
        if low not in self.vals:
            return
        del self.vals[low]
        del self.spell[low]
        if self.loop_of(low) is not None:
            self.drop_from_loop(low)
        else:
            self.order.remove(low)

    def loop(self, lows, pos):
        for l in lows:
            self.drop_from_loop(l)
            if l in self.order:
                self.order.remove(l)
        self.n += 1
        self.loops[self.n] = list(lows)
        if pos is None:
            self.order.append(("L", self.n))
        else:
            self.order.insert(pos, ("L", self.n))


class Run(object):
    def __init__(self, case, rec):
        from CifFile import CifBlock
        from CifFile.StarFile import StarError, StarLengthError
        self.ERR = (StarError, StarLengthError, KeyError, ValueError)
        self.case, self.rec = case, rec
        self.g = case["g"]
        self.uni = self.g == "2.0"
        self.pool = POOL[self.g]
        self.m = Model()
        self.trace = []
        kw = {"characterset": "unicode" if self.uni else "ascii"}
        c = case["ctor"]
        if c == 0:
            self.b = CifBlock(**kw)
        else:
            data = [(self.pool[0], "first")]
            self.m.set(self.pool[0], "first")
            if c > 1:
                names = self.pool[2:2 + c]
                cols = [["%d%d" % (i, j) for j in range(c)] for i in range(len(names))]
                data.append((tuple(names), tuple(cols)))
                for n, col in zip(names, cols):
                    self.m.set(n, list(col))
                self.m.loop([n.lower() for n in names], None)
            self.b = CifBlock(data=tuple(data), **kw)
        self.nloop = self.nops = 0

    # -------------------------------------------------------- pieces
    def name(self, i, k):
        return spell(self.pool[i % len(self.pool)], k)

    def scalar(self, i):
        if self.uni and i % 16 == 15:
            return ("p", "q")
        return VALS[i % len(VALS)]

    def column(self, n, i):
        return [VALS[(i + 3 * j * (1 + i % 3)) % len(VALS)] for j in range(n)]

    def pick(self, i):
        ks = sorted(self.m.loops)
        return ks[i % len(ks)] if ks else None

    def fails(self, fn, what, exc=None):
        try:
            fn()
        except exc or self.ERR:
            return
        except Exception as e:
            raise Fail("%s: %s: %s\n%r" % (what, type(e).__name__, e, self.trace))
        raise Fail("%s: accepted\n%r" % (what, self.trace))

    def lb(self, n):
        names = self.m.loops[n]
        return self.b.GetLoop(spell(names[len(names) // 2], n))

    # -------------------------------------------------------- operations
    def step(self, op):
        from CifFile.StarFile import StarError, StarPacket
        kind, a, b, c, d = op
        m, B = self.m, self.b
        low = self.name(a, 0).lower()
        note = lambda *x: self.trace.append((kind,) + x)
        if kind in ("set", "setlist", "lbset"):
            name = self.name(a, b)
            n = m.loop_of(low)
            if kind == "lbset":
                ln = self.pick(c)
                if ln is None or m.rows(ln) == 0 or n not in (None, ln):
                    return False
                v = self.column(m.rows(ln), d)
            elif n is not None:
                if m.rows(n) == 0:
                    return False
                v = self.column(m.rows(n), d)
            elif kind == "set":
                v = self.scalar(d)
            else:
                v = self.column(1 + c % 3, d)
            note(name, v)
            tgt = B if kind != "lbset" else self.lb(ln)
            if m.locked and low in m.vals:
                self.fails(lambda: tgt.__setitem__(name, unconv(v)), "overwriting with overwrite=False", StarError)
                return True
            tgt[name] = unconv(v)
            m.set(name, v)
            if kind == "lbset" and n is None:
                m.order.remove(low)
                m.loops[ln].append(low)
        elif kind == "update":
            ds = {}
            for i in (a, b):
                nm = self.name(i, c)
                if m.loop_of(nm.lower()) is None and (nm.lower() not in m.vals or not m.locked):
                    ds[nm] = self.scalar(d + i)
            note(ds)
            B.update(dict((k, unconv(v)) for k, v in ds.items()))
            for k, v in ds.items():
                m.set(k, v)
        elif kind == "badname":
            bad = ["a", "_a b", "_a\tb", "_a\x07", u"_a\u0080", "_" + "x" * 75, "", "_a\n", u"_\ufffe", u"_\ufdd0"][d % 10]
            if not bad:
                return False
            note(bad)
            self.fails(lambda: B.__setitem__(bad, "1"), "name %r" % bad, StarError)
        elif kind == "badval":
            bad = ["a\x07", "\x00", u"x\ufffe", "a\x1fb", u"\ufdd0", "\x0c"][d % 6]
            v = [bad, ["1", bad]][c % 2]
            name = self.name(a, b)
            note(name, v)
            if m.loop_of(low) is not None or (m.locked and low in m.vals):
                return False
            self.fails(lambda: B.__setitem__(name, v), "value %r" % (v,), StarError)
        elif kind == "del":
            name = self.name(a, b)
            note(name)
            if low in m.vals:
                del B[name]
                m.delete(low)
            else:
                try:
                    del B[name]
                except KeyError:
                    pass
        elif kind == "clear":
            if a % 4:
                return False
            note()
            B.clear()
            old = m.locked
            self.m = m = Model()
            m.locked = old
        elif kind in ("lock", "unlock"):
            note()
            B.overwrite = kind == "unlock"
            m.locked = kind == "lock"
        elif kind == "loop":
            if b % 4 == 0:
                cand = self.pool
            elif b % 4 == 1:
                cand = [n for n in self.pool if isinstance(m.vals.get(n.lower(), 1), list)]
            else:      # names that fit together
                groups = {}
                for n in self.pool:
                    v = m.vals.get(n.lower())
                    if v is not None:
                        groups.setdefault(len(v) if isinstance(v, list) else -1, []).append(n)
                if not groups:
                    return False
                ks = sorted(groups)
                cand = groups[ks[c % len(ks)]]
            mask = 1 + (a * 7 + d * 13) % 127
            names = [spell(n, d) for i, n in enumerate(cand) if mask >> i & 1]
            if a % 3 == 0:
                names.reverse()
            if not names:
                return False
            lows = [n.lower() for n in names]
            vs = [m.vals.get(l) for l in lows]
            note(names)
            if any(v is None for v in vs):
                self.fails(lambda: B.CreateLoop(names), "looping absent names", KeyError)
                return True
            islist = [isinstance(v, list) for v in vs]
            if all(islist) and len(set(len(v) for v in vs)) == 1:
                pass
            elif not any(islist):
                if m.locked:
                    return False
            else:
                self.fails(lambda: B.CreateLoop(names), "looping unequal columns %r" % (vs,), ValueError)
                return True
            pos = None
            if c % 3 == 0:
                gone = [l for l in lows if l in m.order]
                gone += [n for n, ns in m.loops.items() if all(x in lows for x in ns)]
                pos = (a + b) % (len(m.order) - len(gone) + 1)
                self.trace[-1] += (pos,)
                B.CreateLoop(names, order=pos)
            else:
                B.CreateLoop(names)
            for l, nm, v in zip(lows, names, vs):
                if not isinstance(v, list):
                    m.vals[l] = [v]
                m.spell[l].add(nm)
            m.loop(lows, pos)
            self.nloop += 1
        elif kind == "addname":
            old, new = self.name(b, c), self.name(a, d)
            note(old, new)
            n = m.loop_of(old.lower())
            if n is None:
                self.fails(lambda: B.AddLoopName(old, new), "AddLoopName with an unlooped first name", KeyError)
                return True
            if low in m.loops[n]:
                B.AddLoopName(old, new)
                return True
            v = m.vals.get(low)
            if not isinstance(v, list) or len(v) != m.rows(n):
                self.fails(lambda: B.AddLoopName(old, new), "adding %r = %r to a loop of %d rows" % (new, v, m.rows(n)))
                return True
            B.AddLoopName(old, new)
            if low in m.order:
                m.order.remove(low)
            else:
                m.drop_from_loop(low)
            m.loops[n].append(low)
            self.nloop += 1
        elif kind == "addto":
            n = self.pick(b)
            if n is None or m.rows(n) == 0 or m.loop_of(low) not in (None, n):
                return False
            if m.locked and low in m.vals:
                return False
            name = self.name(a, c)
            v = self.column(m.rows(n), d)
            at = spell(m.loops[n][b % len(m.loops[n])], d)
            note(at, name, v)
            if c % 2:
                self.lb(n).AddToLoop(at, {name: v})
            else:
                B.AddToLoop(at, {name: v})
            isnew = m.loop_of(low) is None
            m.set(name, v)
            if isnew:
                m.order.remove(low)
                m.loops[n].append(low)
            self.nloop += 1
        elif kind == "move":
            name = self.name(a, b)
            n = m.loop_of(low)
            note(name)
            if low not in m.vals:
                self.fails(lambda: B.ChangeItemOrder(name, 0), "moving an absent item")
                return True
            seq = m.order if n is None else m.loops[n]
            pos = c % len(seq)
            B.ChangeItemOrder(name, pos)
            seq.remove(low)
            seq.insert(pos, low)
        elif kind == "moveloop":
            n = self.pick(a)
            if n is None:
                return False
            pos = c % len(m.order)
            note(m.loops[n], pos)
            B.ChangeItemOrder(B.FindLoop(spell(m.loops[n][0], d)), pos)
            m.order.remove(("L", n))
            m.order.insert(pos, ("L", n))
        elif kind == "lbmove":
            n = self.pick(a)
            if n is None:
                return False
            l = m.loops[n][b % len(m.loops[n])]
            pos = c % len(m.loops[n])
            note(l, pos)
            self.lb(n).ChangeItemOrder(spell(l, d), pos)
            m.loops[n].remove(l)
            m.loops[n].insert(pos, l)
        elif kind in ("addpacket", "badpacket"):
            n = self.pick(a)
            if n is None:
                return False
            lb = self.lb(n)
            names = m.loops[n]
            row = [VALS[(b + 5 * i) % len(VALS)] for i in range(len(names))]
            note(names, row)
            if m.rows(n) and c % 2 and kind == "addpacket":
                p = lb[d % m.rows(n)]
            else:
                p = StarPacket()
            miss = names[d % len(names)] if kind == "badpacket" else None
            for l, v in zip(names, row):
                if l != miss:
                    setattr(p, l, v)
            if miss:
                self.fails(lambda: lb.AddPacket(p), "a packet without %s" % miss, self.ERR + (AttributeError,))
                return True
            if m.locked:
                self.fails(lambda: lb.AddPacket(p), "a packet for a locked block", StarError)
                return True
            lb.AddPacket(p)
            for l, v in zip(names, row):
                m.vals[l] = m.vals[l] + [v]
                m.spell[l] |= set([l])
        elif kind == "rmkey":
            n = self.pick(a)
            if n is None:
                return False
            l = m.loops[n][b % len(m.loops[n])]
            if m.rows(n) == 0 or c % 5 == 4:
                val = "no such value"
                note(l, val)
                self.fails(lambda: B.RemoveKeyedPacket(spell(l, d), val), "removing an absent packet")
                return True
            val = m.vals[l][c % m.rows(n)]
            note(l, val)
            (B if d % 2 else self.lb(n)).RemoveKeyedPacket(spell(l, d), unconv(val))
            i = m.vals[l].index(val)
            for x in m.loops[n]:
                m.vals[x] = m.vals[x][:i] + m.vals[x][i + 1:]
        elif kind == "reread":
            if any(isinstance(m.vals[l], list) for l in m.order if not isinstance(l, tuple)) or any(m.rows(n) == 0 for n in m.loops):
                return False
            note()
            text = self.write()
            cf = cif.read(text, self.g)
            self.b = cf["blk"]
            self.b.overwrite = not m.locked
            for l in m.vals:
                v = m.vals[l]
                m.vals[l] = [text_of(x) for x in v] if isinstance(v, list) else (
                    tuple(text_of(x) for x in v) if isinstance(v, tuple) else text_of(v))
        else:
            raise Exception(kind)
        return True

    # -------------------------------------------------------- observation
    def write(self):
        cf = cif.new_file(self.g)
        cf["blk"] = self.b
        return cf.WriteOut()

    def observe(self):
        m, B = self.m, self.b
        t = "after %r" % (self.trace,)
        same(sorted(B.keys()), sorted(m.vals), t)
        same(len(B), len(m.vals), t)
        same(sorted((k, conv(v)) for k, v in B.items()) if all(isinstance(v, str) for v in m.vals.values()) else
             dict((k, conv(v)) for k, v in B.items()), sorted(m.vals.items()) if all(isinstance(v, str) for v in m.vals.values()) else m.vals, t)
        same([conv(v) for v in B.values()], [m.vals[k] for k in B.keys()], t)
        real = {}
        for n, names in m.loops.items():
            k = B.FindLoop(names[0])
            expect(isinstance(k, int) and k >= 0 and k not in real.values(), "loop number %r of %r %s", k, names, t)
            real[n] = k
        want = [real[e[1]] if isinstance(e, tuple) else e for e in m.order]
        same(B.GetItemOrder(), want, "item order " + t)
        for i, nm in enumerate(self.pool):
            for k in range(3):
                s = spell(nm, k)
                low = s.lower()
                there = low in m.vals
                same([s in B, B.has_key(s)], [there, there], "presence of %r %s" % (s, t))
                n = m.loop_of(low)
                same(B.FindLoop(s), -1 if n is None else real[n], "loop of %r %s" % (s, t))
                if not there:
                    same(B.get(s, "dflt"), "dflt", t)
                    try:
                        B[s]
                        raise Fail("absent %r has a value %s" % (s, t))
                    except KeyError:
                        pass
                    continue
                same(conv(B[s]), m.vals[low], "value of %r %s" % (s, t))
                same(conv(B.get(s)), m.vals[low], t)
                if n is None:
                    same(B.GetItemPosition(s), (-1, m.order.index(low)), "position of %r %s" % (s, t))
                    self.fails(lambda: B.GetLoop(s), "GetLoop of an unlooped name", KeyError)
                    self.fails(lambda: B.GetLoopNames(s), "GetLoopNames of an unlooped name", KeyError)
                else:
                    same(B.GetItemPosition(s), (real[n], m.loops[n].index(low)), "position of %r %s" % (s, t))
                    same(list(B.GetLoopNames(s)), m.loops[n], "co-looped names of %r %s" % (s, t))
                    lb = B.GetLoop(s)
                    same(list(lb.keys()), m.loops[n], t)
                    same(lb.GetItemOrder(), m.loops[n], t)
                    same(lb.GetLoopNames(s), m.loops[n], t)
                    same([conv(v) for v in lb.values()], [m.vals[x] for x in m.loops[n]], "loop columns %s" % t)
                    same(conv(lb[s]), m.vals[low], t)
                    expect(s in lb, "%r not in its own loop %s", s, t)

    def finish(self):
        """Loop or drop what cannot be written, write, and compare the text."""
        m, B = self.m, self.b
        B.overwrite = True
        for l in list(m.order):
            if isinstance(l, tuple):
                if m.rows(l[1]) == 0:
                    for x in list(m.loops[l[1]]):
                        del B[x]
                        m.delete(x)
            elif isinstance(m.vals[l], list):
                B.CreateLoop([l])
                m.spell[l].add(l)
                m.loop([l], None)
        self.trace.append("finish")
        self.observe()
        text = self.write()
        got = refcif.parse(text, self.g)
        same([b["name"] for b in got], ["blk"])
        want = []
        for e in m.order:
            if isinstance(e, tuple):
                names = m.loops[e[1]]
                want.append(["l", names, [[text_of(v) for v in r] for r in zip(*[m.vals[x] for x in names])]])
            else:
                want.append(["k", e, text_of(m.vals[e])])
        same(cif.low_items(got[0]["items"]), want, "text written after %r" % (self.trace,))
        for e in got[0]["items"]:
            for nm in ([e[1]] if e[0] == "k" else e[1]):
                expect(nm in m.spell[nm.lower()], "%r written, spelled %r when set; %r", nm, m.spell[nm.lower()], self.trace)

    def go(self, each=None):
        self.observe()
        for op in self.case["ops"]:
            if self.step(op):
                self.nops += 1
                self.rec.label(op[0])
                self.observe()
                if each:
                    each(self)
        self.finish()
        self.rec.nontrivial(self.nops >= 4 and self.nloop >= 1)
