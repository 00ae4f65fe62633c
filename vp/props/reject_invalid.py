"""One violation of the syntax or of the data model in an otherwise conformant
text makes the whole text be rejected."""
import io
from hypothesis import strategies as st
from vp import cif, refcif, emit
from vp.core import Sub, Fail, Discard, Harness, same, expect
from vp.props import read_conformant as RC

RULE = ("a conformant text (see C02) that the code reads correctly, plus one defect at a drawn place (a block, a save frame; before, between or "
        "after other content). Non-trivial: the host text holds at least one other value.")
ASSUMPTIONS = ["the same text without the defect is read first and must be accepted", "standard='CIF' (the default of ReadCif)"]
TWO = ("2.0", "STAR2")


def swapc(s, k):
    return [s, s.swapcase(), s.upper(), s.lower()][k % 4] if s.lower() == s.upper().lower() else s


# kind -> (grammars, place, maker); maker(names, k, uni) gives the raw text, or None
def _dup(names, k):
    return names and "%s 1" % swapc(names[k % len(names)], k // 3)


def _duploop(names, k):
    return names and "loop_ _zz1 %s 1 2" % swapc(names[k % len(names)], k // 3)


def _pick(*opts):
    return lambda names, k: opts[k % len(opts)]


def _ragged(names, k):
    w = 2 + k % 4
    n = w * (k % 3) + 1 + k % (w - 1)
    return "loop_ %s %s" % (" ".join("_zz%d" % i for i in range(w)), " ".join(["1", "'x y'", "?", "\n;q\n;\n"][(i + k) % 4] for i in range(n)))


ALL = ("1.0", "1.1", "2.0", "STAR2")
ONE = ("1.0", "1.1")
KINDS = {
    "duplicate item": (ALL, "any", _dup),
    "duplicate in loop": (ALL, "any", _duploop),
    "duplicate within loop": (ALL, "any", _pick("loop_ _zz1 _zz2 _ZZ1 1 2 3", "loop_ _zz1 _Zz1 1 2", "loop_ _zz1 _zz1 1 2")),
    "ragged loop": (ALL, "any", _ragged),
    "missing value": (ALL, "any", _pick("_zz1", "_zz1 _zz2 1", "_zz1 #c\n_zz2 1", "_zz1 loop_ _zz2 1")),
    "extra value": (ALL, "any", _pick("_zz1 1 2", "_zz1 'a b' 'c'", "_zz1\n;a\n;\n;b\n;", "_zz1 ? ?")),
    "loop without values": (ALL, "any", _pick("loop_ _zz1", "loop_ _zz1 _zz2", "loop_ _zz1 loop_ _zz2 1")),
    "loop without names": (ALL, "any", _pick("loop_ 1", "loop_ 'a b' 2", "loop_ loop_ _zz1 1", "loop_ ?")),
    "open quote": (ALL, "any", _pick("_zz1 'abc\n", "_zz1 \"abc\n", "_zz1 '\n", "_zz1 'it's\n", "_zz1 \"a 'b'\n")),
    "open text field": (ALL, "end", _pick("_zz1\n;abc\n", "_zz1\n;abc\ndef ;", "_zz1\n;\nabc\n ;\n", "_zz1\n;a\\\nb\n")),
    "open triple quote": (TWO, "end", _pick("_zz1 '''abc", "_zz1 \"\"\"abc\n\"\"", "_zz1 '''ab\nc''")),
    "open list": (TWO, "any", _pick("_zz1 [1", "_zz1 [[1]", "_zz1 [", "_zz1 [{'a':1}", "loop_ _zz1 [1")),
    "open table": (TWO, "any", _pick("_zz1 {'a':1", "_zz1 {", "_zz1 {'a':{'b':1}", "_zz1 {'a':[1}", "_zz1 {'a':}", "_zz1 {'a' 1}", "_zz1 {a:1}")),
    "mismatched bracket": (TWO, "any", _pick("_zz1 [1}", "_zz1 {'a':1]", "_zz1 1]", "_zz1 ]", "_zz1 }", "_zz1 [1]]", "_zz1 a[1]")),
    "reserved word": (ALL, "any", _pick("global_", "_zz1 global_", "stop_", "_zz1 stop_", "loop_ _zz1 1 stop_", "_zz1 GLOBAL_", "_zz1 data_", "_zz1 save_",
                                        "_zz1 loop_", "loop_ _zz1 1 global_", "_zz1 Stop_x", "data_ ", "data_\n_zz1 1")),
    "dollar or underscore": (ALL, "any", _pick("_zz1 $frame", "_zz1 _", "$ref", "_ 1", "_zz1 $")),
    "leading bracket": (("1.1",), "any", _pick("_zz1 [abc", "_zz1 ]", "_zz1 [1,2]", "loop_ _zz1 a [")),
    "open save frame": (ALL, "endtop", _pick("save_zzf", "save_zzf _zz1 1", "save_zzf loop_ _zz1 1 2")),
    "stray save_": (ALL, "endtop", _pick("save_", "_zz1 1 save_", "save_zzf _q 1 save_ save_")),
    "nested save frame": (("2.0",), "endtop", _pick("save_zzf save_zzg save_ save_", "save_zzf _q 1 save_zzg _r 1 save_ save_")),
    "content before block": (ALL, "start", _pick("_zz1 1", "loop_ _zz1 1", "abc", "save_f save_", "'a'", "\n;a\n;")),
    "long name": (ALL, "any", lambda names, k: ["_" + "z" * (75 + k % 40) + " 1", "loop_ _zz1 _" + "z" * (75 + k % 40) + " 1 2"][k % 2]),
    "non-ASCII name": (ONE, "any", _pick(u"_zz\u00e9 1", u"_\u0394 1", u"_zz1\u00a0 1", u"_a\U0001f600 1")),
    "bad character in name": (ALL, "any", _pick(u"_z\x03z 1", u"_zz\x7f 1", u"_z\x00z 1")),
    "noncharacter in name": (TWO, "any", _pick(u"_zz\ufdd0 1", u"_zz\ufffe 1", u"_z\uffff 1", u"_zz\ufdef 1")),
    "duplicate block": (ALL, "block", None),
    "duplicate frame": (ALL, "frames", None),
    "no magic": (("2.0",), "magic", None),
    "missing white space": (TWO, "any", _pick("_zz1 'a'b", "_zz1 \"a\"\"b\"", "_zz1 'a'b'", "_zz1 '''a'''b", "_zz1 'a''")),
    "lone triple": (TWO, "end", _pick("_zz1 '''", "_zz1 \"\"\"")),
}


def strategy(g):
    kinds = sorted(k for k in KINDS if g in KINDS[k][0])

    def s():
        return st.fixed_dictionaries({
            "host": RC.strategy(g)(), "kind": st.sampled_from(kinds), "k": st.integers(0, 200), "at": st.integers(0, 40),
            "scan": st.sampled_from(["standard", "standard", "flex"])})
    return s


def targets(model, top):
    out = []
    for b in model:
        out.append(b)
        if not top:
            out += b["saves"]
            for f in b["saves"]:
                out += f["saves"]
    return out


class RawEmitter(emit.Emitter):
    raw = None

    def items(self, b):
        es = b["items"]
        if self.raw and self.raw[0] is b:
            pos, text = self.raw[1], self.raw[2]
            head = dict(b, items=es[:pos], saves=b["saves"] if pos >= len(es) else [])
            emit.Emitter.items(self, head)
            self.w("\n" + text + "\n")
            if pos < len(es):
                emit.Emitter.items(self, dict(b, items=es[pos:]))
        else:
            emit.Emitter.items(self, b)

    def file(self, model):
        if self.raw and self.raw[0] == "start":
            t = emit.Emitter.file(self, model)
            if self.g == "2.0":
                return "#\\#CIF_2.0\n" + self.raw[2] + "\n" + t
            return self.raw[2] + "\n" + t
        return emit.Emitter.file(self, model)


def with_defect(case, model):
    kind, k, at, g = case["kind"], case["k"], case["at"], case["host"]["g"]
    grams, place, maker = KINDS[kind]
    em = RawEmitter(g, case["host"]["ch"])
    if place == "magic":
        t = em.file(model)
        return t[10:]
    if place == "block":
        nm = model[at % len(model)]["name"]
        dup = {"name": swapc(nm, k), "items": [["k", "_zz1", "1"]] if k % 2 else [], "saves": []}
        p = k % (len(model) + 1)
        return em.file(model[:p] + [dup] + model[p:])
    if place == "frames":
        ts = [b for b in targets(model, g != "STAR2") if b["saves"]]
        if not ts:
            raise Discard()
        b = ts[at % len(ts)]
        nm = b["saves"][k % len(b["saves"])]["name"]
        dup = {"name": swapc(nm, k), "items": [["k", "_zz1", "1"]] if k % 2 else [], "saves": []}

        def re(x):
            if x is b:
                s = list(x["saves"])
                s.insert(k % (len(s) + 1), dup)
                return dict(x, saves=s)
            return dict(x, saves=[re(y) for y in x["saves"]])
        return em.file([re(x) for x in model])
    if place == "start":
        em.raw = ("start", 0, maker([], k))
        return em.file(model)
    ts = targets(model, place == "endtop")
    b = ts[at % len(ts)] if place == "any" else model[-1]
    names = [n for e in b["items"] for n in ([e[1]] if e[0] == "k" else e[1])]
    raw = maker(names, k)
    if not raw:
        raise Discard()
    pos = len(b["items"]) if place != "any" else (at // 3) % (len(b["items"]) + 1)
    em.raw = (b, pos, raw)
    if place in ("end", "endtop"):
        # nothing may follow
        t = em.file(model)
        return t[:t.rindex(raw) + len(raw)] + "\n"
    return em.file(model)


def readit(text, g, scan):
    from CifFile import ReadCif
    return ReadCif(io.StringIO(text), grammar=g, scantype=scan)


def check(case, rec):
    from CifFile.StarFile import StarError
    g = case["host"]["g"]
    model, text = RC.make(case["host"])
    bad = with_defect(case, model)
    scan = case["scan"] if all(ord(c) < 127 for c in bad) else "standard"
    if case["kind"] == "reserved word":
        scan = "standard"        # the compiled scanner cuts such words differently
    rec.nontrivial(any(True for v in cif.walk_values(model)))
    rec.label(case["kind"])
    try:
        cif.file_model(readit(text, g, scan))
    except StarError:
        raise Discard()          # C02's business
    try:
        cf = readit(bad, g, scan)
    except StarError as e:
        return
    raise Fail("%s accepted (%s, %s): %r\nread as %r" % (case["kind"], g, scan, bad[-1500:], cif.file_model(cf)))


SUBS = []
for g in ALL:
    SUBS.append(Sub("g_" + g.replace(".", "_"), strategy(g), check, quick=(2, 1200), thorough=(8, 5000)))
