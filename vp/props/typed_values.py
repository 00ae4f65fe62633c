"""Values take the type that the dictionary gives them."""
import io
from decimal import Decimal
from hypothesis import strategies as st
from vp.ddl1 import G
from vp.core import Sub, Fail, expect, same

RULE = ("numbers as they may be written in a CIF, given to get_number_with_esd; and DDLm dictionaries of Set and Loop items whose types range over containers, contents (nested ones too) and "
        "dimensions (absent, written as text or as a list), with data present under the name or an alias, unknown, or given by a default, read with and without a dictionary. "
        "Non-trivial: a number with an exponent and an uncertainty; a looped list, array or nested list.")
ASSUMPTIONS = ["Binary, Octal and Hexadecimal values are written with 0b, 0o and 0x", "complex numbers are written as in dREL or DDLm (1+2j, 1+j2)", "lists hold no unknown values"]

NUMBERS = ("Real", "Integer", "Count", "Index", "Complex", "Imag", "Binary", "Octal", "Hexadecimal")
TEXT = ("Code", "Name", "Tag", "Text", "Uri", "Date", "Version", "Filename")
CASELESS = ("Code", "Name", "Tag")


def digits(d, n=4):
    return "".join(d.pick("0123456789") for _ in range(d.i(1, n)))


def real(d, exponents="eE", su=True):
    """(text, value, uncertainty)"""
    sign = d.pick(["", "", "", "-", "+"])
    form = d.i(0, 4)
    whole, part = (digits(d) if form != 1 else ""), (digits(d) if form in (1, 2, 3) else "")
    mantissa = whole + ("." if form in (1, 2, 3, 4) and not (form == 4 and d.some(2)) else "") + part
    u = digits(d, 2) if su and d.some(3) else None
    e = d.pick(exponents) + d.pick(["", "+", "-"]) + str(d.i(0, 12)).rjust(d.i(1, 2), "0") if d.some(3) else ""
    power = int(e[1:]) if e else 0
    value = float(Decimal((sign if sign == "-" else "") + (whole or "0") + "." + (part or "0")).scaleb(power))
    return sign + mantissa + ("(%s)" % u if u is not None else "") + e, value, None if u is None else float(Decimal(u).scaleb(power - len(part)))


@st.composite
def numbers(draw):
    d = G(draw)
    n = [real(d, "eEdD") for _ in range(d.i(1, 4))]
    if d.some(5):
        n.append((d.pick([".", "?"]), None, None))
    return [list(x) for x in n]


def near(a, b):
    return a == b or (a is not None and b is not None and abs(a - b) <= 1e-12 * max(abs(a), abs(b)))


def check_numbers(case, rec):
    import CifFile
    for t, v, u in case:
        got = CifFile.get_number_with_esd(t)
        expect(len(got) == 2 and got[0] == v and near(got[1], u), "%s is %r, expected %r", t, got, (v, u))
        if u is not None and "e" in t.lower().replace("d", "e"):
            rec.nontrivial(True)
    rec.label(*set("exponent with %s" % c for t, _, _ in case for c in t if c in "eEdD"))


def simple(d, t):
    """(text, value) of a simple type"""
    if t == "Real":
        return real(d)[:2]
    if t in ("Integer", "Count", "Index"):
        x = str(d.i(1 if t == "Index" else 0, 999))
        s = d.pick(["", "", "-", "+"]) if t == "Integer" else ""
        return s + x.rjust(d.i(1, 4), "0") + ("(%d)" % d.i(1, 20) if t == "Integer" and d.some(4) else ""), int(s + x)
    if t == "Imag":
        x = real(d, su=False)
        return x[0], {"re": 0.0, "im": x[1]}
    if t == "Complex":
        a, b = real(d, su=False), real(d, su=False)
        sign, size = ("-" if b[0][0] == "-" else "+"), b[0].lstrip("+-")
        return (a[0] + sign + ("j" + size if d.some(2) else size + "j")) if d.i(0, 3) else a[0], None
    if t in ("Binary", "Octal", "Hexadecimal"):
        x = d.i(0, 5000)
        s = {"Binary": bin, "Octal": oct, "Hexadecimal": hex}[t](x)
        return d.pick([s, s.upper(), s[:2] + s[2:].upper()]), x
    s = d.pick(["Red", "c1", "A_b", "O2-", "XYZ"]) + d.pick(["", "1", "Z"])
    if t == "Tag":
        s = "_" + s
    if t in ("Text", "Uri", "Filename") and d.some(2):
        s += d.pick([" b C", "/x#Y", "é", "\n a"])
    if t == "Text" and d.some(5):
        s = d.pick(["1.50", "1(2)", "Inf", "0x1F", "1e5"])
    return s, s.lower() if t in CASELESS else s


def cplx(text):
    t = text.lower()
    for k in range(len(t) - 1, 0, -1):
        if t[k] in "+-" and t[k - 1] != "e":
            return {"re": float(t[:k]), "im": float(t[k:].replace("j", ""))}
    return {"re": float(t), "im": 0.0}


def decoded(v):
    if isinstance(v, list):
        return [decoded(x) for x in v]
    return complex(v["re"], v["im"]) if isinstance(v, dict) else v


@st.composite
def cases(draw):
    d = G(draw)
    items = []
    rows = d.i(1, 4)

    def structure(depth):
        """nested contents: a list of simple types and lists"""
        return [structure(depth - 1) if depth and d.some(4) else d.pick(NUMBERS + TEXT) for _ in range(d.i(1, 3))]

    def value(s):
        if isinstance(s, list):
            x = [value(k) for k in s]
            return [k[0] for k in x], [k[1] for k in x]
        t, v = simple(d, s)
        return t, cplx(t) if s == "Complex" else v

    def filled(s, dims):
        if not dims:
            return value(s)
        x = [filled(s, dims[1:]) for _ in range(dims[0])]
        return [k[0] for k in x], [k[1] for k in x]

    for n in range(d.i(1, 5)):
        it = {"obj": d.pick(["alpha", "Beta", "x_y", "U_iso", "val"]) + str(n), "cat": d.pick(["one", "many"]), "container": d.pick(["Single", "Single", "List", "List", "Array", "Matrix", "Multiple", "none"])}
        if it["container"] in ("Single", "none"):
            it["contents"], it["dims"] = d.pick(NUMBERS + TEXT), []
        elif it["container"] == "Multiple":
            it["contents"], it["dims"] = d.pick(("Text", "Uri", "Code")), []
        elif it["container"] == "List":
            if d.some(2):
                it["contents"], it["dims"] = d.pick(NUMBERS + TEXT), [d.i(1, 4) for _ in range(d.i(1, 2))]
            else:
                it["contents"], it["dims"] = structure(2), [d.i(1, 3)]
        else:
            it["contents"], it["dims"] = d.pick(("Real", "Integer", "Complex", "Count", "Index")), [d.i(1, 3) for _ in range(d.i(1, 2))]
        if it["container"] == "none" and d.some(2):
            it["contents"] = None
        # a dictionary need not give the numbers of elements
        it["shown"] = d.pick(["list", "text", "text", "empty", "absent"]) if it["dims"] else "absent"
        # a list of one structured element may be given without the outer brackets
        it["bare"] = isinstance(it["contents"], list) and it["dims"] == [1] and it["shown"] in ("list", "text") and d.some(2)
        it["state"] = d.pick(["name", "name", "name", "name", "alias", "default", "unknown", "dot"])
        k = it["contents"] or "Text"
        make = lambda: filled(k, it["dims"]) if it["container"] != "Multiple" else (lambda s: (s, s))(simple(d, "Text")[0])
        if it["state"] == "default":
            it["vals"] = [make()] * (rows if it["cat"] == "many" else 1)
        else:
            it["vals"] = [make() for _ in range(rows if it["cat"] == "many" else 1)]
        it["vals"] = [list(v) for v in it["vals"]]
        if it["state"] == "unknown" or it["state"] == "dot":
            it["gaps"] = [True] + [d.some(2) for _ in it["vals"][1:]]
        items.append(it)
    return {"items": items, "rows": rows, "style": d.i(0, 99), "reads": d.i(1, 2), "spelling": d.some(2)}


def contents(c):
    """the text of a structure"""
    return "List(%s)" % ",".join(k if isinstance(k, str) else contents(k) for k in c)


def written(t, style=0):
    if isinstance(t, list):
        return "[" + (" " if style % 3 else "\n").join(written(x, style) for x in t) + "]"
    if "\n" in t:
        return "'''%s'''" % t if style % 2 else '"""%s"""' % t
    return "'%s'" % t if style % 2 or " " in t or "#" in t or t[0] == "_" else t


def dims(it):
    return {"list": "[%s]" % " ".join(map(str, it["dims"])), "text": "'[%s]'" % ",".join(map(str, it["dims"])), "empty": "'[]'"}[it["shown"]]


def dictionary(case):
    out = ["#\\#CIF_2.0\ndata_T\n_dictionary.title T\n_dictionary.class Instance\n_dictionary.version 1.0\n_dictionary.ddl_conformance 3.14\n"
           "save_T_HEAD\n_definition.id T_HEAD\n_definition.scope Category\n_definition.class Head\n_name.object_id T_HEAD\n_name.category_id T\nsave_\n"
           "save_ONE\n_definition.id ONE\n_definition.scope Category\n_definition.class Set\n_name.object_id ONE\n_name.category_id T_HEAD\nsave_\n"
           "save_MANY\n_definition.id MANY\n_definition.scope Category\n_definition.class Loop\n_name.object_id MANY\n_name.category_id T_HEAD\nloop_ _category_key.name '_many.id'\nsave_\n"
           "save_many.id\n_definition.id '_many.id'\n_name.category_id many\n_name.object_id id\n_type.purpose Key\n_type.container Single\n_type.contents Code\nsave_\n"]
    for it in case["items"]:
        n = "%s.%s" % (it["cat"], it["obj"])
        t = ["save_" + n, "_definition.id '_%s'" % n, "_name.category_id " + it["cat"], "_name.object_id " + it["obj"], "_type.purpose Describe"]
        if it["container"] != "none":
            t.append("_type.container " + it["container"])
        if it["contents"]:
            t.append("_type.contents '%s'" % (it["contents"] if isinstance(it["contents"], str) else contents(it["contents"])))
        if it["shown"] != "absent":
            t.append("_type.dimension " + dims(it))
        if it["state"] == "alias":
            t.append("loop_ _alias.definition_id '_old_%s'" % it["obj"])
        if it["state"] == "default":
            t.append("_enumeration.default " + written(bare(it, it["vals"][0][0]), case["style"]))
        out.append("\n".join(t + ["save_\n"]))
    return "\n".join(out)


def bare(it, v):
    return v[0] if it["bare"] else v


def cells(it):
    gap = {"unknown": "?", "dot": "."}.get(it["state"])
    return [gap if gap and g else bare(it, v[0]) for v, g in zip(it["vals"], it.get("gaps") or [False] * len(it["vals"]))]


def data(case):
    out, loop = ["#\\#CIF_2.0\ndata_d\n"], [("_many.id", ["K%d" % k for k in range(case["rows"])])]
    for it in case["items"]:
        if it["state"] == "default":
            continue
        name = "_old_" + it["obj"] if it["state"] == "alias" else "_%s.%s" % (it["cat"], it["obj"])
        if it["cat"] == "one":
            c = cells(it)[0]
            out.append("%s %s\n" % (name, c if c in ("?", ".") else written(c, case["style"])))
        else:
            loop.append((name, cells(it)))
    out.append("loop_\n" + "\n".join(n for n, _ in loop) + "\n")
    for k in range(case["rows"]):
        out.append("\n".join(v[k] if v[k] in ("?", ".") else written(v[k], case["style"] + k) for _, v in loop) + "\n")
    return "".join(out)


def plain(x):
    """as nested lists, with arrays marked"""
    if hasattr(x, "dtype"):
        return ["array", x.dtype.kind, x.tolist()]
    if isinstance(x, list):
        return [plain(k) for k in x]
    return x


def alike(got, want, kind):
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(alike(g, w, kind) for g, w in zip(got, want))
    if isinstance(want, complex):
        return isinstance(got, complex) and got == want
    return type(got) is type(want) and got == want


def check(case, rec):
    from CifFile import CifDic, ReadCif
    dtext, text = dictionary(case), data(case)
    show = "\n--- dictionary\n%s\n--- data\n%s" % (dtext, text)
    dic = CifDic(ReadCif(io.StringIO(dtext), grammar="2.0"), grammar="2.0")
    f = ReadCif(io.StringIO(text), grammar="2.0")
    b = f["d"]
    before = str(f)
    names = dict(("_%s.%s" % (it["cat"], it["obj"]), it) for it in case["items"])
    for name, it in names.items():
        if it["state"] not in ("alias", "default"):
            want = cells(it)
            same(plain(b[name]), want[0] if it["cat"] == "one" else want, "%s before the dictionary is assigned%s" % (name, show))
    b.assign_dictionary(dic)
    for name, it in names.items():
        if it["state"] in ("name", "dot"):
            want = cells(it)
            same(plain(b[name]), want[0] if it["cat"] == "one" else want, "%s with provide_value off%s" % (name, show))
    b.provide_value = True
    look(case, b, names, case["reads"], show, rec)
    if all(it["state"] == "name" for it in case["items"]):
        b.provide_value = False
        same(str(f), before, "the file after its values were looked at" + show)
    if not any(it["state"] == "default" and leaves(it["contents"]) & {"Complex", "Imag", "Binary", "Octal", "Hexadecimal"} for it in case["items"]):
        # defaults are now in the block
        for it in case["items"]:
            if it["state"] == "default":
                expect("_%s.%s" % (it["cat"], it["obj"]) in b, "the default of %s is not kept%s", it["obj"], show)
        t = str(f)
        try:
            b = ReadCif(io.StringIO(t), grammar="2.0")["d"]
        except Exception as e:
            raise Fail("the file, when its values had been looked at, cannot be read: %s: %s\n%s%s" % (type(e).__name__, e, t, show))
        b.assign_dictionary(dic)
        b.provide_value = True
        look(case, b, names, 1, "\n--- written out\n" + t + show, rec)


def leaves(c):
    return set().union(*map(leaves, c)) if isinstance(c, list) else {c}


def look(case, b, names, times, show, rec):
    for name, it in list(names.items()) * times:
        key = name.upper() if case["spelling"] else name
        if it["state"] == "unknown":
            continue        # see the derivation of values
        try:
            got = b[key]
        except Exception as e:
            raise Fail("%s: %s: %s%s" % (name, type(e).__name__, e, show))
        raw, one = cells(it), it["cat"] == "one"
        if it["state"] == "dot":
            same(plain(got), raw[0] if one else raw, name + show)
            continue
        want = decoded([v[1] for v in it["vals"]])
        if it["bare"]:
            want = [w[0] for w in want]
        got = [got] if one else got
        expect(isinstance(got, list) and len(got) == len(want), "%s has %r rows%s", name, len(got) if isinstance(got, list) else got, show)
        for g, w in zip(got, want):
            if it["container"] in ("Array", "Matrix"):
                kind = {"Real": "f", "Complex": "c"}.get(it["contents"], "i")
                expect(hasattr(g, "dtype") and g.dtype.kind == kind and g.tolist() == w, "%s (%s %s) is %r, expected %r%s", name, it["container"], it["contents"], g, w, show)
            else:
                expect(alike(plain(g), w, None), "%s (%s %s) is %r, expected %r%s", name, it["container"], it["contents"], g, w, show)
        rec.label(it["container"] + (" looped" if not one else ""), it["state"])
        if not one and it["container"] in ("List", "Array", "Matrix"):
            rec.nontrivial(True)


SUBS = [Sub("numbers", numbers, check_numbers, quick=(2, 1500), thorough=(4, 20000)), Sub("types", cases, check, quick=(6, 200), thorough=(10, 3000))]
