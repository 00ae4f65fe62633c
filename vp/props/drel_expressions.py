"""dREL expressions: what the translated method returns against an evaluator of our own."""
from hypothesis import strategies as st
from vp import drel, drelgen, ddlmgen
from vp.core import Sub, Fail, Discard, expect

RULE = ("methods that set a few variables and assign one expression of up to four levels over whole numbers, reals, text, truth values, lists, slices, vectors, "
        "matrices, tables and complex numbers, in varied layout; the translated method's result is compared with an evaluator working on the expression tree. "
        "Non-trivial: at least two kinds of operation in the expression.")
ASSUMPTIONS = ["whole numbers and reals stay below 1e9", "results compared to 9 digits", "text over several lines in a method is documented as unsupported"]


def kinds(e, out):
    if isinstance(e, list):
        if e and isinstance(e[0], str) and e[0] in ("bin", "cmp", "and", "or", "not", "neg", "pos", "sub", "slice", "call", "tick", "table", "list"):
            out.add(e[0] + (" " + e[1] if e[0] in ("bin", "cmp") else ""))
        for x in e:
            kinds(x, out)
    return out


def check(case, rec):
    prog = case["pre"] + [["out", case["e"]]]
    run = drel.Run()
    try:
        run.run(prog)
    except (ZeroDivisionError, OverflowError):
        raise Discard()
    want = run.target
    text = drel.Printer(case["seed"], case["extra"]).program(prog)
    ks = kinds(case["e"], set())
    rec.nontrivial(len([k for k in ks if k not in ("list",)]) >= 2)
    rec.label(*["type " + case["t"]] + sorted(ks))
    judge(text, want)


def judge(text, want):
    try:
        ast = drel.parse(text)
    except SyntaxError:
        raise Fail("does not parse:\n%s" % text)
    try:
        got = drel.plainval(drel.execute(ast))
    except Exception as e:
        raise Fail("cannot be evaluated (%s: %s), expected %r:\n%s\n--- translated:\n%s" % (type(e).__name__, e, want, text, drel.compile_method(ast)))
    expect(drel.close(want, got), "value %r, expected %r:\n%s", got, want, text)


@st.composite
def systems(draw):
    """a symmetric matrix of three rows, and what is asked for"""
    d = ddlmgen.D(draw)
    a = [d.i(-9, 9) / d.pick([1, 1, 2, 4]) for _ in range(6)]
    if d.i(0, 3) == 0:
        a[3:] = [0, 0, 0]
    return {"m": a, "seed": d.i(0, 999), "way": d.pick(["all", "value", "vector"]), "n": d.i(0, 2)}


def check_eigen(case, rec):
    import math
    a, b, c, d, e, f = case["m"]
    m = [[a, d, e], [d, b, f], [e, f, c]]
    # the roots of the characteristic polynomial
    q = (a + b + c) / 3.0
    p1 = d * d + e * e + f * f
    p = math.sqrt(((a - q) ** 2 + (b - q) ** 2 + (c - q) ** 2 + 2 * p1) / 6.0)
    if p == 0:
        raise Discard()
    k = [[(m[i][j] - (q if i == j else 0)) / p for j in range(3)] for i in range(3)]
    det = sum(k[0][i] * (k[1][(i + 1) % 3] * k[2][(i + 2) % 3] - k[1][(i + 2) % 3] * k[2][(i + 1) % 3]) for i in range(3)) / 2.0
    phi = math.acos(max(-1.0, min(1.0, det))) / 3.0
    roots = sorted((q + 2 * p * math.cos(phi + 2 * math.pi * i / 3.0) for i in range(3)), reverse=True)
    if min(roots[0] - roots[1], roots[1] - roots[2]) < 1e-3:
        raise Discard()     # the vectors are not determined
    text = "m = Matrix([%s])\ns = Eigen(m)\n" % ",".join("[%s]" % ",".join(repr(float(x)) for x in r) for r in m)
    text += "__T = " + {"all": "s", "value": "s[%d][0]" % case["n"], "vector": "s[%d]" % case["n"]}[case["way"]] + "\n"
    rec.nontrivial(p1 > 0)
    rec.label(case["way"])
    try:
        got = drel.plainval(drel.execute(drel.parse(text.replace("__T", "_a.b"))))
    except Exception as e:
        raise Fail("%s: %s\n%s" % (type(e).__name__, e, text))
    if case["way"] == "value":
        return expect(abs(got - roots[case["n"]]) < 1e-6 * (1 + abs(got)), "eigenvalue %d is %r, expected %r\n%s", case["n"], got, roots, text)
    for n, row in enumerate([got] if case["way"] == "vector" else got):
        n = case["n"] if case["way"] == "vector" else n
        expect(len(row) == 4 and abs(row[0] - roots[n]) < 1e-6 * (1 + abs(roots[n])), "eigenvalue %d is in %r, expected %r\n%s", n, row, roots, text)
        v = row[1:]
        expect(abs(sum(x * x for x in v) - 1) < 1e-6, "eigenvector %r is not of unit length\n%s", v, text)
        for i in range(3):
            expect(abs(sum(m[i][j] * v[j] for j in range(3)) - row[0] * v[i]) < 1e-6 * (1 + abs(roots[0]) + abs(roots[2])), "%r is not an eigenvector with its value\n%s", row, text)


SUBS = [Sub("eigen", systems, check_eigen, quick=(1, 300), thorough=(1, 5000)),
        Sub("values", drelgen.expressions, check, quick=(7, 1300), thorough=(14, 6000))]
