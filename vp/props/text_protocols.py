"""Line folding and text prefixing are exact inverses."""
import re
from hypothesis import strategies as st
from vp import cif, refcif, emit
from vp.core import Sub, Fail, Discard, Harness, same, expect, raises

RULE = ("Texts from syntax fragments (backslashes at line ends, empty lines, long words, semicolons, prefix look-alikes) are "
        "folded with drawn widths and/or prefixed with drawn prefixes and undone; and text folded/prefixed by the "
        "independent emitter is undone. Non-trivial: the text has a line break, a backslash or a line beyond the width.")
ASSUMPTIONS = ["widths: 4 <= minimum < maximum", "text given to the prefixing function is either the output of the "
               "folding function or does not look like folded text"]

PFX = st.one_of(st.sampled_from(emit.PREFIXES + ["CIF>", "a", "  ", "cif><", "[", "(.*)", "+"]),
                st.text(alphabet="ab>: .*+[(^$|#'_", min_size=1, max_size=6))


def texts():
    t = cif.texts(True, huge=False)
    lines = st.lists(st.one_of(st.text(alphabet="ab \\;\t", max_size=30), st.sampled_from(
        ["\\", "\\ ", "\\\\", "", ";", "> a", ">", "x\\", "x\\\t", "CIF:\\", "CIF:> x"]),
        st.builds(lambda c, n: c * n, st.sampled_from(["a", " ", "\\", "ab ", "a\\"]), st.integers(1, 60))), max_size=6)
    return st.one_of(t, lines.map("\n".join), lines.map("\n".join))


def strategy():
    return st.fixed_dictionaries({"t": texts(), "lo": st.integers(4, 70), "d": st.integers(1, 30), "p": PFX,
                                  "ch": st.lists(st.integers(0, 40), min_size=1, max_size=12)})


def check(case, rec):
    from CifFile import apply_line_folding, remove_line_folding, apply_line_prefix, remove_line_prefix
    t, lo, hi, p = case["t"], case["lo"], case["lo"] + case["d"], case["p"]
    if "\f" in t or "\v" in t or "\r" in t:
        raise Discard()
    rec.nontrivial("\n" in t or "\\" in t or len(t) > hi)
    f = apply_line_folding(t, lo, hi)
    same(remove_line_folding(f), t, "unfolding the folded text (%d,%d): %r" % (lo, hi, f))
    same(refcif.unfold(f), t, "independent unfolding of the folded text: %r" % f)
    if f != t:
        rec.label("folded")
        expect(f.split("\n")[0] == "\\", "folded text has no header: %r", f[:80])
    long = [l for l in f.split("\n") if len(l) > hi]
    expect(not long, "folding at (%d,%d) left a line of %d: %r", lo, hi, len(long[0]) if long else 0, long)
    # prefix the folded text
    fp = apply_line_prefix(f, p)
    expect(all(l.startswith(p) for l in fp.split("\n")), "a line lacks the prefix %r: %r", p, fp)
    same(remove_line_prefix(fp), f, "removing the prefix %r from %r" % (p, fp))
    same(refcif.unfold(refcif.unprefix(fp)), t, "independent removal of prefix and folding from %r" % fp)
    same(remove_line_folding(remove_line_prefix(fp)), t, "removing prefix and folding from %r" % fp)
    # text that uses no protocol is left alone
    if not emit.header_like(t):
        same(remove_line_folding(t), t, "unfolding text that is not folded")
        same(remove_line_prefix(t), t, "unprefixing text that has no prefix")
        same(remove_line_prefix(apply_line_prefix(t, p)), t, "prefix %r round trip" % p)
    # text folded and prefixed elsewhere
    n = [0]

    def ch(k):
        n[0] += 1
        return (case["ch"][n[0] % len(case["ch"])] + n[0] // len(case["ch"])) % k
    ef = emit.fold(t, ch)
    if refcif.unfold(ef) != t:
        raise Harness("emit.fold %r %r" % (t, ef))
    same(remove_line_folding(ef), t, "unfolding %r" % ef)
    lines = ef.split("\n")
    both = "\n".join([p + "\\\\"] + [p + l for l in lines[1:]])
    if refcif.unfold(refcif.unprefix(both)) != t:
        raise Harness("prefix+fold %r %r" % (t, both))
    same(remove_line_folding(remove_line_prefix(both)), t, "removing prefix and folding from %r" % both)


def check_bad(case, rec):
    from CifFile import apply_line_prefix
    from CifFile.StarFile import StarError
    rec.nontrivial()
    raises(StarError, lambda: apply_line_prefix(case["t"], case["p"]), "prefix %r" % case["p"])


def check_partial(case, rec):
    """A first line that looks like a prefix header is not one unless every line has the prefix."""
    from CifFile import remove_line_prefix
    p = case["p"]
    lines = [p + "\\" + ("\\" if case["two"] else "")] + [p + l for l in case["lines"]]
    k = 1 + case["k"] % (len(lines) - 1)
    lines[k] = case["bad"]
    if lines[k].startswith(p):
        raise Discard()
    rec.nontrivial()
    t = "\n".join(lines)
    same(remove_line_prefix(t), t, "text without the prefix on line %d" % k)


WORD = st.text(alphabet="abc >;", max_size=8)
SUBS = [
    Sub("inverse", strategy, check, quick=(6, 2500), thorough=(8, 20000)),
    Sub("bad_prefix", lambda: st.fixed_dictionaries({"t": texts(), "p": st.one_of(
        st.text(alphabet="ab>", max_size=4).map(lambda s: ";" + s),
        st.tuples(st.text(alphabet="ab>", max_size=3), st.text(alphabet="ab>", max_size=3)).map("\\".join))}),
        check_bad, quick=(1, 300), thorough=(1, 2000)),
    Sub("partial_prefix", lambda: st.fixed_dictionaries({"p": PFX, "two": st.booleans(), "k": st.integers(0, 20),
                                                         "lines": st.lists(WORD, min_size=1, max_size=5), "bad": WORD}),
        check_partial, quick=(1, 1500), thorough=(2, 10000)),
]
