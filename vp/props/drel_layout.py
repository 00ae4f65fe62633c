"""dREL text: the layout does not matter, and text that is not dREL is refused without after-effects."""
import json, random, re
from hypothesis import strategies as st
from vp import drel, drelgen
from vp.core import Sub, Fail, Discard, expect

RULE = ("histories of 2-6 texts for the one parser: programs printed in several layouts (blanks, line breaks, continuation, comments, ';', keyword case, braces), and "
        "texts damaged by removing, doubling or inserting tokens; all layouts of a program must give one syntax tree, whatever was parsed before, damaged "
        "texts that cannot be dREL must be refused with a syntax error. Non-trivial: a refused text is followed by an accepted one.")
ASSUMPTIONS = []

RESERVED = ["where", "Where", "as", "switch", "case", "default", "with", "else", "do", "Loop", "for", "break", "next", "in", "function", "repeat", "print", "if"]
SURE = ["(", ")", "[", "]", "}", "@", "?", "%", "!", "~", "else in", "...", "= =", "in in", "( ]", "as"]
INSERT = ["(", ")", "((", "]", "}", "'", '"""', "@", "?", "%", "!", "~", ") )", "else", "= =", ", ,", "\\", "(\n(", "in in", "if if", "$"]


def strategy():
    prog = st.one_of(drelgen.programs(2).map(lambda c: c["pre"] + c["body"] + [["out", c["out"]]]),
                     drelgen.expressions().map(lambda c: c["pre"] + [["out", c["e"]]]))
    bad = st.tuples(st.sampled_from(["drop", "drop", "double", "break", "insert", "insert", "reserved", "text", "text"]), st.integers(0, 10 ** 6), st.integers(0, 50)).map(list)
    step = st.tuples(st.integers(0, 2), st.one_of(st.none(), st.none(), bad), st.integers(0, 10 ** 6)).map(list)
    return st.fixed_dictionaries({"progs": st.lists(prog, min_size=1, max_size=3), "steps": st.lists(step, min_size=2, max_size=6)})


def certain(how, at, what):
    """an edit of the tokens after which the text is not dREL"""
    def edit(toks):
        toks = list(toks)
        if how == "drop":
            pos = [i for i, t in enumerate(toks) if t in "()[]{}"]
            if pos:
                del toks[pos[at % len(pos)]]
                return toks
        if how == "double":
            pos = [i for i, t in enumerate(toks) if t in ("=", "/", "^", "<", ">", "<=", ">=", "!=", "==", "in", "and", "or", ":", ".")]
            if pos:
                i = pos[at % len(pos)]
                return toks[:i] + [toks[i] if toks[i] != "." and toks[i] != ":" else "/"] + toks[i:]
        if how == "break":
            pos = [i for i, t in enumerate(toks) if t in ("=", "+=", "-=", "++=", "/", "^", "and", "or", "not", "in", "if", "do", "for")]
            if pos:
                i = pos[at % len(pos)]
                return toks[:i + 1] + [drel.EOS] + [drel.EOS, "]"] + toks[i + 1:]
        if how == "reserved":
            pos = [i for i, t in enumerate(toks) if isinstance(t, str) and re.match(r"[A-Za-z]\w*$", t) and t.lower() not in drel.RESERVED and toks[i - 1:i] != ["."]]
            if pos:
                i = pos[at % len(pos)]
                return toks[:i] + [RESERVED[at // 7 % len(RESERVED)]] + toks[i + 1:]
        i = at % (len(toks) + 1)
        return toks[:i] + [what] + toks[i:]
    return edit


def damage(text, at, what):
    if at % 3 == 0:
        return text[:at % (len(text) + 1)]
    i = at % (len(text) + 1)
    if at % 3 == 1:
        return text[:i] + " " + what + " " + text[i:]
    return text[:i] + text[max(0, i - 7):i] + text[i:]


def check(case, rec):
    from ply.lex import LexError
    from CifFile.drel import drel_ast_yacc
    drel_ast_yacc.lexer.begin("INITIAL")     # cases do not depend on one another
    trees = {}
    for n, p in enumerate(case["progs"]):
        trees[n] = None
    bad_before = accepted_after = False
    log = []
    for which, bad, seed in case["steps"]:
        n = which % len(case["progs"])
        sure = bad and bad[0] != "text"
        text = drel.Printer(seed, fcase=False).program(case["progs"][n], certain(bad[0], bad[1], SURE[bad[2] % len(SURE)]) if sure else None)
        if bad and not sure:
            text = damage(text, bad[1], INSERT[bad[2] % len(INSERT)])
        log.append(text)
        try:
            tree = drel.flat(drel.parse(text))
        except (SyntaxError, LexError):
            expect(bad, "refused: parsing, one after the other:\n%s", "\n=====\n".join(log))
            bad_before = True
            rec.label("refused")
            continue
        except Exception as e:
            raise Fail("%s: %s, not a syntax error, for the last of:\n%s" % (type(e).__name__, e, "\n=====\n".join(log)))
        if bad:
            rec.label("damaged, accepted")
            expect(not sure, "accepted:\n%s", text)
            continue
        if bad_before:
            accepted_after = True
        if trees[n] is None:
            trees[n] = (tree, text)
        elif trees[n][0] != tree:
            raise Fail("two layouts give different trees:\n%s\n=====\n%s\n--- %s\n--- %s\nafter parsing:\n%s" % (trees[n][1], text, json.dumps(trees[n][0]), json.dumps(tree), "\n=====\n".join(log)))
        else:
            rec.label("second layout")
    rec.nontrivial(accepted_after)


SUBS = [Sub("texts", strategy, check, quick=(7, 400), thorough=(14, 5000))]
