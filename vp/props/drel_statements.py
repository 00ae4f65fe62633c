"""dREL statements: the effect of whole methods against an interpreter of our own."""
from vp import drel, drelgen
from vp.core import Sub, Discard
from vp.props.drel_expressions import judge
from vp.props import derivation
from vp import ddlmgen

RULE = ("methods of assignments, if / else if / else, do (up and down), for (over values and pairs), repeat, break, next and function definitions, nested up to three "
        "deep, over whole numbers, lists and text, in varied layout; the final value of all variables is compared with an interpreter working on the program tree "
        "(non-trivial: at least two kinds of branch or loop were entered). Methods over categories (loops with index and test, nested loops, with, keyed packets, category "
        "methods) in generated dictionaries, compared with an evaluator (non-trivial: a category is looped over, or an item derived through another).")
ASSUMPTIONS = ["programs of at most 3000 steps", "whole numbers below 1e9"]


def check(case, rec):
    prog = case["pre"] + case["body"] + [["out", case["out"]]]
    run = drel.Run()
    run.run(prog)
    ev = run.events
    rec.nontrivial(len(ev) >= 2)
    rec.label(*sorted(ev))
    judge(drel.Printer(case["seed"]).program(prog), run.target)


SUBS = [Sub("methods", drelgen.programs, check, quick=(7, 700), thorough=(14, 8000)),
        Sub("categories", ddlmgen.dictionaries, derivation.check, quick=(7, 120), thorough=(14, 1500))]
