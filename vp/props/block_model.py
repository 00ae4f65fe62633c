"""A block behaves as a caseless, ordered mapping with loops, whatever its history."""
from vp import blockmodel as bm
from vp.core import Sub

RULE = ("random histories of public block operations (set, delete, loop creation, columns, rows, ordering, locking, rewriting) checked against a model "
        "after each step and against the text written at the end. Non-trivial: at least four effective operations, one of which forms or extends a loop.")
ASSUMPTIONS = ["a looped column is only set to a list of the loop's length", "loops left without rows are not written"]


def check(case, rec):
    bm.Run(case, rec).go()


S = bm.strategy([o for o in bm.OPS if o not in ("addpacket", "badpacket", "rmkey")])
SUBS = [Sub("history", S, check, quick=(5, 1500), thorough=(12, 5000)),
        Sub("long_history", bm.strategy(bm.OPS, 40), check, quick=(3, 900), thorough=(8, 2500))]
