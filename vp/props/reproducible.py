"""Results do not depend on the process they are computed in."""
import importlib, json, os, select, subprocess, sys
from hypothesis import strategies as st
from vp.core import Sub, Fail, Discard, expect, same

RULE = ("cases of other properties (files written, histories of blocks, collections and dictionaries, merging, templates, derivation, validation, imports), each run in two processes with "
        "different hash seeds, in which the results of all public functions are written down: these have to be the same, in the same order within each result. "
        "Non-trivial: at least ten functions gave a result.")
ASSUMPTIONS = ["the order of the elements of sets that functions return is of no importance"]

SOURCES = {"files": [("file_roundtrip", None), ("template_output", None)], "blocks": [("block_model", None), ("packets", None), ("merging", None), ("collection_model", None), ("copy_independence", None)],
           "dictionaries": [("dictionary_edit", "edits"), ("dictionary_import", None), ("derivation", "values")],
           "validation": [("validation", None), ("typed_values", "types")]}
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Child(object):
    def __init__(self, seed):
        import CifFile
        scratch = os.path.dirname(os.path.dirname(os.path.dirname(os.path.realpath(CifFile.__file__))))
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        env.pop("VP_NOISY", None)
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(HERE, "vp", "hashchild.py"), scratch], env=env, cwd=os.getcwd(),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def send(self, x):
        self.p.stdin.write(json.dumps(x).encode() + b"\n")
        self.p.stdin.flush()

    def receive(self):
        if not select.select([self.p.stdout], [], [], 120)[0]:
            self.p.kill()
            raise Fail("no answer from one of the processes")
        t = self.p.stdout.readline()
        if not t:
            raise Fail("one of the processes died")
        return json.loads(t)


CHILDREN = []


def strategy(kind):
    def make():
        pairs = []
        for m, only in SOURCES[kind]:
            for s in importlib.import_module("vp.props." + m).SUBS:
                if only is None or s.name == only:
                    pairs.append((m, s))
        return st.sampled_from(range(len(pairs))).flatmap(lambda n: pairs[n][1].strategy().map(lambda c: [pairs[n][0], pairs[n][1].name, c]))
    return make


def check(case, rec):
    if not CHILDREN or any(c.p.poll() is not None for c in CHILDREN):
        for c in CHILDREN:
            c.p.kill()
        CHILDREN[:] = [Child(1), Child(4242)]
    for c in CHILDREN:
        c.send(case)
    (how1, one), (how2, two) = [c.receive() for c in CHILDREN]
    if how1 != how2:
        for c in CHILDREN:
            c.send(["failure"])
        raise Fail("%s.%s %s with one hash seed, %s with another: %s" % (case[0], case[1], how1, how2, [c.receive() for c in CHILDREN]))
    if how1 != "held":
        raise Discard()
    for name in sorted(set(one) | set(two)):
        a, b = one.get(name, []), two.get(name, [])
        if a != b:
            x, y = list(a), list(b)
            for h in a:
                if h in y:
                    x.remove(h)
                    y.remove(h)
            texts = []
            for c, hs in zip(CHILDREN, (x, y)):
                c.send([hs[0] if hs else "none"])
                texts.append(c.receive())
            raise Fail("%s.%s: %s gives other results with another hash seed (%d and %d calls)\n%s\n%s" % (case[0], case[1], name, len(a), len(b), texts[0], texts[1]))
    rec.label(case[0])
    rec.nontrivial(len(one) >= 10)


SUBS = [Sub("files", strategy("files"), check, quick=(1, 300), thorough=(2, 8000)), Sub("blocks", strategy("blocks"), check, quick=(1, 400), thorough=(3, 8000)),
        Sub("dictionaries", strategy("dictionaries"), check, quick=(2, 150), thorough=(3, 4000)), Sub("validation", strategy("validation"), check, quick=(1, 150), thorough=(2, 4000))]
