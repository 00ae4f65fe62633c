"""Shared pieces for the property modules (imported in worker processes)."""
import json


class Fail(Exception):
    """The oracle says the property does not hold for this case."""


class Discard(Exception):
    """The case is outside the domain of the property (counted, not judged)."""


class Harness(KeyboardInterrupt):
    """The check itself is wrong (ends the run with exit status 2)."""


class Known(Exception):
    """The case reproduces a finding listed in known_findings.json."""
    def __init__(self, fid):
        Exception.__init__(self, fid)
        self.fid = fid


class Sub(object):
    """One generated check: a strategy producing JSON-able cases, and an oracle.

    check(case, rec) raises Fail (or anything else) when the property is broken.
    quick / thorough: (shards, examples per shard).
    """
    def __init__(self, name, strategy, check, quick=(1, 200), thorough=(8, 2000),
                 what="", fixed=()):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.what = quick, thorough, what
        self.fixed = list(fixed)      # deterministic cases run before the search


class Rec(object):
    """Per-case recorder."""
    def __init__(self):
        self.nt = False
        self.labels = []

    def nontrivial(self, flag=True):
        if flag:
            self.nt = True

    def label(self, *names):
        self.labels.extend(names)


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def same(a, b, what=""):
    """Equality with a readable message."""
    if a != b:
        ra, rb = repr(a), repr(b)
        i = 0
        while i < min(len(ra), len(rb)) and ra[i] == rb[i]:
            i += 1
        i = max(0, i - 200)
        raise Fail("differs (from character %d of the repr):\n  expected: %s\n  got:      %s\n%s"
                   % (i, rb[i:i + 600], ra[i:i + 600], what))


def expect(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)


def raises(exc, fn, what):
    """fn() must raise one of exc."""
    try:
        r = fn()
    except exc as e:
        return e
    except Exception as e:
        raise Fail("%s: expected %s, got %s: %s" % (what, exc, type(e).__name__, e))
    raise Fail("%s: expected %s, but the call succeeded returning %r" % (what, exc, r))
