"""A process in which checks of other properties are run with a hash seed of its own; everything that the public
functions of the package give while they run is written down.  Used by props/reproducible.py

stdin: a line [module, sub, case]; stdout: a line [outcome, {function: [digest, ...]}]; a line [digest] asks for the texts seen"""
import hashlib, importlib, json, os, re, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import worker

LOG, TEXTS = {}, {}


def flat(x, depth=0):
    """x with sets in order, or None if there is more to it than texts, numbers and containers of them"""
    if x is None or isinstance(x, (str, int, float, complex, bool)):
        return x
    if depth > 8:
        raise TypeError
    if isinstance(x, dict):
        return ["dict"] + [[flat(k, depth + 1), flat(v, depth + 1)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted(repr(flat(k, depth + 1)) for k in x)
    if isinstance(x, (list, tuple)):
        return [flat(k, depth + 1) for k in x]
    raise TypeError


def note(name, result):
    try:
        t = re.sub(r"(/vp_[a-z]+[._])\w+", r"\1", repr(flat(result)))     # scratch folders
    except (TypeError, RecursionError):
        return
    h = hashlib.sha1(t.encode("utf8", "replace")).hexdigest()[:12]
    LOG.setdefault(name, []).append(h)
    if len(t) < 20000 or name not in ("WriteOut",):
        TEXTS[h] = t[:20000]


def watched(name, f):
    def run(*a, **k):
        r = f(*a, **k)
        note(name, r)
        return r
    run.__name__, run.__doc__ = f.__name__, f.__doc__
    return run


def watch():
    import CifFile
    from CifFile import CifFile_module as C, StarFile as S
    import types
    for mod in (S, C):
        for cn, cls in list(vars(mod).items()):
            if isinstance(cls, type) and cls.__module__ == mod.__name__ and not issubclass(cls, Exception):
                for n, f in list(vars(cls).items()):
                    if isinstance(f, types.FunctionType) and (not n.startswith("_") or n in ("__str__", "__getitem__")):
                        setattr(cls, n, watched(cn + "." + n, f))
    for n in ("validate_report", "get_number_with_esd", "uncompress_table"):
        f = getattr(C, n, None)
        if f is not None:
            setattr(C, n, watched(n, f))
            if hasattr(CifFile, n):
                setattr(CifFile, n, getattr(C, n))


def main():
    out = os.fdopen(os.dup(1), "w", encoding="utf8")
    real = worker.setup(sys.argv[1])
    watch()
    from vp import core
    for line in sys.stdin:
        q = json.loads(line)
        if len(q) == 1:
            a = TEXTS.get(q[0], "")
        else:
            LOG.clear()
            TEXTS.clear()
            mod = importlib.import_module("vp.props." + q[0])
            sub = [s for s in mod.SUBS if s.name == q[1]][0]
            try:
                sub.check(q[2], core.Rec())
                how = "held"
            except core.Discard:
                how = "discarded"
            except core.Known:
                how = "known"
            except Exception as e:
                how = "failed"
                TEXTS["failure"] = worker.describe(e)
            a = [how, dict((k, sorted(v)) for k, v in LOG.items())]
        out.write(json.dumps(a) + "\n")
        out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
