"""Strategies and helpers shared by the CIF text / block properties."""
import io, json
from hypothesis import strategies as st
from . import refcif
from .core import Fail

GRAMMARS = ["1.0", "1.1", "2.0", "STAR2"]

ASCII_PRINT = "".join(chr(c) for c in range(33, 127))
UNI = (u"\u00e9\u00a0\u2028\u3000\u0394\u4e2d\u05d0\ufb01\ufffd\u200b\ue000\ud7ff"
       u"\U0001F600\U00010000\U0002A6D6\U0010FFFD\u1680\u205f")

SPECIAL = ["'", '"', ";", "\n;", "\n", "\\", "\\\n", "\\ \n", "#", " #", "_", "$", "[", "]", "{", "}",
           ",", ":", " ", "  ", "\t", "' ", '" ', "'''", '"""', "?", ".", "loop_", "data_", "save_",
           "stop_", "global_", "LOOP_", "Data_x", "CIF:", "CIF:> ", "> ", "\n\n", "-1.5(3)", "x", "ab",
           "a'b", "a\"b", "=", "*", "(", ")", ">", "\\\\", "\n;\\\n", "stop_x", "loop_1"]
LONGS = [58, 59, 60, 61, 77, 78, 79, 80, 81, 82, 119, 160, 161, 240]
HUGE = [2040, 2044, 2045, 2046, 2047, 2048, 2049, 2050, 2100, 4097, 4192, 8300]


def texts(uni=False, huge=True, nl=True):
    toks = [t for t in SPECIAL if nl or "\n" not in t]
    atoms = [st.sampled_from(toks)] * 4
    atoms.append(st.text(alphabet=ASCII_PRINT, min_size=0, max_size=6))
    atoms.append(st.builds(lambda c, n: c * n, st.sampled_from("xw- ;\\"), st.sampled_from(LONGS)))
    if uni:
        atoms.append(st.sampled_from(UNI))
        atoms.append(st.text(alphabet=st.characters(min_codepoint=0xA0, max_codepoint=0x10FFFD,
                                                    blacklist_categories=("Cs", "Cn")), max_size=3))
    mixed = st.lists(st.one_of(*atoms), min_size=0, max_size=6).map("".join)
    simple = st.sampled_from(["1", "abc", "?", ".", "1.234(5)", "C1", "x,y,z", "P 21/c", "-x,1/2+y", "", "a b"])
    opts = [mixed, mixed, mixed, simple]
    if huge:
        opts.append(st.builds(
            lambda n, sp, t, pre: pre + ("".join(("abcdefg"[i % 7] if (not sp or i % sp) else " ") for i in range(n))) + t,
            st.sampled_from(HUGE), st.sampled_from([0, 0, 7, 61, 90, 500]), mixed, st.sampled_from(["", "", "\n", "q\n"])))
    return st.one_of(*opts)


def in_charset(s, uni):
    for c in s:
        o = ord(c)
        if c in " \t\n":
            continue
        if 33 <= o <= 126:
            continue
        if not uni:
            return False
        if o < 160 or 0xD800 <= o <= 0xDFFF or 0xFDD0 <= o <= 0xFDEF or o in (0xFFFE, 0xFFFF) or o > 0x10FFFD:
            return False
    return True


def names(prefix="_", uni=False, maxlen=75, alphabet=None):
    first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    rest = first + "0123456789._-/[]%"
    odd = "!&()*+,:<=>?@\\^`{}|~\"#$';"
    base = st.text(alphabet=rest, min_size=0, max_size=10)
    withodd = st.text(alphabet=rest + odd, min_size=0, max_size=8)
    long = st.integers(40, maxlen - len(prefix) - 1).map(lambda n: "n" * n)
    opts = [base, base, base, withodd, long]
    if uni:
        opts.append(st.text(alphabet=u"abc\u00e9\u0394\u4e2d\u05d0\u0416\u0436\U00010400\U0001F600._", min_size=1, max_size=8))
    return st.builds(lambda a, b: prefix + a + b, st.sampled_from(first), st.one_of(*opts)).map(lambda s: s[:maxlen])


def caseless(names_):
    return len(set(n.lower() for n in names_)) == len(names_)


# ------------------------------------------------------------ values
def table_keys(uni):
    return st.text(alphabet="abcxyz0_ .:;#,-[]{}'\"\n" + (u"\u00e9\u4e2d" if uni else ""), min_size=0, max_size=6).filter(lambda k: not ("'''" in k or k[-1:] == "'") or not ('"""' in k or k[-1:] == '"'))


def compound(uni=True, leaves=None):
    leaf = leaves or texts(uni, huge=False)
    return st.recursive(
        leaf, lambda ch: st.one_of(st.lists(ch, min_size=0, max_size=5),
                                   st.dictionaries(table_keys(uni), ch, max_size=4)),
        max_leaves=10).filter(lambda v: not isinstance(v, str))


def to_star(v):
    from CifFile.StarFile import StarList, StarDict
    if isinstance(v, list):
        return StarList([to_star(a) for a in v])
    if isinstance(v, dict):
        return StarDict((k, to_star(a)) for k, a in v.items())
    return v


def plain(v):
    """Value as read back -> plain Python, with a type check."""
    if isinstance(v, str):
        return v
    if isinstance(v, dict):
        return dict((plain(k), plain(a)) for k, a in v.items())
    if isinstance(v, (list, tuple)):
        return [plain(v_) for v_ in list.__iter__(v)] if isinstance(v, list) else [plain(a) for a in v]
    raise Fail("value of unexpected type %r: %r" % (type(v), v))


def as_text(v):
    """What a value looks like once it has been through text."""
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, list):
        return [as_text(a) for a in v]
    if isinstance(v, dict):
        return dict((k, as_text(a)) for k, a in v.items())
    return v


# ------------------------------------------------------------ whole files
def entries(values, namest, max_items=5, max_cols=4, max_rows=5):
    """A list of entries whose names are still to be made unique."""
    k = st.tuples(st.just("k"), namest, values).map(list)
    l = st.integers(1, max_cols).flatmap(lambda w: st.tuples(
        st.just("l"), st.lists(namest, min_size=w, max_size=w),
        st.lists(st.lists(values, min_size=w, max_size=w), min_size=1, max_size=max_rows))).map(list)
    return st.lists(st.one_of(k, k, l), min_size=0, max_size=max_items)


def uniq(name, seen, maxlen=75):
    base = name
    n = 0
    while name.lower() in seen:
        n += 1
        suf = "%d" % n
        name = base[:maxlen - len(suf)] + suf
    seen.add(name.lower())
    return name


def fix_entries(es):
    seen = set()
    out = []
    for e in es:
        if e[0] == "k":
            out.append(["k", uniq(e[1], seen), e[2]])
        else:
            out.append(["l", [uniq(n, seen) for n in e[1]], e[2]])
    return out


def blocks(values, g, namest=None, bnamest=None, saves=True, max_blocks=3, max_items=5, max_rows=5, depth=None):
    uni = g in ("2.0", "STAR2")
    namest = namest or names("_", uni)
    bnamest = bnamest or names("", uni, 60)
    if depth is None:
        depth = (2 if g == "STAR2" else 1) if saves else 0

    def body(d):
        kids = st.just([]) if d == 0 else st.one_of(st.just([]), st.lists(st.deferred(lambda: body(d - 1)), max_size=2))
        return st.fixed_dictionaries({"name": bnamest, "items": entries(values, namest, max_items, max_rows=max_rows),
                                      "saves": kids})

    def fix(bs):
        # every block and frame name is made unique in the whole file
        seen = set()

        def f(b):
            nm = uniq(b["name"], seen, 75)
            return {"name": nm, "items": fix_entries(b["items"]), "saves": [f(s) for s in b["saves"]]}
        return [f(b) for b in bs]
    return st.lists(body(depth), min_size=1, max_size=max_blocks).map(fix)


def new_file(g, **kw):
    from CifFile import CifFile
    cf = CifFile(characterset="unicode" if g in ("2.0", "STAR2") else "ascii", **kw)
    cf.set_grammar(g)
    return cf


def fill(b, items):
    for e in items:
        if e[0] == "k":
            b[e[1]] = to_star(e[2])
        else:
            for i, nm in enumerate(e[1]):
                b[nm] = [to_star(r[i]) for r in e[2]]
            b.CreateLoop(e[1])


def build(model, g, **kw):
    """Build the model through the public API."""
    from CifFile import CifBlock
    cf = new_file(g, **kw)
    top = []

    def add(b, parent):
        blk = CifBlock()
        if parent is None:
            cf[b["name"]] = blk
            blk = cf[b["name"]]
        else:
            cf.NewBlock(b["name"], blk, parent=parent)
        fill(blk, b["items"])
        for s in b["saves"]:
            add(s, b["name"])
    for b in model:
        add(b, None)
    return cf


def model_text(model):
    """The model with every value in the form it takes after a text round trip."""
    def f(b):
        return {"name": b["name"],
                "items": [["k", e[1], as_text(e[2])] if e[0] == "k" else
                          ["l", list(e[1]), [[as_text(v) for v in r] for r in e[2]]] for e in b["items"]],
                "saves": [f(s) for s in b["saves"]]}
    return [f(b) for b in model]


def block_model(b):
    """Items and loops of a block, in order, names in lower case."""
    out = []
    for k in b.GetItemOrder():
        if isinstance(k, int):
            cols = [n for n in b.keys() if b.FindLoop(n) == k]
            if not cols:
                out.append(["l", [], []])
                continue
            order = [n.lower() for n in b.GetLoopNames(cols[0])]
            colvals = []
            for n in order:
                v = b[n]
                if not isinstance(v, list):
                    raise Fail("looped %s has non-list value %r" % (n, v))
                colvals.append([plain(a) for a in list.__iter__(v)])
            if len(set(len(c) for c in colvals)) > 1:
                raise Fail("ragged loop %r" % (dict(zip(order, colvals)),))
            out.append(["l", order, [list(r) for r in zip(*colvals)]])
        else:
            out.append(["k", k.lower(), plain(b[k])])
    names_ = [e[1] for e in out if e[0] == "k"] + [n for e in out if e[0] == "l" for n in e[1]]
    if sorted(names_) != sorted(n.lower() for n in b.keys()):
        raise Fail("keys() %r disagree with the item order %r" % (sorted(b.keys()), sorted(names_)))
    return out


def file_model(cf):
    """The model held by a CifFile (names in lower case, order of siblings kept
    only as far as the API shows it: a dict by name)."""
    out = {}
    for name, info in cf.child_table.items():
        out[name] = {"id": info.block_id, "parent": info.parent, "items": block_model(cf[name])}
    return out


def low_items(items):
    return [["k", e[1].lower(), e[2]] if e[0] == "k" else ["l", [n.lower() for n in e[1]], e[2]] for e in items]


def flat_model(model):
    out = {}

    def f(b, parent):
        out[b["name"].lower()] = {"id": b["name"], "parent": parent, "items": low_items(b["items"])}
        for s in b["saves"]:
            f(s, b["name"].lower())
    for b in model:
        f(b, None)
    return out


def read(text, g, **kw):
    from CifFile import ReadCif
    return ReadCif(io.StringIO(text), grammar=g, **kw)


def count_values(model):
    n = 0
    for b in model:
        for e in b["items"]:
            n += 1 if e[0] == "k" else len(e[1]) * len(e[2])
        n += count_values(b["saves"])
    return n


def walk_values(model):
    for b in model:
        for e in b["items"]:
            if e[0] == "k":
                yield e[2]
            else:
                for r in e[2]:
                    for v in r:
                        yield v
        for v in walk_values(b["saves"]):
            yield v


def strings_in(v):
    if isinstance(v, str):
        yield v
    elif isinstance(v, list):
        for a in v:
            for s in strings_in(a):
                yield s
    elif isinstance(v, dict):
        for k, a in v.items():
            yield k
            for s in strings_in(a):
                yield s
