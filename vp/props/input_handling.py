"""Grammar detection, encodings and transports do not change what is read."""
import io, os, shutil, tempfile, pathlib
from hypothesis import strategies as st
from vp import cif, emit
from vp.core import Sub, Fail, Discard, same, expect, raises
from vp.props import read_conformant as RC

RULE = ("conformant texts of every grammar (see C02) read with grammar 'auto' or None and over every transport (string and byte streams, BOM, "
        "file paths and file URLs of awkward names, the CifFile constructor). Non-trivial: two or more values, one of them not a bare word.")
ASSUMPTIONS = ["Latin-1 input is restricted to printable Latin-1 characters"]


def rd(src, **kw):
    from CifFile import ReadCif
    return ReadCif(src, **kw)


# ---------------------------------------------------------------- grammar
def auto_strategy():
    return st.sampled_from(["1.0", "1.1", "2.0"]).flatmap(lambda g: st.fixed_dictionaries({
        "h": RC.strategy(g)(), "auto": st.sampled_from(["auto", None]), "extra": st.sampled_from([[], [], ["[a", "]", "[1]"], ["[x"]]),
        "scan": st.sampled_from(["standard", "standard", "flex"])}))


def check_auto(case, rec):
    from CifFile.StarFile import StarError
    h = dict(case["h"])
    g = h["g"]
    if g == "1.0" and case["extra"]:
        m = list(h["model"])
        m.append({"name": "zz-extra", "items": [["l", ["_q"], [[v] for v in case["extra"]]]], "saves": []})
        h["model"] = m
    model, text = RC.make(h)
    RC.mark(case, rec, model)
    want = cif.flat_model(model)
    scan = case["scan"] if g != "1.0" else "standard"
    cf = rd(io.StringIO(text), grammar=case["auto"], scantype=scan)
    same(cif.file_model(cf), want, "grammar=%r: %r" % (case["auto"], text[-1000:]))
    if g == "2.0":
        expected = "2.0"
    else:
        try:
            rd(io.StringIO(text), grammar="1.1")
            expected = "1.1"
        except StarError:
            expected = "1.0"
        expect(g == "1.0" or expected == "1.1", "a CIF1.1 text is rejected by grammar 1.1")
    rec.label("detected " + expected)
    same(cf.grammar, expected, "grammar remembered")
    out = cf.WriteOut()
    expect(out.startswith("#\\#CIF_2.0\n") == (expected == "2.0"), "magic line of the rewritten file: %r", out[:30])
    again = rd(io.StringIO(out), grammar=case["auto"])
    same(cif.file_model(again), want, "rewritten and auto-read")
    if expected == "2.0":
        same(again.grammar, "2.0", "grammar after rewriting")


# ---------------------------------------------------------------- transports
def trans_strategy():
    return st.sampled_from(["1.1", "2.0", "2.0", "STAR2"]).flatmap(lambda g: st.fixed_dictionaries({
        "h": RC.strategy(g)(), "way": st.sampled_from(["str", "bytes", "bom", "path", "relpath", "url", "textfile", "binfile", "ctor", "ctorpath", "ctrlz",
                                                       "bompath", "readobj"]),
        "fname": st.text(alphabet=u"ab _-+#%?&;=@~,.()[]'\u00e9\u4e2d", min_size=1, max_size=10), "tail": st.sampled_from(["", "junk", "\ndata_a", "'", "\x1a_"]),
        "bin": st.sampled_from(["", "", "\n"])}))


class Reader(object):
    def __init__(self, t):
        self.t = t

    def read(self):
        return self.t


def check_trans(case, rec):
    from CifFile import CifFile
    h = case["h"]
    g, way = h["g"], case["way"]
    model, text = RC.make(h)
    RC.mark(case, rec, model)
    rec.label(way)
    want = cif.flat_model(model)
    text = text.replace("\n", RC.EOL[h["eol"]])
    data = text.encode("utf-8")
    d = os.path.realpath(tempfile.mkdtemp(prefix="vpin"))
    cwd = os.getcwd()
    try:
        name = case["fname"].strip(".") or "x"
        fn = os.path.join(d, name)
        with open(fn, "wb") as f:
            f.write((b"\xef\xbb\xbf" if way == "bompath" else b"") + data)
        uri = ""
        if way == "str":
            cf = rd(io.StringIO(text, newline=""), grammar=g)
        elif way == "bytes":
            cf = rd(io.BytesIO(data), grammar=g)
        elif way == "bom":
            cf = rd(io.BytesIO(b"\xef\xbb\xbf" + data), grammar=g)
        elif way in ("path", "bompath"):
            cf = rd(fn, grammar=g)
            uri = pathlib.Path(fn).as_uri()
        elif way == "relpath":
            if ":" in name or "//" in name:
                raise Discard()
            os.chdir(d)
            cf = rd(name, grammar=g)
            uri = pathlib.Path(fn).as_uri()
        elif way == "url":
            uri = pathlib.Path(fn).as_uri()
            cf = rd(uri, grammar=g)
        elif way == "textfile":
            with io.open(fn, encoding="utf-8") as f:
                cf = rd(f, grammar=g)
        elif way == "binfile":
            with open(fn, "rb") as f:
                cf = rd(f, grammar=g)
        elif way == "ctor":
            cf = CifFile(io.StringIO(text, newline=""), grammar=g)
        elif way == "ctorpath":
            cf = CifFile(fn, grammar=g)
            uri = pathlib.Path(fn).as_uri()
        elif way == "ctrlz":
            cf = rd(io.StringIO(text + "\n\x1a" + case["tail"], newline=""), grammar=g)
        elif way == "readobj":
            cf = rd(Reader(data if len(text) % 2 else text), grammar=g)
        same(cif.file_model(cf), want, "%s: %r" % (way, text[-800:]))
        same(cf.grammar, g, "grammar remembered")
        same(cf.my_uri, uri, "location of the file")
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- encodings
LAT = "".join(chr(c) for c in range(0xa1, 0x100) if c != 0xad)


def enc_strategy():
    v = st.text(alphabet="abc 1" + LAT, min_size=1, max_size=12)
    return st.fixed_dictionaries({"vals": st.lists(v, min_size=1, max_size=6), "g": st.sampled_from(["2.0", "STAR2", "auto"]),
                                  "name": st.text(alphabet="abc" + LAT, min_size=1, max_size=6),
                                  "perm": st.booleans(), "path": st.booleans(), "cut": st.integers(0, 40)})


def check_enc(case, rec):
    from CifFile.StarFile import StarError
    g = case["g"]
    eg = "2.0" if g == "auto" else g
    model = [{"name": "lat", "items": [["l", ["_a" + case["name"]], [[v] for v in case["vals"]]]], "saves": []}]
    text = emit.emit(model, eg, [0])
    data = text.encode("latin1")
    try:
        data.decode("utf-8")
        raise Discard()
    except UnicodeDecodeError:
        pass
    rec.nontrivial()
    rec.label("permissive" if case["perm"] else "strict")
    d = tempfile.mkdtemp(prefix="vpin")
    try:
        if case["path"]:
            src = os.path.join(d, "f.cif")
            with open(src, "wb") as f:
                f.write(data)
        else:
            src = io.BytesIO(data)
        if case["perm"]:
            cf = rd(src, grammar=g, permissive=True)
            same(cif.file_model(cf), cif.flat_model(model), "Latin-1 bytes read permissively")
        else:
            raises(StarError, lambda: rd(src, grammar=g), "bytes that are not UTF-8")
            # UTF-8 cut in the middle of a character
            u = text.encode("utf-8")
            inner = [i for i in range(len(u)) if u[i] & 0xC0 == 0x80]
            i = inner[case["cut"] % len(inner)]
            raises(StarError, lambda: rd(io.BytesIO(u[:i]), grammar=g), "truncated UTF-8")
        same(cif.file_model(rd(io.BytesIO(text.encode("utf-8")), grammar=g, permissive=case["perm"])), cif.flat_model(model), "UTF-8 bytes")
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- line length
def len_strategy():
    return st.sampled_from(["1.1", "2.0"]).flatmap(lambda g: st.fixed_dictionaries({"h": RC.strategy(g)(), "delta": st.integers(-3, 3), "add": st.sampled_from([0, 0, 90, 2100])}))


def check_len(case, rec):
    from CifFile import CifFile
    from CifFile.StarFile import StarError
    h = case["h"]
    model, text = RC.make(h)
    if case["add"]:
        text = text + "\n# " + "c" * case["add"]
    text = text.replace("\n", RC.EOL[h["eol"]])
    longest = max(len(l) for l in text.replace("\r\n", "\n").replace("\r", "\n").split("\n"))
    n = longest + case["delta"]
    if n <= 0:
        raise Discard()
    RC.mark(case, rec, model)
    go = lambda: CifFile(io.StringIO(text, newline=""), grammar=h["g"], maxinlength=n)
    if n < longest:
        raises(StarError, go, "a line of %d characters with maxinlength %d" % (longest, n))
    else:
        same(cif.file_model(go()), cif.flat_model(model), "maxinlength %d, longest line %d" % (n, longest))


SUBS = [Sub("auto", auto_strategy, check_auto, quick=(2, 1200), thorough=(8, 5000)),
        Sub("transport", trans_strategy, check_trans, quick=(3, 1200), thorough=(10, 4000)),
        Sub("encoding", enc_strategy, check_enc, quick=(1, 800), thorough=(4, 3000)),
        Sub("line_length", len_strategy, check_len, quick=(1, 800), thorough=(4, 3000))]
