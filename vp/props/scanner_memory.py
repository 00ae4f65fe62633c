"""The compiled scanner stays within its memory and gives it back, whatever it is given and asked for."""
import fcntl, glob, json, os, select, subprocess, sys, sysconfig, tempfile
from hypothesis import strategies as st
from vp import cif, emit, mutate
from vp.core import Sub, Fail, Discard, expect, same
from vp.props import scanner_equivalence as SE, read_conformant as RC

RULE = ("the scanner is built with the address and undefined behaviour sanitizers (every allocation of the interpreter goes through them, too) and given texts - conformant ones, ones with mutations, "
        "ones of any characters, large ones - with histories of requests: prepare, the next token, an earlier one, one that is not there, the last ten, cleanup. Nothing may be reported, each request gets "
        "the token that scanning that text from its start gives, and after further repetitions no more memory is in use. "
        "Non-trivial: at least two texts are prepared in the history, or a text has over 4096 characters.")
ASSUMPTIONS = ["gcc and its libasan are installed (they build the extension)"]
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CHILD = []
PAST = 3          # tokens asked for after the end


def gnu(*a):
    return subprocess.run(["gcc"] + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(scratch):
    d = os.path.join(scratch, "asan")
    with open(os.path.join(scratch, "asan.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        so = os.path.join(d, "StarScan.so")
        if not os.path.exists(so):
            os.makedirs(d, exist_ok=True)
            lib = os.path.join(scratch, "repo", "src", "lib")
            r = gnu("-shared", "-fPIC", "-g", "-O1", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                    "-I", sysconfig.get_paths()["include"], "-I", lib, os.path.join(lib, "lex.yy.c"), os.path.join(lib, "py_star_scan.c"), "-o", so + ".tmp")
            if r.returncode:
                raise RuntimeError("the scanner could not be built with sanitizers: " + r.stdout[-2000:])
            os.rename(so + ".tmp", so)
    return d


class Child(object):
    def __init__(self):
        import CifFile
        scratch = os.path.dirname(os.path.dirname(os.path.dirname(os.path.realpath(CifFile.__file__))))
        d = build(scratch)
        self.log = os.path.join(tempfile.mkdtemp(prefix="log_", dir=scratch), "san")
        env = dict(os.environ, PYTHONMALLOC="malloc", LD_PRELOAD=gnu("-print-file-name=libasan.so").stdout.strip(),
                   ASAN_OPTIONS="detect_leaks=0:exitcode=99:quarantine_size_mb=64:log_path=" + self.log, UBSAN_OPTIONS="print_stacktrace=1:log_path=" + self.log)
        self.err = self.log + ".err"
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(HERE, "vp", "asanchild.py"), d, os.path.join(scratch, "pkg")], env=env, cwd=os.getcwd(),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(self.err, "w"))

    def ask(self, *x):
        try:
            self.p.stdin.write(json.dumps(x).encode() + b"\n")
            self.p.stdin.flush()
        except OSError:
            pass
        if not select.select([self.p.stdout], [], [], 200)[0]:
            self.p.kill()
            raise Fail("no answer within 200 s")
        t = self.p.stdout.readline()
        if not t:
            self.p.wait()
            report = "".join(open(f, errors="replace").read() for f in sorted(glob.glob(self.log + ".*")))
            report = "\n".join(s for s in report.splitlines() if "=====" not in s)
            raise Fail("the process ended with %s\n%s" % (self.p.returncode, report[:1800]))
        return json.loads(t)


def child():
    if not CHILD or CHILD[0].p.poll() is not None:
        CHILD[:] = [Child()]
    return CHILD[0]


def clean(t):
    return t.encode("utf8", "replace").decode()         # no lone surrogates


def text_of(c):
    if isinstance(c, str):
        return clean(c)
    b = c["base"]
    return clean(mutate.mutate(emit.emit(b["model"], b["g"], b["ch"]), c["ops"], c["ascii"]))


def a_text():
    base = RC.strategy("1.1")()
    made = st.fixed_dictionaries({"base": base, "ascii": st.booleans(), "ops": st.lists(st.tuples(st.integers(0, 7), st.integers(0, 3000), st.integers(0, 80)).map(list), max_size=3)})
    piece = st.one_of(st.sampled_from(["data_", "data_a", "save_", "save_f", "loop_", "stop_", "global_", "_a", "_", ";", "\n;", "\n", "\r\n", "\r", " ", "\t", "'", '"', "a'b", "''", "#", "# c\n", "[", "]",
                                       "\0", "\x0b", "\x0c", "\x7f", "\u00e9", "\u20ac", "\U0001f600", "\ufeff", "x" * 300, "1.5(2)", "?", ".", "$f", "{", "'''"]), st.text(max_size=3))
    return st.one_of(made, st.lists(piece, max_size=25).map("".join), st.tuples(st.integers(0, 9), piece, st.sampled_from([30, 1366, 1367, 4190, 4191, 4192, 4193, 8384, 8385, 8191, 16384, 16383])).map(
        lambda t: {0: "data_a loop_ _b " + "x " * t[2], 1: t[1] * t[2], 2: "data_a _b\n;" + "l\n" * t[2] + ";\n", 3: "data_a _b '" + "q" * t[2] + "' ", 4: "_b " + "n" * t[2],
                   5: "data_" + "\u00e9" * t[2], 6: "\n" * t[2] + t[1], 7: " " * t[2] + t[1], 8: "_a " * (t[2] - 1) + t[1], 9: "#" + "c" * t[2] + "\n" + t[1]}[t[0]]))


def history_strategy():
    op = st.tuples(st.sampled_from(["prepare", "next", "next", "next", "next", "again", "again", "beyond", "below", "last", "cleanup", "bad"]), st.integers(0, 40)).map(list)
    return st.fixed_dictionaries({"texts": st.lists(a_text(), min_size=1, max_size=4), "ops": st.lists(st.tuples(op, st.sampled_from([1, 1, 1, 2, 15, 5000])).map(list), min_size=1, max_size=14),
                                  "grows": st.integers(0, 3)})


def check_history(case, rec):
    texts = [text_of(t) for t in case["texts"]] + [""]
    ops = [["prepare", 0]]
    for (k, n), times in case["ops"]:                       # [[request, number], times]
        ops += [[k, n]] * (times if k in ("next", "again") else 1)
    c = child()
    full = c.ask("tokens", texts)
    prepared = sum(1 for k, n in ops if k == "prepare")
    rec.nontrivial(prepared >= 2 or any(len(t) > 4096 for t in texts))
    ends = [len(f) for f in full]
    # nothing is asked for beyond what scanning the whole text gave
    allowed, now, cur = [], 0, 0
    for k, n in ops:
        if k == "prepare":
            now, cur = n % (len(texts) - 1), 0
        elif k == "cleanup":
            now, cur = len(texts) - 1, 0
        elif k == "next" or k == "again" and n % (cur + 1) == cur:
            if cur >= ends[now]:
                continue
            cur += 1
        allowed.append([k, n])
    got = c.ask("history", texts, allowed)
    now = cur = 0
    for o, g in zip(allowed, got):
        if g is None:
            continue
        now, kind, i, t = g
        if kind == "last":
            same(t, full[now][max(0, i - 10):i], "last_ten after %d tokens" % i)
        elif o[0] in ("beyond", "below"):
            expect(t is None, "token %d, which is not there yet, is %r", i, t)
        else:
            same(t, full[now][i], "token %d of %r" % (i, texts[now][:600]))
    if case["grows"] == 0 or sum(map(len, texts)) > 4000 and case["grows"] < 3:
        rec.label("memory in use")
        n = c.ask("grows", texts, allowed)
        expect(n == 0, "each further repetition takes %d bytes more: %s", n, allowed[:40])
    same(c.ask("tokens", texts[::-1])[::-1], full, "the tokens after other texts have been read")
    for f in full:
        rec.label("rejected" if f[-1][2] == "(error)" else "scanned")
    if any(len(f) > 4192 for f in full):
        rec.label("over 4192 tokens")


def check_read(case, rec):
    texts = [text_of(t) for t in case["texts"]]
    g = case["g"]
    c = child()
    rec.nontrivial(len(texts) > 1 or len(texts[0]) > 4096)
    out = c.ask("read", texts, g)
    for o, t in zip(out, texts):
        rec.label(o[0])
    if sum(map(len, texts)) < 3000 and case["grows"] == 0:
        rec.label("memory in use")
        n = c.ask("readgrows", texts, g)
        expect(n == 0, "each further reading takes %d bytes more: %r", n, texts)
    same(c.ask("read", texts[::-1], g)[::-1], out, "the same texts read once more, last one first")


def read_strategy():
    return st.fixed_dictionaries({"texts": st.lists(a_text(), min_size=1, max_size=3), "g": st.sampled_from(["1.0", "1.1"]), "grows": st.integers(0, 3)})


def check_big(case, rec):
    w, vals = case["cols"], case["vals"]
    text = "data_a\n" + "".join("_v%d\n%s\n" % (n, {0: "x" * ln, 1: "'" + "ab " * (ln // 3) + "'", 2: ";" + ("y" * 70 + "\n") * (ln // 71) + ";", 3: '"' + "q'\t" * (ln // 3) + '"'}[kind])
                                for n, (ln, kind) in enumerate(case["long"]))
    text += "loop_\n" + "".join("_c%d\n" % i for i in range(w)) + "".join("%s%s" % ("'%d'" % n if n % 7 == 0 else "v%d" % n, "\n" if n % w == w - 1 else " ") for n in range(case["rows"] * w))
    text += "#" + "p" * case["pad"]
    c = child()
    rec.nontrivial()
    full = c.ask("tokens", [text])[0]
    tail = ["loop_"] + ["_c%d" % i for i in range(w)] + ["'%d'" % n if n % 7 == 0 else "v%d" % n for n in range(case["rows"] * w)]
    got = [t[3] for t in full[-1 - PAST - len(tail):-1 - PAST]]
    for a, b in zip(tail, got):
        same(b, a, "token of a text of %d characters" % len(text))
    expect(len(got) == len(tail) and full[-1 - PAST][2] == "END", "%d tokens", len(full))
    if len(tail) > 4192:
        rec.label("over 4192 tokens")
    n = c.ask("grows", [text, ""], [["prepare", 0]] + [["next", 0]] * min(len(full), case["take"]))
    expect(n == 0, "each further repetition takes %d bytes more", n)


def big_strategy():
    return st.fixed_dictionaries({"cols": st.integers(1, 4), "rows": st.sampled_from([1, 500, 1048, 1396, 1397, 2095, 2096, 4190, 4191, 4192, 8384]), "pad": st.integers(0, 9000), "take": st.sampled_from([5, 4191, 4192, 4193, 9000]),
                                  "long": st.lists(st.tuples(st.sampled_from([2000, 4095, 4096, 8190, 8191, 8192, 8193, 16383, 16384, 16385, 20000, 40000]), st.integers(0, 3)).map(list), max_size=3)}).map(lambda d: dict(d, vals=[]))


SUBS = [Sub("history", history_strategy, check_history, quick=(3, 250), thorough=(6, 3000)), Sub("read", read_strategy, check_read, quick=(2, 200), thorough=(3, 3000)),
        Sub("large", big_strategy, check_big, quick=(1, 12), thorough=(4, 150))]
