"""A process with the compiled scanner built with the address and undefined behaviour sanitizers (props/scanner_memory.py).

stdin: a line [kind, ...]; stdout: a line, the result.  A sanitizer report ends the process."""
import array, ctypes, gc, io, json, os, sys, time

os.environ.pop("LD_PRELOAD", None)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [sys.argv[1], os.path.dirname(HERE), "/opt/veriftools/pyvenv/lib/python3.12/site-packages"]
import StarScan as S                                   # the instrumented one
allocated = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
allocated.restype = ctypes.c_size_t
assert S.__file__.startswith(sys.argv[1]), S.__file__
PAST = 3


def tokens(text):
    """All tokens of the text, and a few after its end"""
    S.prepare(text)
    out, i, more = [], 0, None
    while more is None or more > 0:
        out.append(list(S.token(i)))
        i += 1
        if more is not None:
            more -= 1
        elif out[-1][2] in ("END", "(error)"):
            more = PAST if out[-1][2] == "END" else 0
    return out


def history(texts, ops):
    """Run the operations (the last of the texts is empty: none is being scanned); the answer of each, or None where there is nothing to expect"""
    got, cur, now, kept = [], 0, 0, []
    for op in ops:
        k, n = op
        if k == "prepare":
            S.prepare("".join([texts[n % (len(texts) - 1)], ""]) if n % 2 else texts[n % (len(texts) - 1)].encode().decode())   # nobody else holds this text
            now, cur = n % (len(texts) - 1), 0
            got.append(None)
        elif k == "bad":
            try:
                S.prepare([7, "data_a \ud800", b"data_a"][n % 3])
                raise AssertionError("taken as a text")
            except (TypeError, UnicodeEncodeError):
                got.append(None)
        elif k == "cleanup":
            S.cleanup()
            now, cur = len(texts) - 1, 0
            got.append(None)
        elif k == "last":
            got.append([now, "last", cur, [list(t) for t in S.last_ten()]])
        else:
            i = {"next": cur, "again": n % (cur + 1), "beyond": cur + 1 + n, "below": -1 - n}[k]
            try:
                t = S.token(i)
                if n % 3 == 0:
                    kept.append(t)
                if i == cur:
                    cur += 1
                got.append([now, "token", i, list(t)])
            except IndexError:
                got.append([now, "token", i, None])
    return got


def grows(f):
    """bytes by which each further call of f leaves more memory in use, if every one of them does (the interpreter settles after a while, a leak goes on)"""
    seen, end = array.array("Q", [0] * 300), time.time() + 60
    for n in range(300):
        f()
        gc.collect()
        seen[n] = allocated()
        if n > 2 and seen[n] <= seen[n - 1]:
            return 0
        if n > 50 and time.time() > end:
            break
    return min(b - a for a, b in zip(seen[2:n], seen[3:n + 1]))


def read(text, g):
    from CifFile import ReadCif
    from CifFile.StarFile import StarError
    from vp import cif
    try:
        return ["ok", json.loads(json.dumps(cif.file_model(ReadCif(io.StringIO(text), grammar=g, scantype="flex"))))]
    except StarError as e:
        return ["StarError", None]
    except Exception as e:
        return ["other", type(e).__name__]


def answer(m):
    if m[0] == "tokens":
        return [tokens(t) for t in m[1]]
    if m[0] == "history":
        return history(m[1], m[2])
    if m[0] == "grows":
        return grows(lambda: history(m[1], m[2]) and None)
    if m[0] == "read":
        return [read(t, m[2]) for t in m[1]]
    if m[0] == "readgrows":
        return grows(lambda: [read(t, m[2]) for t in m[1]] and None)


if __name__ == "__main__":
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.path.insert(0, sys.argv[2])
    from CifFile import yapps3_compiled_rt as rt
    assert rt.have_star_scan
    rt.StarScan = S
    for line in sys.stdin:
        r = answer(json.loads(line))
        out.write(json.dumps(r) + "\n")
        out.flush()
