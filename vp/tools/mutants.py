"""Random small changes to the sources, tried against the checks that cover them.

python3 mutants.py SEED COUNT [FILE...] >> survivors.log      (from a clone of /verif; uses private mounts over /repo)
Prints one line per change: caught by which check, or SURVIVED with the diff.
"""
import ast, os, random, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VP_MU_REPO", "/repo")
COVER = {
    "src/drel/drel_lex.py": ["C18", "C16", "C17", "C19"],
    "src/drel/drel_ast_yacc.py": ["C16", "C17", "C18", "C19"],
    "src/yapps3_compiled_rt.py": ["C30", "C21", "C07", "C06", "C02"],
    "src/lib/py_star_scan.c": ["C06", "C27"],
    "src/Programs/output_asciidoc.py": ["C31"],
    "src/Programs/star2_to_cif2.py": ["C31"],
    "src/Programs/validate_cif.py": ["C24"],
    "src/yapps3/parsetree.py": ["C21", "C02"],
    "src/yapps3/grammar.py": ["C21"],
    "src/yapps3/yapps_grammar.py": ["C21"],
    "src/yapps3/yapps2.py": ["C21"],
}

# noweb sources: changes are found in the Python that comes of them (built package given by VP_PKG) and made to the line they come from
NW = {
    "src/StarFile.nw": ("StarFile.py", ["C10", "C11", "C12", "C13", "C14", "C15", "C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C22", "C30"]),
    "src/CifFile_module.nw": ("CifFile_module.py", ["C20", "C28", "C29", "C25", "C22", "C23", "C19", "C15", "C09", "C13", "C01", "C12", "C31"]),
    "src/TypeContentsParser.nw": ("TypeContentsParser.py", ["C19", "C20", "C16"]),
    "src/drel/drel_runtime.nw": ("drel/drel_runtime.py", ["C16", "C17", "C19"]),
    "src/drel/py_from_ast.nw": ("drel/py_from_ast.py", ["C16", "C17", "C18", "C19"]),
}


def dull(tree):
    """texts of messages"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "warn", "debug"):
            out |= set(ast.walk(n)) - {n}
    return out


def noweb_mutants(py, nw):
    """changes within one line of the Python that is found once in the noweb source"""
    b, nb, out = py.encode(), nw.encode(), []
    skip = dull(ast.parse(py))
    where = {}
    for l in nb.split(b"\n"):
        where[l.strip()] = where.get(l.strip(), 0) + 1
    for s, e, new in python_mutants(py, skip):
        ls, le = b.rfind(b"\n", 0, s) + 1, b.find(b"\n", s)
        if e > le or "\n" in new:
            continue
        line = b[ls:le].strip()
        if where.get(line) != 1:
            continue
        pad = b[ls:le].index(line)
        at = [m.start() for m in re.finditer(re.escape(line), nb) if nb[nb.rfind(b"\n", 0, m.start()) + 1:m.start()].strip() == b"" and nb[m.end():nb.find(b"\n", m.end())].strip() == b""][0]
        out.append((at + s - ls - pad, at + e - ls - pad, new, (s, e)))
    return out


def seg(src, lines, node):
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    return off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset


def python_mutants(src, skip=()):
    """(start, end, replacement) in bytes"""
    tree, lines, b, out = ast.parse(src), src.splitlines(True), src.encode(), []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
    def text(n):
        s, e = seg(src, lines, n)
        return b[s:e].decode()
    def rep(n, new):
        s, e = seg(src, lines, n)
        out.append((s, e, new))
    for n in ast.walk(tree):
        if n in skip or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "print":
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            swap = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
            rep(n, "%s %s %s" % (text(n.left), swap[type(n.ops[0])], text(n.comparators[0])))
        elif isinstance(n, ast.BoolOp):
            rep(n, (" and " if isinstance(n.op, ast.Or) else " or ").join(text(v) for v in n.values))
            rep(n, "(" + text(n.values[0]) + ")")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            rep(n, "%s %s %s" % (text(n.left), "-" if isinstance(n.op, ast.Add) else "+", text(n.right)))
            rep(n, text(n.left)); rep(n, text(n.right))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            rep(n.test, "not (%s)" % text(n.test))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Return, ast.Raise)) or isinstance(n, ast.Expr) and n.value not in docs:
            if "\n" not in text(n):
                rep(n, "pass")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, text(n.operand))
        elif isinstance(n, ast.Constant):
            v, t = n.value, text(n)
            if isinstance(v, bool):
                rep(n, repr(not v))
            elif isinstance(v, int):
                rep(n, str(v + 1)); rep(n, str(v - 1))
            elif isinstance(v, str) and n in docs:
                ls = t.split("\n")          # grammar rules: an alternative less, two symbols swapped
                for k, l in enumerate(ls):
                    if l.strip().startswith("|"):
                        rep(n, "\n".join(ls[:k] + ls[k + 1:]))
                        w = l.split()
                        if len(w) > 2:
                            i = 1 + random.randrange(len(w) - 1)
                            rep(n, "\n".join(ls[:k] + ["   " + " ".join(w[:i] + w[i + 1:])] + ls[k + 1:]))
            elif isinstance(v, str) and t:
                q = re.match(r"[a-zA-Z]*('''|\"\"\"|'|\")", t)
                if q and len(v) > 0:
                    i0, i1 = q.end(), len(t) - len(q.group(1))
                    body = t[i0:i1]
                    for _ in range(2 if len(body) < 12 else 6):
                        k = random.randrange(len(body)) if body else 0
                        new = body[:k] + random.choice(["", "", random.choice("+*?.|ax0_ ")]) + body[k + 1:]
                        rep(n, t[:i0] + new + t[i1:])
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            rep(n, "%s[%d]" % (text(n.value), n.slice.value + random.choice([-1, 1, 2])))
        elif isinstance(n, ast.Call) and n.args and not n.keywords and len(n.args) > 1:
            a = [text(x) for x in n.args]
            rep(n, text(n.func) + "(" + ", ".join(a[:-1]) + ")")
        elif isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) > 1 and isinstance(n.ctx, ast.Load):
            e = [text(x) for x in n.elts]
            k = random.randrange(len(e))
            o, c = ("[", "]") if isinstance(n, ast.List) else ("(", ",)")
            rep(n, o + ", ".join(e[:k] + e[k + 1:]) + c)
    return out


def c_mutants(src):
    out = []
    for m in re.finditer(r"==|!=|<=|>=|<|>|\+\+|\b\d+\b|&&|\|\|", src):
        new = {"==": "!=", "!=": "==", "<=": "<", ">=": ">", "<": "<=", ">": ">=", "++": "--", "&&": "||", "||": "&&"}.get(m.group()) or str(int(m.group()) + 1)
        out.append((m.start(), m.end(), new))
    for m in re.finditer(r"^[ \t]*\w[^\n;{}]*;[ \t]*$", src, re.M):
        out.append((m.start(), m.end(), ";"))
    return out


def run(seed, file, mut, checks):
    W = tempfile.mkdtemp(prefix="vp_mu.")
    try:
        subprocess.check_call(["git", "clone", "-q", REPO, W + "/r"])
        p = os.path.join(W, "r", file)
        b = open(p, "rb").read()
        s, e, new = mut[:3]
        open(p, "wb").write(b[:s] + new.encode() + b[e:])
        diff = subprocess.run(["git", "diff", "-U0"], cwd=W + "/r", stdout=subprocess.PIPE).stdout.decode("utf8", "replace")
        diff = "\n".join(l for l in diff.split("\n") if l[:1] in "+-@" and not l.startswith(("+++", "---")))
        script = 'mount --bind %s/r /repo; cd /repo; timeout 120 bash /opt/vp/build.sh >%s/b 2>&1 || exit 77; cp -r %s %s/v; cd %s/v; for c in %s; do VERIF_SEED=1 timeout 600 bash check.sh $c quick >%s/c 2>&1; r=$?; [ $r = 0 ] || { echo $c $r; grep -m1 ^VIOLATION %s/c | sed "s/.*replay.//"; exit 0; }; done; echo SURVIVED' % (W, W, V, W, W, " ".join(checks), W, W)
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        o = r.stdout.decode().split("\n")
        res = "no build" if r.returncode == 77 else " ".join(o).strip()
        return res, diff
    finally:
        shutil.rmtree(W, ignore_errors=True)


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or sorted(COVER)
    random.seed(seed)
    pool, base, pys = [], {}, {}
    for f in files:
        src = open(os.path.join(REPO, f), newline="").read()
        if f in NW:
            random.seed(1)
            py = open(os.path.join(os.environ["VP_PKG"], "CifFile", NW[f][0]), newline="").read()
            all_ = noweb_mutants(py, src)
            pys[f] = py.encode()
            base[f] = ast.dump(ast.parse(py.encode()))
            random.seed(seed)
            random.shuffle(all_)
            print(f, len(all_), "changes", flush=True)
            pool.append((f, src, all_[:]))
            continue
        ms = c_mutants(src) if f.endswith(".c") else python_mutants(src)
        pool.append((f, src, ms))
    for n in range(count):
        f, src, ms = pool[n % len(pool)]
        while f in NW:
            m = ms.pop()
            try:
                if ast.dump(ast.parse(pys[f][:m[3][0]] + m[2].encode() + pys[f][m[3][1]:])) != base[f]:
                    break
            except (SyntaxError, ValueError):
                pass
        while f not in NW:
            m = random.choice(ms)
            if not f.endswith(".py"):
                break
            b = src.encode()
            try:
                new = b[:m[0]] + m[2].encode() + b[m[1]:]
                if ast.dump(ast.parse(new)) != ast.dump(ast.parse(b)):
                    break
            except (SyntaxError, ValueError):
                pass
        res, diff = run(seed, f, m, NW[f][1] if f in NW else COVER[f])
        print("== %s: %s" % (f, res.replace("SURVIVED", "*** SURVIVED")))
        print(diff, flush=True)


main()
