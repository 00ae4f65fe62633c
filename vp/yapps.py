"""Grammars for the parser generator: generation, text, and an interpreter giving their meaning."""
import os, re, sys, io, runpy, shutil, tempfile, contextlib
from hypothesis import strategies as st
from vp.ddl1 import G

# name, regular expression, texts matching it
NAMED = [("ID", "[a-z]+", ["a", "if", "xyz", "then"]), ("NUM", "[0-9]+", ["1", "42", "007"]), ("STR", "'[^']*'", ["''", "'a b'", "'1 if'", "'x\ny'"]),
         ("COMMA", ",", [","]), ("UPPER", "[A-Z]", ["A", "Q"]), ("WORD", "[A-Z][a-z]+", ["Ab", "Then"]), ("REAL", "[0-9]+[.][0-9]*", ["1.", "2.5"]),
         ("HEX", "0x[0-9a-f]+", ["0x1f"]), ("DOT", "[.]", ["."])]
# as written in the grammar, texts
LITERAL = [('"if"', ["if"]), ("'then'", ["then"]), ('"[(]"', ["("]), ("r'\\)'", [")"]), ('":="', [":="]), ("'='", ["="]), ('"=="', ["=="]), ('"->"', ["->"]),
           ("'-'", ["-"]), ('";"', [";"]), ('"\\\\+"', ["+"]), ("'<<'", ["<<"]), ('"rule"', ["rule"]), ("'{{'", ["{{"]), ('"#!"', ["#!"])]
EXTRA = [("EOF", "$", [""])]
TEXTS = dict([(n, t) for n, r, t in NAMED + EXTRA] + LITERAL)
RULES = ["goal", "expr", "item", "Tail", "x_1"]
IGNORE = ["\\s+", "%[^\\n]*"]


class Gen(G):
    pass


@st.composite
def cases(draw, plain=False):
    d = Gen(draw)
    nrules = d.i(1, 4)
    names = RULES[:nrules]
    params = dict((n, bool(n != "goal" and d.some(3))) for n in names)
    pool = [n for n, r, t in NAMED] + [n for n, t in LITERAL]
    if plain:            # no two of them can match the same text
        pool = ["ID", "NUM", "STR", "COMMA"] + ['"[(]"', "r'\\)'", '":="', '"->"', '";"', '"\\\\+"', "'{{'", '"#!"']
    start = d.i(0, len(pool) - 1)
    pool = pool[start:] + pool[:start]
    fresh = [0]

    def tok():
        if not d.some(4):
            fresh[0] += 1
            return ["t", pool[fresh[0] % len(pool)], int(d.some(2))]
        return ["t", pool[d.i(0, len(pool) - 1)], int(d.some(2))]

    def item(depth):
        k = d.i(0, 13)
        if k < 5 or depth == 0:
            return tok()
        if k < 8:
            n = d.pick(names[1:] or names)
            return ["n", n, d.i(0, 9)] if n != "goal" else tok()
        if k == 8:
            return ["a", d.i(0, 99)]
        return [["o", "o", "s", "p", "g", "b"][k - 9 if k < 13 else d.i(0, 5)], alt(depth - 1)]

    def seq(depth, low=1):
        return [item(depth) for _ in range(d.i(low, 3))]

    def alt(depth):
        n = 1 if d.some(2) else d.i(2, 4)
        out = [seq(depth) for _ in range(n)]
        if n > 1 and d.some(4):
            out[d.i(0, n - 1)] = []
        return out

    rules = [[n, int(params[n]), alt(3)] for n in names]
    if not d.some(5):
        repair(rules, pool, fresh)
    order = d.i(0, 3)
    inputs = [[d.i(0, 1 << 24), d.i(0, 5), d.i(0, 30), d.i(0, 30)] for _ in range(6)]
    return {"rules": rules, "order": order, "layout": d.i(0, 1 << 20), "insensitive": d.i(0, 2) if plain else 0, "devel": int(d.some(2)),
            "ignore": d.i(1, 2), "inputs": inputs, "sections": d.i(0, 3)}


def repair(rules, pool, fresh):
    """Add tokens until every choice can be made from the next one."""
    def new(avoid):
        for _ in pool:
            fresh[0] += 1
            t = pool[fresh[0] % len(pool)]
            if t not in avoid:
                break
        return ["t", t, fresh[0] % 2]

    for _ in range(12):
        g = Grammar({"rules": rules})
        found = False
        for x in g.nodes:
            if x.kind == "alt":
                seen = set()
                for i, k in enumerate(x.kids):
                    if g.predict(x, k) & seen:
                        t = new(x.first | x.follow | seen)
                        x.ref[i].insert(0, t)
                        seen.add(t[1])
                        found = True
                    else:
                        seen |= g.predict(x, k)
            elif x.kind in "osp":
                inner, k = x.ref[1][1], x.kids[0]
                if k.nullable:
                    found = True
                    for i, a in enumerate(inner):
                        if len(inner) == 1 or k.kids[i].nullable:
                            a.insert(0, new(k.first | x.follow))
                elif k.efirst & x.efollow:
                    found = True
                    at = [i for i, it in enumerate(x.ref[0]) if it is x.ref[1]][0]
                    x.ref[0].insert(at + 1, new(k.first | x.follow))
        costs = g.costs()
        if None in costs.values():
            found = True
            for n, p, alts in rules:
                if costs[id(g.rules[n])] is None:
                    alts.append([new(g.rules[n].first)])
        elif g.left_recursive():
            found = True
            for n, p, alts in rules[1:]:
                for i, a in enumerate(alts):
                    if a and a[0][0] != "t":
                        a.insert(0, new(g.rules[n].first | g.rules[n].follow))
        if not found:
            return


@st.composite
def malformed(draw):
    case = draw(cases())
    d = G(draw)
    case["edits"] = [[d.i(0, 8) // 2, d.i(0, 2000), d.i(0, 5), d.i(0, 60)] for _ in range(d.i(1, 2))]
    return case


# ---------------------------------------------------------------- text of a grammar

class Layout(object):
    """A stream of layout decisions from a number."""
    def __init__(self, seed):
        self.x = seed * 2654435761 + 12345

    def next(self, n):
        self.x = (self.x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return (self.x >> 33) % n


def used_tokens(case):
    out = []
    def walk(alts):
        for s in alts:
            for it in s:
                if it[0] == "t" and it[1] not in out:
                    out.append(it[1])
                elif it[0] in "ospgb":
                    walk(it[1])
    for n, p, a in case["rules"]:
        walk(a)
    return out


def text_of(case):
    lay = Layout(case["layout"])
    params = dict((n, p) for n, p, a in case["rules"])
    used = used_tokens(case)

    def sp():
        return [" ", "\n   ", "  ", " # comment | ) {{ \n  ", "\t"][lay.next(5)]

    def wrap(alts, op):
        one = len(alts) == 1 and len(alts[0]) == 1
        if op == "o" and lay.next(2):
            return "[" + alts_text(alts) + "]"
        tail = {"o": "?", "s": "*", "p": "+", "g": "", "b": ""}[op]
        if op == "b":
            return "( ( " + alts_text(alts) + ") )"
        if one and alts[0][0][0] == "t" and not alts[0][0][2] and lay.next(2):
            return alts[0][0][1] + ["", " "][lay.next(2)] + tail
        return "(" + alts_text(alts) + ")" + tail

    def item_text(it):
        if it[0] == "t":
            if it[2] and re.match("[A-Z]", it[1]):
                return "%s%s{{ v.append((%r, %s)) }}" % (it[1], sp(), it[1], it[1])
            return it[1]
        if it[0] == "n":
            arg = "<<%d>>" % it[2] if params[it[1]] else ""
            return "%s%s%s{{ v.append(%s) }}" % (it[1], arg, sp(), it[1])
        if it[0] == "a":
            return "{{ v.append(%d) }}" % it[1]
        return wrap(it[1], it[0])

    def seq_text(s):
        return "".join(sp() + item_text(it) for it in s) + sp()

    def alts_text(alts):
        return "|".join(seq_text(s) for s in alts)

    def rule_text(n, p, alts):
        body = ("(" + alts_text(alts) + ")") if len(alts) > 1 else seq_text(alts[0])
        head = "rule %s%s:" % (n, "<<p>>" if p else "")
        end = sp() + "EOF" if n == "goal" else ""
        return "    %s%s{{ v = [%r%s] }}%s%s%s{{ return v }}\n" % (head, sp(), n, ", p" if p else "", sp(), body + end, sp())

    out = []
    if case["sections"] > 0:
        out.append("# first part\nFIRST = [1,\n 2]\n%%\n")
    out.append("parser Test:\n")
    if case["insensitive"] == 1:
        out.append("    option: 'context-insensitive-scanner'\n")
    for i in range(case["ignore"]):
        out.append("    ignore: %r\n" % IGNORE[i])
    for n, r, t in NAMED + EXTRA:
        if n in used or n == "EOF":
            out.append("    token %s:%s%s\n" % (n, [" ", "\n       "][lay.next(2)], ["'%s'" % r.replace("'", "\\'"), '"%s"' % r][lay.next(2)]))
    rs = list(case["rules"])
    k = case["order"] % len(rs)
    for n, p, alts in rs[k:] + rs[:k]:
        out.append(rule_text(n, p, alts))
    if case["sections"] > 1:
        out.append("\n%%\nLAST = 'part'\n%%\nAGAIN = 1 %\\\n 2\n".replace("\n%%\nAGAIN", "\nAGAIN"))
    return "".join(out)


# ---------------------------------------------------------------- meaning of a grammar

class Node(object):
    def __init__(self, kind, rule, kids=(), arg=None):
        self.kind, self.rule, self.kids, self.arg = kind, rule, list(kids), arg
        self.nullable, self.first, self.follow, self.efirst, self.efollow = False, set(), set(), set(), set()

    def show(self):
        """the generator's notation"""
        k = self.kind
        if k == "t" or k == "n":
            return self.arg[0]
        if k == "a":
            return "{{ %s }}" % self.arg
        if k == "seq":
            return "( %s )" % " ".join(c.show() for c in self.kids)
        if k == "alt":
            return "( %s )" % " | ".join(c.show() for c in self.kids)
        return {"o": "[ %s ]", "s": "%s*", "p": "%s+"}[k] % self.kids[0].show()


class Grammar(object):
    """Nodes are built as the notation is documented: one clause is not a choice, one item is not a sequence."""
    def __init__(self, case):
        self.case = case
        self.rules, self.params, self.nodes = {}, {}, []
        for n, p, alts in case["rules"]:
            self.params[n] = p
            kids = [x for it in alts[0] for x in self.item(n, it, (alts[0], it))] if len(alts) == 1 else [self.alt(n, alts)]
            kids = [self.node("a", n, arg="v = []")] + kids
            if n == "goal":
                kids.append(self.node("t", n, arg=["EOF", 0]))
            kids.append(self.node("a", n, arg="return v"))
            self.rules[n] = self.node("seq", n, kids)
        self.why = []
        self.sets()

    def node(self, kind, rule, kids=(), arg=None):
        x = Node(kind, rule, kids, arg)
        self.nodes.append(x)
        return x

    def alt(self, rule, alts):
        kids = [self.seq(rule, s) for s in alts]
        if len(kids) == 1:
            return kids[0]
        x = self.node("alt", rule, kids)
        x.ref = alts
        return x

    def seq(self, rule, s):
        kids = []
        for it in s:
            kids += self.item(rule, it, (s, it))
        return kids[0] if len(kids) == 1 else self.node("seq", rule, kids)

    def item(self, rule, it, ref):
        if it[0] == "t":
            out = [self.node("t", rule, arg=[it[1], it[2]])]
            if it[2] and re.match("[A-Z]", it[1]):
                out.append(self.node("a", rule, arg=["tok", it[1]]))
            return out
        if it[0] == "n":
            return [self.node("n", rule, arg=[it[1], it[2]]), self.node("a", rule, arg=["call", it[1]])]
        if it[0] == "a":
            return [self.node("a", rule, arg=["lit", it[1]])]
        inner = self.alt(rule, it[1])
        if it[0] in "gb":
            return [inner]
        x = self.node(it[0], rule, [inner])
        x.ref = ref
        return [x]

    def sets(self):
        """nullable; efirst and efollow: the sets by the book; first and follow: what is looked for in front of and behind a
        node (what follows a nullable rule elsewhere is looked for next to it everywhere)"""
        again = True
        while again:
            again = False
            for x in self.nodes:
                v = self.is_nullable(x)
                if v and not x.nullable:
                    x.nullable = again = True
        again = True
        while again:
            size = sum(len(x.first) + len(x.follow) + len(x.efirst) + len(x.efollow) for x in self.nodes)
            for x in self.nodes:
                self.grow(x)
            again = size != sum(len(x.first) + len(x.follow) + len(x.efirst) + len(x.efollow) for x in self.nodes)

    def is_nullable(self, x):
        if x.kind == "t":
            return False
        if x.kind in "aos":
            return True
        if x.kind == "n":
            return self.rules[x.arg[0]].nullable
        if x.kind == "alt":
            return any(k.nullable for k in x.kids)
        return all(k.nullable for k in x.kids)

    def grow(self, x):
        if x.nullable:
            x.first |= x.follow
        if x.kind == "t":
            x.first.add(x.arg[0])
            x.efirst.add(x.arg[0])
        elif x.kind == "n":
            t = self.rules[x.arg[0]]
            x.first |= t.first
            x.efirst |= t.efirst
            t.follow |= x.follow
            t.efollow |= x.efollow
        elif x.kind == "seq":
            empty = True
            for i, k in enumerate(x.kids):
                if empty:
                    x.first |= k.first
                    x.efirst |= k.efirst
                empty = empty and k.nullable
                k.follow |= x.kids[i + 1].first if i + 1 < len(x.kids) else x.follow
                for j in range(i + 1, len(x.kids)):
                    k.efollow |= x.kids[j].efirst
                    if not x.kids[j].nullable:
                        break
                else:
                    k.efollow |= x.efollow
        else:
            for k in x.kids:
                x.first |= k.first
                x.efirst |= k.efirst
                k.follow |= x.follow
                k.efollow |= x.efollow
                if x.kind in "sp":
                    k.follow |= k.first
                    k.efollow |= k.efirst

    def predict(self, x, k):
        """tokens on which clause k of choice x is taken"""
        return k.efirst | (x.efollow if k.nullable else set())

    def problems(self):
        """what the generator has to warn of: (kind, rule, tokens)"""
        out = []
        for x in self.live():
            if x.kind == "alt":
                seen = set()
                for k in x.kids:
                    both = self.predict(x, k) & seen
                    if both:
                        out.append(("clash", x.rule, tuple(sorted(both))))
                    seen |= self.predict(x, k)
            if x.kind in "osp" and x.kids[0].nullable:
                out.append(("empty", x.rule, x.kind == "o"))
        return sorted(out, key=repr)

    def live(self):
        """nodes for which code is written (clauses without a token of their own are left out)"""
        out = []
        def walk(x):
            out.append(x)
            seen = set()
            for k in x.kids:
                if x.kind != "alt" or self.predict(x, k) - seen:
                    walk(k)
                if x.kind == "alt":
                    seen |= self.predict(x, k)
        for r in self.rules.values():
            walk(r)
        return out

    def sound(self):
        """every choice can be made from the next token, and every rule can end"""
        for x in self.nodes:
            if x.kind == "alt":
                seen = set()
                for k in x.kids:
                    if self.predict(x, k) & seen:
                        self.why.append("choice")
                    seen |= self.predict(x, k)
            if x.kind in "osp" and (x.kids[0].nullable or x.kids[0].efirst & x.efollow):
                self.why.append("part may be empty" if x.kids[0].nullable else "part like its successor")
        if None in self.costs().values():
            self.why.append("endless")
        elif self.left_recursive():
            self.why.append("left recursive")
        return not self.why

    def left_recursive(self):
        edges = {}
        def leads(x, out):
            if x.kind == "n":
                out.add(x.arg[0])
            elif x.kind == "seq":
                for k in x.kids:
                    leads(k, out)
                    if not k.nullable:
                        break
            else:
                for k in x.kids:
                    leads(k, out)
        for n, r in self.rules.items():
            edges[n] = set()
            leads(r, edges[n])
        for n in edges:
            todo, seen = list(edges[n]), set()
            while todo:
                m = todo.pop()
                if m == n:
                    return True
                if m not in seen:
                    seen.add(m)
                    todo += edges[m]
        return False

    def costs(self):
        """least number of tokens derivable from each node"""
        cost = dict((id(x), None) for x in self.nodes)
        again = True
        while again:
            again = False
            for x in self.nodes:
                if x.kind == "t":
                    c = 1
                elif x.kind in "aos":
                    c = 0
                elif x.kind == "n":
                    c = cost[id(self.rules[x.arg[0]])]
                    c = None if c is None else c + 1
                else:
                    cs = [cost[id(k)] for k in x.kids]
                    if x.kind == "alt":
                        cs = [k for k in cs if k is not None]
                        c = min(cs) if cs else None
                    else:
                        c = None if None in cs else sum(cs)
                if c is not None and (cost[id(x)] is None or c < cost[id(x)]):
                    cost[id(x)] = c
                    again = True
        return cost

    def derive(self, seed):
        """a sentence: [(token name, text)]"""
        lay, cost, out = Layout(seed), self.costs(), []
        budget = [3 + lay.next(25)]

        def go(x):
            if x.kind == "t":
                ts = TEXTS[x.arg[0]]
                out.append((x.arg[0], ts[lay.next(len(ts))]))
                budget[0] -= 1
            elif x.kind == "n":
                budget[0] -= 1
                go(self.rules[x.arg[0]])
            elif x.kind == "seq":
                for k in x.kids:
                    go(k)
            elif x.kind == "alt":
                ks = x.kids if budget[0] > 0 else sorted(x.kids, key=lambda k: cost[id(k)])[:1]
                go(ks[lay.next(len(ks))])
            elif x.kind != "a":
                n = int(x.kind == "p")
                if budget[0] > 0:
                    n += lay.next(2 if x.kind == "o" else 3)
                for _ in range(n):
                    go(x.kids[0])
        go(self.rules["goal"])
        return out[:-1]


class Reject(Exception):
    def __init__(self, pos, end):
        self.pos, self.end = pos, end


class Interp(object):
    """Parse text by a sound grammar: the next token decides, and only tokens that can come next are looked for."""
    def __init__(self, g, text):
        self.g, self.text = g, text
        used = used_tokens(g.case)
        lits = [t for t in used if not re.match("[A-Z]", t)]
        self.pats = []
        for t in self.written(lits):
            self.pats.insert(0, (t, eval(t)))
        self.pats += [(IGNORE[i], IGNORE[i]) for i in range(g.case["ignore"])]
        self.pats += [(n, r) for n, r, t in NAMED + EXTRA if n in used or n == "EOF"]
        self.pats = [(n, re.compile(r)) for n, r in self.pats]
        self.pos, self.tok = 0, None

    def written(self, lits):
        """in order of their first appearance"""
        out = []
        def walk(alts):
            for s in alts:
                for it in s:
                    if it[0] == "t" and it[1] in lits and it[1] not in out:
                        out.append(it[1])
                    elif it[0] in "ospgb":
                        walk(it[1])
        rs = self.g.case["rules"]
        k = self.g.case["order"] % len(rs)
        for n, p, alts in rs[k:] + rs[:k]:
            walk(alts)
        return out

    def peek(self, allowed):
        if self.tok is None:
            while True:
                best, name = -1, None
                for n, r in self.pats:
                    if n in allowed or n in IGNORE:
                        m = r.match(self.text, self.pos)
                        if m and len(m.group(0)) > best:
                            best, name = len(m.group(0)), n
                if name is None:
                    raise Reject(self.pos, self.pos)
                if name not in IGNORE:
                    break
                self.pos += best
            self.tok = (name, self.pos, self.pos + best)
        return self.tok[0]

    def refuse(self):
        raise Reject(self.tok[1], self.tok[2])

    def call(self, name, arg):
        r = self.g.rules[name]
        v = [name] + ([arg] if self.g.params[name] else [])
        env = {}
        self.run(r, v, env)
        return v

    def run(self, x, v, env):
        if x.kind == "t":
            if self.peek({x.arg[0]}) != x.arg[0]:
                self.refuse()
            env[x.arg[0]] = self.text[self.tok[1]:self.tok[2]]
            self.pos, self.tok = self.tok[2], None
        elif x.kind == "a":
            if isinstance(x.arg, list):
                v.append(x.arg[1] if x.arg[0] == "lit" else (x.arg[1], env[x.arg[1]]) if x.arg[0] == "tok" else env["rule " + x.arg[1]])
        elif x.kind == "n":
            env["rule " + x.arg[0]] = self.call(*x.arg)
        elif x.kind == "seq":
            for k in x.kids:
                self.run(k, v, env)
        elif x.kind == "alt":
            t = self.peek(x.first)
            for k in x.kids:
                if t in self.g.predict(x, k):
                    return self.run(k, v, env)
            self.refuse()
        else:
            k = x.kids[0]
            if x.kind == "p":
                self.run(k, v, env)
            while self.peek(x.first | x.follow) in k.efirst:
                self.run(k, v, env)
                if x.kind == "o":
                    break


# ---------------------------------------------------------------- the generator

def source():
    import CifFile
    return os.path.realpath(os.path.dirname(CifFile.__file__))


def command(args):
    """Run yapps2.py as a command: (exit status, stdout, stderr)"""
    src = source()
    for p in (os.path.join(src, "yapps3"), src):
        if p not in sys.path:
            sys.path.append(p)
    old = sys.argv
    script = os.path.join(src, "yapps3", "yapps2.py")
    sys.argv = [script] + args
    out, err = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_path(script, run_name="__main__")
                rc = 0
            except SystemExit as e:
                rc = e.code or 0
    finally:
        sys.argv = old
    return rc, out.getvalue(), err.getvalue()


class Scratch(object):
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vp_yapps_")
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def loaded(text, n=[0]):
    n[0] += 1
    ns = {"__name__": "CifFile.generated_%d" % n[0], "__package__": "CifFile"}
    exec(compile(text, "generated", "exec"), ns)
    return ns


# ---------------------------------------------------------------- the notation itself

WORDS = ["rule", "ignore", "token", "option", "parser"]
LEX = [(w, w) for w in WORDS] + [
    ("ws", "[ \t\r\n]+"), ("ws", "#.*?\r?\n"), ("EOF", "$"), ("ATTR", "<<.+?>>"), ("STMT", "{{.+?}}"),
    ("STR", "[uUrR]?'([^\\n'\\\\]|\\\\.)*'|[uUrR]?\"([^\\n\"\\\\]|\\\\.)*\""), ("ID", "[a-zA-Z_][a-zA-Z_0-9]*")] + [(c, re.escape(c)) for c in "()[]|*+?:"]
LEX = [(n, re.compile(r)) for n, r in LEX]


class Notation(object):
    """Recognise a parser description; Reject where it breaks."""
    def __init__(self, text):
        self.text, self.pos, self.tok = text, 0, None
        self.tokens, self.names, self.rules, self.strings = [], [], [], []

    def peek(self, want=None):
        if self.tok is None:
            while True:
                best, name = -1, None
                for n, r in LEX:
                    if want in (None, n) or n == "ws":
                        m = r.match(self.text, self.pos)
                        if m and m.end() - self.pos > best:
                            best, name = m.end() - self.pos, n
                if name is None:
                    raise Reject(self.pos, self.pos)
                if name != "ws":
                    break
                self.pos += best
            self.tok = (name, self.pos, self.pos + best)
        return self.tok[0]

    def take(self, want):
        if self.peek(want) != want:
            raise Reject(self.tok[1], self.tok[2])
        t = self.text[self.tok[1]:self.tok[2]]
        self.pos, self.tok = self.tok[2], None
        if want == "STR":
            self.strings.append(t)
        return t

    def maybe(self, want):
        if self.peek() == want:
            return self.take(want)

    def need(self, names):
        if self.peek() not in names:
            raise Reject(self.tok[1], self.tok[2])

    def description(self):
        self.take("parser")
        self.take("ID")
        self.take(":")
        while self.maybe("option"):
            self.take(":")
            self.take("STR")
        self.need(["token", "ignore", "rule", "EOF"])
        while self.peek() in ("token", "ignore"):
            if self.maybe("token"):
                self.tokens.append(self.take("ID"))
            else:
                self.take("ignore")
            self.take(":")
            self.take("STR")
        self.need(["rule", "EOF"])
        while self.maybe("rule"):
            self.rules.append(self.take("ID"))
            self.maybe("ATTR")
            self.take(":")
            self.clauses()
            self.need(["rule", "EOF"])
        self.take("EOF")

    def clauses(self):
        self.sequence()
        while self.maybe("|"):
            self.sequence()

    def sequence(self):
        while self.peek() in ("STR", "ID", "(", "[", "STMT"):
            k = self.peek()
            t = self.take(k)
            if k == "ID":
                self.names.append(t)
                self.maybe("ATTR")
            elif k in "([":
                self.clauses()
                self.take({"(": ")", "[": "]"}[k])
            if self.peek() in ("+", "*", "?"):
                self.take(self.tok[0])
        # nothing else can stand here
        self.need(["|", ")", "]", "rule", "EOF"])


CHARS = list("()[]|*+?:'\"{}<>%#\n aZ_1.&!\\") + ["rule ", " token X: 'x'\n", "{{ pass }}", "<<1>>", "]", ")", " nowhere ", "option: 'x'\n", "ignore", ": ", "''"]


def edited(text, edits):
    """character edits, within the description"""
    lo = text.find("parser Test")
    hi = text.find("\n%%\n", lo)
    hi = len(text) if hi < 0 else hi
    body = text[lo:hi]
    for kind, at, n, c in edits:
        i = at % (len(body) + 1)
        if kind == 0:
            body = body[:i] + body[i + 1 + n % 3:]
        elif kind == 1:
            body = body[:i] + CHARS[c % len(CHARS)] + body[i:]
        elif kind == 2:
            body = body[:i] + CHARS[c % len(CHARS)] + body[i + 1:]
        elif kind == 3:
            marks = [m.start() for m in re.finditer(r"[\[\]()|:]", body)]
            if marks:
                i = marks[at % len(marks)]
                body = body[:i] + body[i + 1:]
        else:
            body = body[:i]
    return text[:lo] + body + text[hi:], lo
