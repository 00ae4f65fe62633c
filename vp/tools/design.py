"""Writes DESIGN.md from vp/design.in.md, the catalog, the modules of the properties, and the planted bugs:  python3 vp/tools/design.py"""
import ast, glob, json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, HERE)
from vp import catalog

ORACLE = {
    "C01": "the value itself after `ReadCif(str(file))`, and what `refcif` reads from the text written. Values are assembled from syntax fragments (delimiters, reserved words, protocol look-alikes, Unicode white space, very long lines), because uniformly random text hardly ever needs a particular delimiter.",
    "C02": "the model the text was made from. The emitter draws every free choice of the syntax; `refcif` must read the text as the model first.",
    "C03": "the model of blocks, frames, items and loops; the text is also read by `refcif`; and writing what was re-read has to give the same text.",
    "C04": "the length of every line written, and `refcif` and the package reading the data back.",
    "C05": "round trip, plus an independent folding/prefixing writer and reader with freely drawn break positions.",
    "C06": "differential: the Python scanner against the compiled one on the same text (same content or both refuse), the model for conformant texts, whole sequences of readings in one process, and texts large enough for buffer refills and memory growth. The worker notes each case first, so a crash is attributed.",
    "C07": "coherence of what was accepted (all values retrievable, rectangular loops, unique names, parents present, re-read as the same), the exception type of what was refused, a fixed file read afterwards, and a time limit per case.",
    "C08": "every text is made from a conformant one by one of about thirty defects that is certain by construction; the text without the defect must be accepted first.",
    "C09": "the content read from a plain string with the right grammar named.",
    "C10": "a model of a block (ordered items, loops, spelling, lock), compared after every step and with the text at the end.",
    "C11": "a table of rows; every row, packet and possible key lookup is compared after every change.",
    "C12": "a model tree of blocks, compared through all queries after every step and with the text at the end.",
    "C13": "each side has a model of its own after the copy.",
    "C14": "set-level model of strict and replace mode; the merged-in object must be unchanged; the text written agrees.",
    "C15": "`refcif` must read the same data from the text (safe_*), and for plain words the exact columns, delimiters and order the template asks for (layout_*).",
    "C16": "an evaluator of the expression tree the method was printed from; the printer draws layout and superfluous parentheses.",
    "C17": "an interpreter of the program tree; for methods over categories, the evaluator of C19.",
    "C18": "metamorphic: all layouts of a program give one syntax tree, whatever was parsed before; damage that is certain by construction (brackets, operands, stray tokens, reserved words for names) must be refused with a syntax error.",
    "C19": "an evaluator of the dictionary (values, aliases, methods, defaults, keys, links), each item asked for in a random order.",
    "C20": "a model of each rule; the results, `ValidationResult`, both reports, and, for validated blocks, whether each change is accepted, must say the same.",
    "C21": "a backtracking interpreter of the grammar gives the language, results, actions and the first text that cannot continue; the generator is run as a command, its parsers executed.",
    "C22": "a set of definitions edited alike; definitions, tree queries, written text and re-read dictionary compared after every step, copies too.",
    "C23": "the set of definitions that the import statements call for; merged, followed on demand and without imports.",
    "C24": "a report of `validate_cif.py` is parsed and compared with the model of C20 over the merged dictionaries.",
    "C32": "relational algebra on the tables that the data is written from (`catcon.tables`, `catcon.back_tables`).",
    "C31": "the document and the converted dictionary are computed from the definitions before any text is made of them; the document is split into its entries, the conversion read back and compared value by value.",
    "C30": "where the fault was put, and which tokens precede it, is known while the damaged text is written; the reported line, column and recent values are compared with it.",
    "C29": "the model of validity of C20 with the table of the attribute dictionary applied to each definition (`ddlmdict.Judge`).",
    "C28": "a model of each test that works on the generated definitions before any text is made of them (`ddl2.Judge`); what a dictionary says of each item is compared as well.",
    "C27": "the reports of the address and undefined behaviour sanitizers (with every allocation of the interpreter through malloc), the tokens that scanning each text once from its start gives, and the allocator's count of bytes in use.",
    "C26": "differential: each case of another property in two processes with different hash seeds, comparing everything the public functions return.",
    "C25": "the value is computed while its text is written; what has been looked at or derived from a default is also written out, read again and compared.",
}


def literal(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == name:
            return ast.literal_eval(n.value)
    return None


def main():
    out = []
    for p in catalog.PROPS:
        f = os.path.join(HERE, "vp", "props", p["module"] + ".py")
        if not os.path.exists(f):
            continue
        tree = ast.parse(open(f).read())
        subs = [n for n in ast.walk(tree) if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "Sub"]
        sizes = []
        for n in subs:
            k = dict((w.arg, ast.unparse(w.value)) for w in n.keywords)
            name = ast.unparse(n.args[0]).strip("'").replace("' + g.replace('.', '_')", "<grammar>")
            sizes.append("%s %s / %s" % (name, k.get("quick"), k.get("thorough")))
        rule, ass = literal(tree, "RULE"), literal(tree, "ASSUMPTIONS")
        out.append("### %s %s\n" % (p["pid"], p["line"]["title"]))
        out.append("*Generated:* %s\n" % rule)
        out.append("*Oracle:* %s\n" % ORACLE[p["pid"]])
        out.append("*Bounds:* %s.%s Shards and cases per shard, quick / thorough: %s.\n" % (p["line"]["quantifier"]["text"], (" " + "; ".join(ass) + ".") if ass else "", "; ".join(sizes)))
        out.append("*Beyond the tests:* %s.\n" % p["line"]["why_tests_cant"])
    seeds = []
    for d in ("seeded", "seeded_nw"):
        for m in sorted(glob.glob(os.path.join(HERE, d, "*", "meta.json"))):
            j = json.load(open(m))
            seeds.append("* %s `%s/%s` – %s; needs %s" % (j["property"], d, os.path.basename(os.path.dirname(m)), j["what_it_breaks"], j["needs"]))
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    text = open(os.path.join(HERE, "vp", "design.in.md")).read()
    text = text.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds)).replace("@@FIXES@@", str(len(set(k["commit"] for k in known if k["status"] == "fixed"))))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(text)


main()
