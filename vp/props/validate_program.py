"""The validate_cif program."""
import contextlib, io, os, re, runpy, shutil, sys, tempfile, html
from hypothesis import strategies as st
from vp import ddl1
from vp.core import Sub, Fail, expect, same
from vp.ddl1 import G
from vp.yapps import source

RULE = ("random DDL1 dictionaries spread over one or two files, and data files, given to validate_cif.py by file name and directory or by name and version in a registry, "
        "with text or HTML output; the report is taken apart and compared with a model of validity. Non-trivial: a problem of some kind, and a valid block or a second dictionary.")
ASSUMPTIONS = ["dictionaries given by file name have no definition in common (overlaying definitions is not implemented)", "nothing is fetched from the network: registries and dictionaries are file URLs"]

TEXTS = {
    "validate_item_type": "The following data items had badly formed values",
    "validate_item_esd": "The following data items should not have esds appended",
    "validate_enum_range": "The following data items have values outside permitted range",
    "validate_item_enum": "The following data items have values outside permitted set",
    "validate_looping": "The following data items violate looping constraints",
    "validate_loop_membership": "The following looped data names are of different categories to the first looped data name",
    "validate_loop_key": "A required dataname for this category is missing from the loop containing the dataname",
    "validate_loop_references": "A dataname required by the item is missing from the loop",
    "validate_parent": "A parent dataname is missing or contains different values",
    "validate_child": "A child dataname contains different values to the parent",
    "validate_exclusion": "Both dataname and exclusive alternates or aliases are present in data block",
    "validate_uniqueness": "One or more data items do not take unique values",
}


@st.composite
def cases(draw):
    case = draw(ddl1.cases())
    d = G(draw)
    case["files"] = d.i(1, 2)
    case["part"] = [d.i(0, case["files"] - 1) for _ in case["items"] + case["cats"]]
    case["way"] = d.pick(["file", "file", "registry"])
    case["html"] = d.some(2)
    case["place"] = d.pick(["here", "dir", "dir"])
    case["long"] = d.some(2)
    case["store"] = d.some(2)
    case["stale"] = d.some(2)
    pick = lambda: d.pick(["2.1", "2.10", "2", "2.1.1", "1.2", "12.1", "2.0", "2.2", ".", "?"])
    case["versions"] = []       # of each dictionary, the one wanted first, with the order of the rows
    for k in range(case["files"]):
        v = list(dict.fromkeys(["2.1"] + [pick() for _ in range(d.i(0, 4))]))
        case["versions"].append([v, draw(st.permutations(range(len(v))))])
    # in a registry the second dictionary takes the place of definitions in the first
    case["old"] = [d.some(4) for _ in case["items"]] if case["way"] == "registry" and case["files"] == 2 else []
    return case


def write(path, text):
    with open(path, "w", encoding="utf8") as f:
        f.write(text)


def dictionaries(case):
    head, *defs = ddl1.dictionary_parts(case)
    out = [[head] for _ in range(case["files"])]
    for n, t in enumerate(defs):
        out[case["part"][n % len(case["part"])]].append(t)
    names = [it["name"][1:] for it in case["items"] if not it.get("twin")]
    for n, old in zip(names, case["old"]):
        if old and any(t.startswith("data_%s\n" % n) and "loop_\n _name" not in t for t in out[1]):
            out[0].append("data_%s\n_name '_%s'\n_category other\n_type numb\n_list no\n_definition 'before'\n" % (n, n))
    return ["\n".join(x) for x in out]


def program(args, cwd):
    """(exit status, output)"""
    script = os.path.join(source(), "Programs", "validate_cif.py")
    old, was, out = sys.argv, os.getcwd(), io.StringIO()
    sys.argv = [script] + args
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                runpy.run_path(script, run_name="__main__")
                rc = 0
            except SystemExit as e:
                rc = e.code or 0
    finally:
        sys.argv = old
        os.chdir(was)
    return rc, out.getvalue()


def sections(text):
    """test -> rows of a block's part of the report"""
    marks = []
    for f, t in TEXTS.items():
        for m in re.finditer(re.sub(" +", r"\\s+", re.escape(t).replace("\\ ", " ")) + ":", text):
            marks.append((m.start(), m.end(), f))
    marks.sort()
    out = {}
    for n, (s, e, f) in enumerate(marks):
        expect(f not in out, "%s is reported twice:\n%s", f, text)
        out[f] = text[e:marks[n + 1][0] if n + 1 < len(marks) else len(text)]
    return out, text[:marks[0][0]] if marks else text


def take_apart(text, use_html):
    """{block: (verdict, names not found, {(item, test): rest of the row})}"""
    parts = re.split(r"<h3>Block '(.*?)' is (VALID|INVALID)</h3>" if use_html else r"(?m)^ Block '(.*?)' is (VALID|INVALID)$", text)
    out = {}
    for k in range(1, len(parts), 3):
        tests, head = sections(parts[k + 2])
        found = {}
        for f, t in tests.items():
            if use_html:
                rows = re.findall(r"<tr><td><tt>(.*?)</tt></td>(.*?)</tr>", t, re.S)
            else:
                rows = [(l.split()[0], l) for l in t.split("\n") if l.strip() and not l.startswith("Item name")]
            for n, rest in rows:
                expect((n.lower(), f) not in found, "%s is reported twice for %s:\n%s", f, n, text)
                found[n.lower(), f] = rest
        if use_html:
            unknown = re.findall(r"<tr><td>(_.*?)</td></tr>", head)
        else:
            unknown = [l.strip() for l in head.split("\n") if l.startswith("_")]
        expect(parts[k].lower() not in out, "block %s is reported twice\n%s", parts[k], text)
        out[parts[k].lower()] = (parts[k + 1], sorted(n.lower() for n in unknown), found)
    return out, parts[0]


def check(case, rec):
    d = tempfile.mkdtemp(prefix="vp_val.")
    try:
        dics = dictionaries(case)
        show = "\n" + "\n".join("--- dictionary %d\n%s" % (k, t) for k, t in enumerate(dics)) + "\n--- data\n%s" % ddl1.data(case)
        store = d if case["place"] == "here" else os.path.join(d, "my dics")
        os.makedirs(store, exist_ok=True)
        names = ["core.dic", "more dic.dic"][:len(dics)]
        write(os.path.join(d, "data.cif"), ddl1.data(case))
        args, shown = [], []
        if case["way"] == "file":
            if case["place"] != "here":
                args += ["--dict_dir=" + store if case["long"] else "-d", store][:1 if case["long"] else 2]
            for n, t in zip(names, dics):
                write(os.path.join(store, n), t)
                args += ["-f", n]
                shown.append(n)
        else:
            remote = os.path.join(d, "remote")
            os.makedirs(remote)
            from urllib.request import pathname2url
            reg = "data_validation_dictionaries\nloop_\n_cifdic_dictionary.version\n_cifdic_dictionary.name\n_cifdic_dictionary.URL\n"
            for (n, t), (vs, order) in zip(zip(names, dics), case["versions"]):
                write(os.path.join(remote, n), t)
                url = "file://" + pathname2url(os.path.join(remote, n))
                for v in [vs[o] for o in order]:
                    reg += "%s '%s' %s\n" % (v, n, url if v == "2.1" else url + "/absent")
                reg += "2.1 'other %s' x\n2.1 '%s.old' x\n" % (n, n)
                shown.append(url)
                args += ["-n", n, "-u", "2.1"]
                if case["stale"] and store != d:
                    write(os.path.join(store, n), "data_on_this_dictionary\n_dictionary_name stale\n_dictionary_version 0\n")
            write(os.path.join(remote, "cifdic.register"), reg)
            args += ["-r", "file://" + pathname2url(os.path.join(remote, "cifdic.register")), "-d", store]
        if case["html"]:
            args.append("-m")
        args.append("data.cif")
        rc, text = program(args, d)
        show = " ".join(args) + "\n" + text + show
        same(rc, 0, "exit status, " + show)
        report, head = take_apart(text, case["html"])
        for n in shown:
            expect((("<li>" if case["html"] else "    ") + (n if case["way"] != "file" else os.path.join(store if case["place"] != "here" else ".", n))) in head.split("Validation performed")[-1],
                   "the report does not name dictionary %s\n%s", n, show)
        expect("data.cif" in head, "the report does not name the file\n%s", show)
        expect(not case["html"] or (head.count("<html>") == 1 and text.rstrip().endswith("</body></html>")), "not a page\n%s", show)
        j = ddl1.Judge(case)
        verdicts = set()
        same(sorted(report), sorted(b["name"].lower() for b in case["blocks"]), "blocks reported, " + show)
        for b in case["blocks"]:
            bad, open_, unknown = j.judge(b)
            verdict, names, found = report[b["name"].lower()]
            verdicts.add(verdict)
            same(verdict, "INVALID" if bad else "VALID", "block %s, %s" % (b["name"], show))
            same(names, unknown, "names not in the dictionary, block %s, %s" % (b["name"], show))
            extra = sorted(x for x in set(found) - set(bad) if x not in open_)
            lost = sorted(x for x in set(bad) - set(found) if x not in open_)
            expect(not extra and not lost, "block %s: wrongly reported %r, not reported %r, %s", b["name"], extra, lost, show)
            for k, vs in bad.items():
                for v in vs or []:
                    expect(v in found.get(k, v).replace("\\", ""), "block %s: value %r is not shown for %s of %s, %s", b["name"], v, k[1], k[0], show)
        if case["way"] == "registry":
            for n, t in zip(shown, dics):
                p = os.path.join(store, os.path.basename(n).replace("%20", " "))
                same(open(p).read(), t, "dictionary stored as %s, %s" % (p, show))
        rec.label(case["way"], "html" if case["html"] else "text", *verdicts)
        rec.nontrivial("INVALID" in verdicts and (len(verdicts) == 2 or len(dics) == 2))
    finally:
        shutil.rmtree(d)


SUBS = [Sub("reports", cases, check, quick=(8, 120), thorough=(8, 2000))]
