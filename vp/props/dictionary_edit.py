"""Editing DDLm dictionaries."""
import io
from vp import dicedit
from vp.core import Sub, Fail, expect, same

RULE = ("random DDLm dictionaries (nested and outside categories, save frames named otherwise than their definitions) under random histories of edits, each compared "
        "with a model of the definitions, the category tree, and the dictionary as written and re-read. Non-trivial: three accepted changes of two kinds.")
ASSUMPTIONS = ["attributes that name other items (keys, links, methods) are not rewritten by renaming", "del on a category (which takes the frames nested within) is not generated", "tables for dREL are those of the dictionary as it was read",
               "dictionaries have one Head category, which is not removed or renamed below itself"]


def load(text):
    from CifFile import CifDic, ReadCif
    return CifDic(ReadCif(io.StringIO(text), grammar="2.0"), grammar="2.0", do_minimum=True)


ATT = [("id", "_definition.id"), ("scope", "_definition.scope"), ("class", "_definition.class"), ("cat", "_name.category_id"), ("obj", "_name.object_id"), ("text", "_description.text")]


def sp(n, k):
    return [n, n.upper(), n.lower(), n][k % 4]


def definitions(dic, keys):
    return dict((k, dict((a, dic[k].get(t)) for a, t in ATT)) for k in keys)


def matches(dic, m, what):
    same(sorted(k.lower() for k in dic.keys()), sorted(m.d), "definitions, " + what)
    same(definitions(dic, m.d), m.d, "content of definitions, " + what)
    for n, k in enumerate(sorted(m.d)):
        expect(sp(k, n) in dic, "%s is not found, %s", sp(k, n), what)
        same(dic[sp(k, n)].get("_definition.id"), m.d[k]["id"], "definition found as %s, %s" % (sp(k, n), what))
    same(sorted(k.lower() for k in dic.get_categories()), sorted(m.cats()), "categories, " + what)
    head = m.head()[0]
    same(dic.get_root_category().lower(), head, "head category, " + what)
    for c in sorted(set(m.cats()) | set(v["cat"].lower() for v in m.d.values())):
        same(sorted(x.lower() for x in dic.ddlm_immediate_children(c.upper())), sorted(m.kids(c)), "children of %s, %s" % (c, what))
        same(sorted(x.lower() for x in dic.ddlm_all_children(c)), sorted(m.below(c)), "everything below %s, %s" % (c, what))
        items = [k for k in m.kids(c) if not m.iscat(k)]
        same(sorted(x.lower() for x in dic.names_in_cat(c)), sorted(items), "items of %s, %s" % (c, what))
        same(sorted(dic.names_in_cat(c, names_only=True)), sorted(m.d[k]["obj"] for k in items), "object names of %s, %s" % (c, what))
        same(sorted(x.lower() for x in dic.expand_category_opt([c])), sorted(k for k in m.below(c) if k in m.d and not m.iscat(k)) or ([c] if c not in m.d else []),
             "expansion of %s, %s" % (c, what)) if c in m.d else None
    same(sorted(x.lower() for x in dic.ddlm_danglers()), sorted(set(m.d) - set(m.below(head))), "unattached definitions, " + what)
    top = dic.get_roots()
    same([b.block_id for k, b in top], [m.title], "data block, " + what)
    same(dic.master_block["_dictionary.title"], m.title, "title, " + what)


def written(dic, m, what):
    text = str(dic)
    again = load(text)
    matches(again, m, "re-read, " + what + "\n" + text)
    at = dict((k, text.lower().index("\nsave_" + "%s\n" % b.lower())) for k, b in frames(text))
    same(sorted(at), sorted(m.d), "frames written, " + what + "\n" + text)
    for k in m.d:
        c = m.d[k]["cat"].lower()
        if c in m.d:
            expect(at[c] < at[k], "%s is written before its category, %s\n%s", k, what, text)
    return text


def frames(text):
    """(definition id, frame name) as written"""
    out, name = [], None
    for l in text.split("\n"):
        if l.lower().startswith("save_") and len(l.strip()) > 5:
            name = l.strip()[5:]
        w = l.split()
        if w and w[0].lower() == "_definition.id":
            out.append((w[1].strip("'\"").lower(), name))
    return out


def edit(dic, m, op):
    """(change to make, the model afterwards or None when it cannot be honoured, expected result)"""
    how, a, b, k = op
    ids, cats = sorted(m.d), sorted(m.cats())
    one = ids[a % len(ids)]
    new = m.clone()
    if how == "addcat":
        name = dicedit.NEWCATS[a % len(dicedit.NEWCATS)]
        up = ([None] + cats + ["nowhere"])[b % (len(cats) + 2)]
        dangle = k == 1
        if name.lower() in m.d or (up == "nowhere" and not dangle):
            new = None
        else:
            cat = m.d[m.head()[0]]["obj"] if up is None else up if dangle else m.d[up]["obj"]
            new.d[name.lower()] = {"id": name, "scope": "Category", "class": "Loop" if k != 2 else "Set", "cat": cat, "obj": name, "text": "No definition provided"}
        return (lambda: dic.add_category(name, up, is_loop=k != 2, allow_dangler=dangle)), new, name
    if how == "adddef":
        given = dicedit.NEWOBJS[a % len(dicedit.NEWOBJS)]
        cat = sp((cats + ["nowhere"])[b % (len(cats) + 1)], k)
        obj = given.split(".")[-1].strip("_")
        full = "_%s.%s" % (cat.lower(), obj)
        dangle = b % 3 == 0
        if full.lower() in m.d or (cat.lower() not in m.d and not dangle):
            new = None
        else:
            new.d[full.lower()] = {"id": full, "scope": None, "class": "Datum", "cat": cat, "obj": obj, "text": "Say what" if k else "PLEASE DEFINE ME"}
        return (lambda: dic.add_definition(given, cat, *(["Say what"] if k else []), allow_dangler=dangle)), new, None
    if how == "rencat":
        old = sp((cats + ["nowhere"])[a % (len(cats) + 1)], k)
        name = (dicedit.NEWCATS + ["C%d" % b])[b % (len(dicedit.NEWCATS) + 1)]
        if old.lower() not in m.d or name.lower() in m.d:
            new = None
        else:
            o = old.lower()
            moved = [x for x in m.kids(o) if not m.iscat(x)]
            become = ["_%s.%s" % (name.lower(), m.d[x]["obj"].lower()) for x in moved]
            if set(become) & set(m.d) or len(set(become)) < len(become):
                new = None
            else:
                for x in m.kids(o):
                    new.d[x]["cat"] = name
                    if x in moved:
                        new.move_id(x, "_%s.%s" % (name, m.d[x]["obj"]))
                new.d[o]["obj"] = name
                new.move_id(o, name)
        return (lambda: dic.change_category_name(old, name)), new, None
    if how == "move":
        cat = sp((cats + ["nowhere"])[b % (len(cats) + 1)], k)
        me = m.d[one]
        res = sp(one, k)
        if me["class"] == "Head":
            return None
        if me["cat"].lower() == cat.lower() or cat.lower() not in m.d:
            pass                               # nothing happens
        elif m.iscat(one):
            if cat.lower() in m.below(one):
                new = None
            else:
                new.d[one]["cat"] = cat
        else:
            full = "_%s.%s" % (cat, me["obj"])
            if full.lower() in m.d:
                new = None
            else:
                new.d[one]["cat"] = cat
                new.move_id(one, full)
                res = full
        return (lambda: dic.change_category(sp(one, k), cat)), new, res
    if how == "name":
        items = [x for x in ids if not m.iscat(x)]
        if not items:
            return None
        one = items[a % len(items)]
        obj = ["Other", "id", "q_1", "Label", m.d[one]["obj"]][b % 5]
        full = "_%s.%s" % (m.d[one]["cat"], obj)
        if full.lower() in m.d:
            new = None
        else:
            new.d[one]["obj"] = obj
            new.move_id(one, full)
        return (lambda: dic.change_name(sp(one, k), obj)), new, full
    if how == "title":
        if a % 3 or m.title == "Other%d" % b:
            return None
        new.title = "Other%d" % b
        return (lambda: dic.change_name(m.title, new.title)), new, new.title
    if how in ("remove", "del"):
        if m.d[one]["class"] == "Head" or (m.iscat(one) and (how == "del" or b % 3)):
            return None
        gone = set(m.below(one)) if how == "remove" and m.iscat(one) else set([one])
        new.d = dict((x, v) for x, v in m.d.items() if x not in gone)
        if how == "remove":
            return (lambda: dic.remove_definition(sp(one, k))), new, None

        def drop():
            del dic[sp(one, k)]
        return drop, new, None
    if how == "set":
        from CifFile import CifBlock
        f = {"id": "_%s.%s" % (["Set", "alpha", "x"][a % 3], ["One", "id", "two"][b % 3]), "scope": "Item", "class": "Datum", "cat": ["Set", "alpha", "x"][a % 3], "obj": ["One", "id", "two"][b % 3], "text": "put"}
        if f["id"].lower() in m.d:
            return None
        blk = CifBlock()
        for x, t in ATT:
            blk[t] = f[x]
        new.d[f["id"].lower()] = f

        def put():
            if k % 2:
                dic.NewBlock(f["id"], blk, parent=m.title)
            else:
                dic[f["id"] if k else f["id"].upper()] = blk
        return put, new, None
    if how == "rename":
        if m.iscat(one):
            return None
        full = m.d[one]["id"] + "_r"
        if full.lower() in m.d:
            return None
        new.d[one]["obj"] += "_r"
        new.move_id(one, full)

        def rename():
            dic.rename(sp(one, k), full, blockname_as_well=True)
            dic[full].overwrite = True
            dic[full]["_definition.id"] = full
            dic[full]["_name.object_id"] += "_r"
        return rename, new, None
    if how == "text":
        new.d[one]["text"] = "Edited %d" % b

        def change():
            dic[sp(one, k)].overwrite = True
            dic[sp(one, k)]["_description.text"] = "Edited %d" % b
        return change, new, None
    return None


def check(case, rec):
    from CifFile import StarError
    text = dicedit.dictionary(case["defs"])
    dic = load(text)
    m = dicedit.Model(case["defs"])
    matches(dic, m, "as read\n" + text)
    trace, kinds, done, kept = [], set(), 0, []
    for op in case["ops"]:
        what = "after %r\n%s" % (trace + [op], text)
        if op[0] == "reread":
            dic = load(written(dic, m, what))
            trace.append(op)
            continue
        if op[0] == "copy":
            kept.append((dic, m.clone(), what))
            dic = dic.copy()
            trace.append(op)
            continue
        e = edit(dic, m, op)
        if e is None:
            continue
        change, new, result = e
        trace.append(op)
        try:
            r = change()
        except Exception as x:
            expect(new is None, "refused (%s: %s), %s", type(x).__name__, x, what)
            rec.label("refused")
        else:
            expect(new is not None, "accepted, %s", what)
            if result is not None:
                same(r.lower(), result.lower(), "handle returned, " + what)
            if new.d != m.d or new.title != m.title:
                if op[0] in ("addcat", "rencat", "move", "name", "title"):
                    x = sorted(new.d)[op[1] % len(new.d)]
                    try:
                        dic[x]["_description.text"] = "overwritten"
                    except StarError:
                        pass
                    else:
                        raise Fail("%s is left unlocked, %s" % (x, what))
                kinds.add(op[0])
                done += 1
            m = new
        matches(dic, m, what)
    written(dic, m, "at the end of %r\n%s" % (trace, text))
    for d, km, w in kept:
        matches(d, km, "copied earlier " + w)
        written(d, km, "copied earlier " + w)
    rec.nontrivial(done >= 3 and len(kinds) >= 2)
    rec.label(*kinds)


SUBS = [Sub("edits", dicedit.cases, check, quick=(8, 150), thorough=(8, 3000))]
