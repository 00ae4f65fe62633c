"""Author a planted bug: seed(id, property, [(file, old, new), ...], needs, breaks, demo_python)"""
import json, os, shutil, subprocess, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def seed(id, prop, edits, needs, breaks, demo):
    # bugs in noweb sources cannot be planted officially; kept apart for our own testing
    d = os.path.join(ROOT, "seeded_nw" if any(e[0].endswith(".nw") for e in edits) else "seeded", id)
    os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix="vp_seed_")
    try:
        subprocess.check_call(["git", "clone", "-q", os.environ.get("SEED_REPO", "/repo"), wt + "/r"])
        for f, old, new in edits:
            p = os.path.join(wt, "r", f)
            s = open(p, newline="").read()
            if s.count(old) != 1:
                raise SystemExit("%s: %s: %d matches of %r" % (id, f, s.count(old), old))
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=wt + "/r", stdout=subprocess.PIPE, check=True).stdout
    finally:
        shutil.rmtree(wt)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
