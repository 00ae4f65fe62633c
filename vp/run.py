"""Driver: build /repo's working tree, run every shard of a property's checks,
write evidence, print VIOLATION / KNOWN-FINDING lines.

usage: run.py PROP [quick|thorough]
       run.py --replay FILE
exit 0: held on everything explored; 1: violation; 2: the check itself failed.
"""
import hashlib, importlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from vp import build as B

from vp.catalog import PROPS
MODULE = dict((p["pid"], p["module"]) for p in PROPS)
WORKER = os.path.join(HERE, "vp", "worker.py")
PY = B.PY


def seed_for(base, *parts):
    h = hashlib.sha256(("/".join([str(base)] + [str(p) for p in parts])).encode()).hexdigest()
    return int(h[:12], 16)


def spawn(args, timeout, cwd):
    p = subprocess.Popen([PY, "-W", "ignore", WORKER] + args, cwd=cwd, env=B.env(),
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        _, err = p.communicate(timeout=timeout)
        return p.returncode, err.decode("utf8", "replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, "", True


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def run_shard(job):
    scratch, prop, sub, shard, nex, seed, budget, out = job
    rc, err, timed = spawn([scratch, MODULE[prop], sub, str(shard), str(nex), str(seed), str(budget), out],
                           budget + 150, scratch)
    res = None
    if os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
    cur = None
    if os.path.exists(out + ".cur"):
        try:
            with open(out + ".cur") as f:
                cur = json.load(f)
        except ValueError:
            pass
    return {"sub": sub, "shard": shard, "rc": rc, "err": err, "timed": timed,
            "res": res, "cur": cur}


def save_replay(prop, sub, case, msg, tier, seed):
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, sub))
    with open(p, "w") as f:
        json.dump({"property": prop, "sub": sub, "module": MODULE[prop], "case": case, "message": msg,
                   "tier": tier, "seed": seed}, f, indent=1)
    return p


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    module = MODULE[prop]
    mod = importlib.import_module("vp.props." + module)
    known = [k for k in load_known() if k["property"] == prop and k["status"] == "known"]
    only = os.environ.get("VP_ONLY")
    scratch = None
    try:
        scratch = B.build()
        outdir = os.path.join(scratch, "out")
        os.mkdir(outdir)
        total_budget = 330.0 if tier == "quick" else 560.0
        end = time.time() + total_budget
        jobs = []
        for s in mod.SUBS:
            if only and s.name not in only.split(","):
                continue
            shards, nex = getattr(s, tier)
            for i in range(shards):
                out = os.path.join(outdir, "%s.%d.json" % (s.name, i))
                jobs.append([scratch, prop, s.name, i, nex, seed_for(seed, module, s.name, i, tier), None, out])
        # first shards of every sub first, so that a breach is met early
        jobs.sort(key=lambda j: j[3])
        ncpu = min(8, os.cpu_count() or 1)
        results = []

        def go(job):
            left = end - time.time()
            if left < 5:
                return {"sub": job[2], "shard": job[3], "skipped": True}
            job[6] = left
            return run_shard(job)
        with ThreadPoolExecutor(ncpu) as ex:
            results = list(ex.map(go, jobs))

        evals = discards = 0
        nt, labels, samples, persub = set(), {}, [], {}
        violations, harness, unfinished, seen_known = [], [], [], {}
        for r in results:
            if r.get("skipped"):
                unfinished.append("%s/%d" % (r["sub"], r["shard"]))
                continue
            res = r["res"]
            if res is None:
                if r["timed"]:
                    violations.append((r["sub"], r["cur"], "no answer: the case never returned"))
                elif r["rc"] is not None and r["rc"] < 0:
                    violations.append((r["sub"], r["cur"], "the process died with signal %d" % -r["rc"]))
                else:
                    harness.append("%s/%s: exit %s\n%s" % (r["sub"], r["shard"], r["rc"], r["err"][-3000:]))
                continue
            if res["stopped"] and not res["failure"]:
                unfinished.append("%s/%d" % (r["sub"], r["shard"]))
            evals += res["evals"]
            discards += res["discards"]
            ps = persub.setdefault(r["sub"], {"evaluations": 0, "nontrivial": set(), "labels": {}})
            ps["evaluations"] += res["evals"]
            ps["nontrivial"].update(res["nt"])
            nt.update(r["sub"] + ":" + h for h in res["nt"])
            for k, v in res["labels"].items():
                ps["labels"][k] = ps["labels"].get(k, 0) + v
            if r["shard"] == 0:
                samples += [{"sub": r["sub"], "case": c} for c in res["samples"][:2]]
            for k, v in res["known"].items():
                seen_known[k] = seen_known.get(k, 0) + v
            if res["failure"]:
                violations.append((r["sub"], res["failure"]["case"], res["failure"]["msg"]))
        # known findings: confirm each listed one with its saved input
        known_lines = []
        for k in known:
            sub, case = k["sub"], k["case"]
            if only and sub not in only.split(","):
                continue
            cf = os.path.join(outdir, "known.json")
            of = os.path.join(outdir, "known.out.json")
            with open(cf, "w") as f:
                json.dump({"sub": sub, "case": case}, f)
            rc, err, timed = spawn([scratch, MODULE[prop], sub, "replay", cf, of], 200, scratch)
            if rc == 0 and os.path.exists(of):
                with open(of) as f:
                    res = json.load(f)
                os.unlink(of)
                if k["id"] in res["known"]:
                    known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        for ps in persub.values():
            ps["nontrivial"] = len(ps["nontrivial"])
        ev = {"property": prop, "tier": tier, "seed": seed,
              "level": "exploration",
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(nt),
                           "rule": mod.RULE, "samples": samples[:12],
                           "discarded": discards, "per_check": persub,
                           "unfinished_shards": unfinished,
                           "known_findings_seen": seen_known},
              "assumptions": getattr(mod, "ASSUMPTIONS", []),
              "wall_s": round(time.time() - t0, 1),
              "violations": len(violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for l in known_lines:
            print(l)
        print("%s %s: %d cases, %d distinct non-trivial, %d discarded, %d unfinished shards, %.1f s"
              % (prop, tier, evals, len(nt), discards, len(unfinished), time.time() - t0))
        if violations:
            best = {}
            for sub, case, msg in violations:
                if sub not in best or len(json.dumps(case)) < len(json.dumps(best[sub][0])):
                    best[sub] = (case, msg)
            for sub, (case, msg) in best.items():
                p = save_replay(prop, sub, case, msg, tier, seed)
                print("--- %s/%s\ncase: %s\n%s" % (prop, sub, json.dumps(case)[:1500], msg[:2500]))
                print("VIOLATION property=%s replay=%s" % (prop, p))
            return 1
        if harness:
            print("HARNESS ERROR\n" + "\n".join(harness)[:6000])
            return 2
        if evals == 0:
            print("HARNESS ERROR: nothing was evaluated")
            return 2
        return 0
    except B.BuildError as e:
        print("BUILD ERROR", e)
        return 2
    finally:
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)


def main_replay(path):
    path = os.path.abspath(path)
    with open(path) as f:
        d = json.load(f)
    scratch = B.build()
    try:
        of = os.path.join(scratch, "r.json")
        rc, err, timed = spawn([scratch, MODULE[d["property"]], d["sub"], "replay", path, of], 400, scratch)
        if os.path.exists(of):
            with open(of) as f:
                res = json.load(f)
            if res["failure"]:
                print(res["failure"]["msg"])
                print("VIOLATION property=%s replay=%s" % (d["property"], path))
                return 1
            print("replay passes", res["known"] or "")
            return 0
        if timed or (rc is not None and rc < 0):
            print("no result (rc %s)" % rc)
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
        print("HARNESS ERROR", err)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(main_replay(sys.argv[2]))
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
