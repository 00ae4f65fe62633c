"""Run one shard of one generated check in this process.

usage: worker.py SCRATCH PROP SUB SHARD NEX SEED BUDGET OUT        (search)
       worker.py SCRATCH PROP SUB replay CASEFILE OUT              (one saved case)
"""
import hashlib, json, os, signal, sys, time, traceback

VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_LIMIT = 90        # CPU seconds; ordinary cases take milliseconds
SHRINK_BUDGET = 45


class CaseTimeout(Exception):
    pass


class StopSearch(KeyboardInterrupt):
    pass


class Null(object):
    encoding = "utf-8"
    def write(self, s):
        return len(s)
    def flush(self):
        pass
    def isatty(self):
        return False


def setup(scratch):
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(scratch, "pkg"))
    sys.path.append(VT_SITE)
    sys.dont_write_bytecode = True
    real_err = os.fdopen(os.dup(2), "w")
    if not os.environ.get("VP_NOISY"):
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        sys.stdout = Null()
        sys.stderr = Null()
    sys.setrecursionlimit(3000)
    import warnings
    warnings.simplefilter("ignore")
    import CifFile
    assert os.path.realpath(CifFile.__file__).startswith(os.path.realpath(scratch)), CifFile.__file__
    return real_err


def load(prop, sub):
    import importlib
    mod = importlib.import_module("vp.props." + prop)
    for s in mod.SUBS:
        if s.name == sub:
            return mod, s
    raise SystemExit("no sub " + sub)


def on_alarm(sig, frame):
    raise CaseTimeout("no result after %d s of CPU time" % CASE_CPU_LIMIT)


def describe(e):
    from vp.core import Fail
    if isinstance(e, Fail):
        return str(e)
    return "unexpected %s" % "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])


class Runner(object):
    def __init__(self, sub, out):
        self.sub, self.out = sub, out
        self.evals = self.discards = 0
        self.nt = set()
        self.labels = {}
        self.samples = []
        self.failure = None
        self.known = {}
        self.first_fail_at = None
        self.deadline = None
        self.curfile = out + ".cur"

    def one(self, case):
        from vp import core
        now = time.time()
        if self.first_fail_at and now - self.first_fail_at > SHRINK_BUDGET:
            raise StopSearch()
        if self.deadline and now > self.deadline:
            raise StopSearch()
        text = core.canon(case)
        case = json.loads(text)       # a private copy: the oracle may mutate it
        with open(self.curfile, "w") as f:
            f.write(text)
        rec = core.Rec()
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
        try:
            self.sub.check(case, rec)
        except core.Discard:
            self.discards += 1
            return
        except core.Known as k:
            self.known[k.fid] = self.known.get(k.fid, 0) + 1
            self.evals += 1
            return
        except Exception as e:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            if self.first_fail_at is None:
                self.first_fail_at = time.time()
            if self.failure is None or len(text) < self.failure["len"]:
                self.failure = {"case": json.loads(text), "msg": describe(e)[:6000],
                                "len": len(text)}
            raise AssertionError("property violated")
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        self.evals += 1
        for l in rec.labels:
            self.labels[l] = self.labels.get(l, 0) + 1
        if rec.nt:
            h = hashlib.sha1(text.encode()).hexdigest()[:14]
            if h not in self.nt:
                self.nt.add(h)
                n = len(self.nt)
                if n in (3, 20, 77) and len(text) < 3000:
                    self.samples.append(json.loads(text))

    def result(self, **kw):
        r = {"evals": self.evals, "discards": self.discards, "nt": sorted(self.nt),
             "labels": self.labels, "samples": self.samples, "failure": self.failure,
             "known": self.known}
        r.update(kw)
        tmp = self.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(r, f)
        os.rename(tmp, self.out)


def search(scratch, prop, subname, shard, nex, seed, budget, out):
    mod, sub = load(prop, subname)
    import hypothesis
    from hypothesis import settings, Phase, HealthCheck, given
    run = Runner(sub, out)
    run.deadline = time.time() + budget
    stopped = False
    if shard == 0:
        for case in sub.fixed:
            try:
                run.one(case)
            except AssertionError:
                run.result(stopped=False)
                return

    @hypothesis.seed(seed)
    @settings(max_examples=nex, database=None, deadline=None, derandomize=False,
              phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), print_blob=False)
    @given(sub.strategy())
    def test(case):
        run.one(case)

    try:
        test()
    except StopSearch:
        stopped = True
    except AssertionError:
        if run.failure is None:
            raise
    except hypothesis.errors.Flaky:
        if run.failure is None:
            raise
    run.result(stopped=stopped)


def replay(scratch, prop, subname, casefile, out):
    mod, sub = load(prop, subname)
    with open(casefile) as f:
        d = json.load(f)
    case = d["case"] if isinstance(d, dict) and "case" in d and "sub" in d else d
    run = Runner(sub, out)
    try:
        run.one(case)
    except AssertionError:
        pass
    run.result(stopped=False)


def watch(folder):
    """note the lines of the package that run (VP_COV, for our own use)"""
    seen, m = set(), sys.monitoring
    m.use_tool_id(3, "vp")

    def line(code, n):
        if "/CifFile/" in code.co_filename or "Programs" in code.co_filename or "yapps3" in code.co_filename:
            seen.add((code.co_filename.rsplit("/CifFile/", 1)[-1].rsplit("/src/", 1)[-1], n))
        return m.DISABLE
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)

    def done():
        with open(os.path.join(folder, "%d.json" % os.getpid()), "w") as f:
            json.dump(sorted(seen), f)
    return done


def main():
    a = sys.argv[1:]
    scratch, prop, subname = a[:3]
    real_err = setup(scratch)
    done = watch(os.environ["VP_COV"]) if os.environ.get("VP_COV") else None
    signal.signal(signal.SIGVTALRM, on_alarm)
    try:
        if a[3] == "replay":
            replay(scratch, prop, subname, a[4], a[5])
        else:
            search(scratch, prop, subname, int(a[3]), int(a[4]), int(a[5]), float(a[6]), a[7])
    except BaseException:
        real_err.write(traceback.format_exc())
        real_err.flush()
        os._exit(3)
    if done:
        done()
    real_err.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
