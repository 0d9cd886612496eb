"""Drives one property: workers generate cases (Hypothesis), failures are shrunk, replayed, reported.

  python3-vt -m vf.runner C01            run (VERIF_SEED, VERIF_TIER)
  python3-vt -m vf.runner --replay FILE  run one saved case
"""
import hashlib, importlib, json, multiprocessing as mp, os, signal, sys, time, traceback, warnings
warnings.filterwarnings("ignore")
from . import build, cli
from .core import SCALE, Inconclusive, Timeout, Violation

ROOT = build.ROOT
KNOWN = os.path.join(ROOT, "known_findings.json")
NW = int(os.environ.get("VF_WORKERS", "8"))


def load(pid):
    return importlib.import_module("props.%s" % pid.lower()).PROP


def known(pid):
    try:
        fs = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [f for f in fs.get("findings", []) if f["property"] == pid]


def matches(f, facet, case, v):
    """A finding is identified by facet, signature and, if given, by exact values of case fields."""
    if f.get("facet") not in (None, facet) or f.get("sig") != v.sig or not v.sig:
        return False
    return all(case.get(k) == x for k, x in f.get("case", {}).items())


def jdump(c):
    return json.dumps(c, sort_keys=True)


def execute(facet, case):
    """-> (labels, None) or (None, Violation). Unexpected exceptions propagate."""
    return facet.run(case)


class Stop(BaseException):
    """Ends the generation of cases (not an Exception, which would be taken for a failing case)."""


def bounded(run, case, cpu):
    """Run a case with a bound on the CPU time which the oracle may take (what is tested has its own)."""
    def stop(*_):
        from . import drv
        drv.stop_all()
        raise Timeout("no judgement within %d s" % cpu)
    signal.signal(signal.SIGVTALRM, stop)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu * SCALE[0])
    try:
        return run(case)
    except (ValueError, KeyError, IndexError, TypeError) as e:
        # what was printed is nothing that could be judged (or the oracle is wrong, then this has to be seen too)
        raise Violation("not to be understood: %s" % traceback.format_exc()[-600:], "understood") from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class Worker:
    def __init__(self, prop, tier, seed, w, nw, deadline, flag):
        self.prop, self.tier, self.seed, self.w, self.nw = prop, tier, seed, w, nw
        self.deadline, self.flag = deadline, flag
        self.stats = {"evals": 0, "nontrivial": set(), "labels": {}, "samples": [], "inconclusive": 0,
                      "truncated": 0, "known": {}, "errors": [], "facet_evals": {}, "slow": {}}
        self.fail = None
        self.known = known(prop.id)

    def one(self, facet, case):
        """Run a case and account for it; True if it is a (new) violation."""
        st = self.stats
        st["evals"] += 1
        st["facet_evals"][facet.name] = st["facet_evals"].get(facet.name, 0) + 1
        try:
            labels = bounded(facet.run, case, 60 if self.tier == "quick" else 300) or []
        except Inconclusive as e:
            if isinstance(e, Timeout):
                st["slow"].setdefault(facet.name, []).append(case)
            st["inconclusive"] += 1
            st["labels"][facet.name + ":inconclusive"] = st["labels"].get(facet.name + ":inconclusive", 0) + 1
            return False
        except Violation as v:
            for f in self.known:
                if matches(f, facet.name, case, v):
                    st["known"][f["id"]] = st["known"].get(f["id"], 0) + 1
                    return False
            size = len(jdump(case))
            if self.fail is None or size < self.fail[0]:
                self.fail = (size, facet.name, case, v.msg, v.sig)
            return True
        for l in labels:
            k = facet.name + ":" + l
            st["labels"][k] = st["labels"].get(k, 0) + 1
        if "nontrivial" in labels:
            h = hashlib.sha1((facet.name + jdump(case)).encode()).hexdigest()[:16]
            if h not in st["nontrivial"]:
                st["nontrivial"].add(h)
                if len([1 for s in st["samples"] if s["facet"] == facet.name]) < 2:
                    st["samples"].append({"facet": facet.name, "case": case, "labels": labels})
        return False

    def hanging(self, facet):
        """Enough requests went unanswered for a judgement, and more would only take time."""
        n, all = len(self.stats["slow"].get(facet.name, ())), self.stats["facet_evals"].get(facet.name, 0)
        return n >= 1 if facet.slow == 0 else n >= 3 and n > all * max(0.5, facet.slow)

    def run_enum(self, facet):
        cases = facet.enum(self.tier)
        for i, case in enumerate(cases):
            if i % self.nw != self.w:
                continue
            if self.flag.value or time.time() > self.deadline:
                self.stats["truncated"] += 1
                continue
            if self.one(facet, case):
                self.flag.value = 1
                return
            if self.hanging(facet):
                self.stats["truncated"] += 1
                return

    def run_random(self, facet):
        from hypothesis import given, settings, seed, HealthCheck, Phase
        total = facet.quick if self.tier == "quick" else facet.thorough
        n = total // self.nw + (1 if self.w < total % self.nw else 0)
        if not n:
            return
        state = {"failed_at": None, "runs": 0, "bad": {}, "good": set()}
        budget = 25 if self.tier == "quick" else 120

        def body(case):
            k = jdump(case)
            if k in state["bad"]:
                raise AssertionError("x")
            if state["failed_at"] is None:
                if self.flag.value or time.time() > self.deadline or self.hanging(facet):
                    raise Stop
                state["runs"] += 1
            else:
                if k in state["good"] or time.time() > state["failed_at"] + budget:
                    return
            if self.one(facet, case):
                if state["failed_at"] is None:
                    state["failed_at"] = time.time()
                    self.flag.value = 1
                state["bad"][k] = 1
                raise AssertionError("x")
            if state["failed_at"] is not None:
                state["good"].add(k)
        s = int(hashlib.sha256(("%d/%s/%s/%d" % (self.seed, self.prop.id, facet.name, self.w)).encode()).hexdigest()[:12], 16)
        t = seed(s)(settings(max_examples=n, database=None, deadline=None, print_blob=False,
                             suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                             phases=[Phase.generate, Phase.shrink])(given(facet.strategy())(body)))
        try:
            t()
        except Stop:
            self.stats["truncated"] += max(1, n - state["runs"])
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            if self.fail is None:
                raise


def worker(pid, tier, seed, w, nw, deadline, flag, q):
    devnull = os.open(os.devnull, os.O_WRONLY)
    try:
        prop = load(pid)
        W = Worker(prop, tier, seed, w, nw, deadline, flag)
        times = {}
        try:
            for i, facet in enumerate(prop.facets):
                t0 = time.time()
                W.deadline = t0 + max(0, deadline - t0) / (len(prop.facets) - i)  # what is left, shared
                if facet.enum:
                    W.run_enum(facet)
                else:
                    W.run_random(facet)
                times[facet.name] = round(time.time() - t0, 1)
                if W.fail:
                    break
        except BaseException:
            W.stats["errors"].append(traceback.format_exc())
            flag.value = 1
        W.stats["nontrivial"] = list(W.stats["nontrivial"])
        W.stats["times"] = times
        q.put((w, W.stats, W.fail))
    except BaseException:
        q.put((w, {"errors": [traceback.format_exc()]}, None))
    finally:
        try:
            from . import drv
            drv.stop_all()
        except Exception:
            pass
        cli.cleanup()


def replay_case(prop, fname, case):
    facet = next(f for f in prop.facets if f.name == fname)
    try:
        bounded(facet.run, case, 300)
    except Violation as v:
        return v
    except Inconclusive:
        return None
    return None


def unanswered(pid, fname, case):
    """The case gets no answer in twice the time."""
    prop = load(pid)
    SCALE[0] = 2
    try:
        bounded(next(f for f in prop.facets if f.name == fname).run, case, 60)
    except Timeout:
        return True
    except (Violation, Inconclusive):
        return False
    finally:
        from . import drv
        drv.stop_all()
        cli.cleanup()
    return False


def confirm(pid, fname, cases):
    with mp.get_context("spawn").Pool(len(cases)) as pool:
        return all(pool.starmap(unanswered, [(pid, fname, c) for c in cases]))


def replay(path):
    d = json.load(open(path))
    prop = load(d["property"])
    for b in prop.builds:
        b()
    if "unanswered" in d:
        v = Violation(d["message"]) if confirm(prop.id, d["facet"], d["unanswered"]) else None
    else:
        v = replay_case(prop, d["facet"], d["case"])
    cli.cleanup()
    if v:
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        print(v.msg)
        return 1
    print("no violation")
    return 0


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    try:
        prop = load(pid)
        for b in prop.builds:
            b()
    except build.BuildError as e:
        print("BUILD FAILED: %s" % e)
        return 2
    tb = time.time() - t0
    ctx = mp.get_context("spawn")
    flag, q = ctx.Value("i", 0), ctx.Queue()
    limit = float(os.environ.get("VF_LIMIT", "240" if tier == "quick" else "1500"))
    ps = [ctx.Process(target=worker, args=(pid, tier, seed, w, NW, time.time() + limit, flag, q)) for w in range(NW)]
    for p in ps:
        p.start()
    res = []
    hard = time.time() + limit + 400
    while len(res) < NW and time.time() < hard:
        try:
            res.append(q.get(timeout=5))
            if res[-1][2]:
                hard = min(hard, time.time() + 60)  # the others only shrink theirs
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
    for p in ps:
        p.join(2)
        if p.is_alive():
            p.kill()
    errors = [e for _, s, _ in res for e in s.get("errors", [])]
    fails = sorted([f for _, _, f in res if f], key=lambda f: (f[0], jdump(f[2])))
    agg = {"evals": 0, "nt": set(), "labels": {}, "samples": [], "inc": 0, "trunc": 0, "known": {}, "times": {}}
    for w, s, _ in sorted(res, key=lambda r: r[0]):
        if "evals" not in s:
            continue
        agg["evals"] += s["evals"]
        agg["nt"] |= set(s["nontrivial"])
        for k, v in s["labels"].items():
            agg["labels"][k] = agg["labels"].get(k, 0) + v
        for smp in s["samples"]:
            if len([1 for x in agg["samples"] if x["facet"] == smp["facet"]]) < 2:
                agg["samples"].append(smp)
        agg["inc"] += s["inconclusive"]
        agg["trunc"] += s["truncated"]
        for k, v in s["known"].items():
            agg["known"][k] = agg["known"].get(k, 0) + v
        for k, v in s["times"].items():
            agg["times"][k] = max(agg["times"].get(k, 0), v)
    rc, nviol = 0, 0
    for size, fname, case, msg, sig in fails:
        vs = [replay_case(prop, fname, case) for _ in range(3)]
        if sum(v is not None for v in vs) >= (2 if "thread" in fname else 3):
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            path = os.path.join(ROOT, "replays", "%s-%s.json" % (pid, hashlib.sha1(jdump(case).encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump({"property": pid, "facet": fname, "case": case, "message": msg, "seed": seed, "tier": tier}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  facet %s: %s" % (fname, msg[:1500]))
            print("  case: %s" % jdump(case)[:1500])
            rc, nviol = 1, 1
            break
        print("not reproducible (ignored): %s %s: %s (%s)" % (fname, jdump(case)[:600], msg[:500], [bool(v) for v in vs]))
    for facet in prop.facets if not rc else ():
        slow = sorted([c for _, s, _ in res for c in s.get("slow", {}).get(facet.name, ())], key=lambda c: (len(jdump(c)), jdump(c)))
        n = sum(s.get("facet_evals", {}).get(facet.name, 0) for _, s, _ in res)
        if not slow or facet.slow and (len(slow) < 4 or len(slow) <= n * facet.slow):
            continue
        some = slow[:1] if facet.slow == 0 else slow[::max(1, len(slow) // 5)][:5]
        msg = "%d of %d requests were not answered in time, nor were %d of them in twice that time" % (len(slow), n, len(some))
        if confirm(pid, facet.name, some):
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            path = os.path.join(ROOT, "replays", "%s-%s.json" % (pid, hashlib.sha1(jdump(some).encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump({"property": pid, "facet": facet.name, "unanswered": some, "message": msg, "seed": seed, "tier": tier}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  facet %s: %s" % (facet.name, msg))
            print("  case: %s" % jdump(some[0])[:1500])
            rc, nviol = 1, 1
            break
        print("slow (ignored): %s %s" % (facet.name, msg.split(", nor")[0]))
    cli.cleanup()
    for f in known(pid):
        # a listed finding is re-demonstrated on its recorded case
        hit = agg["known"].get(f["id"], 0)
        if "replay" in f and not hit:
            v = replay_case(prop, f["facet"], f["replay"])
            hit = 1 if v is not None and matches(f, f["facet"], f["replay"], v) else 0
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    cov = {"evaluations": agg["evals"], "distinct_nontrivial": len(agg["nt"]), "rule": prop.rule,
           "samples": agg["samples"], "labels": dict(sorted(agg["labels"].items())),
           "inconclusive": agg["inc"], "skipped_after_deadline_or_failure": agg["trunc"],
           "seconds_per_facet": agg["times"], "build_s": round(tb, 1), "known_findings_seen": agg["known"]}
    if errors and rc == 0:
        print("CHECK ERROR:\n" + errors[0])
        rc = 3
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": prop.assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    try:
        from . import drv
        drv.stop_all()
    except ImportError:
        pass
    cli.cleanup()
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d inconclusive, %d skipped, %.1fs (build %.1fs) %s"
          % (pid, tier, seed, agg["evals"], len(agg["nt"]), agg["inc"], agg["trunc"], time.time() - t0, tb, agg["times"]))
    if rc == 0 and len(agg["nt"]) == 0:
        print("CHECK ERROR: nothing non-trivial was explored")
        rc = 4
    return rc


if __name__ == "__main__":
    sys.exit(main())
