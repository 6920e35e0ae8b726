"""Runs the harnesses of one property: enumeration over worker processes, watchdogs, violations, known findings,
replay files and evidence.

A harness is an object with
  name
  cases(tier)            deterministic iterator of JSON-able cases: the enumerated space
  run(case, rec)         execute one case against the code under test and compare with the oracle
and optionally
  setup()                once per worker process
  weight                 relative, informational
"""
import hashlib
import importlib
import itertools
import json
import multiprocessing
import os
import pickle
import re
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known-findings.json")


class Hang(BaseException):
    pass


class CaseError(Exception):
    """The harness itself cannot run a case (not a verdict about the code under test)."""


def _h(x):
    return hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=8).digest()


class Rec:
    """What one worker measured."""

    def __init__(self):
        self.evaluations = 0
        self.transitions = 0
        self.states = set()
        self.traces = 0
        self.outcomes = set()
        self.nontrivial = 0
        self.fails = []  # (index, harness, key, msg, case)
        self.samples = []
        self.caps = []
        self.counters = {}
        self._cur = None

    # -- used by harnesses ------------------------------------------------------------------------------------------
    def state(self, s):
        self.states.add(_h(s))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """one more execution of the real code compared with the reference model"""
        self.traces += n

    def outcome(self, o):
        """an observed outcome; distinct ones are counted (vacuity guard)"""
        self.outcomes.add(_h(o))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def cap(self, what):
        if what not in self.caps:
            self.caps.append(what)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def fail(self, key, msg, extra=None):
        idx, hname, case = self._cur
        if len(self.fails) < 400:
            self.fails.append((idx, hname, key, str(msg)[:4000], case, extra))

    def merge(self, o):
        self.evaluations += o.evaluations
        self.transitions += o.transitions
        self.states |= o.states
        self.traces += o.traces
        self.outcomes |= o.outcomes
        self.fails += o.fails
        for s in o.samples:
            self.sample(s)
        for c in o.caps:
            self.cap(c)
        for k, v in o.counters.items():
            self.count(k, v)


def _on_alarm(signum, frame):
    raise Hang("watchdog")


def run_one(h, idx, case, rec, cpu=60, wall=180):
    """Run one case under watchdogs; exceptions that escape the code under test are failures of the property."""
    rec._cur = (idx, h.name, case)
    cpu = getattr(h, "cpu_limit", cpu)
    wall = getattr(h, "wall_limit", wall)
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    signal.setitimer(signal.ITIMER_REAL, wall)
    try:
        rec.evaluations += 1
        h.run(case, rec)
    except Hang:
        rec.fail("hang", f"no end within {cpu} s of CPU / {wall} s: the code under test does not terminate\n" + traceback.format_exc(limit=-6))
    except CaseError:
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        inner = tb[-1].filename if tb else ""
        in_repo = any("/mixtera/" in f.filename and not f.filename.startswith(ROOT) for f in tb)
        if not in_repo or inner.startswith(ROOT + "/checks"):
            raise
        rec.fail("exception:" + type(e).__name__, f"unexpected {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-6))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(mod_name, wid, nworkers, tier, deadline, path):
    rec = Rec()
    err = None
    first = os.environ.get("VERIF_FIRST") and os.path.join(os.path.dirname(path), "stop")  # for tools/mutate.py: stop at the first failure
    known = load_known() if first else []
    try:
        mod = importlib.import_module(mod_name)
        gidx = 0
        for h in mod.HARNESSES:
            if hasattr(h, "setup"):
                h.setup()
            nviol = 0
            for i, case in enumerate(h.cases(tier)):
                gidx += 1
                if gidx % nworkers != wid:
                    continue
                if time.time() > deadline:
                    rec.cap(f"{h.name}: time budget reached at case {i}")
                    break
                if first and os.path.exists(first):
                    break
                run_one(h, i, case, rec)
                if first and any(match_known(mod_name.upper(), f, known) is None for f in rec.fails[nviol:]):
                    open(first, "w").close()
                if any(f[2] == "hang" for f in rec.fails[nviol:]):
                    rec.cap("a worker stopped after a hang")
                    deadline = 0
                if len(rec.samples) < 2:
                    rec.samples.append({"harness": h.name, "case": case})
                rec.count("cases:" + h.name)
                nviol = len(rec.fails)
                if nviol >= 300:
                    rec.cap("stopped after 300 failures")
                    break
    except BaseException:  # noqa: BLE001
        err = traceback.format_exc()
    with open(path, "wb") as f:
        pickle.dump((rec, err), f)
    os._exit(0)


def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f)["findings"]


def match_known(pid, fail, known):
    for k in known:
        if k.get("status") != "open" or k["property"] != pid:
            continue
        m = k["match"]
        if m.get("harness") not in (None, fail[1]):
            continue
        if not re.fullmatch(m["key"], fail[2]):
            continue
        if "case" in m and not _case_match(m["case"], fail[4]):
            continue
        return k
    return None


def _case_match(pat, case):
    """every entry of pat equals the case's entry"""
    if isinstance(pat, dict):
        return isinstance(case, dict) and all(k in case and _case_match(v, case[k]) for k, v in pat.items())
    return json.dumps(pat, sort_keys=True) == json.dumps(case, sort_keys=True)


def main(pid, mod_name, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    single = None
    jobs = int(os.environ.get("VERIF_JOBS", "0") or 0)
    it = iter(argv)
    for a in it:
        if a == "--replay":
            replay = next(it)
        elif a == "--tier":
            tier = next(it)
        elif a == "--only":
            single = next(it)
        elif a == "--jobs":
            jobs = int(next(it))
    os.environ["VERIF_TIER"] = tier
    mod = importlib.import_module(mod_name)
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    if replay:
        with open(replay) as f:
            r = json.load(f)
        h = next(x for x in mod.HARNESSES if x.name == r["harness"])
        if hasattr(h, "setup"):
            h.setup()
        rec = Rec()
        run_one(h, r.get("index", 0), r["case"], rec)
        for f_ in rec.fails:
            print(f"REPLAY {f_[1]} key={f_[2]}\n{f_[3]}")
        print("reproduced" if rec.fails else "not reproduced")
        return 1 if rec.fails else 0
    if single:
        mod.HARNESSES[:] = [h for h in mod.HARNESSES if h.name == single]

    nworkers = jobs or min(8, os.cpu_count() or 8)
    budget = float(os.environ.get("VERIF_BUDGET", "0") or 0) or getattr(mod, "BUDGET", {}).get(tier, 420 if tier == "quick" else 840)
    deadline = t0 + budget
    from mc import env

    tmp = env.fresh_dir("runner")
    pids = []
    sys.stdout.flush()
    for w in range(nworkers):
        pid_ = os.fork()
        if pid_ == 0:
            try:
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                _worker(mod_name, w, nworkers, tier, deadline, os.path.join(tmp, f"w{w}"))
            finally:
                os._exit(3)
        pids.append(pid_)
    rec = Rec()
    errors = []
    for w, p in enumerate(pids):
        _, st = os.waitpid(p, 0)
        path = os.path.join(tmp, f"w{w}")
        if not os.path.exists(path):
            errors.append(f"worker {w} died with status {st}")
            continue
        with open(path, "rb") as f:
            r, err = pickle.load(f)
        rec.merge(r)
        if err:
            errors.append(err)

    known = load_known()
    hits = {}
    unknown = []
    for f_ in sorted(rec.fails, key=lambda x: (x[1], x[0])):
        k = match_known(pid, f_, known)
        if k:
            hits.setdefault(k["id"], [k, 0])[1] += 1
        else:
            unknown.append(f_)

    for k in known:
        if k.get("status") == "open" and k["property"] == pid:
            n = hits.get(k["id"], [k, 0])[1]
            print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']} (seen {n} times in this run)")

    viol_paths = []
    if unknown:
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for f_ in unknown:
            sig = (f_[1], f_[2])
            if sig in seen:
                continue
            seen.add(sig)
            if len(viol_paths) >= 10:
                break
            name = f"{pid}-{f_[1]}-{hashlib.sha1(repr((f_[2], f_[4])).encode('utf-8', 'replace')).hexdigest()[:10]}.json"
            path = os.path.join(d, name)
            with open(path, "w") as fp:
                json.dump({"property": pid, "harness": f_[1], "index": f_[0], "key": f_[2], "message": f_[3], "case": f_[4], "extra": f_[5]}, fp, indent=1)
            viol_paths.append((f_, path))

    level = mod.LEVEL
    cov = {}
    if level == "model_checking":
        cov = {"states": len(rec.states), "transitions": rec.transitions, "traces_validated_against_impl": rec.traces}
    else:
        cov = {"evaluations": rec.evaluations, "distinct_nontrivial": len(rec.outcomes) or len(rec.states), "rule": mod.RULE}
        if rec.transitions:
            cov["transitions"] = rec.transitions
    if level == "model_checking":
        cov["distinct_outcomes"] = len(rec.outcomes)
        cov["cases"] = rec.evaluations
    cov["rule"] = mod.RULE
    cov["samples"] = rec.samples[:3]
    cov["counters"] = rec.counters
    cov["exhaustive"] = not rec.caps and not errors
    if rec.caps:
        cov["caps"] = rec.caps
    cov["technique"] = getattr(mod, "TECHNIQUE", "")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
        "violations": len(unknown),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1, default=str)

    print(f"{pid} tier={tier} cases={rec.evaluations} states={len(rec.states)} transitions={rec.transitions} "
          f"traces={rec.traces} outcomes={len(rec.outcomes)} caps={rec.caps} wall={time.time() - t0:.1f}s")
    for k, v in sorted(rec.counters.items()):
        print(f"  {k} = {v}")
    if unknown:
        for f_, path in viol_paths:
            print(f"--- {f_[1]} case #{f_[0]} key={f_[2]}\n{f_[3]}")
            print(f"VIOLATION property={pid} replay={path}")
        for e in errors[:1]:
            print("note: harness error as well:\n" + e)
        return 1
    if errors:
        print("HARNESS ERROR\n" + errors[0])
        return 2
    if rec.evaluations == 0:
        print("HARNESS ERROR: nothing explored")
        return 2
    return 0
