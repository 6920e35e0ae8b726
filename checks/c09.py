"""C09: a cached query answers exactly like a fresh execution, and is never stale."""
import hashlib
import itertools
import json
import os
from pathlib import Path

from c08 import parser
from mc import env, jobs, sched

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of operation histories (registrations, removals, queries with several mixtures, colliding cache keys) on the real stub, cache and DuckDB, and of the interleavings of a query with a registration or removal at database-call granularity"
RULE = ("a case = history of operations up to the depth (every job stays open and all are drained alternately at the end), or one pair of concurrent operations with all schedules up to the preemption bound; "
        "every job's complete chunk and sample stream is compared with an execution without cache on the same contents; the bytes of the cache entries are compared before and after use; "
        "states = distinct (contents, cache entries), transitions = operations, traces = jobs compared")
ASSUMPTIONS = ["one server process owns the data directory (DuckDB enforces it); concurrent steps interleave at database and cache-directory operations"]

DATA = {"1": ("D1", ["ABA", "B"]), "1b": ("D1", ["BBA"]), "2": ("D2", ["AAB"])}
QUERIES = {"a": [("l", "==", "a")], "ab": [("l", "==", ["a", "b"])]}
AB = {"kind": "static", "keys": [{"l": "a"}, {"l": "b"}], "counts": [1, 1], "strict": False}
MIXES = {"arb": {"kind": "arbitrary", "size": 2}, "inf": {"kind": "inferring", "size": 3, "strict": False}, "st": AB}
OPS = ["r1", "r1b", "r2", "d1", "d2", "qa-arb", "qab-arb", "qab-inf", "qab-st"]


def text(line):
    import json as j

    return j.loads(line)["t"]


def tree_digest(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            with open(p, "rb") as fp:
                out.append((os.path.relpath(p, root) + f"#{os.stat(d).st_ino}", hashlib.sha1(fp.read()).hexdigest()))
    return dict(out)


class Site:
    """a stub on an empty directory and the source files of the data sets"""

    def __init__(self, collide=False):
        self.root = Path(env.fresh_dir("c09"))
        for k, (_, files) in DATA.items():
            d = self.root / ("src" + k)
            d.mkdir()
            for i, s in enumerate(files):
                with open(d / f"{i}.jsonl", "w") as f:
                    for j, c in enumerate(s):
                        f.write(json.dumps({"l": c.lower(), "t": f"{k}/{i}/{j}"}) + "\n")
        (self.root / "dir").mkdir()
        self.st = jobs.stub(self.root / "dir")
        self.st._mdc._metadata_factory.add_parser("P", parser("P", [("l", "STRING", False)]))
        if collide and hasattr(self.st._query_cache, "_get_query_hash"):
            self.st._query_cache._get_query_hash = lambda q: "same"
        self.jobs = {}
        self.n = 0
        self.contents = {}

    def close(self):
        self.st._mdc._connection.close()
        env.rmtree(str(self.root))

    def query(self, spec, job):
        from mixtera.core.query import Query

        q = Query.for_job(job)
        for s in QUERIES[spec]:
            q = q.select(s)
        return q

    def register(self, k):
        from mixtera.core.datacollection.datasets import JSONLDataset

        name = DATA[k][0]
        ok = self.st.register_dataset(name, self.root / ("src" + k), JSONLDataset, text, "P")
        if ok:
            self.contents[name] = k
        return ok

    def remove(self, name):
        ok = self.st.remove_dataset(name)
        if ok:
            self.contents.pop(name, None)
        return ok

    def execute(self, qspec, mix, job=None):
        from mixtera.core.client.mixtera_client import QueryExecutionArgs

        self.n += 1
        job = job or f"job{self.n}"
        ok = self.st.execute_query(self.query(qspec, job), QueryExecutionArgs(mixture=jobs.mixture(MIXES[mix])))
        return job, ok

    def fresh(self, qspec, mix):
        q = self.query(qspec, "fresh")
        q.execute(self.st._mdc, jobs.mixture(MIXES[mix]))
        out = []
        for c in q.results:
            out.append(jobs.describe(c))
        return out

    def step(self, job):
        try:
            return jobs.describe(jobs.load(self.st._get_query_chunk_distributor(job).next_chunk_for(0, 0, 0, False)))
        except StopIteration:
            return None


class Histories:
    name = "histories"
    cpu_limit = 200
    wall_limit = 400

    def cases(self, tier):
        depth = 5 if tier == "quick" else 6
        regs = [o for o in OPS if o[0] == "r"]
        for first in regs[:1] + regs[2:] if tier == "quick" else regs:
            for mid in itertools.product(OPS, repeat=depth - 2):
                # at least one query before the last one, registered data changes in between or not
                if not any(o[0] == "q" for o in mid):
                    continue
                if not valid((first,) + mid):
                    continue
                for last in OPS:
                    if last[0] == "q":
                        yield {"ops": [first, *mid, last], "collide": False}
        for c in self.colliding(tier):
            yield c

    def colliding(self, tier):
        qs = [o for o in OPS if o[0] == "q"][:2]
        for a, b, c in itertools.product(qs, repeat=3):
            for x, y in itertools.product(["", "r2", "d1"], repeat=2):
                yield {"ops": [o for o in ("r1", a, x, b, y, c, a) if o], "collide": True}

    def run(self, case, rec):
        s = Site(case["collide"])
        try:
            self.history(s, case, rec)
        finally:
            s.close()

    def history(self, s, case, rec):
        expected, got, digests = {}, {}, {}
        cache = s.root / "dir" / "querycache"
        for i, op in enumerate(case["ops"]):
            rec.step()
            where = f"{case} step {i}: "
            if op[0] == "r":
                s.register(op[1:])
            elif op[0] == "d":
                s.remove("D" + op[1:])
            else:
                qs, mix = op[1:].split("-")
                want = s.fresh(qs, mix)
                try:
                    job, ok = s.execute(qs, mix)
                except Exception as e:  # noqa: BLE001
                    rec.fail("query-failed", where + f"{type(e).__name__}: {e}")
                    return
                if not ok:
                    rec.fail("query-failed", where + "execute_query returned False")
                    return
                expected[job], got[job] = want, []
                c = s.step(job)
                if c is not None:
                    got[job].append(c)
            now = tree_digest(cache)
            for p, h in digests.items():
                if p in now and now[p] != h:
                    rec.fail("cache-changed", where + f"cache file {p} changed")
                    return
            digests = now
            rec.state((tuple(sorted(s.contents.items())), tuple(sorted(x.split("#")[0] for x in now))))
        live = list(got)
        while live:
            for job in list(live):
                c = s.step(job)
                if c is None:
                    live.remove(job)
                else:
                    got[job].append(c)
        for job in got:
            rec.trace()
            if got[job] != expected[job]:
                rec.fail("differs", f"{case} {job}: got {len(got[job])} chunks {got[job][:2]}, a fresh execution gives {len(expected[job])}: {expected[job][:2]}")
                return
        now = tree_digest(cache)
        if now != digests:
            rec.fail("cache-changed", f"{case}: draining the jobs changed the cache {sorted(set(now.items()) ^ set(digests.items()))[:3]}")
        rec.outcome(str(sorted(got.items())))


def valid(ops):
    """operations that do something"""
    have = set()
    for o in ops:
        if o[0] == "r":
            n = DATA[o[1:]][0]
            if n in have:
                return False
            have.add(n)
        elif o[0] == "d":
            if "D" + o[1:] not in have:
                return False
            have.discard("D" + o[1:])
    return True


class Conn:
    """DuckDB connection/cursor with a scheduling point before every call"""

    def __init__(self, real):
        object.__setattr__(self, "_real", real)

    def __getattr__(self, name):
        v = getattr(self._real, name)
        if not callable(v):
            return v

        def f(*a, **k):
            sched._pt()
            r = v(*a, **k)
            if r is self._real:
                return self
            if type(r).__name__ == "DuckDBPyConnection":
                return Conn(r)
            return r

        return f


class Concurrent:
    """a query runs while a dataset is registered or removed; afterwards new jobs must see the final contents"""

    name = "concurrent"
    cpu_limit = 600
    wall_limit = 800

    def cases(self, tier):
        for q in ("qab-arb", "qa-arb") if tier == "quick" else ("qab-arb",):
            for other in ("r2", "d1", "d1r1b"):
                for warm in (False, True):
                    for first in ("query", "other"):
                        yield {"q": q, "other": other, "warm": warm, "bound": 1 if tier == "quick" else 2, "first": first}

    def run(self, case, rec):
        import mixtera.core.query.query_cache as qc

        qs, mix = case["q"][1:].split("-")

        def one(chooser):
            s = Site()
            s.register("1")
            if case["warm"]:
                s.execute(qs, mix, "warm")
            s.st._mdc._connection = Conn(s.st._mdc._connection)
            res = {}

            def query():
                sched._pt()
                try:
                    res["q"] = s.execute(qs, mix, "job")
                except Exception as e:  # noqa: BLE001
                    res["q"] = (None, f"{type(e).__name__}: {e}")
                sched._pt()

            def other():
                if case["other"] == "r2":
                    s.register("2")
                elif case["other"] == "d1":
                    s.remove("D1")
                else:
                    s.remove("D1")
                    sched._pt()
                    s.register("1b")

            sc = sched.Scheduler(chooser)
            if case["first"] == "query":
                ts = [sc.spawn(query), sc.spawn(other)]
            else:
                ts = [sc.spawn(other), sc.spawn(query)]
            with fs_points(qc):
                sc.run()
            s.st._mdc._connection = s.st._mdc._connection._real
            out = {"excs": [f"{type(t.exc).__name__}: {t.exc}" for t in ts if t.exc is not None], "q": res.get("q")}
            out["want"] = s.fresh(qs, mix)
            out["got"] = []
            try:
                j, _ = s.execute(qs, mix, "after")
                while (c := s.step(j)) is not None:
                    out["got"].append(c)
            except Exception as e:  # noqa: BLE001
                out["got"] = f"{type(e).__name__}: {e}"
            s.close()
            return out

        seen = [0]

        def on(out, choices):
            seen[0] += 1
            rec.trace()
            rec.step(len(choices))
            rec.state((str(case), tuple(choices)))
            rec.outcome((str(case["other"]), str(out["q"]), len(out["got"])))
            where = f"{case} schedule={choices}: "
            if out["excs"]:
                rec.fail("failed", where + f"{out['excs']}")
                return False
            if out["got"] != out["want"]:
                rec.fail("stale", where + f"a job after both operations gets {str(out['got'])[:600]}, a fresh execution {str(out['want'])[:600]}; query itself: {out['q']}")
                return False
            return True

        n, done = sched.explore(one, case["bound"], limit=6000, on_run=on)
        rec.count("schedules", n)
        if not done and not rec.fails:
            rec.cap(f"{case}: 6000 schedules")


class fs_points:
    """a scheduling point before cache directory operations"""

    def __init__(self, mod):
        self.mod = mod

    def __enter__(self):
        import pathlib
        import shutil

        self.saved = (pathlib.Path.mkdir, shutil.rmtree, os.replace)

        def wrap(f):
            def g(*a, **k):
                if sched.current() is not None and "querycache" in str(a[0]):
                    sched._pt()
                return f(*a, **k)
            return g

        pathlib.Path.mkdir, shutil.rmtree, os.replace = map(wrap, self.saved)

    def __exit__(self, *a):
        import pathlib
        import shutil

        pathlib.Path.mkdir, shutil.rmtree, os.replace = self.saved


STRINGS = ["a", "b", "a, b", "a', 'b", "['a', 'b']", "1", "None", "", " a", "a\n", "A", "b'), ('m', '==', 'a", "a; m == b", "a) OR (l = b", "\u00e9", "e\u0301", "a|b", "a-b", "a_b"]
LONG = "x" * 300


def queries():
    """lists of select arguments whose renderings are easily confused"""
    vals = STRINGS + [LONG, LONG + "y", 1, None]
    out = []
    for op in ("==", "!=", ">", "<="):
        for v in vals:
            out.append([("l", op, v)])
    small = ["a", "b", "a, b", "", "1", "None"]
    for op in ("==", "!="):
        for x, y in itertools.permutations(small, 2):
            out.append([("l", op, [x, y])])
        for x in small:
            out.append([("l", op, [x])])
        out.append([("l", op, ["a", "b", "1"])])
        out.append([("l", op, ["a", "b, 1"])])
        out.append([("l", op, STRINGS * 3)])
        out.append([("l", op, STRINGS * 3 + ["zz"])])
    for op in ("==", "!=", ">", "<", ">=", "<="):
        for v in (1, 2, 3, 10, 12, 1.5):
            out.append([("n", op, v)])
        out.append([("n", op, [1, 2])])
        out.append([("n", op, [12])])
        out.append([("m", op, "a")])
    out += [[[("l", "==", "a"), ("m", "==", "b")]], [[("m", "==", "b")]], [[("l", "==", "b"), ("m", "==", "a")]], [[("l", "==", "a"), ("n", "==", 1)]],
            [[("l", "==", "a"), ("n", "==", 12)]], [[("l", "==", "a"), ("n", "==", 1), ("n", "==", 2)]]]
    # several select operators
    singles = [("l", "==", "a"), ("l", "==", "b"), ("m", "==", "a"), ("n", "==", 2), ("l", "!=", "a")]
    for x, y in itertools.product(singles, repeat=2):
        out.append([x, y])
        out.append([[x, y]])
    for x, y, z in itertools.permutations(singles[:4], 3):
        out.append([x, y, z])
        out.append([[x, y], z])
        out.append([x, [y, z]])
        out.append([[x, y, z]])
    return out


class Confusable:
    """Many queries that differ in a detail share one cache: each gets the result of its own fresh execution, whatever was cached before."""

    name = "confusable"
    cpu_limit = 300
    wall_limit = 500

    def cases(self, tier):
        n = len(queries())
        if tier == "quick":
            for rev in (False, True):
                yield {"a": 0, "b": 0, "step": n, "reverse": rev, "turns": 1}
            return
        step = 60
        # windows: every query meets every other one, in both orders, in a cache that holds both
        starts = list(range(0, n, step))
        for i in starts:
            for j in starts:
                if i <= j:
                    for rev in (False, True):
                        yield {"a": i, "b": j, "step": step, "reverse": rev, "turns": 2}

    def run(self, case, rec):
        from mixtera.core.client.mixtera_client import QueryExecutionArgs
        from mixtera.core.datacollection.datasets import JSONLDataset
        from mixtera.core.query import Query

        root = Path(env.fresh_dir("c09t"))
        try:
            src, d = root / "src", root / "d"
            src.mkdir()
            d.mkdir()
            vals = STRINGS + [LONG, LONG + "y", "zz", None]
            with open(src / "0.jsonl", "w") as f:
                for i, v in enumerate(vals):
                    for k in range(2):
                        f.write(json.dumps({"l": v, "m": ["a", "b", None][(i + k) % 3], "n": str((i * 2 + k) % 14), "t": f"{i}/{k}"}) + "\n")
            st = jobs.stub(d)
            st._mdc._metadata_factory.add_parser("P", parser("P", [("l", "STRING", False), ("m", "STRING", False), ("n", "STRING", False)]))
            st.register_dataset("D", src, JSONLDataset, text, "P")
            qs = queries()
            idx = list(range(case["a"], min(case["a"] + case["step"], len(qs))))
            if case["b"] != case["a"]:
                idx += range(case["b"], min(case["b"] + case["step"], len(qs)))
            if case["reverse"]:
                idx.reverse()
            mix = {"kind": "arbitrary", "size": 100}

            def query(i, job):
                q = Query.for_job(job)
                for s in qs[i]:
                    q = q.select(s)
                return q

            def samples(chunks):
                return [jobs.describe(c) for c in chunks]

            for i in idx:
                rec.step()
                try:
                    q = query(i, "fresh")
                    q.execute(st._mdc, jobs.mixture(mix))
                    want = samples(q.results)
                except Exception as e:  # noqa: BLE001
                    want = f"{type(e).__name__}"
                for turn in range(case["turns"]):
                    try:
                        job = f"job{i}-{turn}"
                        st.execute_query(query(i, job), QueryExecutionArgs(mixture=jobs.mixture(mix)))
                        dist = st._get_query_chunk_distributor(job)
                        got = []
                        while True:
                            try:
                                got.append(jobs.describe(jobs.load(dist.next_chunk_for(0, 0, 0, False))))
                            except StopIteration:
                                break
                    except Exception as e:  # noqa: BLE001
                        got = f"{type(e).__name__}"
                    rec.trace()
                    if got != want:
                        rec.fail("differs", f"{case}: query {qs[i]} (time {turn + 1}) gets {str(got)[:300]}, a fresh execution {str(want)[:300]}")
                        return
                rec.outcome(str(want)[:2000])
                rec.state((str(qs[i]),))
            st._mdc._connection.close()
        finally:
            env.rmtree(str(root))


HARNESSES = [Histories(), Confusable(), Concurrent()]
