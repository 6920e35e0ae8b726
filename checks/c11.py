"""C11: the dataset registry is all-or-nothing and versioned."""
import itertools
import json
import os
import shutil
import threading
from pathlib import Path

from c09 import Conn
from mc import env, fault, jobs, sched

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of operation histories with invalid operations and restarts on the real registry, of an error at every database call, of a crash at every file-system operation of the database, "
             "and of the interleavings of two operations (or one and an observer) at database-call granularity")
RULE = ("after every operation, error, crash or schedule: existence checks, dataset list, file table, id look-ups and the result of a query are compared with the model (set of registered datasets); "
        "one database version never denotes two different contents; ids are never re-used for something else; an operation that failed can be repeated successfully; "
        "states = distinct observations x situation, transitions = operations / calls, traces = comparisons")
ASSUMPTIONS = ["a crash is the death of the process (completed writes survive)", "one process owns the database (enforced by DuckDB)"]

# variant -> (dataset, files); a = valid value
DATA = {
    "1": ("D1", ["aba", "b"]), "1b": ("D1", ["bb"]), "2": ("D2", ["ab"]), "0": ("D0", [""]),
}
BAD = {  # variant -> (dataset, files or None, parser, dtype)
    "miss": ("D2", None, "P", "jsonl"), "nofiles": ("D2", [], "P", "jsonl"), "noparser": ("D2", ["ab"], "Nope", "jsonl"),
    "record": ("D2", ["ab", "a!"], "P", "jsonl"), "generic": ("D2", ["ab"], "P", "generic"), "enum": ("D2", ["ax"], "E", "jsonl"), "record1": ("D1", ["!"], "P", "jsonl"),
}
UNSURE = {"multi": ("D3", ["ab"], "M")}  # another type for the same property: may be refused
NAMES = ("D0", "D1", "D2", "D3")


def text(line):
    import json as j

    return j.loads(line)["t"]


def parsers():
    from mixtera.core.datacollection.index.parser import MetadataParser, MetadataProperty

    class P(MetadataParser):
        @classmethod
        def get_properties(cls):
            return [MetadataProperty(name="l", dtype="STRING", multiple=False, nullable=False)]

        def parse(self, line_number, payload, **kwargs):
            self.add_metadata(sample_id=line_number, l=None if payload["l"] == "!" else payload["l"])

    class M(MetadataParser):
        @classmethod
        def get_properties(cls):
            return [MetadataProperty(name="l", dtype="STRING", multiple=True, nullable=True)]

        def parse(self, line_number, payload, **kwargs):
            self.add_metadata(sample_id=line_number, l=[payload["l"], payload["l"] + "2"])

    class E(MetadataParser):
        @classmethod
        def get_properties(cls):
            return [MetadataProperty(name="l", dtype="STRING", multiple=False, nullable=True), MetadataProperty(name="e", dtype="ENUM", multiple=False, nullable=True, enum_options={"a"})]

        def parse(self, line_number, payload, **kwargs):
            self.add_metadata(sample_id=line_number, l=payload["l"], e=payload["l"])

    return {"P": P, "M": M, "E": E}


def write_sources(root):
    for k, v in list(DATA.items()) + list(BAD.items()) + list(UNSURE.items()):
        if v[1] is None:
            continue
        d = Path(root) / ("src-" + k)
        d.mkdir(parents=True)
        for i, s in enumerate(v[1]):
            with open(d / f"{i}.jsonl", "w") as f:
                for j, c in enumerate(s):
                    f.write(json.dumps({"l": c, "t": f"{k}/{i}/{j}"}) + "\n")


def contents_of(variants):
    """what the registry shows if these variants are registered"""
    out = {}
    for k in variants:
        name, files = (DATA.get(k) or UNSURE[k])[:2]
        for i, s in enumerate(files):
            out[(name, f"src-{k}/{i}.jsonl")] = tuple((j, c) for j, c in enumerate(s))
    return out


class Site:
    def __init__(self, root=None):
        self.owned = root is None
        self.root = Path(root or env.fresh_dir("c11"))
        if self.owned:
            write_sources(self.root)
        (self.root / "dir").mkdir(exist_ok=True)
        self.open()
        self.versions = {}
        self.ids = {}

    def open(self):
        from mixtera.core.datacollection import MixteraDataCollection

        self.mdc = MixteraDataCollection(self.root / "dir")
        for n, p in parsers().items():
            self.mdc._metadata_factory.add_parser(n, p)

    def close(self):
        self.mdc._connection.close()

    def reopen(self):
        self.close()
        self.open()

    def drop(self):
        self.close()
        if self.owned:
            env.rmtree(str(self.root))

    # -- operations: True / False / exception text
    def do(self, op):
        try:
            return self._do(op)
        except Exception as e:  # noqa: BLE001
            return f"{type(e).__name__}: {e}"

    def _do(self, op):
        from mixtera.core.datacollection.datasets import JSONLDataset
        from mixtera.core.datacollection.datasets.dataset import Dataset

        if op == "reopen":
            self.reopen()
            return True
        kind, arg = op.split("-")
        if kind == "d":
            return self.mdc.remove_dataset(arg)
        if arg in BAD:
            name, _, parser, dtype = BAD[arg]
        elif arg in UNSURE:
            name, _, parser = UNSURE[arg]
            dtype = "jsonl"
        else:
            name, parser, dtype = DATA[arg][0], "P", "jsonl"
        return self.mdc.register_dataset(name, str(self.root / ("src-" + arg)), Dataset if dtype == "generic" else JSONLDataset, text, parser)

    # -- observation
    def version(self):
        return self.mdc.get_db_version()

    def names(self):
        ex = tuple(n for n in NAMES if self.mdc.check_dataset_exists(n))
        return ex, tuple(sorted(self.mdc.list_datasets()))

    def query_contents(self):
        """(dataset id, file id, sample, value) of everything that can be queried"""
        from mixtera.core.query import Query

        try:
            q = Query.for_job("obs").select(("l", "!=", "zz"))
            q.execute(self.mdc, jobs.mixture({"kind": "arbitrary", "size": 1000}))
        except Exception as e:  # noqa: BLE001
            if "Binder" in type(e).__name__ or "Binder" in str(e):
                return []  # no dataset with this property has ever been registered
            raise
        rows = []
        for c in q.results:
            for key, ds in c._result_index.items():
                for d, fs in ds.items():
                    for f, ivs in fs.items():
                        for s, e in ivs:
                            rows += [(d, f, x, "|".join(sorted(key.properties.get("l", [])))) for x in range(s, e)]
        return sorted(rows)

    def contents(self):
        """{(dataset, file): ((sample, value), ...)} through the public look-ups; also checks that they agree"""
        out, problems = {}, []
        names = {}
        for fid, did, dtype, loc in self.mdc._get_all_files():
            rel = os.path.relpath(loc, self.root)
            variant = rel.split("/")[0][4:]
            name = (DATA.get(variant) or BAD.get(variant) or UNSURE.get(variant))[0]
            if names.setdefault(did, name) != name:
                problems.append(f"dataset id {did} has files of {names[did]} and {name}")
            out[(name, rel)] = ()
            if self.mdc._get_file_path_by_id(fid) != loc:
                problems.append(f"file id {fid} resolves to another path")
            if self.mdc._get_dataset_type_by_id(did).__name__ != "JSONLDataset":
                problems.append(f"dataset {did} has type {self.mdc._get_dataset_type_by_id(did)}")
            if self.mdc._get_dataset_func_by_id(did)('{"t": "hallo"}') != "hallo":
                problems.append(f"dataset {did}: wrong parsing function")
            for kind, i, what in (("file", fid, rel), ("dataset", did, name)):
                if self.ids.setdefault((kind, i), what) != what:
                    problems.append(f"{kind} id {i} denoted {self.ids[(kind, i)]} and now {what}")
        for d, f, x, v in self.query_contents():
            try:
                rel = os.path.relpath(self.mdc._get_file_path_by_id(f), self.root)
            except RuntimeError:
                problems.append(f"sample {(d, f, x)} of an unknown file")
                continue
            key = (names.get(d), rel)
            out[key] = out.get(key, ()) + ((x, v),)
        return out, problems

    def check(self, want_variants, rec, where):
        """compare everything observable with the model; False after a failure"""
        v = self.version()
        got, problems = self.contents()
        want = contents_of(want_variants)
        if "multi" in want_variants:
            k = ("D3", "src-multi/0.jsonl")
            want[k] = tuple((x, f"{c}|{c}2") for x, c in want[k])
        ex, ls = self.names()
        wn = tuple(sorted({n for n, _ in want}))
        rec.trace()
        rec.state((where.split("|")[0], str(sorted(got.items())), ex))
        if problems:
            rec.fail("ids", where + "; ".join(problems))
        elif got != want:
            rec.fail("contents", where + f"registry shows {got}, should be {want}")
        elif ex != wn or ls != wn:
            rec.fail("exists", where + f"existing {ex}, listed {ls}, should be {wn}")
        elif self.versions.setdefault(v, got) != got:
            rec.fail("version", where + f"version {v} denoted {self.versions[v]} and now {got}: cached results would be outdated")
        else:
            return True
        return False


def apply(op, variants):
    """model: (allowed results, variants after success)"""
    if op == "reopen":
        return (True,), variants
    kind, arg = op.split("-")
    have = {(DATA.get(k) or UNSURE[k])[0]: k for k in variants}
    if kind == "d":
        if arg not in have:
            return (False,), variants
        return (True,), tuple(k for k in variants if k != have[arg])
    if arg in BAD:
        return (False,), variants
    name = (DATA.get(arg) or UNSURE[arg])[0]
    if name in have:
        return (False,), variants
    after = tuple(sorted(variants + (arg,)))
    return ((True, False) if arg in UNSURE or "multi" in variants else (True,)), after


OPS = ["r-1", "r-1b", "r-2", "r-0", "d-D1", "d-D2", "reopen"] + ["r-" + b for b in BAD] + ["r-multi"]


class Histories:
    name = "histories"
    cpu_limit = 120
    wall_limit = 300

    def cases(self, tier):
        if tier == "quick":
            few = [o for o in OPS if o not in ("r-miss", "r-generic", "r-record1", "r-nofiles")]
            space = itertools.product(["r-1", "r-2", "r-multi", "r-record"], OPS, few)
        else:
            space = itertools.product(OPS, repeat=4)
        for ops in space:
            yield {"ops": list(ops)}

    def run(self, case, rec):
        s = Site()
        variants = ()
        try:
            for i, op in enumerate(case["ops"]):
                allowed, after = apply(op, variants)
                r = s.do(op)
                rec.step()
                where = f"{case['ops']}| step {i} ({op} -> {r}): "
                ok = r is True
                if ok not in allowed:
                    rec.fail("result", where + f"allowed {allowed}")
                    return
                variants = after if ok else variants
                if not s.check(variants, rec, where):
                    return
            rec.outcome((tuple(case["ops"]), variants))
        finally:
            s.drop()


class Flaky:
    """DuckDB connection/cursor whose n-th call fails"""

    def __init__(self, real, ctl):
        object.__setattr__(self, "_real", real)
        object.__setattr__(self, "_ctl", ctl)

    def __getattr__(self, name):
        import duckdb

        v = getattr(self._real, name)
        if not callable(v):
            return v

        def f(*a, **k):
            c = self._ctl
            c["n"] += 1
            if c["n"] - 1 == c["at"]:
                c["what"] = (name, str(a[0])[:60] if a else "")
                if name != "close":
                    raise duckdb.IOException("injected")
            r = v(*a, **k)
            return self if r is self._real else (Flaky(r, c) if type(r).__name__ == "DuckDBPyConnection" else r)

        return f


SITUATIONS = [((), "r-1"), (("2",), "r-1"), (("1",), "d-D1"), (("1", "2"), "d-D1"), (("2",), "r-0"), ((), "r-record"), ((), "r-enum"), (("1",), "r-record")]


class Errors:
    name = "errors"
    cpu_limit = 120
    wall_limit = 300

    def cases(self, tier):
        for before, op in SITUATIONS:
            for part in range(4):
                yield {"before": list(before), "op": op, "part": part}

    def run(self, case, rec):
        n = case["part"]
        while n < 400 and self.one(dict(case, at=n), rec):
            n += 4

    def one(self, case, rec):
        s = Site()
        try:
            for k in case["before"]:
                assert s.do("r-" + k) is True
            before = tuple(case["before"])
            if not s.check(before, rec, f"{case}| before: "):
                return False
            ctl = {"n": 0, "at": case["at"], "what": None}
            real = s.mdc._connection
            s.mdc._connection = Flaky(real, ctl)
            r = s.do(case["op"])
            s.mdc._connection = real
            if ctl["what"] is None:
                return False
            rec.step()
            allowed, after = apply(case["op"], before)
            where = f"{case}| error in {ctl['what']} -> {r}: "
            rec.outcome((case["op"], ctl["what"], str(r)[:40]))
            if r is True and True not in allowed:
                rec.fail("result", where + "reported success")
                return False
            got, _ = s.contents()
            if r is True:
                now = after
            elif r is False:
                now = before
            else:
                now = after if got == contents_of(after) else before
            if not s.check(now, rec, where):
                return False
            s.reopen()
            if not s.check(now, rec, where + "after a restart: "):
                return False
            return self.retry(s, case["op"], now, rec, where)
        finally:
            s.drop()

    @staticmethod
    def retry(s, op, now, rec, where):
        """the operation (and a valid one with the same name) succeeds afterwards"""
        todo = [op] if op[2:] not in BAD else []
        if op.startswith("r-"):
            todo.append("r-1b" if op == "r-1" else "r-2")
        todo += ["d-D1", "r-1b", "d-D2"]
        for o in todo:
            allowed, after = apply(o, now)
            r = s.do(o)
            if (r is True) not in allowed:
                rec.fail("retry", where + f"afterwards {o} gives {r}, allowed {allowed}")
                return False
            now = after if r is True else now
            if not s.check(now, rec, where + f"then {o}: "):
                return False
        return True


class Bulk:
    """more files than are read at once: errors in the last batch, complete otherwise"""

    name = "bulk"
    cpu_limit = 200
    wall_limit = 400
    N = 2001

    def cases(self, tier):
        yield {"fault": "none"}
        yield {"fault": "record"}
        for k in range(10 if tier == "quick" else 30):
            yield {"fault": "database", "back": k}

    def register(self, s, src):
        from mixtera.core.datacollection.datasets import JSONLDataset

        return s.mdc.register_dataset("D1", str(src), JSONLDataset, text, "E")

    def run(self, case, rec):
        s = Site()
        try:
            src = s.root / "src-bulk"
            src.mkdir()
            for i in range(self.N):
                (src / f"{i:05}.jsonl").write_text(json.dumps({"l": "b" if case["fault"] == "record" and i == self.N - 1 else "a", "t": "x"}) + "\n")
            calls = None
            if case["fault"] == "database":
                other = Site()
                try:
                    ctl = {"n": 0, "at": -1, "what": None}
                    other.mdc._connection = Flaky(other.mdc._connection, ctl)
                    assert self.register(other, src) is True
                    calls = ctl["n"]
                    other.mdc._connection = object.__getattribute__(other.mdc._connection, "_real")
                finally:
                    other.drop()
            ctl = {"n": 0, "at": -1 if calls is None else calls - 1 - case["back"], "what": None}
            real = s.mdc._connection
            s.mdc._connection = Flaky(real, ctl)
            try:
                r = self.register(s, src)
            except Exception as e:  # noqa: BLE001
                r = f"{type(e).__name__}: {e}"[:200]
            s.mdc._connection = real
            where = f"{self.N} files, {case}, error in {ctl['what']} -> {r}: "
            rec.step(self.N)
            rec.state(str(case))
            rec.outcome((case["fault"], str(r)[:30]))
            if case["fault"] == "none" and r is not True or case["fault"] == "record" and r is True:
                rec.fail("result", where + "unexpected result")
                return
            for again in ("", "after a restart: "):
                ex, files, rows = s.mdc.check_dataset_exists("D1"), len(s.mdc._get_all_files()), len(s.query_contents())
                if (ex, files, rows) not in ([(True, self.N, self.N)] if r is True else [(False, 0, 0)] if r is False else [(True, self.N, self.N), (False, 0, 0)]):
                    rec.fail("partial", where + again + f"exists: {ex}, {files} files, {rows} samples")
                    return
                s.reopen()
            rec.trace()
            (src / f"{self.N - 1:05}.jsonl").write_text(json.dumps({"l": "a", "t": "x"}) + "\n")
            if not ex and (self.register(s, src) is not True or len(s.query_contents()) != self.N):
                rec.fail("retry", where + "cannot be registered afterwards")
        finally:
            s.drop()


class Crash:
    """the process dies at every file-system operation of the database"""

    name = "crash"
    cpu_limit = 600
    wall_limit = 800
    PARTS = 1

    def cases(self, tier):
        for before, op in SITUATIONS[:5] + SITUATIONS[7:]:
            for closing in (False, True):
                for mode in (fault.DIE, fault.TEAR, fault.NOSPACE):
                    for part in range(self.PARTS):
                        yield {"before": list(before), "op": op, "mode": mode, "closing": closing, "part": part}

    def run(self, case, rec):
        root = Path(env.fresh_dir("c11"))
        keep = str(root) + ".keep"
        write_sources(root)
        before = tuple(case["before"])
        allowed, after = apply(case["op"], before)

        def setup():
            s = Site(root)
            for k in before:
                assert s.do("r-" + k) is True
            s.close()

        def attempt():
            s = Site(root)
            fault.arm(str(root / "dir"), *victim.at)
            r = s.do(case["op"])
            if case["closing"]:
                s.close()
            fault.disarm()
            raise AssertionError(f"RESULT {r}")  # transports the result to the parent

        victim = type("V", (), {"at": None})
        try:
            code, info = fault.child(setup, "/nonexistent", -1, 0)
            assert code == 0, info
            os.rename(root / "dir", keep)
            n = case["part"]
            while True:
                shutil.copytree(keep, root / "dir")
                victim.at = (n, case["mode"])
                code, info = fault.child(attempt, "/nonexistent", -1, 0)
                died = code == 137
                ended = code == 1 and "RESULT" in info
                where = f"{case}| crash point {n}: "
                result = info.split("RESULT ")[1] if ended else None
                if not died and not ended and not (case["mode"] == fault.NOSPACE):
                    rec.fail("error", where + f"unexpected end {code} {info}")
                    return

                def later():
                    s = Site(root)
                    got, _ = s.contents()
                    now = after if got == contents_of(after) else before
                    if result is not None and result.startswith("True"):
                        now = after
                    if result is not None and result.startswith("False"):
                        now = before
                    rec2 = Collect()
                    good = s.check(now, rec2, where) and Errors.retry(s, case["op"], now, rec2, where)
                    if not good:
                        raise AssertionError(f"MISMATCH {rec2.f}")
                    if before != after and now == after:
                        raise AssertionError("AFTER")

                c2, info2 = fault.child(later, "/nonexistent", -1, 0)
                shutil.rmtree(root / "dir")
                rec.step()
                rec.trace()
                rec.state((str(case), n))
                rec.outcome((case["op"], case["mode"], code, c2))
                if "AFTER" in info2 and c2 == 1 and "MISMATCH" not in info2:
                    pass
                elif c2 != 0:
                    rec.fail("crash", where + f"({code} {result}) afterwards: {info2}")
                    return
                if ended and not (case["mode"] == fault.NOSPACE and not result.startswith("True") and True in allowed):
                    break
                n += self.PARTS
                if n > 400:
                    rec.cap("400 crash points")
                    break
            if True in allowed and n < 2:
                rec.fail("no-crash-points", f"{case}: only {n} file-system operations are observed")
        finally:
            shutil.rmtree(root, ignore_errors=True)
            shutil.rmtree(keep, ignore_errors=True)


class Collect:
    def __init__(self):
        self.f = None

    def fail(self, k, m):
        self.f = (k, m)

    def trace(self, *a):
        pass

    state = outcome = step = count = trace


LOCKS = {type(threading.Lock()): "CLock", type(threading.RLock()): "CRLock"}


def control_locks(mdc):
    """replace thread locks of the object (or its class) by controlled ones"""
    kinds = {k: getattr(sched, v) for k, v in LOCKS.items()}
    for k in set(dir(type(mdc))) | set(vars(mdc)):
        if not k.startswith("__"):
            c = kinds.get(type(getattr(mdc, k, None)))
            if c:
                setattr(mdc, k, c())


PAIRS = [((), "r-1", "observe"), (("1",), "d-D1", "observe"), (("2",), "r-1", "r-0"), ((), "r-1", "r-1b"), (("2",), "r-1", "d-D2"), (("1",), "d-D1", "r-1b"), (("1",), "d-D1", "d-D1"), (("1",), "r-record", "r-2")]


class Concurrent:
    name = "concurrent"
    cpu_limit = 600
    wall_limit = 800

    def cases(self, tier):
        for before, a, b in PAIRS:
            for flip in (False, True):
                yield {"before": list(before), "ops": [b, a] if flip else [a, b], "bound": 1 if tier == "quick" else 2}

    def run(self, case, rec):
        before = tuple(case["before"])

        def one(chooser):
            s = Site()
            for k in before:
                assert s.do("r-" + k) is True
            problems = []
            seen = {s.version(): sorted((x, v) for _, _, x, v in s.query_contents())}
            rec2 = Collect()
            if not s.check(before, rec2, "before: "):
                problems.append(str(rec2.f))
            real = s.mdc._connection
            s.mdc._connection = Conn(real)
            control_locks(s.mdc)
            res = {}

            def task(i, op):
                def f():
                    sched._pt()
                    if op == "observe":
                        v1 = s.version()
                        n = s.names()
                        try:
                            c = sorted((x, v) for _, _, x, v in s.query_contents())
                        except RuntimeError:  # ids of the result are gone by now
                            return
                        n2 = s.names()
                        v2 = s.version()
                        if n == n2:  # nothing changed meanwhile, or only the query saw it
                            full = {(): [], ("D1",): sorted(r for rows in contents_of(("1",)).values() for r in rows)}
                            if c not in full.values():
                                problems.append(f"an observer sees a part: {c}")
                            elif n[0] != n[1]:
                                problems.append(f"an observer sees existing {n[0]} listed {n[1]}")
                            elif v1 == v2 and c != full[n[0]]:
                                problems.append(f"an observer sees {c} but existing {n[0]}")
                        if v1 == v2 and seen.setdefault(v1, c) != c:
                            problems.append(f"an observer sees {c} at version {v1}, which denotes {seen[v1]}")
                        res[i] = None
                    else:
                        res[i] = s.do(op)
                return f

            sc = sched.Scheduler(chooser, max_steps=20000)
            with sched.patched([]):
                ts = [sc.spawn(task(i, op)) for i, op in enumerate(case["ops"])]
                sc.run()
            s.mdc._connection = real
            problems += [f"{type(t.exc).__name__}: {t.exc}" for t in ts if t.exc is not None]
            if not problems:
                ends = []
                for order in ((0, 1), (1, 0)):
                    v, ok = before, True
                    for i in order:
                        if case["ops"][i] == "observe":
                            continue
                        allowed, after = apply(case["ops"][i], v)
                        ok = ok and (res[i] is True) in allowed
                        v = after if res[i] is True else v
                    if ok:
                        ends.append(v)
                if not ends:
                    problems.append(f"results {res} fit no order of the operations")
                else:
                    got, _ = s.contents()
                    v = next((v for v in ends if contents_of(v) == got), ends[0])
                    rec2 = Collect()
                    if not s.check(v, rec2, "afterwards: "):
                        problems.append(str(rec2.f))
            s.drop()
            return problems, res

        def on(out, choices):
            rec.trace()
            rec.step(len(choices))
            rec.state((str(case), tuple(choices)))
            rec.outcome((str(case["ops"]), str(out[1])))
            if out[0]:
                rec.fail("concurrent", f"{case} schedule={choices} results={out[1]}: {out[0][0]}")
                return False
            return True

        n, done = sched.explore(one, case["bound"], limit=4000, on_run=on)
        rec.count("schedules", n)
        if not done and not rec.fails:
            rec.cap(f"{case}: 4000 schedules")


# the crash points come first: they fork, which the threads of a database opened in this process would not survive
HARNESSES = [Crash(), Bulk(), Histories(), Errors(), Concurrent()]
