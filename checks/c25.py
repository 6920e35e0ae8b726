"""C25: property calculation hands every sample to the user's function once and attributes each value to its sample."""
import itertools
import json
from pathlib import Path

from mc import env

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of file layouts, contents, batch sizes and misbehaving user functions on the real executor and data collection, against a direct evaluation of the user's function per sample"
RULE = ("a case = a layout (samples per file, files per dataset); within it all batch sizes, all assignments of contents up to symmetry, value kinds, and user functions that fail or return too little or too much at every batch; "
        "states = distinct (layout, contents, batch size, function), transitions = batches computed, traces = runs compared")
ASSUMPTIONS = ["storing calculated values is not implemented upstream (DuckDB limitation, documented): the check covers everything up to the values handed to the storage, and that a failing call changes nothing",
               "lines contain no NUL characters (JSON does not allow them) and white space at their end is not data", "only the local execution mode exists and it refuses parallelism"]
NOTE = "storage of the values is unimplemented upstream; when add_property raises, the check requires that the collection is unchanged, when it succeeds the stored values are compared"

LINES = ["", "a", "b", " lead", "ünï€漢", '{"x": "tab\\t"}', "x" * 50, "[1, 2]"]


def prepare(tier):
    env.boot()


def text(line):
    return line


class Exec:
    name = "executor"
    cpu_limit = 200
    wall_limit = 400

    def setup(self):
        from mixtera.core.datacollection.datasets import JSONLDataset
        from mixtera.core.processing import ExecutionMode
        from mixtera.core.processing.property_calculation import PropertyCalculationExecutor, local_executor

        self.T, self.E, self.M = JSONLDataset, PropertyCalculationExecutor, ExecutionMode.LOCAL
        if hasattr(local_executor, "tqdm"):
            local_executor.tqdm = lambda x, **k: x

    def cases(self, tier):
        top = 3 if tier == "quick" else 5
        for n in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4):
            for sizes in itertools.product(range(top + 1 if n < 3 else top), repeat=n):
                yield {"sizes": list(sizes)}
        yield {"sizes": [200, 1, 130]}

    def files(self, d, sizes, pick, ids, nl):
        out, want = [], []
        i = 0
        for f, n in enumerate(sizes):
            lines = [pick(i + j) for j in range(n)]
            i += n
            p = d / f"f{f}.jsonl"
            body = "\n".join(lines) + ("\n" if nl and lines or lines and lines[-1] == "" else "")
            p.write_text(body, encoding="utf-8")
            fid, did = ids(f)
            out.append((fid, did, self.T, str(p)))
            want += [(did, fid, s, l) for s, l in enumerate(lines)]
        return out, want

    def run(self, case, rec):
        sizes = case["sizes"]
        total = sum(sizes)
        picks = [("distinct", lambda i: f"s{i}")] + [(f"from {k}", lambda i, k=k: LINES[(i * (1 + k % 2) + k) % len(LINES)]) for k in range(len(LINES) if total < 20 else 1)]
        idf = [lambda f: (f + 1, f % 2 + 1), lambda f: (100 - f, 7), lambda f: (2**40 + f, f + 2**33)]
        d = Path(env.fresh_dir("c25"))
        for (pn, pick), ids, nl in itertools.product(picks, idf, (True, False)):
            files, want = self.files(d, sizes, pick, ids, nl)
            for order in (files, files[::-1]):
                w = want if order is files else [x for f in order for x in want if x[1] == f[0]]
                for bs in sorted({1, 2, 3, total - 1, total, total + 1, 1000} | ({64, 65, 128} if total > 20 else set()) - {0, -1}):
                    if bs < 1:
                        continue
                    if not self.one(rec, sizes, pn, order, w, bs):
                        return

    def one(self, rec, sizes, pn, files, want, bs):
        where = f"files {[(f[0], f[1]) for f in files]} of {sizes} samples ({pn}), batch size {bs}: "
        log = {"setup": 0, "seen": []}

        class Boom(Exception):
            pass

        def setup(me):
            log["setup"] += 1
            me.secret = 42

        nb = -(-len(want) // bs)
        for fn in ["value", "list", "number", "mixed"] + [(bad, b) for bad in ("raise", "short", "long", "none") for b in range(nb) if nb < 5 or b in (0, nb - 1)]:
            rec.state((str(files), pn, bs, str(fn)))
            log["setup"], log["seen"] = 0, []

            def calc(me, batch, fn=fn):
                assert me.secret == 42 and log["setup"] == 1
                rec.step()
                b = len(log["seen"])
                data = [str(x) for x in batch["data"]]
                log["seen"].append([(int(a), int(f), int(s), x) for a, f, s, x in zip(batch["dataset_id"], batch["file_id"], batch["line_id"], data)])
                assert len({len(batch[k]) for k in ("data", "file_id", "dataset_id", "line_id")}) == 1
                out = [self.value(x, fn) for x in data]
                if isinstance(fn, tuple) and fn[1] == b:
                    if fn[0] == "raise":
                        raise Boom("user")
                    if fn[0] == "short":
                        return out[:-1]
                    if fn[0] == "long":
                        return out + ["x"]
                    return [None] + out[1:]
                return out

            rec.trace()
            try:
                ex = self.E.from_mode(self.M, 1, bs, setup, calc)
                ex.load_data(files, True)
                got = ex.run()
            except Exception as e:
                if isinstance(fn, tuple):
                    if fn[0] == "raise" and not isinstance(e, Boom):
                        rec.fail("error", where + f"the user's error became {type(e).__name__}: {e}")
                        return False
                    continue
                rec.fail("fails", where + f"{type(e).__name__}: {e}")
                return False
            if isinstance(fn, tuple):
                rec.fail("bad-accepted", where + f"a user function that misbehaves ({fn}) is accepted: {got}")
                return False
            got = [(int(r["dataset_id"]), int(r["file_id"]), int(r["sample_id"]), r["property_value"]) for r in got]
            # line ends belong to the line, other white space at the end of lines is not data
            exp = [(a, f, s, self.value(x.rstrip(), fn)) for a, f, s, x in want]
            if len(got) != len(exp) or sorted(map(repr, got)) != sorted(map(repr, exp)):
                bad = [x for x in got if x not in exp][:3], [x for x in exp if x not in got][:3]
                rec.fail("values", where + f"{fn}: unexpected {bad[0]}, missing {bad[1]}")
                return False
            seen = [x for b in log["seen"] for x in b]
            if sorted(seen) != sorted((a, f, s, x.rstrip()) for a, f, s, x in want):
                rec.fail("seen", where + f"the function saw {seen[:6]} instead of {want[:6]}")
                return False
            if any(len(b) > bs or not b for b in log["seen"]):
                rec.fail("batches", where + f"batches of {[len(b) for b in log['seen']]} samples")
                return False
            rec.outcome((len(got), len(log["seen"]), str(got[:3])))
        return True

    @staticmethod
    def value(x, fn):
        if fn == "list":
            return [x, x + "!"]
        if fn == "number":
            return len(x) * 0.5
        if fn == "mixed":
            return len(x)
        return "v:" + x


class Bad(Exec):
    """unusable requests are refused before the user's function sees anything"""

    name = "refused"

    def cases(self, tier):
        for dop in (-1, 0, 1, 2, 3):
            for bs in (-1, 0, 1, 2):
                for path in ("ok", "missing"):
                    yield {"dop": dop, "bs": bs, "path": path}

    def run(self, case, rec):
        d = Path(env.fresh_dir("c25"))
        (d / "f.jsonl").write_text("a\nb\n")
        seen = []
        rec.state(str(case))
        rec.step()
        try:
            ex = self.E.from_mode(self.M, case["dop"], case["bs"], lambda me: None, lambda me, b: (seen.extend(b["data"]), [str(x) for x in b["data"]])[1])
            ex.load_data([(1, 1, self.T, str(d / ("f.jsonl" if case["path"] == "ok" else "nope.jsonl")))], True)
            got = ex.run()
        except Exception as e:
            rec.trace()
            rec.outcome(type(e).__name__)
            if case["dop"] == 1 and case["bs"] >= 1 and case["path"] == "ok":
                rec.fail("refused", f"{case}: {type(e).__name__}: {e}")
            if seen:
                rec.fail("seen", f"{case}: the function saw {seen} although the request is refused")
            return
        if case["bs"] < 1 or case["dop"] < 1 or case["path"] != "ok":
            rec.fail("accepted", f"{case}: accepted, result {got}")
        elif sorted(r["property_value"] for r in got) != ["a", "b"]:  # a parallel executor would be fine
            rec.fail("values", f"{case}: {got}")
        rec.outcome("ok")
        rec.trace()


class Collection:
    """add_property on a real data collection: what reaches the storage, and nothing changes when it fails"""

    name = "collection"
    cpu_limit = 200
    wall_limit = 400

    def cases(self, tier):
        for layout in itertools.product((0, 1, 2), (0, 3), (0, 1, 2) if tier == "quick" else (0, 1, 2, 3)):
            for bs in (1, 2, 3):
                yield {"layout": list(layout), "bs": bs}

    def run(self, case, rec):
        from mixtera.core.datacollection import MixteraDataCollection, PropertyType
        from mixtera.core.datacollection.datasets import JSONLDataset
        from mixtera.core.datacollection.index.parser import MetadataParser, MetadataProperty
        from mixtera.core.processing import ExecutionMode

        class P(MetadataParser):
            @classmethod
            def get_properties(cls):
                return [MetadataProperty(name="l", dtype="STRING", multiple=False, nullable=True)]

            def parse(self, line_number, payload, **kwargs):
                self.add_metadata(sample_id=line_number, l=payload["l"])

        root = Path(env.fresh_dir("c25"))
        (root / "mdc").mkdir()
        mdc = MixteraDataCollection(root / "mdc")
        mdc._metadata_factory.add_parser("P", P)
        want = []
        for i, n in enumerate(case["layout"]):
            did = i // 2
            dd = root / f"d{did}"
            dd.mkdir(exist_ok=True)
            (dd / f"f{i}.jsonl").write_text("".join(json.dumps({"l": f"v{i}{j}"}) + "\n" for j in range(n)))
            want += [(f"f{i}.jsonl", j, f"v{i}{j}") for j in range(n)]
        for did in (0, 1):
            assert mdc.register_dataset(f"D{did}", str(root / f"d{did}"), JSONLDataset, text, "P")

        def snapshot():
            c = mdc._connection
            return (c.execute("SELECT * FROM samples ORDER BY ALL").fetchall(), [x[0] for x in c.execute("DESCRIBE samples").fetchall()], c.execute("SELECT id, dataset_id, location FROM files ORDER BY ALL").fetchall(),
                    mdc.get_db_version(), mdc.list_datasets())

        before = snapshot()
        names = {fid: (did, Path(loc).name) for fid, did, loc in before[2]}

        def calc(me, batch):
            rec.step()
            return ["p:" + json.loads(str(x))["l"] for x in batch["data"]]

        def call(**kw):
            args = {"property_name": "np", "setup_func": lambda me: None, "calc_func": calc, "execution_mode": ExecutionMode.LOCAL, "property_type": PropertyType.CATEGORICAL, "batch_size": case["bs"]}
            args.update(kw)
            return mdc.add_property(**args)

        # what reaches the storage
        saved = {}
        if all(hasattr(mdc, x) for x in ("_insert_property_values", "_add_columns_to_samples_table")):
            got = []
            mdc._insert_property_values = lambda name, props: got.append((name, props))
            mdc._add_columns_to_samples_table = lambda *a, **k: None
            ok = call()
            del mdc._insert_property_values, mdc._add_columns_to_samples_table
            rec.state((str(case), "storage"))
            rec.trace()
            rows = sorted((names[int(p["file_id"])], int(p["dataset_id"]), int(p["sample_id"]), p["property_value"]) for _, ps in got for p in ps)
            exp = sorted(((next(v[0] for v in names.values() if v[1] == f), f), next(v[0] for v in names.values() if v[1] == f), j, "p:" + v) for f, j, v in want)
            if not ok or rows != exp or any(n != "np" for n, _ in got):
                rec.fail("storage", f"{case}: stored {rows} instead of {exp} (result {ok})")
                return
            rec.outcome(str(rows))
            before = (*before[:3], mdc.get_db_version(), before[4])
            if snapshot() != before:
                rec.fail("changed", f"{case}: the collection changed from {before} to {snapshot()}")
                return
            saved["ok"] = True

        def boom(me, batch):
            raise ValueError("user")

        requests = {"empty name": {"property_name": ""}, "batch size": {"batch_size": 0}, "buckets": {"num_buckets": 1}, "range": {"property_type": PropertyType.NUMERICAL, "min_val": 1.0, "max_val": 1.0},
                    "numerical": {"property_type": PropertyType.NUMERICAL}, "user": {"calc_func": boom}, "setup": {"setup_func": lambda me: 1 / 0}, "few": {"calc_func": lambda me, b: []},
                    "parallel": {"degree_of_parallelism": 2}, "mode": {"execution_mode": ExecutionMode.RAY}, "plain": {}}
        for name, kw in requests.items():
            rec.state((str(case), name))
            rec.trace()
            try:
                ok = call(**kw)
            except Exception as e:  # noqa: BLE001
                ok = type(e).__name__
            rec.outcome((name, ok))
            after = snapshot()
            if ok is True:
                if name in ("user", "setup", "few") and not want:
                    before = after
                    continue
                if name not in ("plain", "numerical", "parallel", "mode"):
                    rec.fail("accepted", f"{case}: request with bad {name} is accepted")
                    return
                col = [c for c in after[1] if c == "np"]
                if name == "plain":
                    vals = sorted(map(str, mdc._connection.execute("SELECT np FROM samples").fetchall())) if col else None
                    exp = sorted(str("p:" + v) for _, _, v in want)
                    if vals is None or len(vals) != len(exp) or any(e not in v for v, e in zip(vals, exp)):
                        rec.fail("stored", f"{case}: the samples carry {vals} instead of {exp}")
                        return
                before = after
            elif after != before:
                rec.fail("changed", f"{case}: a failing call ({name}: {ok}) changed the collection from {before} to {after}")
                return


HARNESSES = [Exec(), Bad(), Collection()]
