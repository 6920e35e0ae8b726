"""C27: the native chunk index equals its specification."""
import itertools
import json
import os
import pickle
import sys
from pathlib import Path

from mc import env, native, shim
from mc.runner import Rec

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of interval tables, batch layouts and thread counts on the native module compiled from the current sources, and stateless exploration of its worker threads under a controlled scheduler "
             "(threads and mutexes replaced at compile time, scheduling points at every function entry) up to a preemption bound")
RULE = ("a case = column types and the first row, an input that must be refused, a set of records sent through the real query, or a table with thread orders and the positions of the preemptions; every returned index is compared with "
        "the specification (rows grouped by the set of their values); states = distinct (table, layout, threads) or schedules, transitions = rows or scheduling points, traces = calls compared")
ASSUMPTIONS = ["libarrow, absl and pybind11 are trusted; the progress bar library is replaced by a stand-in that draws nothing", "in schedules, threads interleave at function entries of the module and of the absl containers, memory is sequentially consistent",
               "neither the order nor repetitions of the values of a list distinguish domains"]
BUDGET = {"quick": 300, "thorough": 800}
FAILED = {}


def prepare(tier):
    env.boot()
    FAILED.update(native.build())


def isolated(rec, kind, fn):
    """run fn(module, rec) in a child, so that a crash of the native code is a verdict and not an accident"""
    if FAILED.get(kind):
        if kind == "plain":
            rec.fail("build", f"the native module does not compile: {FAILED[kind]}")
        else:
            rec.cap("the module does not compile under the controlled scheduler")
        return
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            nul = os.open(os.devnull, os.O_WRONLY)
            os.dup2(nul, 1)
            sub = Rec()
            sub._cur = rec._cur
            err = None
            try:
                fn(native.load(kind), sub)
            except BaseException as e:  # noqa: BLE001
                import traceback

                err = traceback.format_exc()
                del e
            with os.fdopen(w, "wb") as f:
                pickle.dump((sub, err), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        raise
    _, st = os.waitpid(pid, 0)
    if st != 0 or not data:
        rec.fail("crash", f"{rec._cur[2]}: the native module ended the process (wait status {st})")
        return
    sub, err = pickle.loads(data)
    rec.merge(sub)
    if err:
        raise RuntimeError(err)


class Wrong(Exception):
    pass


def norm(res):
    """returned dictionary -> the form of shim.spec_index"""
    from mixtera.core.query.mixture.mixture_key import MixtureKey

    out = {}
    for key, ds in res.items():
        if not isinstance(key, MixtureKey):
            raise Wrong(f"key {key!r} is no MixtureKey")
        if any(not isinstance(x, str) for v in key.properties.values() for x in v):
            raise Wrong(f"key {key.properties} has values that are no strings")
        k = tuple(sorted((n, tuple(sorted(set(v)))) for n, v in key.properties.items()))
        if k in out:
            raise Wrong(f"domain {k} appears twice")
        out[k] = {d: {f: [tuple(x) for x in iv] for f, iv in fs.items()} for d, fs in ds.items()}
    return out


SCALARS = [None, "", "a", "b", "a,b", "a;b:c", "ü\n"]
LISTS = [None, [], [""], ["a"], ["a", "b"], ["b", "a"], ["a", "a"], ["a,b"], [None], ["a", None], ["a;b:c", "d"]]
LISTS_Q = [None, [], [""], ["a"], ["a", "b"], ["b", "a"], ["a,b"]]


def types():
    import pyarrow as pa

    return {"string": pa.string(), "large": pa.large_string(), "dict8": pa.dictionary(pa.int8(), pa.string()), "dictL": pa.dictionary(pa.uint32(), pa.large_string()), "list": pa.list_(pa.string()), "llist": pa.large_list(pa.string()),
            "listL": pa.list_(pa.large_string()), "dlist": pa.list_(pa.dictionary(pa.int8(), pa.string())), "dllist": pa.large_list(pa.dictionary(pa.uint8(), pa.large_string()))}


TYPES = ["string", "large", "dict8", "dictL", "list", "llist", "listL", "dlist", "dllist"]


def column(name, vals):
    import pyarrow as pa

    t = types()[name]
    if name in ("dlist", "dllist"):
        flat = sorted({x for v in vals if v for x in v if x is not None}, reverse=True)
        vt = t.value_type
        codes = pa.array([flat.index(x) if x is not None else None for v in vals if v is not None for x in v], vt.index_type)
        values = pa.DictionaryArray.from_arrays(codes, pa.array(flat, vt.value_type))
        offs, n = [], 0
        for v in vals:
            offs.append(None if v is None else n)
            n += len(v or [])
        offs.append(n)
        cls, ot = (pa.ListArray, pa.int32()) if name == "dlist" else (pa.LargeListArray, pa.int64())
        return cls.from_arrays(pa.array(offs, ot), values)
    if name.startswith("dict"):
        flat = sorted({x for x in vals if x is not None}, reverse=True)
        return pa.DictionaryArray.from_arrays(pa.array([flat.index(x) if x is not None else None for x in vals], t.index_type), pa.array(flat, t.value_type))
    return pa.array(vals, t)


def table(rows, cols, order=None, int_type=None):
    """rows: [(dataset, file, start, end, *values)], cols: [(name, type)]"""
    import pyarrow as pa

    it = int_type or pa.int64()
    d = {"dataset_id": pa.array([r[0] for r in rows], it)}
    d["file_id"] = pa.array([r[1] for r in rows], it)
    for i, (n, t) in enumerate(cols):
        d[n] = column(t, [r[4 + i] for r in rows])
    d["group_id"] = pa.array([0] * len(rows), pa.int64())
    d["interval_start"] = pa.array([r[2] for r in rows], it)
    d["interval_end"] = pa.array([r[3] for r in rows], it)
    return pa.table(d)


def layouts(n):
    """all ways to cut n rows into consecutive batches"""
    for cuts in itertools.product((0, 1), repeat=max(n - 1, 0)):
        sizes, cur = [], 1
        for c in cuts:
            if c:
                sizes.append(cur)
                cur = 1
            else:
                cur += 1
        yield sizes + [cur] if n else []


def split(t, sizes):
    import pyarrow as pa

    if len(sizes) < 2:
        return t
    out, p = [], 0
    for s in sizes:
        out.append(t.slice(p, s))
        p += s
    return pa.concat_tables(out)


def rows_of(combo, files, starts):
    return [(*files[i], starts[i], starts[i] + 2 + i, *v) for i, v in enumerate(combo)]


class Base:
    cpu_limit = 600
    wall_limit = 600

    def compare(self, m, rec, t, want, threads, label):
        rec.trace()
        rec.step(t.num_rows)
        try:
            got = norm(m.create_chunker_index_cpp(t, threads))
        except Wrong as e:
            rec.fail("index", f"{label}, {threads} threads: {e}")
            return False
        except Exception as e:  # noqa: BLE001
            rec.fail("raised", f"{label}, {threads} threads: {type(e).__name__}: {e}")
            return False
        if got != want:
            rec.fail("index", f"{label}, {threads} threads: index {got} instead of {want}")
            return False
        return True


FILES = [[(1, 1), (1, 1), (1, 1), (1, 1)], [(1, 1), (1, 2), (1, 1), (1, 2)], [(1, 1), (2, 1), (1, 1), (7, 2**40)]]


class Tables(Base):
    """one property column: all tables of up to 3 (thorough: 4) rows, all batch layouts and thread counts"""

    name = "tables"

    def values(self, ty, tier):
        if "list" in ty:
            return LISTS_Q if tier == "quick" else LISTS
        return SCALARS

    def cases(self, tier):
        for ty in TYPES:
            for first in range(len(self.values(ty, tier))):
                if tier == "thorough" or ty in ("string", "dict8", "list", "dlist"):
                    yield {"type": ty, "first": first, "rows": 3, "tier": tier}
            yield {"type": ty, "first": None, "rows": 2, "tier": tier}
        if tier == "thorough":
            for ty in ("string", "dict8", "list", "dlist"):
                for first in range(len(self.values(ty, "quick"))):
                    yield {"type": ty, "first": first, "rows": 4, "tier": "quick"}

    def run(self, case, rec):
        vals = self.values(case["type"], case["tier"])
        n = case["rows"]

        def work(m, rec):
            spaces = [range(len(vals))] * n
            if case["first"] is not None:
                spaces[0] = [case["first"]]
            sizes = [n] if case["first"] is not None else [0, 1, 2]
            for k in sizes:
                for combo in itertools.product(*spaces[:k]):
                    for fi, files in enumerate(FILES):
                        for starts in ([0, 10, 20, 30], [30, 20, 10, 0]):
                            if n == 4 and (fi or starts[0]):
                                continue
                            rows = rows_of([(vals[c],) for c in combo], files, starts)
                            t = table(rows, [("p", case["type"])])
                            want = shim.spec_index(t)
                            rec.outcome(str(want))
                            for lay in layouts(k):
                                tt = split(t, lay)
                                for th in (1, 2, 3, 5) if case["tier"] == "thorough" else (1, 2, 3):
                                    rec.state((case["type"], combo, fi, starts[0], tuple(lay), th))
                                    if not self.compare(m, rec, tt, want, th, f"{rows} as {case['type']}, batches {lay}"):
                                        return

        isolated(rec, "plain", work)


class Columns(Base):
    """two or three property columns, whose names can contain anything as well"""

    name = "columns"
    NAMES = [("p", "q"), ("q", "p"), ("a", "a b"), ("p;q", "r:s")]

    def cases(self, tier):
        pairs = [("string", "list"), ("dict8", "dlist"), ("list", "list"), ("string", "string"), ("dlist", "dict8"), ("large", "llist")]
        for tys in pairs:
            for names in range(len(self.NAMES)):
                if tier == "quick" and names and tys not in pairs[:2]:
                    continue
                yield {"types": list(tys), "names": names, "tier": tier}

    def run(self, case, rec):
        tys = case["types"]
        short = case["tier"] == "quick" or case["names"]
        spaces = [((LISTS_Q if short else LISTS) if "list" in t else SCALARS) for t in tys]
        cells = list(itertools.product(*spaces))
        cols = list(zip(self.NAMES[case["names"]], tys))

        def work(m, rec):
            for combo in itertools.product(cells, repeat=2):
                rows = rows_of(list(combo), FILES[0], [0, 10])
                t = table(rows, cols)
                want = shim.spec_index(t)
                rec.outcome(str(want))
                for lay in layouts(2):
                    tt = split(t, lay)
                    for th in (1, 2):
                        rec.state((str(case), str(combo), tuple(lay), th))
                        if not self.compare(m, rec, tt, want, th, f"{rows} with columns {cols}, batches {lay}"):
                            return

        isolated(rec, "plain", work)


class Inputs(Base):
    """integer types, offsets, many rows, and inputs that must be refused without harm"""

    name = "inputs"

    def cases(self, tier):
        for it in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"):
            yield {"what": "int", "type": it}
        for ty in TYPES:
            yield {"what": "slice", "type": ty}
            yield {"what": "dictionaries", "type": ty}
            for n in (100, 1000) if tier == "quick" else (100, 1000, 5000):
                yield {"what": "many", "type": ty, "rows": n}
        for bad in ("interval", "missing-dataset_id", "missing-file_id", "missing-interval_start", "missing-interval_end", "float-id", "int-property", "list-int-property", "threads"):
            yield {"what": "bad", "bad": bad}
        yield {"what": "plain-columns"}

    def run(self, case, rec):
        import pyarrow as pa

        what = case["what"]

        def work(m, rec):
            rec.state(str(case))
            if what == "int":
                it = getattr(pa, case["type"])()
                bits = int("".join(c for c in case["type"] if c.isdigit()))
                top = 2 ** (bits - (not case["type"].startswith("u"))) - 1
                top = min(top, 2**63 - 1)
                edge = [0, 1, top // 2, top - 2]
                for d, f, s in itertools.product(edge, repeat=3):
                    rows = [(d, f, s, s + 2, "a"), (d, f, s, top, "b"), (top, top, 0, 0, "a")]
                    t = table(rows, [("p", "string")], int_type=it)
                    for th in (1, 2):
                        if not self.compare(m, rec, split(t, [1, 2]), shim.spec_index(t), th, f"{case}: {rows}"):
                            return
            elif what in ("slice", "dictionaries"):
                vals = (LISTS if "list" in case["type"] else SCALARS)[: 8]
                for combo in itertools.product(range(len(vals)), repeat=4):
                    rows = rows_of([(vals[c],) for c in combo], FILES[1], [0, 10, 20, 30])
                    if what == "slice":
                        t = table(rows, [("p", case["type"])])
                        parts = [t.slice(a, n) for a, n in ((1, 2), (1, 3), (2, 1), (3, 1), (0, 0))]
                    else:
                        try:
                            t = pa.concat_tables([table(rows[:1], [("p", case["type"])]), table(rows[1:], [("p", case["type"])])])
                        except pa.ArrowException:
                            return
                        parts = [t, t.slice(1, 3)]
                    for p in parts:
                        for th in (1, 2):
                            if not self.compare(m, rec, p, shim.spec_index(p), th, f"{case}: part with {p.to_pylist()}"):
                                return
            elif what == "many":
                vals = LISTS if "list" in case["type"] else SCALARS
                n = case["rows"]
                rows = [(i % 3, i % 5, i * 10, i * 10 + 5, vals[(i * i) % len(vals)]) for i in range(n)]
                t = table(rows, [("p", case["type"])])
                want = shim.spec_index(t)
                for size in (1, 7, 64, n):
                    tt = split(t, [min(size, n - a) for a in range(0, n, size)])
                    for th in (1, 2, 3, 4, 8, 64):
                        if not self.compare(m, rec, tt, want, th, f"{case}: batches of {size}"):
                            return
            elif what == "plain-columns":
                rows = [(1, 1, 0, 3), (1, 1, 5, 6), (2, 1, 0, 1)]
                t = table(rows, [])
                for lay in layouts(3):
                    for th in (0, 1, 2, 8):
                        if not self.compare(m, rec, split(t, lay), shim.spec_index(t), th, f"no properties, {lay}"):
                            return
                self.compare(m, rec, t.slice(0, 0), {}, 2, "no rows")
            else:
                bad = case["bad"]
                rows = [(1, 1, 0, 3, "a"), (1, 1, 5, 6, "b"), (2, 1, 0, 1, "a")]
                good = table(rows, [("p", "string")])
                want = shim.spec_index(good)
                for pos in range(3):
                    for th in (1, 2, 3):
                        args = None
                        r = list(rows)
                        if bad == "interval":
                            r[pos] = (1, 1, 5, 4, "a")
                            args = (split(table(r, [("p", "string")]), [1, 1, 1]), th)
                        elif bad.startswith("missing-"):
                            args = (split(good.drop_columns([bad[8:]]), [1, 1, 1]), th)
                        elif bad == "float-id":
                            args = (good.set_column(0, "dataset_id", pa.array([1.0, 2.0, 3.0])), th)
                        elif bad == "int-property":
                            args = (good.append_column("x", pa.array([1, 2, 3])), th)
                        elif bad == "list-int-property":
                            args = (good.append_column("x", pa.array([[1], [2], [3]])), th)
                        else:
                            args = (good, -th)
                        rec.trace()
                        rec.step()
                        try:
                            got = m.create_chunker_index_cpp(*args)
                        except Exception as e:  # noqa: BLE001
                            rec.outcome(type(e).__name__)
                        else:
                            rec.fail("accepted", f"{case} at row {pos}, {th} threads: returned {got}")
                            return
                        if not self.compare(m, rec, split(good, [1, 1, 1]), want, th, f"after {case}"):
                            return

        isolated(rec, "plain", work)


class EndToEnd(Base):
    """real registration, the real query's table, and the native index in the place it is used at"""

    name = "endtoend"
    SCH = {"S": ("STRING", False, True), "E": ("ENUM", False, True), "SM": ("STRING", True, True), "EM": ("ENUM", True, True)}
    VALS = {False: [None, "a", "a,b", ""], True: [None, [], ["a"], ["a", "b"], ["b", "a"], ["a,b"]]}

    def cases(self, tier):
        for kinds in (("S",), ("E",), ("SM",), ("EM",), ("SM", "E"), ("S", "EM"), ("SM", "EM")):
            vals = [list(x) for x in itertools.product(*[self.VALS[self.SCH[k][1]] for k in kinds])]
            n = 3 if len(kinds) == 1 else 2
            for first in range(len(vals)):
                if tier == "quick" and len(kinds) == 2 and first % 4:
                    continue
                yield {"kinds": list(kinds), "first": first, "samples": n}

    def run(self, case, rec):
        def work(m, rec):
            from c26 import Site, schema_parser

            from mixtera.core.query import query_result as qr

            kinds = [self.SCH[k] for k in case["kinds"]]
            props = [(f"zq{i}", k) for i, k in enumerate(kinds)]
            vals = [x for x in itertools.product(*[self.VALS[k[1]] for k in kinds])]
            site = Site()
            try:
                parser = schema_parser("P", props, {"a", "b", "a,b", ""})
                recs = []
                for combo in itertools.product(vals, repeat=case["samples"] - 1):
                    seq = [vals[case["first"]], *combo]
                    # the same sequence twice in one file (so that domains return), and once in another
                    recs.append([*seq, *seq])
                    recs.append(seq)
                mk = [[{n: v for (n, _), v in zip(props, s)} for s in f] for f in recs]
                name, res = site.register(parser, mk)
                if res is not True:
                    rec.fail("refused", f"{case}: {res}")
                    return
                ids = {Path(loc).name: (d, f) for f, d, loc in site.mdc._connection.execute("SELECT id, dataset_id, location FROM files").fetchall()}
                want = {}
                for i, f in enumerate(recs):
                    for pos, s in enumerate(f):
                        k = tuple(sorted((n, tuple(sorted(set(v if isinstance(v, list) else [v])))) for (n, _), v in zip(props, s) if v is not None))
                        d, fid = ids[f"{i}.jsonl"]
                        want.setdefault(k, {}).setdefault((d, fid), []).append(pos)
                from mixtera.core.client import MixteraClient  # noqa: F401
                from mixtera.core.query import Query
                from mixtera.core.query.mixture import ArbitraryMixture

                for th in (1, 2, 5):
                    saved = qr.cpp_create
                    qr.cpp_create = lambda t, n, th=th: m.create_chunker_index_cpp(t, th)
                    try:
                        q = Query.for_job(f"j{th}").select(None)
                        q.execute(site.mdc, ArbitraryMixture(3))
                        index = q.results._chunker_index
                    finally:
                        qr.cpp_create = saved
                    rec.trace()
                    rec.step(sum(map(len, recs)))
                    rec.state((str(case), th))
                    try:
                        got = norm(index)
                    except Wrong as e:
                        rec.fail("index", f"{case}, {th} threads: {e}")
                        return
                    flat = {}
                    for k, ds in got.items():
                        for d, fs in ds.items():
                            for f, iv in fs.items():
                                flat.setdefault(k, {})[(d, f)] = [p for a, b in iv for p in range(a, b)]
                    rec.outcome(str(sorted(map(str, flat))))
                    if flat != want:
                        bad = [(k, flat.get(k), want.get(k)) for k in {*flat, *want} if flat.get(k) != want.get(k)][:3]
                        rec.fail("index", f"{case}, {th} threads: (domain, indexed positions, registered positions): {bad}")
                        return
            finally:
                site.drop()

        isolated(rec, "plain", work)


class Schedules(Base):
    """all schedules of the worker threads up to a preemption bound"""

    name = "schedules"

    TABLES = {
        "same": ([(1, 1, 0, 2, ["a"]), (1, 1, 5, 6, ["a"])], [1, 1]),
        "permuted": ([(1, 1, 0, 2, ["a", "b"]), (1, 1, 5, 6, ["b", "a"])], [1, 1]),
        "other-file": ([(1, 1, 0, 2, ["a"]), (1, 2, 5, 6, ["a"])], [1, 1]),
        "other-domain": ([(1, 1, 0, 2, ["a"]), (1, 1, 5, 6, ["b"])], [1, 1]),
        "uneven": ([(1, 1, 4, 6, ["a"]), (1, 1, 0, 2, ["b"]), (1, 1, 2, 4, ["a"])], [2, 1]),
        "three": ([(1, 1, 0, 2, ["a"]), (1, 1, 2, 3, ["a"]), (1, 1, 3, 4, ["a"])], [1, 1, 1]),
        "three-mixed": ([(1, 1, 0, 2, ["a"]), (2, 1, 2, 3, None), (1, 1, 3, 4, ["a", "b"])], [1, 1, 1]),
        "bad-first": ([(1, 1, 3, 2, ["a"]), (1, 1, 5, 6, ["a"])], [1, 1]),
        "bad-both": ([(1, 1, 3, 2, ["a"]), (1, 1, 6, 5, ["a"])], [1, 1]),
        "bad-third": ([(1, 1, 0, 2, ["a"]), (1, 1, 2, 3, ["a"]), (1, 1, 5, 4, ["a"])], [1, 1, 1]),
    }
    PARTS = 8

    def cases(self, tier):
        for name, (rows, lay) in self.TABLES.items():
            n = len(lay)
            for prio in itertools.permutations(range(1, n + 1)):
                yield {"table": name, "threads": n, "prio": [*prio, 0], "bound": 1, "fine": True, "part": None}
                # coarse points only (thread creation, progress, locks): a higher bound
                yield {"table": name, "threads": n, "prio": [*prio, 0], "bound": 2 if tier == "quick" else 4, "fine": False, "part": None}
                if tier == "thorough" and n == 2 and name in ("same", "permuted", "other-domain", "bad-first"):
                    for part in range(self.PARTS):
                        yield {"table": name, "threads": n, "prio": [*prio, 0], "bound": 2, "fine": True, "part": part}

    def run(self, case, rec):
        def work(m, rec):
            rows, lay = self.TABLES[case["table"]]
            t = split(table(rows, [("p", "list")]), lay)
            want = shim.spec_index(t)
            bad = case["table"].startswith("bad")
            n = case["threads"]
            ctl = native.Control()
            seen = {"n": 0}

            def once(pre):
                ctl.begin(case["fine"], case["prio"], pre)
                err = got = None
                try:
                    got = norm(m.create_chunker_index_cpp(t, n))
                except Exception as e:  # noqa: BLE001
                    err = e
                s = ctl.end()
                seen["n"] += 1
                rec.trace()
                rec.step(s["points"] + s["switches"])
                if s["flags"]:
                    rec.cap(f"schedules: control was lost (flags {s['flags']})")
                if seen["n"] % 64 == 1:
                    rec.state((str(case), tuple(pre)))
                    rec.outcome((s["switches"], str(err)[:80]))
                label = f"{case['table']}: {rows}, batches {lay}, thread order {case['prio']}, preemptions {pre}"
                if bad:
                    if err is None or isinstance(err, Wrong):
                        rec.fail("accepted", f"{label}: a row with a negative interval was accepted: {got}")
                        return None
                elif err is not None:
                    rec.fail("schedule", f"{label}: {type(err).__name__}: {err}")
                    return None
                elif got != want:
                    rec.fail("schedule", f"{label}: index {got} instead of {want}")
                    return None
                return s["choices"]

            # extend every schedule with one more preemption behind its last one, up to the bound
            stack = [()]
            while stack:
                pre = stack.pop()
                choices = once(list(pre))
                if choices is None:
                    return
                if not pre and case["fine"] and not choices:
                    rec.count("schedules without a choice")
                if len(pre) < case["bound"]:
                    start = pre[-1][0] + 1 if pre else 0
                    for p in range(start, len(choices)):
                        if not pre and case["part"] is not None and p % self.PARTS != case["part"]:
                            continue
                        for to in range(n + 1):
                            if choices[p] >> to & 1:
                                stack.append((*pre, (p, to)))
            rec.count("schedules", seen["n"])

        isolated(rec, "sched", work)


HARNESSES = [Tables(), Columns(), Inputs(), EndToEnd(), Schedules()]
