"""C24: results, chunks, mixtures and indexes survive persistence and transport unchanged."""
import asyncio
import copy
import itertools
import os
import pickle
import re
from pathlib import Path

import dill
import numpy as np

from c01 import build
from mc import env, jobs, world
from mc.world import canon, flatc

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of small indexes, results (at every position), chunks (in every configuration), mixtures and wire values through every real persistence and transport path, "
             "for all orders in which the parallel readers and writers finish and all ways a value is cut on the wire")
RULE = ("a case = one index shape, mixture, chunk configuration or group of wire values; within it all contents, transports, completion orders and cuts; "
        "states = distinct (value, transport), transitions = conversions, traces = comparisons of the result with the original and of the original with its state before")
ASSUMPTIONS = ["equality of indexes is that of domains (properties with their sets of values, in order), datasets, files and interval lists; the order of datasets and files within a domain does not matter (C04)",
               "values on the wire are those the protocol sends: strings, integers, floats, bytes, arrays and pickled objects"]

VALUES = [
    {}, {"l": ["a"]}, {"l": ["b"]}, {"l": ["a", "b"]}, {"l": ["b", "a"]}, {"l": ["a"], "s": ["x"]}, {"s": ["x"]}, {"l": []}, {"l": [""]},
    {"ü": ["ö€", "漢字"]}, {"a/b": ["../c", "d:e;f,g", "\n\t\0"]}, {"n": [1, 2.5, -3]}, {"mixture_key_0": ["dataset_1"]}, {"l": ["1"]}, {"l": [1]},
]
IDS = [0, 1, 2, 10, 2**31, 2**63 - 1]


def freeze(index):
    return [(tuple(sorted((p, tuple(map(repr, v))) for p, v in k.properties.items())), {d: {f: [tuple(i) for i in iv] for f, iv in fs.items()} for d, fs in ds.items()}) for k, ds in index.items()]


def prepare(tier):
    env.boot()
    os.environ["TQDM_DISABLE"] = "1"


class Orders:
    """pools whose tasks finish in a chosen order"""

    def __init__(self, order):
        self.order = order

    def __enter__(self):
        from mixtera.utils import utils

        order = self.order
        self.saved = {k: getattr(utils, k) for k in ("DummyPool", "tqdm") if hasattr(utils, k)}

        class Pool:
            def __init__(self, *a, **k):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def map(self, f, it):
                it = list(it)
                out = dict.fromkeys(range(len(it)))
                for i in perm(order, len(it)):
                    out[i] = f(it[i])
                return [out[i] for i in range(len(it))]

            def imap_unordered(self, f, it):
                it = list(it)
                return iter([f(it[i]) for i in perm(order, len(it))])

        utils.DummyPool = Pool
        utils.tqdm = lambda x, **k: x
        return self

    def __exit__(self, *a):
        from mixtera.utils import utils

        for k, v in self.saved.items():
            setattr(utils, k, v)


def perm(order, n):
    """order: index into the permutations of n items"""
    out, items = [], list(range(n))
    while items:
        order, r = divmod(order, len(items))
        out.append(items.pop(r))
    return out


class Index:
    name = "index"
    cpu_limit = 200
    wall_limit = 400

    def cases(self, tier):
        for i in range(len(VALUES)):
            yield {"kind": "contents", "first": i}
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            yield {"kind": "files", "files": n}
        yield {"kind": "empty"}
        yield {"kind": "big"}
        yield {"kind": "pool"}

    def indexes(self, case):
        from mixtera.core.query.mixture import MixtureKey as MK

        k = case["kind"]
        if k == "contents":
            a = VALUES[case["first"]]
            for others in itertools.chain([()], ((b,) for b in VALUES), itertools.permutations([b for b in VALUES[:5] if b != a], 2)):
                keys = [a, *others]
                if len({str(MK(copy.deepcopy(x))) for x in keys}) < len(keys):
                    continue
                yield [(x, {1 + i: {1: [(0, i + 1)]}}) for i, x in enumerate(keys)], (0, 1)
        elif k == "files":
            for locs in itertools.combinations(list(itertools.product((1, IDS[-2], IDS[-1]), (2, 10, IDS[-1]))), case["files"]):
                ds = {}
                for j, (d, f) in enumerate(locs):
                    ds.setdefault(d, {})[f] = [[(0, 1)], [(0, 2), (3, 2**40)], [(2**62, 2**63 - 1)], [(5, 6), (6, 7), (9, 12)]][j]
                yield [({"l": ["a"]}, ds), ({"l": ["b"]}, {7: {7: [(1, 2)]}})], range(min(24, [1, 2, 6, 24, 120][case["files"] + 1]) if case["files"] < 3 else 4)
        elif k == "empty":
            yield [], (0,)
            yield [({"l": ["a"]}, {1: {1: []}})], (0,)
            yield [({"l": ["a"]}, {1: {1: []}, 2: {3: [(0, 1)]}})], (0, 1)
        elif k == "big":
            yield [({"l": [str(i)]}, {d: {f: [(j * 10 + i, j * 10 + i + 1) for j in range(20)] for f in range(3)} for d in range(3)}) for i in range(12)], (0, 10**9, 12345678901)
        else:
            yield [({"l": ["a"]}, {1: {1: [(0, 1)], 2: [(3, 4)]}, 2: {3: [(5, 6)]}}), ({"l": ["b"]}, {1: {1: [(1, 2)]}})], (None,)
            yield [], (None,)

    def run(self, case, rec):
        from mixtera.core.query.mixture import MixtureKey as MK
        from mixtera.utils.utils import deserialize_chunker_index, serialize_chunker_index

        for desc, orders in self.indexes(case):
            for kind in ("list", "tuple", "cpp"):
                index = {MK(copy.deepcopy(k)): {d: {f: [tuple(i) if kind == "tuple" else list(i) for i in iv] for f, iv in fs.items()} for d, fs in ds.items()} for k, ds in desc}
                if kind == "cpp":  # hashed keys and native intervals
                    [hash(k) for k in index]
                    index = {k: {d: {f: [(int(np.int64(a)), int(np.int64(b))) for a, b in iv] for f, iv in fs.items()} for d, fs in ds.items()} for k, ds in index.items()}
                want = freeze(index)
                raw = pickle.dumps(index)
                if kind != "list":
                    orders = list(orders)[:1]
                for w, r in itertools.product(orders, orders):
                    d = Path(env.fresh_dir("c24")) / "index"
                    rec.step(2)
                    rec.state((str(want), w, r))
                    try:
                        if w is None:
                            saved = os.environ.pop("PYTEST_CURRENT_TEST", None)
                            try:
                                serialize_chunker_index(index, d)
                                got = deserialize_chunker_index(d)
                            finally:
                                if saved:
                                    os.environ["PYTEST_CURRENT_TEST"] = saved
                        else:
                            with Orders(w):
                                serialize_chunker_index(index, d)
                            with Orders(r):
                                got = deserialize_chunker_index(str(d) if r % 2 else d)
                    except Exception as e:
                        rec.fail("index-fails", f"{desc} cannot be written and read: {type(e).__name__}: {e}")
                        return
                    finally:
                        env.rmtree(str(d.parent))
                    rec.trace(2)
                    rec.outcome(str(want))
                    if freeze(got) != want:
                        rec.fail("index", f"wrote {want}, read {freeze(got)} (tasks finishing in order {w}, {r})")
                        return
                    if freeze(index) != want or pickle.dumps(index) != raw and kind == "cpp":
                        rec.fail("index-modified", f"writing changed the index {want} to {freeze(index)}")
                        return


MIX = [
    {"kind": "arbitrary", "size": 2}, {"kind": "inferring", "size": 3, "strict": False}, {"kind": "inferring", "size": 2, "strict": True},
    {"kind": "static", "keys": [{"l": "a"}, {"l": "b"}], "counts": [1, 1], "strict": True},
    {"kind": "static", "keys": [{"l": "b"}, {"l": "a"}], "counts": [2, 1], "strict": False},
]
DYN = [
    {"kind": "dynamic", "size": 2, "strict": False, "initial": MIX[1]}, {"kind": "dynamic", "size": 3, "strict": True, "initial": MIX[3]},
    {"kind": "schedule", "size": 2, "entries": [[0, MIX[3]], [1, MIX[0]], [2, MIX[1]]]},
    {"kind": "schedule", "size": 3, "entries": [[0, {"kind": "inferring", "size": 3, "strict": False}], [1, {"kind": "dynamic", "size": 3, "strict": False, "initial": {"kind": "inferring", "size": 3}}]]},
]
LAYOUTS = [["AB", "BA", "AB", "A"], ["AABAB", "", "BB", "ABA"], ["A", "", "", ""], ["ABBA", "BAAB", "", ""]]


def about_mixture(m, seen=None):
    """everything observable of a mixture, recursively through its attributes"""
    out = {"type": type(m).__name__, "size": m.chunk_size, "strict": getattr(m, "strict_mixture", None)}
    try:
        out["rows"] = sorted((str(canon(k)), v) for k, v in m.mixture_in_rows().items())
    except Exception as e:  # noqa: BLE001
        out["rows"] = type(e).__name__
    try:
        out["str"] = re.sub("0x[0-9a-f]+", "0x", str(m)) if type(m).__str__ is not object.__str__ else None
    except Exception as e:  # noqa: BLE001
        out["str"] = type(e).__name__
    try:
        out["log"] = str(m.stringified_mixture())
    except Exception as e:  # noqa: BLE001
        out["log"] = type(e).__name__
    out["attrs"] = plain(vars(m))
    return out


def plain(x, depth=0):
    from mixtera.core.query.mixture import Mixture, MixtureKey

    if depth > 8:
        return "..."
    if isinstance(x, MixtureKey):
        return ("key", tuple(sorted((p, tuple(map(repr, v))) for p, v in x.properties.items())))
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.tolist())
    if isinstance(x, dict):
        return [(plain(k, depth + 1), plain(v, depth + 1)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [plain(v, depth + 1) for v in x]
    if isinstance(x, (str, int, float, bool, bytes, type(None), Path)):
        return x
    if isinstance(x, type):
        return x.__name__
    if callable(x):
        return ("f", getattr(x, "__name__", "?"), getattr(getattr(x, "__code__", None), "co_code", None))
    if isinstance(x, Mixture) or type(x).__module__.startswith("mixtera") or type(x).__name__ == "LossProp":
        return (type(x).__name__, plain(vars(x), depth + 1) if hasattr(x, "__dict__") else repr(x))
    return type(x).__name__


def about_result(q):
    return {
        "mixture": about_mixture(q._mixture), "index": freeze(q._chunker_index), "size": q.chunk_size,
        "types": {k: v.__name__ for k, v in q.dataset_type.items()}, "paths": dict(q.file_path),
        "funcs": {k: f('{"text": "t€"}') for k, f in q.parsing_func.items()}, "meta": {k: (v if k == "total_length" else len(v)) for k, v in q._meta.items()},
        "ids": sorted((str(canon(k)), v) for k, v in q._key_id_map.items()),
        "log": [(i, about_mixture(m)) for i, m in q._mixture_log], "stop": q.stop_on_none, "dir": q._query_log_dir,
    }


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: (a.get(k), b.get(k)) for k in {*a, *b} if a.get(k) != b.get(k)}
    return a, b


class Result:
    """query results, saved at every position; what follows is the same from the original and from the copy"""

    name = "result"
    cpu_limit = 200
    wall_limit = 400

    def setup(self):
        self.w = world.world()

    def cases(self, tier):
        for alpha in ("single", "multi") if tier == "quick" else ("single", "two", "multi"):
            for layout in LAYOUTS:
                for m in MIX + DYN:
                    yield {"alpha": alpha, "layout": layout, "mix": m}

    def draw(self, q, n, dyn, start=0):
        out = []
        for i in range(start, start + n):
            if dyn and i % 2 == 1:
                ids = len(q._key_id_map)
                q._mixture.process_client_feedback(jobs.feedback(i, [3.0, 1.0, 0.5, 2.0][:ids] + [0.25] * (ids - 4), [1, 2, 1, 1][:ids] + [1] * (ids - 4), 0))
                q.update_mixture(q._mixture)
            try:
                c = next(q)
            except StopIteration:
                c = None
            if c is None:
                out.append("end")
                break
            out.append(jobs.describe(c))
        return out

    def run(self, case, rec):
        from mixtera.core.query.query_result import QueryResult

        table = build(self.w, case["layout"], case["alpha"])[0]
        dyn = case["mix"]["kind"] in ("dynamic", "schedule")
        total = sum(map(len, case["layout"]))
        make = lambda: QueryResult(self.w.cmdc, table, jobs.mixture(case["mix"]))  # noqa: E731
        want_all = self.draw(make(), 60, dyn)
        if total and not want_all:
            rec.fail("setup", f"{case}: nothing drawn")
            return
        rec.outcome(str(want_all))
        for pos in range(min(len(want_all), 5) + 1):
            for path in ("cache", "cache-cache", "cache-noreplay") + (("pickle", "dill") if pos == 0 else ()):
                q = make()
                self.draw(q, pos, dyn)
                before = about_result(q)
                where = f"{case}, after {pos} chunks, {path}: "
                rec.step()
                rec.state((str(case), pos, path))
                try:
                    r = self.send(q, path)
                except Exception as e:
                    rec.fail("result-fails", where + f"{type(e).__name__}: {e}")
                    return
                rec.trace(2)
                if about_result(q) != before:
                    rec.fail("result-modified", where + f"the original changed: {diff(before, about_result(q))}")
                    return
                got = about_result(r)
                if got != before:
                    rec.fail("result", where + f"differs: {diff(before, got)}")
                    return
                if path == "cache-noreplay":
                    if r._num_returns_gen and self.draw(r, 60, dyn) == []:
                        rec.fail("result-noreplay", where + "nothing can be drawn")
                        return
                    continue
                n = min(pos, len(want_all))
                for name, x in (("copy", r), ("original", q)):
                    rest = self.draw(x, 60, dyn, pos)
                    want = want_all[n:] if want_all[n:] else ["end"]
                    if rest != want:
                        i = next(i for i, (a, b) in enumerate(itertools.zip_longest(rest, want)) if a != b)
                        rec.fail("result-continues", where + f"the {name} continues with other chunks, chunk {pos + i}: {rest[i:i + 1]} instead of {want[i:i + 1]}")
                        return

    @staticmethod
    def send(q, path):
        from mixtera.core.query.query_result import QueryResult

        if path == "pickle":
            return pickle.loads(pickle.dumps(q))
        if path == "dill":
            return dill.loads(dill.dumps(q))
        d = Path(env.fresh_dir("c24"))
        try:
            q.to_cache(d)
            if path == "cache-noreplay":
                return QueryResult.from_cache(d, replay=False)
            r = QueryResult.from_cache(d)
            if path == "cache-cache":
                d2 = Path(env.fresh_dir("c24"))
                try:
                    r.to_cache(d2)
                    r = QueryResult.from_cache(d2)
                finally:
                    env.rmtree(str(d2))
            return r
        finally:
            env.rmtree(str(d))


class Chunk:
    """chunks in every configuration"""

    name = "chunk"
    cpu_limit = 200
    wall_limit = 400

    def setup(self):
        self.w = world.world()

    def cases(self, tier):
        for alpha in ("single", "two", "multi"):
            for layout in LAYOUTS:
                for m in MIX:
                    yield {"alpha": alpha, "layout": layout, "mix": m}

    def run(self, case, rec):
        from mixtera.core.query.query_result import QueryResult

        q = QueryResult(self.w.cmdc, build(self.w, case["layout"], case["alpha"])[0], jobs.mixture(case["mix"]))
        modes = [None]
        for mt in ("simple", "window"):
            for ws, be in itertools.product((1, 2, 128), (True, False)) if mt == "window" else [(128, True)]:
                for pre in (False, True):
                    modes.append({"chunk_reading_mixture_type": mt, "chunk_reading_window_size": ws, "chunk_reading_window_best_effort": be, "chunk_reading_prefetch_first_sample": pre})
        for n, c in enumerate(q):
            if n == 4:
                break
            raw0 = dill.dumps(c)
            for mode in modes:
                for skip in (0, 1):
                    c = dill.loads(raw0)
                    c._samples_to_skip = skip
                    if mode:
                        from mixtera.core.client.mixtera_client import ResultStreamingArgs

                        c.configure_result_streaming(None, ResultStreamingArgs(job_id="j", **mode))
                    before = plain(vars(c))
                    for name, f in {"dill": lambda x: dill.loads(dill.dumps(x)), "pickle": lambda x: pickle.loads(pickle.dumps(x)), "twice": lambda x: dill.loads(dill.dumps(dill.loads(dill.dumps(x)))),
                                    "copy": copy.deepcopy}.items():
                        rec.step()
                        rec.state((str(case), n, str(mode), skip, name))
                        try:
                            r = f(c)
                        except Exception as e:
                            rec.fail("chunk-fails", f"{case} chunk {n} {mode} {name}: {type(e).__name__}: {e}")
                            return
                        rec.trace(2)
                        if plain(vars(c)) != before:
                            rec.fail("chunk-modified", f"{case} chunk {n} {mode} {name}: original changed")
                            return
                        if plain(vars(r)) != before:
                            rec.fail("chunk", f"{case} chunk {n} {mode} {name}: {[(a, b) for a, b in zip(before, plain(vars(r))) if a != b]}")
                            return
                    s = list(c) if mode else None
                    if mode and s != list(r):
                        rec.fail("chunk-stream", f"{case} chunk {n} {mode} skip {skip}: streams differ")
                        return
                    rec.outcome(str(s))


class Mixtures:
    """mixtures fresh, informed about the data, and after feedback"""

    name = "mixture"
    cpu_limit = 200
    wall_limit = 400

    def setup(self):
        self.w = world.world()

    def cases(self, tier):
        for i in range(len(self.all())):
            yield {"mixture": i}

    def all(self):
        from mixtera.core.query.mixture import MixtureKey, StaticMixture

        out = [(str(m), (lambda m=m: jobs.mixture(m))) for m in MIX + DYN]
        for v in VALUES:
            out.append((f"static {v}", lambda v=v: StaticMixture(4, {MixtureKey(copy.deepcopy(v)): 0.25, MixtureKey({"q": ["z"]}): 0.75})))
        from mixtera.core.query.mixture import hierarchical_static_mixture as h

        if all(hasattr(h, x) for x in ("HierarchicalStaticMixture", "MixtureNode", "Component")):
            for strict in (True, False):
                def make(strict=strict):
                    inner = h.MixtureNode("s", [h.Component(["x"], 0.5), h.Component(["y", "ü"], 0.5)])
                    return h.HierarchicalStaticMixture(8, h.MixtureNode("l", [h.Component(["a"], 0.5, submixture=inner), h.Component(["b"], 0.5)]), strict=strict)

                try:
                    make()
                except Exception:  # noqa: BLE001
                    continue
                out.append(("hierarchical", make))
        return out

    def run(self, case, rec):
        from mixtera.core.query.query_result import QueryResult

        name, make = self.all()[case["mixture"]]
        table = build(self.w, LAYOUTS[1], "single")[0]
        for stage in ("fresh", "informed", "fed"):
            m = make()
            if stage != "fresh":
                try:
                    q = QueryResult(self.w.cmdc, table, m)
                except Exception:  # noqa: BLE001  not applicable to this data
                    continue
                if stage == "fed":
                    n = len(q._key_id_map)
                    for step in (1, 2):
                        m.process_client_feedback(jobs.feedback(step, [3.0, 1.0, 2.0, 1.0][:n], [1, 1, 2, 1][:n], 0))
            before = about_mixture(m)
            for t, f in {"dill": lambda x: dill.loads(dill.dumps(x)), "pickle": lambda x: pickle.loads(pickle.dumps(x)), "copy": copy.deepcopy,
                         "twice": lambda x: pickle.loads(pickle.dumps(dill.loads(dill.dumps(x)))), "wire": wire_object}.items():
                rec.step()
                rec.state((name, stage, t))
                try:
                    r = f(m)
                except Exception as e:
                    rec.fail("mixture-fails", f"{name} {stage} {t}: {type(e).__name__}: {e}")
                    return
                rec.trace(2)
                if about_mixture(m) != before:
                    rec.fail("mixture-modified", f"{name} {stage} {t}: {diff(before, about_mixture(m))}")
                    return
                if about_mixture(r) != before:
                    rec.fail("mixture", f"{name} {stage} {t}: {diff(before, about_mixture(r))}")
                    return
                if stage == "fresh":
                    try:
                        want = [jobs.describe(c) for c in QueryResult(self.w.cmdc, table, make())]
                    except Exception:  # noqa: BLE001
                        continue
                    got = [jobs.describe(c) for c in QueryResult(self.w.cmdc, table, r)]
                    rec.outcome(str(want))
                    if got != want:
                        rec.fail("mixture-chunks", f"{name} {t}: other chunks")
                        return
                elif stage == "fed" and t != "wire":
                    # both react in the same way to what follows
                    fb = jobs.feedback(3, [1.0, 5.0, 2.0, 1.0][:n], [2, 1, 2, 1][:n], 0)
                    a = copy.deepcopy(m)
                    if (a.process_client_feedback(fb), about_mixture(a)) != (r.process_client_feedback(fb), about_mixture(r)):
                        rec.fail("mixture-feedback", f"{name} {t}: reacts differently to feedback")
                        return


class Buf:
    def __init__(self):
        self.b = bytearray()

    def write(self, d):
        self.b += d

    async def drain(self):
        pass


def wire(writer, reader, cuts=(), timeout=None):
    """writer(Buf) and reader(StreamReader) with the bytes arriving in pieces"""
    async def go():
        b = Buf()
        await writer(b)
        sr = asyncio.StreamReader()
        task = asyncio.ensure_future(reader(sr))
        last = 0
        data = bytes(b.b)
        for c in [*cuts, len(data)]:
            if c > len(data):
                continue
            if c > last:
                sr.feed_data(data[last:c])
            last = max(last, c)
            for _ in range(6):
                await asyncio.sleep(0)
        sr.feed_data(b"TAIL")
        sr.feed_eof()
        v = await task
        rest = await sr.read()
        return v, rest, len(data)

    return asyncio.run(go())


def wire_object(x):
    from mixtera.network import network_utils as n

    return wire(lambda b: n.write_pickeled_object(x, 8, b), lambda r: n.read_pickeled_object(8, r))[0]


class Wire:
    name = "wire"
    cpu_limit = 200
    wall_limit = 400

    def cases(self, tier):
        for k in ("utf8", "int", "float", "bytes", "object", "array"):
            yield {"kind": k, "cuts": 2 if tier == "quick" else 3}

    def values(self, k):
        from mixtera.network import network_utils as n

        if k == "utf8":
            for s in ("", "a", "ä€漢\U0001f600", "\0", "x" * 300, "\ud7ff", " \n\r\t", "0"):
                for size in (2, 4, 8):
                    yield s, lambda b, s=s, z=size: n.write_utf8_string(s, z, b), lambda r, z=size: n.read_utf8_string(z, r)
        elif k == "int":
            for size in (1, 2, 4, 8):
                for v in {0, 1, -1, 127, -128, 2**(8 * size - 1) - 1, -2**(8 * size - 1), 256**(size - 1)}:
                    if -2**(8 * size - 1) <= v < 2**(8 * size - 1):
                        yield v, lambda b, v=v, z=size: n.write_int(v, z, b), lambda r, z=size: n.read_int(z, r)
        elif k == "float":
            for v in (0.0, -0.0, 1.5, -1e308, 5e-324, float("inf"), 1 / 3, 1):
                yield v, lambda b, v=v: n.write_float(v, b), lambda r: n.read_float(r)
        elif k == "bytes":
            for v in (None, b"\0", b"abc", bytes(range(256)) * 2, b"\xff" * 8):
                for size in (2, 4, 8):
                    yield v, lambda b, v=v, z=size: n.write_bytes_obj(v, z, b), lambda r, z=size: n.read_bytes_obj(z, r)
        elif k == "object":
            for v in (None, 0, [], {}, {"a": [1, {"b": (2, 3)}]}, "ü", b"x", [None] * 40, {1: {2: [3]}}, (1.5, True)):
                yield v, lambda b, v=v: n.write_pickeled_object(v, 4, b), lambda r: n.read_pickeled_object(4, r)
        else:
            for dt in ("float32", "float64", "int32", "int64", "uint8", "bool"):
                for v in ([], [0], [1, 2, 3], [[1, 2], [3, 4]], 5):
                    a = np.array(v, dtype=dt)
                    yield a, lambda b, a=a: n.write_numpy_array(a, 4, 8, b), lambda r: n.read_numpy_array(4, 8, r)
            yield None, lambda b: n.write_numpy_array(None, 4, 8, b), lambda r: n.read_numpy_array(4, 8, r)
            a = np.arange(12).reshape(3, 4)
            yield a.T, lambda b: n.write_numpy_array(a.T, 4, 8, b), lambda r: n.read_numpy_array(4, 8, r)
            yield a[::2, 1::2], lambda b: n.write_numpy_array(a[::2, 1::2], 4, 8, b), lambda r: n.read_numpy_array(4, 8, r)

    def run(self, case, rec):
        for v, w, r in self.values(case["kind"]):
            size = wire(w, r)[2]
            pts = list(range(1, size)) if size < 40 else sorted({*range(1, 20), *range(size // 2 - 2, size // 2 + 2), *range(size - 3, size)})
            todo = itertools.chain.from_iterable(itertools.combinations(pts, k) for k in range(case["cuts"] + 1 if len(pts) < 14 else (case["cuts"])))
            for cuts in todo:
                rec.step()
                rec.state((case["kind"], repr(v), size, cuts))
                try:
                    got, rest, _ = wire(w, r, cuts)
                except Exception as e:
                    rec.fail("wire-fails", f"{v!r} in pieces {cuts} of {size} bytes: {type(e).__name__}: {e}")
                    return
                rec.trace()
                if isinstance(v, np.ndarray):
                    same = isinstance(got, np.ndarray) and got.dtype == v.dtype and got.shape == v.shape and np.array_equal(got, v)
                else:
                    same = got == v and (type(got) in (type(v), bytearray) or isinstance(v, int)) and repr(float(got)) == repr(float(v)) if case["kind"] == "float" else got == v and (got is None) == (v is None)
                if not same or rest != b"TAIL":
                    rec.fail("wire", f"{v!r} in pieces {cuts} of {size} bytes arrives as {got!r}, followed by {rest!r}")
                    return
            rec.outcome(repr(v))


HARNESSES = [Index(), Result(), Chunk(), Mixtures(), Wire()]
