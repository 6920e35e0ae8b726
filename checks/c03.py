"""C03: chunk distribution over groups, nodes and workers."""
import itertools
import os
import pickle

import dill
from c01 import build, make_mixture
from mc import world
from mc.world import flatc

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all request orders on the real ChunkDistributor, every transition compared with a reference model"
RULE = ("a case = topology (groups x nodes x workers) x data x mixture x first requests; all sequences of next_chunk_for requests up to the depth bound are executed on the "
        "real distributor (small topologies: every sequence; larger ones: breadth first with merging of equal states of model and implementation); "
        "states = (model positions, fetch order, implementation cache), transitions = requests; in local mode real forked workers are driven in every request order")
ASSUMPTIONS = ["native chunk-index stand-in (checked by C27)", "requests reach the server one at a time (its event loop never interrupts next_chunk_for; checked by C19)"]

DATA = [
    {"alpha": "single", "layout": ["AABAB", "BBA"], "m": {"kind": "arbitrary", "size": 2}},
    {"alpha": "single", "layout": ["AABB", "BA"], "m": {"kind": "static", "keys": [{"l": "a"}, {"l": "b"}], "counts": [1, 1], "strict": True}},
    {"alpha": "single", "layout": ["AAAB", "AAB"], "m": {"kind": "static", "keys": [{"l": "a"}, {"l": "b"}], "counts": [1, 1], "strict": False}},
]
SMALL = [(1, 1, 1), (1, 1, 0), (1, 1, 2), (1, 2, 1), (2, 1, 1), (1, 3, 1), (3, 1, 1)]
LARGE = [(2, 2, 1), (1, 2, 2), (2, 1, 2), (2, 2, 2), (2, 3, 1), (1, 3, 2)]


def content(chunk):
    """what a chunk means to its reader"""
    return (
        tuple((k, tuple(v)) for k, v in sorted(flatc(chunk._result_index).items())),
        tuple(sorted((str(k), v) for k, v in (chunk._mixture or {}).items())),
    )


def samples(cont):
    return [s for _, v in cont[0] for s in v]


def load(raw):
    return dill.loads(raw) if isinstance(raw, (bytes, bytearray)) else raw


class Model:
    """Reference: the i-th fetch of any group gets the i-th chunk of the result; nodes of a group replay it."""

    def __init__(self, dp, nodes, workers, ref):
        self.dp, self.nodes, self.W, self.ref = dp, nodes, max(1, workers), ref
        self.pos = {}
        self.assigned = {}  # (group, worker, k) -> index of the chunk in the result
        self.next = 0

    def request(self, g, n, w):
        k = self.pos.get((g, n, w), 0)
        a = self.assigned.get((g, w, k))
        if a is None:
            if self.next >= len(self.ref):
                return None
            a = self.assigned[(g, w, k)] = self.next
            self.next += 1
        self.pos[(g, n, w)] = k + 1
        return a

    def key(self):
        return (tuple(sorted(self.pos.items())), tuple(sorted(self.assigned.items())))


def impl_key(d):
    """implementation state as far as it is visible; unknown layouts simply do not take part in merging"""
    try:
        return repr((d._next_chunk, {g: sorted(c) for g, c in d._chunk_cache.items()}, d._chunk_usage))
    except Exception:  # noqa: BLE001
        return None


class Orders:
    name = "request-orders"

    def setup(self):
        self.w = world.world()
        self.tables = {}

    def cases(self, tier):
        deep = tier == "thorough"
        for di, c in enumerate(DATA):
            for top in SMALL:
                acts = top[0] * top[1] * max(1, top[2])
                depth = {1: 7, 2: 11 if deep else 8, 3: 8 if deep else 6}[acts]
                for first in range(acts):
                    yield dict(c, top=list(top), depth=depth, first=[first], merge=False, des=di == 1)
            for top in LARGE:
                acts = top[0] * top[1] * max(1, top[2])
                depth = (13 if acts <= 4 else 9) if deep else (9 if acts <= 4 else 6)
                for first in itertools.product(range(acts), repeat=2 if acts > 4 else 1):
                    yield dict(c, top=list(top), depth=depth, first=list(first), merge=True, des=False)

    def run(self, case, rec):
        from mixtera.core.query.chunk_distributor import ChunkDistributor
        from mixtera.core.query.query_result import QueryResult

        table, selected, _ = build(self.w, case["layout"], case["alpha"])
        ref = []
        qr = QueryResult(self.w.cmdc, table, make_mixture(case["m"]))
        for c in qr:
            ref.append(content(c))
        dp, nodes, workers = case["top"]
        W = max(1, workers)
        acts = [(g, n, w) for g in range(dp) for n in range(nodes) for w in range(W)]
        where = f"{case['layout']} {case['m']} groups x nodes x workers={case['top']} "

        def execute(path):
            """run a request sequence; check only its last request (prefixes were checked before)"""
            d = ChunkDistributor(dp, nodes, workers, QueryResult(self.w.cmdc, table, make_mixture(case["m"])), "job")
            m = Model(dp, nodes, workers, ref)
            for i, a in enumerate(path):
                want = m.request(*a)
                try:
                    got = d.next_chunk_for(*a, case["des"])
                except StopIteration:
                    got = None
                rec.step()
                if (got is None) != (want is None):
                    rec.fail("end", where + f"requests {path[:i + 1]}: got {'the end' if got is None else 'a chunk'}, expected {'the end' if want is None else 'chunk ' + str(want)}")
                    return None
                if got is None:
                    continue
                if i == len(path) - 1 or case["merge"] is False:
                    cont = content(load(got))
                    if cont != ref[want]:
                        other = [j for j, r in enumerate(ref) if r == cont]
                        rec.fail("chunk", where + f"requests {path[:i + 1]}: last one got chunk {other} instead of chunk {want}: {cont[0]}")
                        return None
            rec.trace()
            return m.key(), impl_key(d)

        # what the reference chunks are must itself be sound: disjoint and selected
        allref = [s for r in ref for s in samples(r)]
        if len(set(allref)) != len(allref) or not set(allref) <= selected:
            rec.fail("overlap", where + f"chunks of one result overlap: {ref}")
            return
        start = [acts[i] for i in case["first"]]
        if not case["merge"]:
            for rest in itertools.product(acts, repeat=case["depth"] - len(start)):
                k = execute(start + list(rest))
                if k is None:
                    return
                rec.state((str(case["m"]), tuple(case["top"]), k))
            rec.outcome((str(case["m"]), tuple(case["top"]), len(ref)))
            return
        seen = set()
        frontier = [start]
        execute(start[:1])
        k = execute(start)
        if k is None:
            return
        for _ in range(case["depth"] - len(start)):
            new = []
            for p in frontier:
                for a in acts:
                    k = execute(p + [a])
                    if k is None:
                        return
                    if k in seen:
                        continue
                    seen.add(k)
                    rec.state((str(case["m"]), tuple(case["top"]), k))
                    new.append(p + [a])
            frontier = new
        rec.outcome((str(case["m"]), tuple(case["top"]), len(ref)))


class LocalWorkers:
    """Local mode: the data loader forks workers, each streams its chunks from its own copy of the distributor."""

    name = "forked-workers"

    def setup(self):
        self.w = world.world()

    def cases(self, tier):
        for c in DATA:
            for workers, n in ((2, 7 if tier == "thorough" else 6), (3, 5 if tier == "thorough" else 4)):
                for order in itertools.product(range(workers), repeat=n):
                    yield dict(c, workers=workers, order=list(order))

    def run(self, case, rec):
        from mixtera.core.query.chunk_distributor import ChunkDistributor
        from mixtera.core.query.query_result import QueryResult

        table, selected, _ = build(self.w, case["layout"], case["alpha"])
        ref = [content(c) for c in QueryResult(self.w.cmdc, table, make_mixture(case["m"]))]
        W = case["workers"]
        d = ChunkDistributor(1, 1, W, QueryResult(self.w.cmdc, table, make_mixture(case["m"])), "job")
        procs = []
        for wid in range(W):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(w1), os.close(r2)
                    for _, a, b in procs:
                        os.close(a), os.close(b)
                    it = d._stream_chunks_for_worker(0, 0, wid)
                    while os.read(r1, 1):
                        try:
                            res = content(load(next(it)))
                        except StopIteration:
                            res = None
                        except BaseException as e:  # noqa: BLE001
                            res = "error: " + repr(e)
                        b = pickle.dumps(res)
                        os.write(w2, len(b).to_bytes(4, "big") + b)
                finally:
                    os._exit(0)
            os.close(r1), os.close(w2)
            procs.append((pid, w1, r2))
        got = []
        try:
            for o in case["order"] + [i % W for i in range(W * (len(ref) + 1))]:
                _, w1, r2 = procs[o]
                os.write(w1, b"x")
                n = int.from_bytes(os.read(r2, 4), "big")
                b = b""
                while len(b) < n:
                    b += os.read(r2, n - len(b))
                res = pickle.loads(b)
                rec.step()
                if isinstance(res, str):
                    rec.fail("worker-error", f"{case}: worker {o}: {res}")
                    return
                if res is not None:
                    got.append((o, res))
        finally:
            for pid, w1, r2 in procs:
                os.close(w1), os.close(r2)
                os.waitpid(pid, 0)
        rec.trace()
        if [g for _, g in got] != ref:
            rec.fail("chunk", f"{case}: workers received {got}, the result consists of {ref}")
        rec.state((case["workers"], str(case["m"]), tuple(o for o, _ in got)))
        rec.outcome((str(case["m"]), tuple(o for o, _ in got)))


HARNESSES = [Orders(), LocalWorkers()]
