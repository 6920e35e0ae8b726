"""C04: chunks and sample streams are reproducible."""
import itertools
import json
import os
import pickle
import random
import subprocess
import sys
from pathlib import Path

import dill

from c01 import build
from mc import env, jobs, shim, space, world
from mc.world import canon

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of index enumeration orders (all permutations of domains x datasets x files), of pickling points and of streaming arguments on the real query result and chunks, "
             "comparing complete chunk sequences and sample streams")
RULE = ("a case = layout x mixture (arbitrary, inferring, static, schedule, dynamic; feedback at fixed points); for every enumeration order of the index, and for every transport (pickle, dill, cache, chunk by chunk), "
        "the sequence of chunks and the streams of each chunk under every streaming mode are compared; fresh interpreters with other hash seeds repeat a digest of the whole space; "
        "states = distinct (chunk, mode) streams, transitions = chunks drawn, traces = complete runs compared")
ASSUMPTIONS = ["the order in which the native index enumerates is arbitrary and enumerated here through the stand-in; parallel native index building itself is checked by C27",
               "hash seeds are represented by eight values in fresh interpreters"]

K = {c: {"l": c.lower()} for c in "ABC"}
AB = {"kind": "static", "keys": [K["A"], K["B"]], "counts": [1, 1], "strict": True}
MIX = [
    {"kind": "arbitrary", "size": 1}, {"kind": "arbitrary", "size": 2}, {"kind": "arbitrary", "size": 3},
    {"kind": "inferring", "size": 2, "strict": True}, {"kind": "inferring", "size": 2, "strict": False},
    {"kind": "inferring", "size": 3, "strict": False}, {"kind": "inferring", "size": 4, "strict": True}, {"kind": "inferring", "size": 5, "strict": False},
    {"kind": "inferring", "size": 7, "strict": False},
    AB, dict(AB, strict=False), dict(AB, counts=[2, 1], strict=False), dict(AB, keys=[K["B"], K["A"]], counts=[2, 1], strict=False),
    {"kind": "static", "keys": [K["C"], K["B"], K["A"]], "counts": [1, 1, 1], "strict": False},
    {"kind": "schedule", "size": 2, "entries": [[0, AB], [2, {"kind": "arbitrary", "size": 2}]]},
    {"kind": "dynamic", "size": 3, "initial": {"kind": "inferring", "size": 3}, "strict": False},
    {"kind": "dynamic", "size": 2, "initial": dict(AB, strict=False), "strict": False},
]
# coarse keys that match several domains
COARSE = [
    {"kind": "static", "keys": [{"l": "a"}], "counts": [2], "strict": True},
    {"kind": "static", "keys": [{"l": "a"}, {"l": "b"}], "counts": [1, 2], "strict": False},
    {"kind": "static", "keys": [{"l": "b"}, {"l": "a"}], "counts": [1, 2], "strict": False},
    {"kind": "static", "keys": [{"l": ["a", "b"]}], "counts": [3], "strict": False},
    {"kind": "static", "keys": [{"l": ["b", "a"]}], "counts": [3], "strict": True},
]
LAYOUTS = [["AB", "BA", "AB", "A"], ["AABC", "CB", "", "BCA"], ["ABC", "ABC", "ABC", ""], ["A", "B", "C", "AABBCC"], ["ABAB", "", "BBA", "AC"]]
MODES = [
    {"chunk_reading_mixture_type": "simple"},
    {"chunk_reading_mixture_type": "window", "chunk_reading_window_size": 2, "chunk_reading_window_best_effort": False},
    {"chunk_reading_mixture_type": "window", "chunk_reading_window_size": 3, "chunk_reading_window_best_effort": False},
]


def fix(m):
    """values of keys as lists"""
    return m


class Base:
    cpu_limit = 200
    wall_limit = 400

    def setup(self):
        self.w = world.world()

    def scenarios(self, tier):
        for alpha in ("single", "two", "multi"):
            lays = list(LAYOUTS)
            if tier == "thorough":
                lays += [l for l in space.layouts(5, "ABC", 3)][::7]
            for layout in lays:
                for mix in MIX if alpha == "single" else MIX[:9] + COARSE:
                    yield {"alpha": alpha, "layout": layout, "mix": mix}

    def table(self, case):
        return build(self.w, case["layout"], case["alpha"])[0]

    def result(self, case, table):
        from mixtera.core.query.query_result import QueryResult

        return QueryResult(self.w.cmdc, table, jobs.mixture(case["mix"]))

    def draw(self, qr, case, rec, transport=None, limit=60):
        """all chunks (with feedback after the 2nd and 4th), their streams in every mode"""
        out = []
        for i in range(limit):
            if i in (2, 4) and case["mix"]["kind"] in ("schedule", "dynamic"):
                qr._mixture.process_client_feedback(jobs.feedback(i, [3.0, 1.0, 0.5][: len(qr._key_id_map)] + [0.25] * max(0, len(qr._key_id_map) - 3),
                                                                  [1] * len(qr._key_id_map), 0))
                qr.update_mixture(qr._mixture)
            try:
                c = next(qr)
            except StopIteration:
                out.append("end")
                return out
            rec.step()
            out.append(self.observe(c, rec, transport))
        out.append("...")
        return out

    def observe(self, c, rec, transport=None):
        if transport:
            c = transport(c)
        raw = dill.dumps(c)
        res = [tuple((canon(k), tuple((d, tuple((f, tuple(map(tuple, iv))) for f, iv in fs.items())) for d, fs in sorted(ds.items()))) for k, ds in sorted(c._result_index.items(), key=lambda x: x[0])),
               c.mixture_id]
        for m in MODES:
            x = dill.loads(raw)
            s = tuple(jobs.stream(x, **m))
            rec.state((res[0], str(m), s))
            res.append(s)
        return tuple(res)


class IndexOrder(Base):
    name = "index-order"

    def cases(self, tier):
        yield from self.scenarios(tier)

    def run(self, case, rec):
        table = self.table(case)
        n = len({c for s in case["layout"] for c in s if c != "."})
        ref = None
        try:
            for perm in itertools.permutations(range(n)):
                for ds in ("given", "reversed"):
                    for fs in ("given", "reversed"):
                        order = {"domains": list(perm), "datasets": ds, "files": fs}
                        shim.ORDER[0] = order
                        random.seed(hash(perm) & 7)  # whatever the process did before
                        got = self.draw(self.result(case, table), case, rec)
                        rec.trace()
                        if ref is None:
                            ref = got
                            rec.outcome(got)
                        elif got != ref:
                            i = next(i for i, (a, b) in enumerate(itertools.zip_longest(ref, got)) if a != b)
                            rec.fail("index-order", f"{case} index enumerated as {order}: chunk {i} and its streams differ:\n{ref[i:i + 1]}\n{got[i:i + 1]}")
                            return
        finally:
            shim.ORDER[0] = "given"


class Transport(Base):
    """pickling of results before they are consumed and of chunks at any time changes nothing"""

    name = "transport"

    def cases(self, tier):
        for s in self.scenarios(tier):
            if s["mix"]["kind"] in ("arbitrary", "inferring", "static"):
                yield s

    def run(self, case, rec):
        from mixtera.core.query.query_result import QueryResult

        table = self.table(case)
        ref = self.draw(self.result(case, table), case, rec)
        rec.outcome(ref)

        def cached(q):
            d = Path(env.fresh_dir("c04"))
            q.to_cache(d)
            r = QueryResult.from_cache(d)
            env.rmtree(str(d))
            return r

        results = {"same": lambda q: q, "pickle": lambda q: pickle.loads(pickle.dumps(q)), "dill": lambda q: dill.loads(dill.dumps(q)), "cache": cached,
                   "pickle-twice": lambda q: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(q)))), "cache-pickle": lambda q: pickle.loads(pickle.dumps(cached(q)))}
        chunks = {"same": None, "dill": lambda c: dill.loads(dill.dumps(c)), "dill-twice": lambda c: dill.loads(dill.dumps(dill.loads(dill.dumps(c)))), "configured": self.configured}
        for rn, rt in results.items():
            for cn, ct in chunks.items():
                if (rn, cn) == ("same", "same"):
                    continue
                got = self.draw(rt(self.result(case, table)), case, rec, ct)
                rec.trace()
                if got != ref:
                    i = next(i for i, (a, b) in enumerate(itertools.zip_longest(ref, got)) if a != b)
                    rec.fail("transport", f"{case} result {rn}, chunk {cn}: chunk {i} and its streams differ:\n{ref[i:i + 1]}\n{got[i:i + 1]}")
                    return

    @staticmethod
    def configured(c):
        """streamed once completely before it is sent"""
        jobs.stream(c)
        return dill.loads(dill.dumps(c))


class HashSeed(Base):
    """fresh interpreters with other hash seeds produce the same digest over all scenarios"""

    name = "hash-seed"

    def cases(self, tier):
        for part in range(4):
            for seed in (1, 2, 3, 4) if tier == "quick" else range(1, 9):
                yield {"seed": seed, "part": part}

    def digest(self, part, rec):
        import hashlib

        h = hashlib.sha256()
        per = []
        for i, s in enumerate(self.scenarios("quick")):
            if i % 4 != part:
                continue
            got = self.draw(self.result(s, self.table(s)), s, rec)
            d = hashlib.sha256(repr(got).encode()).hexdigest()[:16]
            per.append(d)
            h.update(d.encode())
        return per

    def run(self, case, rec):
        if not hasattr(self, "ref"):
            self.ref = {}
        if case["part"] not in self.ref:
            self.ref[case["part"]] = self.digest(case["part"], rec)
        e = dict(os.environ, PYTHONHASHSEED=str(case["seed"] * 977))
        e.pop("LD_PRELOAD", None)
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        code = ("import sys; sys.path[:0]=[%r,%r]\nfrom mc import env, runner; env.boot()\nimport c04, json, os\nh=c04.HashSeed(); h.setup()\n"
                "print('DIGEST'+json.dumps(h.digest(%d, runner.Rec()))); sys.stdout.flush(); env._cleanup(env._scratch, env._scratch_pid); os._exit(0)") % (root, os.path.join(root, "checks"), case["part"])
        out = subprocess.run([sys.executable, "-B", "-c", code], env=e, capture_output=True, text=True, timeout=300, check=False)
        line = [l for l in out.stdout.splitlines() if l.startswith("DIGEST")]
        if not line:
            rec.fail("hash-seed-crash", f"{case}: the other interpreter failed: {out.stderr[-1500:]}")
            return
        got = json.loads(line[0][6:])
        rec.trace(len(got))
        rec.outcome((case["part"], tuple(got)))
        if got != self.ref[case["part"]]:
            scen = [s for i, s in enumerate(self.scenarios("quick")) if i % 4 == case["part"]]
            bad = [s for s, a, b in zip(scen, got, self.ref[case["part"]]) if a != b]
            rec.fail("hash-seed", f"{case}: {len(bad)} scenarios give other chunks or streams under another hash seed, e.g. {bad[0]}")


HARNESSES = [IndexOrder(), Transport(), HashSeed()]
