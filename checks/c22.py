"""C22: mixture schedules and feedback take effect at the right step, monotonically."""
import itertools
from fractions import Fraction as Q

import numpy as np

import c20
from c01 import build
from mc import env, jobs, world
from mc.world import canon, flatc

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all histories of chunk requests and feedback reports up to a depth on the real LocalStub, chunk distributor and mixtures, against a model of the effective mixture"
RULE = ("a case = a schedule or dynamic mixture and the first operations of a history; within it all continuations up to the depth (chunk requests, step reports in any order and repeated, loss reports for old and new mixtures); "
        "states = distinct (mixture, history) prefixes, transitions = operations, traces = histories compared with the model")
ASSUMPTIONS = ["every loss report that reaches the server counts (the training process sends one per step, see the handler harness); reports that arrive while no chunk of a schedule entry can have been drawn count for the entry that is current then",
               "enough data for every mixture (running out of data: C02)"]

K = {c: {"l": c.lower()} for c in "ABC"}
LAYOUT = ["ABC" * 20, "CBA" * 20, "AABBCC" * 10, ""]


def static(keys, counts, strict=True):
    return {"kind": "static", "keys": [K[k] for k in keys], "counts": counts, "strict": strict}


A4, B4, C4 = static("A", [4]), static("B", [4]), static("C", [4])
AB, BC = static("AB", [3, 1]), static("BC", [1, 3])
INF = {"kind": "inferring", "size": 4, "strict": True}
ARB = {"kind": "arbitrary", "size": 4}
DYN = {"kind": "dynamic", "size": 4, "initial": AB}
DINF = {"kind": "dynamic", "size": 4, "initial": INF}

SCHEDULES = {
    "two": [[0, A4], [2, B4]],
    "three": [[0, A4], [1, AB], [3, BC]],
    "unsorted": [[2, C4], [0, A4], [1, B4]],
    "late": [[1, A4], [2, B4], [3, A4]],
    "inferring": [[0, A4], [1, INF], [3, B4]],
    "inferring-first": [[0, INF], [2, A4]],
    "arbitrary": [[0, ARB], [1, AB], [2, ARB]],
    "dynamic": [[0, A4], [1, DYN], [3, B4]],
    "dynamic-first": [[0, DYN], [2, C4]],
    "dynamic-inf": [[0, A4], [1, DINF]],
    "same": [[0, AB], [1, AB], [2, AB]],
    "nested": [[0, A4], [1, {"kind": "schedule", "size": 4, "entries": [[0, B4], [2, C4]]}]],
}
ALL = {"A": 80, "B": 80, "C": 80}


def shares_of(desc):
    """initial effective mixture: {letter: share} or None for arbitrary"""
    k = desc["kind"]
    if k == "arbitrary":
        return None
    if k == "static":
        n = sum(desc["counts"])
        return {key["l"].upper(): Q(c, n) for key, c in zip(desc["keys"], desc["counts"])}
    if k == "inferring":
        n = sum(SIZES.values())
        return {l: Q(c, n) for l, c in SIZES.items()}
    if k == "dynamic":
        return shares_of(desc["initial"])
    raise ValueError(k)


SIZES = {c: sum(s.count(c) for s in LAYOUT) for c in "ABC"}


class Model:
    """what must be in effect"""

    def __init__(self, desc, ids):
        self.desc, self.step, self.ids = desc, 0, ids
        self.loss = {}

    def entry(self, desc=None):
        desc = desc or self.desc
        while desc["kind"] == "schedule":
            es = sorted(desc["entries"], key=lambda e: e[0])
            cur = es[0][1]
            for s, m in es:
                if s <= self.step:
                    cur = m
            desc = cur
        return desc

    def feedback(self, step, losses):
        self.step = max(self.step, step)
        e = self.entry()
        if losses is not None and e["kind"] == "dynamic":
            acc = self.loss.setdefault(id(e), [Q(0)] * len(losses))
            for i, x in enumerate(losses):
                acc[i] += Q(x)

    def shares(self):
        e = self.entry()
        if e["kind"] == "dynamic" and id(e) in self.loss and sum(self.loss[id(e)]):
            acc = self.loss[id(e)]
            by = {i: l for l, i in self.ids.items()}
            return {by[i]: x / sum(acc) for i, x in enumerate(acc) if x}
        return shares_of(e)


class Job:
    n = 0

    def __init__(self, w, st, table, desc):
        from mixtera.core.query.query_result import QueryResult

        Job.n += 1
        self.w, self.st = w, st
        self.job = f"job{Job.n}"
        m = desc if not isinstance(desc, dict) else jobs.mixture(desc)
        q = jobs.TableQuery(w, self.job, table, self.job)
        q.results = QueryResult(w.cmdc, table, m)
        assert st._register_query(q, m, 1, 1, 0, None)
        self.qr = q.results

    def ids(self):
        return {k.properties["l"][0].upper(): v for k, v in self.qr._key_id_map.items() if len(k.properties["l"]) == 1}

    def feedback(self, step, losses=None, counts=None, mixture_id=0):
        assert self.st.process_feedback(self.job, jobs.feedback(step, losses, counts or ([1] * len(losses) if losses is not None else None), mixture_id)) is True

    def next(self):
        try:
            c = jobs.load(self.st._get_query_chunk_distributor(self.job).next_chunk_for(0, 0, 0, False))
        except StopIteration:
            return None
        return c

    def close(self):
        self.st._training_query_map.pop(self.job)


def letters(chunk):
    out = {}
    for k, v in flatc(chunk._result_index).items():
        (_, (val,)), = k
        out[val.upper()] = out.get(val.upper(), 0) + len(v)
    return out


class Base:
    cpu_limit = 300
    wall_limit = 600

    def setup(self):
        self.w = world.world()
        self.st = jobs.stub()
        self.table = build(self.w, LAYOUT, "single")[0]


def expect(rec, chunk, shares, size, where):
    """the chunk follows the shares"""
    if chunk is None:
        rec.fail("no-chunk", where + "no chunk although there is enough data")
        return False
    got = letters(chunk)
    if shares is None:
        if chunk._mixture is not None or sum(got.values()) != size:
            rec.fail("wrong-mixture", where + f"got a chunk with {got} under mixture {chunk._mixture}, no mixture is in effect")
            return False
        return True
    bad = c20.judge({l: got.get(l, 0) for l in set(got) | set(shares)}, {l: shares.get(l, Q(0)) for l in set(got) | set(shares)}, size)
    if bad or chunk._mixture is None:
        rec.fail("wrong-mixture", where + f"got a chunk with {got}, in effect is { {l: float(x) for l, x in shares.items()} } of {size} ({bad})")
        return False
    return True


class Schedule(Base):
    name = "schedule"

    OPS = ["n", 0, 1, 2, 3]

    def ops(self, name):
        if "dynamic" in name:
            return ["n", 1, 2, 3, [1, [3.0, 0.0, 1.0]], [2, [0.0, 0.0, 4.0]]]
        return self.OPS

    def cases(self, tier):
        for name in SCHEDULES:
            for a, b in itertools.product(range(len(self.ops(name))), repeat=2):
                n = 5 + (tier != "quick")
                yield {"schedule": name, "first": [a, b], "len": n - ("dynamic" in name)}

    def run(self, case, rec):
        name = case["schedule"]
        ops = self.ops(name)
        desc = {"kind": "schedule", "size": 4, "entries": SCHEDULES[name]}
        seen = {}
        for rest in itertools.product(range(len(ops)), repeat=case["len"] - 2):
            seq = [ops[i] for i in case["first"] + list(rest)] + ["n"]
            if not self.history(rec, desc, name, seq, seen):
                return

    def history(self, rec, desc, name, seq, seen):
        job = Job(self.w, self.st, self.table, desc)
        try:
            model = Model(desc, job.ids())
            eff = []
            last = -1
            for i, op in enumerate(seq):
                rec.step()
                rec.state((name, str(seq[:i + 1])))
                where = f"schedule {name} {SCHEDULES[name]}, history {seq[:i + 1]}: "
                if op != "n":
                    step, losses = op if isinstance(op, list) else (op, None)
                    model.feedback(step, losses)
                    job.feedback(step, losses)
                    continue
                c = job.next()
                sh = model.shares()
                if not expect(rec, c, sh, 4, where):
                    return False
                if c.mixture_id < last:
                    rec.fail("mixture-id", where + f"mixture id {c.mixture_id} after {last}")
                    return False
                last = c.mixture_id
                eff.append(str(sorted(sh.items())) if sh is not None else "none")
                d = jobs.describe(c, skip_streaming=True)
                k = tuple(eff)
                if seen.setdefault(k, d) != d:
                    rec.fail("feedback-changes-chunks", where + f"the same sequence of mixtures in effect gave the chunk {seen[k]} in another history, now {d}")
                    return False
            rec.trace()
            rec.outcome((name, tuple(eff)))
            return True
        finally:
            job.close()


DRY = {
    "ab": [[0, static("A", [2])], [1, static("B", [2])]],
    "aba": [[0, static("A", [2])], [1, static("B", [2])], [2, static("A", [2])]],
    "mixed": [[0, static("AB", [1, 1])], [1, static("A", [2])], [2, static("BC", [1, 1])]],
    "never": [[0, static("C", [2])], [1, static("A", [2])], [2, static("B", [2])]],
    "arbitrary": [[0, static("A", [2])], [1, dict(ARB, size=2)], [2, static("B", [2])]],
}
DLAY = [["AABBBB", "", "", ""], ["ABB", "BAAB", "", ""], ["AAB", "CBA", "BAC", "B"]]


class Dry(Base):
    """schedules whose current mixture cannot be met any more: no chunk until the mixture changes, and nothing gets lost"""

    name = "dry"

    def cases(self, tier):
        for name in DRY:
            for lay in range(len(DLAY)):
                for first in ("n", 1, 2):
                    yield {"schedule": name, "layout": lay, "first": first, "len": 6 if tier == "quick" else 8}

    def run(self, case, rec):
        name, lay = case["schedule"], DLAY[case["layout"]]
        table = build(self.w, lay, "single")[0]
        have = {l: sum(s.count(l) for s in lay) for l in "ABC"}
        desc = {"kind": "schedule", "size": 2, "entries": DRY[name]}
        for rest in itertools.product(("n", 1, 2), repeat=case["len"] - 1):
            seq = [case["first"], *rest] + ["n"] * (sum(have.values()) // 2 + 1)
            if not self.history(rec, table, desc, name, lay, have, seq):
                return

    def history(self, rec, table, desc, name, lay, have, seq):
        job = Job(self.w, self.st, table, desc)
        left, got, model = dict(have), set(), Model(desc, {})
        any_left = sum(have.values())
        done = 0
        try:
            for i, op in enumerate(seq):
                rec.step()
                where = f"schedule {name} {DRY[name]}, data {lay}, history {seq[:i + 1]}: "
                rec.state((name, str(lay), str(seq[:i + 1])))
                if op != "n":
                    model.feedback(op, None)
                    job.feedback(op)
                    continue
                c = job.next()
                sh = model.shares()
                want = None if sh is None else {l: int(2 * x) for l, x in sh.items()}
                ok = any_left > 0 if want is None else all(left[l] >= x for l, x in want.items())
                if not ok:
                    if c is not None:
                        rec.fail("chunk-of-nothing", where + f"{left} are left, in effect is {want}, but got a chunk {letters(c)}")
                        return False
                    if want is None or any(left[l] for l in want):
                        return True  # whether an incomplete chunk keeps its samples for later is not determined
                    continue
                if c is None:
                    rec.fail("lost", where + f"{left} should be left, in effect is {want}, but got no chunk")
                    return False
                g = letters(c)
                if want is not None and g != want or want is None and not 1 <= sum(g.values()) <= 2:
                    rec.fail("wrong-mixture", where + f"got {g}, in effect is {want}")
                    return False
                new = {(str(k), x) for k, v in flatc(c._result_index).items() for x in v}
                if new & got:
                    rec.fail("twice", where + f"{sorted(new & got)} were handed out before")
                    return False
                got |= new
                for l, x in g.items():
                    left[l] -= x
                any_left = sum(left.values())
                done += 1
            rec.trace()
            rec.outcome((name, str(lay), done, str(left)))
            return True
        finally:
            job.close()


WRAP = {
    "static": static("AB", [1, 1]), "best-effort": static("AB", [1, 1], False), "three": static("CAB", [1, 1, 2], False), "inferring": INF, "inferring-be": dict(INF, strict=False),
    "arbitrary": ARB, "dynamic": dict(DYN), "dynamic-be": dict(DYN, strict=False), "dynamic-inf": dict(DINF, strict=False),
}
WLAY = [["AAAABBAB", "ACCB"], ["AAAAAAA", "BC"], ["ABCABCABC", "CCC"]]


class Wrap(Base):
    """a schedule with one entry (or equal entries) is the entry, down to the last chunk"""

    name = "wrap"

    def cases(self, tier):
        for m in WRAP:
            for lay in range(len(WLAY)):
                yield {"mix": m, "layout": lay}

    def run(self, case, rec):
        desc = WRAP[case["mix"]]
        size = desc.get("size") or sum(desc["counts"])
        table = build(self.w, WLAY[case["layout"]], "single")[0]
        fbs = [None] + ([[1, [3.0, 0.0, 1.0]], [2, [0.0, 2.0, 2.0]]] if "dynamic" in case["mix"] else [[1, None]])
        for plan in itertools.product(fbs, repeat=4):
            ref = None
            for entries in (None, [[0, desc]], [[5, desc]], [[0, desc], [100, C4]]):
                m = jobs.mixture(desc) if entries is None else jobs.mixture({"kind": "schedule", "size": size, "entries": entries})
                job = Job(self.w, self.st, table, m)
                out = []
                for i in range(16):
                    if i < len(plan) and plan[i]:
                        job.feedback(*plan[i])
                    c = job.next()
                    rec.step()
                    if c is None:
                        break
                    out.append(jobs.describe(c))
                job.close()
                rec.state((case["mix"], case["layout"], str(plan), str(entries), len(out)))
                rec.trace()
                if ref is None:
                    ref = out
                    rec.outcome(str(out))
                elif out != ref:
                    i = next((i for i, (a, b) in enumerate(itertools.zip_longest(out, ref)) if a != b))
                    rec.fail("schedule-not-transparent", f"layout {WLAY[case['layout']]}, feedback {plan}: {case['mix']} mixture gives {len(ref)} chunks, the schedule {entries} of it {len(out)}; chunk {i}: {ref[i:i+1]} / {out[i:i+1]}")
                    return


_ALGS = {}


def algs():
    if _ALGS:
        return _ALGS
    from mixtera.core.algo.dynamic_mixing.dynamic_mixing import DynamicMixingAlgorithm
    from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm

    def recording(base):
        class R(base):
            def __init__(self):
                super().__init__()
                self.calls, self.outs, self.news = [], [], []

            def process_losses(self, losses, counts, mixture_id):
                self.calls.append((tuple(map(float, losses)), tuple(map(int, counts)), mixture_id))
                out = super().process_losses(losses, counts, mixture_id)
                self.outs.append(None if out is None else np.array(out))
                return out

            def calc_mixture(self, updated_at_client):
                self.news.append(updated_at_client)
                return super().calc_mixture(updated_at_client)

        return R

    class LossProp(DynamicMixingAlgorithm):
        def calc_mixture(self, updated_at_client):
            s = self.losses.sum()
            return None if s <= 0 else (self.losses / s).astype(np.float32)

    class Sometimes(LossProp):
        def calc_mixture(self, updated_at_client):
            self.i = getattr(self, "i", 0) + 1
            return super().calc_mixture(updated_at_client) if self.i % 2 == 0 else None

    class OnNew(LossProp):
        def calc_mixture(self, updated_at_client):
            return super().calc_mixture(updated_at_client) if updated_at_client else None

    for n, c in (("loss", LossProp), ("average", SimpleAveragingAlgorithm), ("sometimes", Sometimes), ("on-new", OnNew)):
        _ALGS[n] = recording(c)
    return _ALGS


FB = [("n",), (1, None, 0), (3, [2.0, 0.0, 2.0], 0), (1, [0.0, 4.0, 0.0], 0), (2, [1.0, 1.0, 6.0], 1), (0, [5.0], 0)]


class Dynamic(Base):
    """a dynamic mixture uses the latest mixture its algorithm produced; every report reaches the algorithm exactly once"""

    name = "dynamic"

    def cases(self, tier):
        for alg in ("loss", "average", "sometimes", "on-new"):
            for init in ("AB", "INF", "CAB"):
                for a, b in itertools.product(range(len(FB)), repeat=2):
                    yield {"alg": alg, "init": init, "first": [a, b], "len": 4 + (tier != "quick")}

    def run(self, case, rec):
        from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture

        init = {"AB": AB, "INF": INF, "CAB": static("CAB", [1, 1, 2])}[case["init"]]
        for rest in itertools.product(range(len(FB)), repeat=case["len"] - 2):
            seq = [FB[i] for i in case["first"] + list(rest)] + [("n",)]
            alg = algs()[case["alg"]]()
            job = Job(self.w, self.st, self.table, DynamicMixture(4, jobs.mixture(init), alg, strict=True))
            by = {i: l for l, i in job.ids().items()}
            where = f"{case['alg']} algorithm, initial mixture {case['init']}, history {seq}: "
            sent = []
            shares = shares_of(init)
            prev = None
            try:
                want0 = np.zeros(3)
                rows = job.qr._mixture.mixture_in_rows()
                for k, v in rows.items():
                    want0[job.qr._key_id_map[k]] = v
                if not np.allclose(alg.initial_mixture, want0 / want0.sum()):
                    rec.fail("initial-mixture", where + f"the algorithm was told {alg.initial_mixture}, in use is {rows} with ids {job.qr._key_id_map}")
                    return
                for i, op in enumerate(seq):
                    rec.step()
                    if op[0] != "n":
                        step, losses, mid = op
                        job.feedback(step, losses, None, mid)
                        if losses is not None:
                            sent.append((tuple(losses), (1,) * len(losses), mid))
                            if alg.outs and alg.outs[-1] is not None:
                                shares = {by[j]: Q(float(x)) for j, x in enumerate(alg.outs[-1]) if x > 0}
                                shares = {l: x / sum(shares.values()) for l, x in shares.items()}
                        if alg.calls != sent:
                            rec.fail("reports", where + f"the algorithm received {alg.calls}, reported were {sent}")
                            return
                        tot = [sum(x[0][j] for x in sent if j < len(x[0])) for j in range(max((len(x[0]) for x in sent), default=0))]
                        cnt = [sum(1 for x in sent if j < len(x[0])) for j in range(len(tot))]
                        if list(alg.losses) != tot or list(alg.counts) != cnt:
                            rec.fail("accumulated", where + f"accumulated losses {alg.losses} counts {alg.counts}, reported {tot} {cnt}")
                            return
                        new = [x[2] > max([-1] + [y[2] for y in sent[:j]]) for j, x in enumerate(sent)]
                        if alg.news != new:
                            rec.fail("new-at-client", where + f"the algorithm was told {alg.news} whether a new mixture reached the client, should be {new}")
                            return
                        continue
                    c = job.next()
                    if not expect(rec, c, shares, 4, where):
                        return
                    now = (sorted(letters(c).items()), c.mixture_id)
                    if prev and (prev[0] != now[0] and now[1] != prev[1] + 1 or now[1] < prev[1] or now[1] > prev[1] + 1):
                        rec.fail("mixture-id", where + f"mixture ids {prev[1]}, {now[1]} for {prev[0]}, {now[0]}")
                        return
                    prev = now
                rec.trace()
                rec.state((case["alg"], case["init"], str(seq)))
                rec.outcome(str(sorted(shares.items())))
            finally:
                job.close()


class Handler(Base):
    """handle_mixtera_feedback: exactly rank (0, 0) reports, with the right numbers"""

    name = "handler"

    def cases(self, tier):
        for kind in ("none", "list", "tuple", "numpy", "torch", "torch-grad"):
            yield {"kind": kind}

    def run(self, case, rec):
        import torch
        from mixtera.torch import MixteraTorchDataset
        from mixtera.utils.feedback import handle_mixtera_feedback

        class Client:
            def __init__(self, ok):
                self.got, self.ok = [], ok
                self.current_mixture_id = 7

            def process_feedback(self, job, f):
                self.got.append((job, f.training_steps, f.mixture_id, None if f.losses is None else [float(x) for x in f.losses], None if f.counts is None else [int(x) for x in f.counts]))
                return self.ok

        class Qy:
            job_id = "jobx"

        for dp, tp, step, how, ok in itertools.product((0, 1, 2), (0, 1), (0, 1, 17), ("dataset", "loader", "workers"), (True, False)):
            cl = Client(ok)
            ds = object.__new__(MixteraTorchDataset)
            ds._client, ds._query = cl, Qy()
            src = ds if how == "dataset" else torch.utils.data.DataLoader(ds, batch_size=None, num_workers=0 if how == "loader" else 2)
            losses, counts = [1.5, 0.0, 2.25], [3, 0, 1 << 33]
            conv = {"none": lambda x, t: None, "list": lambda x, t: x, "tuple": lambda x, t: tuple(x), "numpy": lambda x, t: np.array(x, dtype=t),
                    "torch": lambda x, t: torch.tensor(x), "torch-grad": lambda x, t: torch.tensor(x, requires_grad=t == np.float32)}[case["kind"]]
            handle_mixtera_feedback(src, step, conv(losses, np.float32), conv(counts, np.int64), dp, tp)
            rec.step()
            rec.trace()
            rec.state((case["kind"], dp, tp, step, how))
            want = [("jobx", step, 7, None if case["kind"] == "none" else losses, None if case["kind"] == "none" else counts)] if dp == tp == 0 else []
            rec.outcome(len(want))
            if cl.got != want:
                rec.fail("handler", f"step {step} reported by rank dp={dp} tp={tp} with {case['kind']} values through a {how}: server got {cl.got}, expected {want}")
                return


HARNESSES = [Schedule(), Dry(), Wrap(), Dynamic(), Handler()]
