"""C14: parallel readers give the same stream as a single reader."""
import gc
import itertools

import c13
from mc import env, sched
from mc.sched import Scheduler, attempt, explore, patched

LEVEL = "model_checking"
TECHNIQUE = "stateless exploration of all interleavings (preemption bound) of the reader processes and the consumer at queue and process operations on the real chunk, with a crash, error or kill of a reader at every step, against the single-reader stream"
RULE = ("a case = domains x files per domain x degree of parallelism x streaming mode x failure of one reader (error while reading, sudden death with buffered data lost, death of the consumer); all schedules up to the preemption bound; "
        "states = (case, observed stream), transitions = scheduling steps, traces = schedules executed")
ASSUMPTIONS = ["queues between processes are reliable FIFOs that copy items and, like real ones, keep a terminating writer alive until its data was taken (beyond a small pipe)",
               "the order across several readers of one domain is not that of a single reader, but must not depend on timing",
               "time is virtual: a timeout fires only when nothing else can run"]


LIMIT = [4000]


class Crash(Exception):
    pass


class Die(BaseException):
    """the process is gone, without any of its own cleanup"""


class PipeQueue(sched.CMPQueue):
    """items not yet taken keep their writer alive (multiprocessing joins its feeder thread at exit)"""

    CAPACITY = 1

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.dead = False

    def put(self, x, block=True, timeout=None):
        if not self.closed:
            super().put(x, block, timeout)

    def flushed(self):
        return len(self.q) <= self.CAPACITY


class Proc(sched.CProcess):
    started = []

    def start(self):
        Proc.started.append(self)
        super().start()

    def _body(self):
        try:
            r = self.run()
        finally:
            import sys

            e = sys.exc_info()[1]
            qs = [a for a in self._args if isinstance(a, PipeQueue)]
            if isinstance(e, Die):
                for q in qs:
                    q.q[:] = q.q[:1]  # whatever had reached the pipe
            elif not isinstance(e, sched.TaskKilled):
                for q in qs:
                    sched._pt(q.flushed)
        return r


def text(f, i, special):
    if special == "marker":
        return ["END_OF_STREAM", "", "None", "STOP"][(i + int(f[1:])) % 4] if (i + int(f[1:])) % 2 == 0 else f"{f}:{i}"
    return f"{f}:{i}"


class Readers:
    name = "readers"
    cpu_limit = 300
    wall_limit = 600

    def setup(self):
        gc.collect()
        gc.freeze()
        gc.disable()  # collections run finalizers at arbitrary points; the harness collects explicitly

    def cases(self, tier):
        deep = tier == "thorough"
        # domains: tuple of files per domain, each file = number of samples
        shapes = [((1,),), ((2,),), ((1, 1),), ((2, 1),), ((1,), (1,)), ((2,), (1,)), ((1, 1), (1,)), ((1, 1, 1),)]
        if deep:
            shapes += [((3,),), ((2, 2),), ((2,), (2,)), ((1, 1), (1, 1)), ((1,), (1,), (1,)), ((1, 1, 1), (1,)), ((2, 1, 1),)]
        for shape in shapes:
            n = sum(sum(d) for d in shape)
            for dop in (2, 3, 4):
                if dop == 4 and sum(map(len, shape)) < 3:
                    continue
                for mode, best in (("simple", True), ("window", True), ("window", False)):
                    if mode == "window" and len(shape) == 1 and not deep:
                        continue
                    for special in ("", "marker"):
                        yield {"shape": [list(d) for d in shape], "dop": dop, "mode": mode, "best": best, "deep": deep, "special": special, "fail": None, "stop": None, "bound": 2 if deep or (n <= 2 and dop == 2 and not special) else 1}
                    if dop > 3 or (not deep and (dop > 2 or n > 2 and mode == "window" and best)):
                        continue
                    for j, d in enumerate(shape):
                        for f, cnt in enumerate(d):
                            for at in range(cnt + 1):
                                for how in ("error", "die"):
                                    yield {"shape": [list(d) for d in shape], "dop": dop, "mode": mode, "best": best, "special": "", "fail": [j, f, at, how], "stop": None, "bound": 1}
                    for stop in range(0, n):
                        yield {"shape": [list(d) for d in shape], "dop": dop, "mode": mode, "best": best, "special": "", "fail": None, "stop": stop, "bound": 1}

    def build(self, case, dop):
        shape = case["shape"]
        names = {}
        idx = {}
        fid = 0
        fail = case["fail"]
        bad = None
        for j, d in enumerate(shape):
            for f, cnt in enumerate(d):
                idx.setdefault(c13.key("ABC"[j]), {}).setdefault(f % 2, {})[fid] = [(0, cnt)]
                if fail and fail[:2] == [j, f]:
                    bad = (f"f{fid}", fail[2], fail[3])
                fid += 1

        class Src:
            @staticmethod
            def read_ranges_from_files(rpf, func, conn):
                for name, ranges in rpf.items():
                    for s, e in ranges:
                        for i in range(s, e):
                            if bad and bad[0] == name and bad[1] == i and dop > 1:
                                raise (Die if bad[2] == "die" else Crash)(name)
                            yield func(text(name, i, case["special"]))
                if bad and bad[0] in rpf and bad[1] == cnts[bad[0]] and dop > 1:
                    raise (Die if bad[2] == "die" else Crash)(bad[0])

        cnts = {f"f{k}": c for k, c in enumerate(c for d in shape for c in d)}
        total = sum(cnts.values())
        mix = {k: sum(d) for k, d in zip(idx, shape)}
        chunk = c13.build(idx, None, total, mix, {k: 7 - j for j, k in enumerate(idx)}, dstype=Src)
        from mixtera.core.client.mixtera_client import ResultStreamingArgs

        chunk.configure_result_streaming(None, ResultStreamingArgs(
            job_id="j", chunk_reading_degree_of_parallelism=dop, chunk_reading_mixture_type=case["mode"], chunk_reading_window_size=total,
            chunk_reading_window_best_effort=case["best"], chunk_reading_prefetch_first_sample=False))
        return chunk

    def run(self, case, rec):
        import multiprocessing as mp

        from mixtera.core.query import result_chunk

        shape, fail = case["shape"], case["fail"]
        total = sum(sum(d) for d in shape)
        single = list(self.build(case, 1))
        outs = set()

        def run(ch):
            got = {"items": [], "end": None}
            s = Scheduler(ch)
            Proc.started = []

            def main():
                c = iter(self.build(case, case["dop"]))
                n = 0
                try:
                    while case["stop"] is None or n < case["stop"]:
                        got["items"].append(next(c))
                        n += 1
                        if n > total + 3:
                            got["end"] = "too many items"
                            return
                    got["end"] = "stopped"
                    c = None
                    gc.collect()  # the abandoned chunk is collected
                except StopIteration:
                    got["end"] = "end"
                except Exception as e:  # noqa: BLE001
                    got["end"] = f"error {type(e).__name__}"
                c = None

            with patched([result_chunk], extra=[(mp, "cpu_count", lambda: 8), (mp, "Process", Proc), (mp, "Queue", PipeQueue)]):
                t = s.spawn(main, "consumer")
                try:
                    s.run()
                except sched.Deadlock as e:
                    got["end"] = f"{got['end']}, then never ends: {e}"
                except sched.Livelock as e:
                    got["end"] = f"livelock: {e}"
            got["alive"] = [p.name for p in Proc.started if not p._task.done]
            got["steps"] = len(s.trace)
            if t.exc:
                got["end"] = f"consumer failed: {t.exc!r}"
            return got

        def on_run(got, choices):
            rec.trace()
            rec.step(got["steps"])
            items = got["items"]
            rec.state((str(case), str(items), got["end"]))
            info = f"{case} schedule {choices}: streamed {items}, {got['end']}; a single reader streams {single}"
            if case["stop"] is not None:
                if "stopped" != got["end"] and got["end"] != "end":
                    rec.fail("readers-not-stopped", info)
                    return False
                return
            if fail:
                if not got["end"].startswith("error"):
                    # a strict window may end before the failing sample is needed
                    if not (got["end"] == "end" and items == self.plain.get(str({**case, "fail": None}))):
                        rec.fail("failure-hidden" if got["end"] == "end" else "failure-hangs", info)
                        return False
                return
            if got["end"] != "end":
                rec.fail("no-clean-end", info)
                return False
            if [p for p, _, _ in items] != list(range(len(items))):
                rec.fail("positions", info)
                return False
            for d in {k for _, k, _ in single} | {k for _, k, _ in items}:
                a = [x for _, k, x in items if k == d]
                b = [x for _, k, x in single if k == d]
                if case["mode"] == "window" and not case["best"]:
                    ok = set(a) <= set(b) and len(a) <= len(b) and (len(single) != len(items) or len(a) == len(b))
                    ok = ok and len(items) == len(single)
                else:
                    ok = sorted(a) == sorted(b)
                if not ok:
                    rec.fail("other-samples", info)
                    return False
                if len(shape[7 - d]) == 1 and a != b[:len(a)]:
                    rec.fail("other-order", info)
                    return False
            outs.add(str(items))
            if len(outs) > 1:
                rec.fail("order-depends-on-timing", info + f"; other schedules {sorted(outs)}")
                return False
            self.plain[str(case)] = items

        self.plain = getattr(self, "plain", {})
        if fail:
            # reference without failure, default schedule
            c2 = {**case, "fail": None}
            if str(c2) not in self.plain:
                sub = {"items": None}
                case_, fail_ = case, fail
                case, fail = c2, None
                self.plain[str(c2)] = run(sched.Chooser())["items"]
                case, fail = case_, fail_
        gc.collect()
        bound = case["bound"]
        if sum(map(len, shape)) > 2 and case["dop"] > 2 and not case.get("deep"):
            bound = 0  # still every order at blocking operations
        n, _ = explore(run, bound, limit=LIMIT[0], on_run=on_run)
        if n >= LIMIT[0]:
            rec.cap(f"schedule limit of {LIMIT[0]} per case reached in some cases")
        rec.count(f"schedules of {sum(map(len, shape))} readers' files", n)


HARNESSES = [Readers()]


def prepare(tier):
    env.boot()
