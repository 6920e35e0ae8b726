"""C16: prefetching the first item is transparent."""
import itertools

from mc import env, sched
from mc.sched import Chooser, Scheduler, attempt, explore, patched, traced

LEVEL = "model_checking"
TECHNIQUE = "stateless exploration of all interleavings (up to a preemption bound) of the fetching thread and the consumer on the real iterator, for all short item sequences, against the plain iterator"
RULE = ("a case = a sequence of items and failures (values, None and other falsy items, errors, the end, items after an error, items that take a day of virtual time) and the way it is consumed; within it all schedules up to the preemption bound, with a scheduling point at every "
        "attribute access, thread and event operation; states = (sequence, schedule outcome), transitions = scheduling steps, traces = schedules executed")
ASSUMPTIONS = ["one consumer at a time", "attribute accesses of CPython are atomic"]

ITEMS = {"x": "x", "y": "y", "N": None, "0": 0, "e": "", "F": False, "L": []}


class Boom(Exception):
    pass


class KillBoom(BaseException):
    pass


def slow():
    """the source takes a day for its next item (virtual time; no time at all for the plain iterator)"""
    if sched.current() is not None:
        sched.csleep(86400.0)


class Source:
    """plays a sequence: items, '!' an error, '.' the end; goes on afterwards, like an iterator may"""

    def __init__(self, seq):
        self.seq = list(seq)
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        sched._pt()
        i = self.i
        self.i += 1
        c = self.seq[i] if i < len(self.seq) else "."
        if c == "~":
            slow()
            return next(self)
        if c == "!":
            raise Boom(i)
        if c == ".":
            raise StopIteration
        return ITEMS[c]


def generator(seq):
    for i, c in enumerate(seq):
        sched._pt()
        if c == "~":
            slow()
            continue
        if c == "!":
            raise Boom(i)
        if c == ".":
            return
        yield ITEMS[c]


class Plain:
    name = "iterator"

    def cases(self, tier):
        n = 3 if tier == "quick" else 4
        alpha = "xyN0e!.~" if tier == "quick" else "xyN0eFL!.~"
        for k in range(n + 1):
            for seq in itertools.product(alpha, repeat=k):
                for kind in ("iterator", "generator"):
                    if kind == "iterator" and k == n and tier == "quick" and "y" in seq:
                        continue
                    yield {"seq": "".join(seq), "kind": kind, "bound": 2 if k < 3 else 1}

    def run(self, case, rec):
        from mixtera.utils import prefetch_iterator

        seq = case["seq"]
        mk = (lambda: Source(seq)) if case["kind"] == "iterator" else (lambda: generator(seq))
        calls = len(seq) + 2
        it = mk()
        want = attempt(lambda: next(it), calls)
        cls = traced(prefetch_iterator.PrefetchFirstItemIterator)

        def run(ch):
            got = []
            s = Scheduler(ch)

            def main():
                p = cls(mk())
                if iter(p) is not p:
                    got.append("iter() gives another object")
                for _ in range(calls):
                    sched._pt()
                    got.extend(attempt(lambda: next(p), 1))

            with patched([prefetch_iterator]):
                t = s.spawn(main, "consumer")
                try:
                    s.run()
                except sched.Deadlock as e:
                    got.append(f"deadlock: {e}")
            rec.step(len(s.trace))
            if t.exc:
                got.append(f"consumer failed: {t.exc!r}")
            for x in s.tasks:
                if not x.done:
                    got.append(f"thread {x.name} still running")
            return got

        def on_run(got, choices):
            rec.trace()
            rec.state((seq, case["kind"], str(got)))
            if got != want:
                rec.fail("different-items", f"sequence {seq!r} ({case['kind']}), schedule {choices}:\n got {got}\nplain {want}")
                return False

        n, done = explore(run, case["bound"], limit=20000, on_run=on_run)
        if n >= 20000:
            rec.cap(f"{case}: schedule limit")


class Chunk:
    """streaming a chunk with and without prefetching, all schedules of the prefetch threads"""

    name = "chunk"

    def cases(self, tier):
        for sizes in ((1,), (2, 1), (1, 1), (2, 2), (3, 1), (1, 1, 1)):
            for mode in ("simple", "window"):
                for fail in (None, 0, 1, "slow"):
                    yield {"sizes": list(sizes), "mode": mode, "fail": fail, "bound": 1 if tier == "quick" or len(sizes) > 2 else 2}

    def run(self, case, rec):
        import c13
        from mixtera.core.query import result_chunk
        from mixtera.utils import prefetch_iterator

        class Bad(c13.Mem):
            @staticmethod
            def read_ranges_from_files(rpf, f, conn):
                for x in c13.Mem.read_ranges_from_files(rpf, f, conn):
                    if case["fail"] == "slow":
                        slow()
                    elif case["fail"] is not None and x == f"f0:{case['fail']}":
                        raise Boom(x)
                    yield x

        sizes = case["sizes"]
        calls = sum(sizes) + 2

        def mk(prefetch):
            idx = {c13.key(l): {0: {j: [(0, n)]}} for j, (l, n) in enumerate(zip("ABC", sizes))}
            return c13.conf(c13.build(idx, sizes, sum(sizes), {k: n for k, n in zip(idx, sizes)}, dstype=Bad), case["mode"], sum(sizes), True, prefetch)

        c = iter(mk(False))
        want = attempt(lambda: next(c), calls)

        def run(ch):
            got = []
            s = Scheduler(ch)

            def main():
                c = iter(mk(True))
                got.extend(attempt(lambda: next(c), calls))

            with patched([prefetch_iterator, result_chunk]):
                t = s.spawn(main, "consumer")
                try:
                    s.run()
                except sched.Deadlock as e:
                    got.append(f"deadlock: {e}")
            rec.step(len(s.trace))
            if t.exc:
                got.append(f"consumer failed: {t.exc!r}")
            return got

        def on_run(got, choices):
            rec.trace()
            rec.state((tuple(sizes), case["mode"], case["fail"], str(got)))
            if got != want:
                rec.fail("different-stream", f"{case}, schedule {choices}:\n got {got}\nplain {want}")
                return False

        n, done = explore(run, case["bound"], limit=20000, on_run=on_run)


HARNESSES = [Plain(), Chunk()]


def prepare(tier):
    env.boot()
