"""C07: crashes while checkpointing."""
import os
import shutil
from pathlib import Path

from c01 import build
from c03 import content, load
from mc import env, fault, jobs, world

LEVEL = "model_checking"
TECHNIQUE = "exhaustive crash-point enumeration: every file-system operation of the persisting code (killed before it, torn in the middle of a write, disk full from there on) and all orders of two overlapping persisting processes with up to two switches"
RULE = ("a case = scenario (first/second/third checkpoint, query cached or not, only the persisting process or the whole job dies, disk full) x crash point; the real code runs in a forked child that dies at its "
        "n-th file-system operation (n over all operations, plus torn writes); afterwards every checkpoint is restored and its complete remaining chunk stream compared with the uninterrupted run, and a surviving job "
        "takes further checkpoints; states = distinct directory contents reached, transitions = crash points")
ASSUMPTIONS = ["completed file-system operations survive the death of the process (process crash, not power loss)"]

LAYOUT = ["AABBAABB", "ABAB"]
MIXES = {
    "arbitrary": {"kind": "arbitrary", "size": 2},
    "static": {"kind": "static", "keys": [{"l": "a"}, {"l": "b"}], "counts": [1, 1], "strict": True},
}


class ForkProcess:
    """multiprocessing.Process whose child can be told where to die; start() returns when the child is gone"""

    plan = []  # per started process: None or (n, mode)
    prefix = ""
    log = []

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.t, self.a, self.k = target, args, kwargs or {}
        self.daemon = daemon
        self.exitcode = None
        self.pid = 1

    def start(self):
        p = ForkProcess.plan.pop(0) if ForkProcess.plan else None
        n, mode = p or (-1, 0)
        self.exitcode, info = fault.child(lambda: self.t(*self.a, **self.k), ForkProcess.prefix, n, mode)
        ForkProcess.log.append((self.exitcode, info))

    def is_alive(self):
        return False

    def join(self, timeout=None):
        pass


class HeldProcess(ForkProcess):
    """start() only remembers the work; the harness runs it"""

    held = []

    def start(self):
        import copy

        self.a, self.k = copy.deepcopy(self.a), copy.deepcopy(self.k)
        HeldProcess.held.append(self)

    def is_alive(self):
        return self.exitcode is None


def tree(root):
    out = []
    for d, _, fs in os.walk(root):
        out.append((os.path.relpath(d, root), None))
        for f in fs:
            p = os.path.join(d, f)
            out.append((os.path.relpath(p, root), os.path.getsize(p)))
    return tuple(sorted(out))


class Base:
    cpu_limit = 500
    wall_limit = 700

    def setup(self):
        self.w = world.world()

    def begin(self, case):
        from mixtera.core.query.query_result import QueryResult

        self.table, _, _ = build(self.w, LAYOUT, "single")
        self.mk = lambda: QueryResult(self.w.cmdc, self.table, jobs.mixture(MIXES[case["mix"]]))
        self.root = Path(env.fresh_dir("c07"))
        self.cache = None
        if case["cached"]:
            self.cache = self.root / "cache"
            self.cache.mkdir()
            self.mk().to_cache(self.cache)
        self.dir = self.root / "job"
        ForkProcess.prefix, ForkProcess.log, ForkProcess.plan = str(self.dir), [], []

    def new(self):
        from mixtera.core.query.chunk_distributor import ChunkDistributor

        return ChunkDistributor(1, 1, 1, self.mk(), "job", cached_query=self.cache)

    def stream_from(self, d):
        out = []
        while True:
            try:
                c = load(d.next_chunk_for(0, 0, 0, False))
            except StopIteration:
                return out
            out.append((content(c), tuple(jobs.stream(c))))

    def expected(self, taken, skip):
        """what is handed out after restoring a checkpoint at `taken` chunks and `skip` samples of the current one"""
        full = self.stream_from(self.new())
        rest = full[max(0, taken - 1):]
        if taken:
            rest = [(rest[0][0], rest[0][1][skip:])] + rest[1:]
        return rest

    def restore(self, cid, directory=None):
        from mixtera.core.query.chunk_distributor import ChunkDistributor

        return self.stream_from(ChunkDistributor.from_checkpoint(directory or self.dir, cid, "job", None))

    def check_restore(self, cid, state, complete, where, rec):
        """complete: must be restorable; otherwise refusal is fine"""
        rec.trace()
        try:
            got = self.restore(cid)
        except Exception as e:  # noqa: BLE001
            if complete:
                rec.fail("lost-checkpoint", where + f"the completed checkpoint {cid} cannot be restored: {type(e).__name__}: {e}")
                return False
            return True
        want = self.expected(*state)
        if got != want:
            rec.fail("wrong-restore", where + f"{'complete' if complete else 'incomplete'} checkpoint {cid} restores to {len(got)} chunks {got[:3]}..., correct are {len(want)}: {want[:3]}...")
            return False
        return True


class Crash(Base):
    name = "crash"

    def cases(self, tier):
        for mix in MIXES:
            for cached in (True, False):
                for who in ("process", "job"):
                    for nth in (1, 2) if tier == "quick" else (1, 2, 3):
                        for mode in (fault.DIE, fault.TEAR, fault.NOSPACE):
                            if who == "job" and mode == fault.NOSPACE:
                                continue
                            for part in range(4):
                                yield {"mix": mix, "cached": cached, "who": who, "nth": nth, "mode": mode, "part": part}

    def run(self, case, rec):
        self.begin(case)
        try:
            n = 0
            while True:
                if n % 4 == case["part"] or n == 0:
                    r = self.one(case, n, rec)
                    if r is False:
                        return
                    if r == "end":
                        break
                n += 1
                if n > 400:
                    rec.cap("more than 400 file-system operations")
                    break
            if n < 3:
                rec.fail("no-crash-points", f"{case}: only {n} file-system operations seen, the harness does not observe the writer")
        finally:
            env.rmtree(str(self.root))

    def one(self, case, n, rec):
        shutil.rmtree(self.dir, ignore_errors=True)
        where = f"{case} crash point {n}: "
        with jobs.inline_processes(ForkProcess):
            d = self.new()
            done = {}  # checkpoint id -> (taken, skip)
            taken = 0
            for k in range(case["nth"] - 1):
                for _ in range(2 if k else 1):
                    d.next_chunk_for(0, 0, 0, False)
                    taken += 1
                cid = d.checkpoint(0, 0, [k % 2], self.dir, True)
                if not d.checkpoint_completed(cid, True):
                    rec.fail("not-complete", where + f"{cid} is not reported complete although its process ended")
                    return False
                done[cid] = (taken, k % 2)
            d.next_chunk_for(0, 0, 0, False)
            taken += 1
            target = f"chkpnt_{case['nth']}"
            crashed = None
            if case["who"] == "process":
                ForkProcess.plan = [(n, case["mode"])]
                ForkProcess.log = []
                try:
                    cid = d.checkpoint(0, 0, [1], self.dir, True)
                except Exception as e:  # noqa: BLE001  (only allowed if the main process itself could not write)
                    rec.fail("rejected", where + f"checkpoint failed in the job itself: {type(e).__name__}: {e}")
                    return False
                target = cid
                ForkProcess.plan = []
                crashed = ForkProcess.log[-1][0] != 0
                try:
                    ok = d.checkpoint_completed(cid, True)
                except RuntimeError:
                    ok = "error"
                if crashed and ok is True:
                    rec.fail("false-complete", where + f"{cid} reported complete although its process died")
                    return False
                if not crashed and ok is not True:
                    rec.fail("not-complete", where + f"{cid}: process ended normally, but it is reported as {ok}")
                    return False
                if not crashed:
                    done[cid] = (taken, 1)
            else:
                def job():
                    fault.disarm()
                    ForkProcess.plan = []
                    d._constructor_pid = os.getpid()  # the child plays the job itself

                    class Here(jobs.InlineProcess):
                        pass

                    with jobs.inline_processes(Here):
                        fault.arm(self.dir, n, case["mode"])
                        c = d.checkpoint(0, 0, [1], self.dir, True)
                        if not d.checkpoint_completed(c, True):
                            raise RuntimeError("incomplete")
                        fault._lib.fault_arm(b"/nonexistent-prefix", -1, 0)

                code, info = fault.child(job, "/nonexistent", -1, 0)
                crashed = code == 137
                if code == 0:
                    done[target] = (taken, 1)
                elif code != 137:
                    rec.fail("job-error", where + f"the job failed without a fault (exit {code}) {info}")
                    return False
            rec.step()
            rec.state((case["mix"], case["cached"], case["nth"], tree(self.dir)))
            rec.outcome((crashed, tree(self.dir)))
            for cid, st in done.items():
                if not self.check_restore(cid, st, True, where, rec):
                    return False
            if target not in done and not self.check_restore(target, (taken, 1), False, where, rec):
                return False
            if case["who"] == "process":
                # the surviving job goes on, its next checkpoint must be fine
                d.next_chunk_for(0, 0, 0, False)
                taken += 1
                try:
                    cid = d.checkpoint(0, 0, [1], self.dir, True)
                    ok = d.checkpoint_completed(cid, True)
                except Exception as e:  # noqa: BLE001
                    rec.fail("wedged", where + f"after the failed checkpoint the next one fails as well: {type(e).__name__}: {e} {ForkProcess.log[-1]}")
                    return False
                if not ok or not self.check_restore(cid, (taken, 1), True, where + "[next checkpoint] ", rec):
                    return False
                for c, st in done.items():
                    if not self.check_restore(c, st, True, where + "[after the next checkpoint] ", rec):
                        return False
            elif done:
                # the job is restarted from the last complete checkpoint and checkpoints again
                from mixtera.core.query.chunk_distributor import ChunkDistributor

                last = sorted(done)[-1]
                r = ChunkDistributor.from_checkpoint(self.dir, last, "job", None)
                for _ in range(2):
                    r.next_chunk_for(0, 0, 0, False)
                try:
                    cid = r.checkpoint(0, 0, [1], self.dir, True)
                    ok = r.checkpoint_completed(cid, True)
                except Exception as e:  # noqa: BLE001
                    rec.fail("wedged", where + f"the restarted job cannot checkpoint: {type(e).__name__}: {e} {ForkProcess.log[-1:]}")
                    return False
                t, _ = done[last]
                if not ok or not self.check_restore(cid, (max(t, 1) + 1, 1), True, where + "[restarted job] ", rec):
                    return False
        return True if crashed else "end"


class Overlap(Base):
    """A second checkpoint is taken while the first one is still being written: all orders with up to two switches."""

    name = "overlap"

    def cases(self, tier):
        for mix in MIXES:
            for cached in (True, False):
                for part in range(8):
                    yield {"mix": mix, "cached": cached, "part": part, "deep": tier == "thorough"}

    def run(self, case, rec):
        self.begin(case)
        try:
            n = 0
            while n < 400:
                if n % 8 == case["part"]:
                    for first in (0, 1):
                        stopped = self.one(case, n, first, None, rec)
                        if stopped is None:
                            return
                        if case["deep"] and stopped:
                            m = 0
                            while True:
                                r = self.one(case, n, first, m, rec)
                                if r is None:
                                    return
                                if r == "m-end":
                                    break
                                m += 1
                    if not stopped:
                        break
                n += 1
        finally:
            env.rmtree(str(self.root))

    def one(self, case, n, first, m, rec):
        shutil.rmtree(self.dir, ignore_errors=True)
        where = f"{case} process {first} pauses before operation {n}{'' if m is None else f', the other before {m}'}: "
        HeldProcess.held = []
        with jobs.inline_processes(HeldProcess):
            d = self.new()
            ids = []
            for k in range(2):
                d.next_chunk_for(0, 0, 0, False)
                ids.append(d.checkpoint(0, 0, [k], self.dir, True))
            state = {ids[0]: (1, 0), ids[1]: (2, 1)}
            ps = HeldProcess.held
            a, b = ps[first], ps[1 - first]
            run = lambda p: (lambda: p.t(*p.a, **p.k))  # noqa: E731
            A = fault.Stoppable(run(a), str(self.dir), n)
            stopped = A.stopped
            if m is None:
                b.exitcode, info = fault.child(run(b), str(self.dir), -1, 0)
            else:
                B = fault.Stoppable(run(b), str(self.dir), m)
                if not B.stopped:
                    A.kill()
                    return "m-end"
                a.exitcode = A.resume()
                # first completed while the other one is still in progress
                if not self.observe(d, ids, ps, state, where + "[first done] ", rec):
                    B.kill()
                    return None
                b.exitcode = B.resume()
            rec.step()
            if stopped and m is None:
                # the second one completed while the first is still being written
                if not self.observe(d, ids, ps, state, where + "[other done, first paused] ", rec):
                    A.kill()
                    return None
                # ... and the first may die right here
                keep = str(self.dir) + ".keep"
                shutil.copytree(self.dir, keep)
                rec.state(tree(self.dir))
                a.exitcode = A.resume()
                if not self.observe(d, ids, ps, state, where + "[both done] ", rec):
                    return None
                shutil.rmtree(self.dir)
                os.rename(keep, self.dir)
                a.exitcode = -9
                if not self.observe(d, ids, ps, state, where + "[first died] ", rec):
                    return None
            else:
                if not stopped:
                    a.exitcode = A.code
                if not self.observe(d, ids, ps, state, where + "[both done] ", rec):
                    return None
            for p in ps:
                if p.exitcode not in (0, -9):
                    rec.fail("persist-failed", where + f"a persisting process failed without a fault: {[q.exitcode for q in ps]}")
                    return None
            rec.outcome((n, first, m, tuple(p.exitcode for p in ps)))
            return stopped

    def observe(self, d, ids, ps, state, where, rec):
        for cid, p in zip(ids, ps):
            try:
                ok = d.checkpoint_completed(cid, True)
            except RuntimeError:
                ok = "error"
            want = False if p.exitcode is None else (True if p.exitcode == 0 else "error")
            if ok != want:
                rec.fail("completed", where + f"{cid} is reported as {ok}, its process has {p.exitcode}")
                return False
            if not self.check_restore(cid, state[cid], ok is True, where, rec):
                return False
        return True


HARNESSES = [Crash(), Overlap()]
