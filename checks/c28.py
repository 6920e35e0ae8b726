"""C28: data-loader workers yield their own samples, report faithful positions, and release what they share."""
import copy
import itertools
import json
import os
import sys
import types
from pathlib import Path

from c01 import build
from c05 import MIX
from mc import env, jobs, sched, world

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of worker step interleavings of the real MixteraTorchDataset with a checkpoint and restore in every state, plus schedules of concurrently finishing workers and real DataLoader / Hugging Face runs"
RULE = ("a case = mixture kind x topology (groups, nodes, workers) x key ids on/off; all interleavings of the workers' steps (one step = one sample handed over, or the end of the stream) are explored as a tree; "
        "in every state the shared status is read, a checkpoint is taken through the training-side helper, the uninterrupted run and a run restored by a new data set continue under several schedules and must hand over the same samples; second-generation checkpoints likewise; "
        "finishing: all schedules of 2-3 workers ending concurrently, up to a preemption bound, interleaved line by line; "
        "states = (case, prefix of worker steps), transitions = worker steps, traces = continuations compared")
ASSUMPTIONS = ["a worker process shares with the training process the shared-memory segments, locks and the mixture counter only (as after fork); exploration runs workers as copies of the data set in one process, the loader harness uses real forked workers",
               "a checkpoint is taken when no worker is in the middle of fetching a chunk (the protocol offers no way to tell)",
               "samples a loader prefetched count as handed over"]

TEXTS = {"arbitrary": ["AAB", "BC"], "strict": ["AAB", "ABB"], "best-effort": ["AAAB", "BA"], "inferring": ["AAB", "BA"], "schedule": ["AABA", "BBA"], "dynamic": ["AABA", "BBA"]}
SEQ = [0]


def job_id():
    SEQ[0] += 1
    return f"c28_{os.getpid()}_{SEQ[0]}"


def no_tracker():
    """attaching must not register the segment a second time in this process (a forked worker does not either)"""
    from multiprocessing import resource_tracker

    class _C:
        def __enter__(self):
            self.s = resource_tracker.register
            resource_tracker.register = lambda *a: None

        def __exit__(self, *a):
            resource_tracker.register = self.s
    return _C()


def segments(ds):
    from multiprocessing.shared_memory import SharedMemory

    return {k: v for k, v in vars(ds).items() if isinstance(v, SharedMemory)}


def fork(ds):
    """what a forked data-loader worker has: its own mapping of the segments and its own plain state"""
    import dataclasses
    from multiprocessing.shared_memory import SharedMemory

    w = copy.copy(ds)
    with no_tracker():
        for k, v in segments(ds).items():
            w.__dict__[k] = SharedMemory(name=v.name)
    for k, v in list(vars(w).items()):
        if dataclasses.is_dataclass(v):
            w.__dict__[k] = copy.copy(v)
    return w


class Info:
    """torch's worker info, per simulated worker"""
    cur = None

    @classmethod
    def set(cls, wid, n):
        import torch.utils.data._utils.worker as tw

        tw._worker_info = None if wid is None else types.SimpleNamespace(id=wid, num_workers=n, seed=0, dataset=None)


def shm_exists(n):
    return os.path.exists("/dev/shm/" + n.lstrip("/"))


def remote_class():
    """the client of a training process in server mode: chunks and checkpoints go through the same job, serialized"""
    from mixtera.core.client.local.local_stub import LocalStub

    class Remote(LocalStub):
        def _stream_result_chunks(self, job_id, dp_group_id, node_id, worker_id):
            while True:
                try:
                    raw = self._get_query_chunk_distributor(job_id).next_chunk_for(dp_group_id, node_id, worker_id, False)
                except StopIteration:
                    return
                yield jobs.load(raw)

        def checkpoint(self, job_id, dp_group_id, node_id, worker_status, server=True):
            return super().checkpoint(job_id, dp_group_id, node_id, worker_status, True)

    return Remote


class Training:
    """one run of a job: a data set per (group, node) and the iterators of all workers"""

    def __init__(self, st, w, job, table, mix, top, keyid, ckpt=None, make=None):
        from mixtera.core.client.mixtera_client import QueryExecutionArgs, ResultStreamingArgs
        from mixtera.torch import MixteraTorchDataset

        self.top, self.st = top, st
        dp, nodes, W = top
        self.W = W
        self.ds, self.views, self.its, self.info, self.names = {}, {}, {}, {}, {}
        Info.set(None, 0)
        for g in range(dp):
            for n in range(nodes):
                c = st
                if (g, n) != (0, 0):
                    import multiprocessing as mp

                    c = object.__new__(type(st))
                    c.__dict__.update(vars(st))
                    c.current_mixture_id_val = mp.Value("i", -1)
                q = jobs.TableQuery(w, job, table, "the query")
                d = MixteraTorchDataset(c, q, QueryExecutionArgs(mixture=jobs.mixture(mix), dp_groups=dp, nodes_per_group=nodes, num_workers=W),
                                        ResultStreamingArgs(job_id=job, dp_group_id=g, node_id=n, chunk_reading_prefetch_first_sample=False, chunk_reading_mixture_type="simple"), checkpoint_path=ckpt, return_key_id=keyid)
                self.ds[(g, n)] = d
                self.names[(g, n)] = [s.name for s in segments(d).values()]
                for i in range(max(1, W)):
                    a = (g, n, i)
                    self.views[a] = fork(d) if W else d
                    self.info[a] = (i if W else None, W)
        self.ended = set()

    def actors(self):
        return list(self.views)

    def step(self, a):
        Info.set(*self.info[a])
        try:
            if a not in self.its:
                self.its[a] = iter(self.views[a])
            return next(self.its[a])
        except StopIteration:
            self.ended.add(a)
            return "end"
        finally:
            Info.set(None, 0)

    def close(self):
        from multiprocessing.shared_memory import SharedMemory

        for it in self.its.values():
            it.close()
        for d in list(self.views.values()) + list(self.ds.values()):
            for s in segments(d).values():
                try:
                    s.close()
                except BufferError:
                    pass
        for ns in self.names.values():
            for n in ns:
                if shm_exists(n):
                    SharedMemory(name=n).unlink()


class Reference:
    """the same job without the data set: the client's streams, stepped in the same order"""

    def __init__(self, st, w, job, table, mix, top):
        from mixtera.core.client.mixtera_client import QueryExecutionArgs, ResultStreamingArgs

        dp, nodes, W = top
        assert st.execute_query(jobs.TableQuery(w, job, table, "the query"), QueryExecutionArgs(mixture=jobs.mixture(mix), dp_groups=dp, nodes_per_group=nodes, num_workers=W))
        self.st, self.job = st, job
        self.args = {(g, n, i): ResultStreamingArgs(job_id=job, dp_group_id=g, node_id=n, worker_id=i, chunk_reading_prefetch_first_sample=False, chunk_reading_mixture_type="simple")
                     for g in range(dp) for n in range(nodes) for i in range(max(1, W))}
        self.its, self.chunk_id, self.pos, self.gmax = {}, {}, {}, {}

    def _stream(self, a):
        x = self.args[a]
        for c in self.st._stream_result_chunks(x.job_id, x.dp_group_id, x.node_id, x.worker_id):
            k = a[:2]
            self.gmax[k] = max(self.gmax.get(k, -1), c.mixture_id)
            self.pos[a] = 0
            c.configure_result_streaming(client=self.st, args=x)
            for i, k, s in c:
                self.pos[a] = i + 1
                yield k, s

    def step(self, a):
        if a not in self.its:
            self.its[a] = self._stream(a)
        return next(self.its[a], "end")


class Explore:
    name = "interleavings"
    cpu_limit = 700
    wall_limit = 840

    def setup(self):
        self.w = world.world()

    def cases(self, tier):
        deep = tier == "thorough"
        for name in TEXTS:
            tops = [(1, 1, 0), (1, 1, 1), (1, 1, 2), (2, 1, 1)]
            if name in ("arbitrary", "strict", "best-effort"):
                tops += [(1, 2, 1), (2, 1, 0)]
            if name == "arbitrary" or deep:
                tops += [(1, 1, 3)]
            if deep:
                tops += [(1, 2, 2), (2, 1, 2), (1, 2, 0)]
            for top in tops:
                dp, nodes, W = top
                acts = [(g, i) for g in range(dp) for i in range(max(1, W))]
                # partition the tree by its first two steps
                cut = 1 if len(acts) == 1 else 2
                for keyid in ((False, True) if len(acts) == 1 or deep else (len(acts) % 2 == 0,)):
                    for pre in itertools.product(acts, repeat=cut if len(acts) > 1 else 0):
                        yield {"mix": name, "top": list(top), "keyid": keyid, "pre": [list(a) for a in pre], "deep": deep}

    def run(self, case, rec):
        self.case, self.rec = case, rec
        self.root = env.fresh_dir("c28")
        mix, _ = MIX[case["mix"]]
        self.mix, self.layout = mix, TEXTS[case["mix"]]
        self.table, self.selected, _ = build(self.w, self.layout, "single")
        self.top = tuple(case["top"])
        self.where0 = f"mixture={case['mix']} layout={self.layout} groups x nodes x workers={self.top} keys={case['keyid']} "
        self.st = jobs.stub(env.fresh_dir("stub"))
        self.st._query_cache.enabled = False
        if self.top != (1, 1, 0):
            self.st.__class__ = remote_class()
        try:
            with jobs.inline_processes():
                pre = tuple(tuple(a) for a in case["pre"])
                if pre and all(tuple(a) == pre[0] for a in pre) and pre[0] == (0, 0) or not pre:
                    for i in range(len(pre)):
                        if self.node(pre[:i], only_check=True) is False:
                            return
                self.walk(pre)
        finally:
            self.st._mdc._connection.close() if hasattr(self.st._mdc, "_connection") else None
            env.rmtree(self.root)

    def lift(self, units):
        """the nodes of a group move together (training steps synchronize them)"""
        return [(g, n, i) for g, i in units for n in range(self.top[1])]

    def walk(self, prefix):
        nxt = self.node(prefix)
        if nxt is None or nxt is False:
            return nxt is not False
        for a in nxt:
            if self.walk(prefix + (a,)) is False:
                return False
        return True

    def make(self, ckpt=None, job=None):
        return Training(self.st, self.w, job or job_id(), self.table, self.mix, self.top, self.case["keyid"], ckpt)

    def play(self, t, ref, steps, where, got_all=None):
        for a in steps:
            if a in t.ended:
                continue
            got = t.step(a)
            want = ref["r"].step(a)
            self.rec.step()
            if want != "end" and not self.case["keyid"]:
                want = want[1]
            if got != want:
                self.rec.fail("samples", f"{where}worker {a} hands over {got} instead of {want}")
                return False
            if got_all is not None and got != "end":
                got_all.append(got)
            if not self.shared(t, ref, where + f"after {a}: "):
                return False
        return True

    def shared(self, t, ref, where):
        dp, nodes, W = self.top
        for (g, n), d in t.ds.items():
            acts = [(g, n, i) for i in range(max(1, W))]
            done = all(a in t.ended for a in acts)
            for x in t.names[(g, n)]:
                if shm_exists(x) == done:
                    self.rec.fail("release", where + f"shared segment {x} of group {g} node {n} " + ("still exists although all its workers ended" if done else "is gone although a worker is still running"))
                    return False
            if ref is None:
                continue
            r = ref["r"]
            want = [r.pos.get(a, 0) for a in acts]
            if d.worker_status != want:
                self.rec.fail("status", where + f"group {g} node {n} reports the positions {d.worker_status}, handed over of the current chunks: {want}")
                return False
            m = r.gmax.get((g, n))
            if (g, n) == (0, 0) or m is not None:
                if d._client.current_mixture_id != m:
                    self.rec.fail("mixture-id", where + f"feedback would be attributed to mixture {d._client.current_mixture_id}, the newest handed over is {m}")
                    return False
        return True

    def conts(self, acts):
        units = sorted({(g, i) for g, n, i in acts})
        yield self.lift([u for _ in range(20) for u in units])
        if len(units) > 1:
            yield self.lift([u for u in reversed(units) for _ in range(20)])

    def node(self, prefix, only_check=False):
        """check the state reached by this prefix; returns the possible next steps"""
        rec, where = self.rec, self.where0 + f"steps {[str(a)[1:-1].replace(', ', '.') for a in prefix]}: "
        acts = None
        out = None
        for ci in range(2):
            job = job_id()
            t = self.make(job=job)
            ref = {"r": Reference(self.st, self.w, job + "r", self.table, self.mix, self.top)}
            # the reference registers after the training job: start the counter again as the training's own start does
            acts = t.actors()
            t2 = None
            try:
                handed = []
                if not self.play(t, ref, self.lift(prefix), where, handed):
                    return False
                live = [a for a in acts if a not in t.ended]
                out = live if not only_check else None
                cs = list(self.conts(acts))
                if ci >= len(cs):
                    continue
                if not live:
                    if len(handed) != len(self.selected) and self.case["mix"] == "arbitrary" and self.top[1] == 1:
                        rec.fail("complete", where + f"{len(handed)} samples handed over, {len(self.selected)} selected")
                        return False
                    rec.outcome(tuple(handed))
                    rec.trace()
                    return []
                if ci == 0:
                    rec.state((self.case["mix"], self.top, self.case["keyid"], prefix))
                ck = self.checkpoint(t, where)
                if ck is None:
                    return False
                n_ended = set(t.ended)
                exp = {a: [] for a in acts}
                order = []
                for a in cs[ci]:
                    if a in t.ended:
                        continue
                    got = t.step(a)
                    want = ref["r"].step(a)
                    rec.step()
                    if want != "end" and not self.case["keyid"]:
                        want = want[1]
                    if got != want:
                        rec.fail("disturbed", where + f"after a checkpoint, worker {a} hands over {got} instead of {want}")
                        return False
                    exp[a].append(got)
                    order.append((a, got))
                if not self.shared(t, None, where + "at the end: "):
                    return False
                t.close()
                # a new training process continues from the checkpoint
                t2 = self.make(ckpt=ck, job=job)
                if not self.resume(t2, order, n_ended, where + f"continuing in {'turns' if ci == 0 else 'reverse order'}: "):
                    return False
                t2.close()
                if ci == 0:
                    for moved in ((0, 1, 2) if len(acts) <= 2 else (1,)):
                        if moved > len(order):
                            break
                        t2 = self.make(ckpt=ck, job=job)
                        if not self.resume(t2, order[:moved], n_ended, where + "first steps after restoring: ", finish=False):
                            return False
                        # nodes of a group agree
                        if self.top[1] > 1 and moved % self.top[1]:
                            t2.close()
                            continue
                        ck2 = self.checkpoint(t2, where)
                        t2.close()
                        if ck2 is None:
                            return False
                        t2 = self.make(ckpt=ck2, job=job)
                        if not self.resume(t2, order[moved:], n_ended | {a for a, g in order[:moved] if g == "end"}, where + f"second checkpoint {moved} steps after restoring: "):
                            return False
                        t2.close()
            finally:
                t.close()
                if t2 is not None:
                    t2.close()
                self.st._training_query_map.clear()
        return [(g, i) for g, n, i in out if n == 0] if out else out

    def resume(self, t, order, ended, where, finish=True):
        for a, want in order:
            got = t.step(a)
            self.rec.step()
            if got != want:
                self.rec.fail("resume", where + f"worker {a} hands over {got} instead of {want} (uninterrupted rest: {order})")
                return False
        if finish:
            for a in sorted(ended):
                got = t.step(a)
                if got != "end":
                    self.rec.fail("resume", where + f"worker {a}, which had finished, hands over {got}; order={order} ended={ended}")
                    return False
            if not self.shared(t, None, where + "at the end: "):
                return False
        self.rec.trace()
        return True

    def checkpoint(self, t, where):
        from mixtera.utils.checkpoint import handle_mixtera_checkpoint

        dp, nodes, W = self.top
        p = Path(env.fresh_dir("ck"))
        if (dp, nodes) == (1, 1):
            handle_mixtera_checkpoint(t.ds[(0, 0)], p, 0, 0, True)
            return p
        ids = []
        for (g, n), d in t.ds.items():
            ids.append(d._client.checkpoint(d._query.job_id, g, n, d.worker_status))
        if len(set(ids)) != 1:
            self.rec.fail("ids", where + f"the nodes got different checkpoint ids {ids}")
            return None
        assert t.st.checkpoint_completed(t.ds[(0, 0)]._query.job_id, ids[0], True)
        (p / "mixtera.id").write_text(ids[0])
        return p


class Finish:
    """several workers of one node reach the end of their streams at the same time"""

    name = "finishing"
    cpu_limit = 700
    wall_limit = 840

    def setup(self):
        self.w = world.world()

    def cases(self, tier):
        deep = tier == "thorough"
        for n, b in (((2, 2), (3, 1)) if not deep else ((2, 3), (3, 2), (4, 1))):
            for left in range(n):  # how many of them have already finished
                yield {"workers": n, "ended": left, "bound": b}

    def run(self, case, rec):
        import torch.utils.data._utils.worker as tw
        import mixtera.torch.mixtera_torch_dataset as tm

        W = case["workers"]
        table, _, _ = build(self.w, ["A" * W], "single")
        d = env.fresh_dir("stub")
        st = jobs.stub(d)
        st._query_cache.enabled = False
        st.__class__ = remote_class()
        src = tm.__file__

        def line(frame, event, arg):
            if event == "line" and getattr(sched._tls, "task", None) is not None:
                sched._pt()
            return line

        def tracer(frame, event, arg):
            return line if frame.f_code.co_filename == src else None

        def one(chooser):
            with sched.patched([tm], only={"Lock", "RLock"}):
                t = Training(st, self.w, job_id(), table, {"kind": "arbitrary", "size": 1}, (1, 1, W), False)
                try:
                    for a in t.actors():
                        assert t.step(a) != "end"
                    for a in t.actors()[:case["ended"]]:
                        assert t.step(a) == "end"
                    todo = t.actors()[case["ended"]:]
                    s = sched.Scheduler(chooser)
                    log = []

                    def work(a):
                        def f():
                            sys.settrace(tracer)
                            try:
                                r = next(t.its[a], "end")
                            finally:
                                sys.settrace(None)
                            log.append((a, r))
                        return f

                    tw._worker_info = Ids({i: a[2] for i, a in enumerate(todo)})
                    try:
                        for a in todo:
                            s.spawn(work(a))
                        s.run()
                    finally:
                        tw._worker_info = None
                    errs = [repr(x.exc) for x in s.tasks if x.exc is not None]
                    left = [x for x in t.names[(0, 0)] if shm_exists(x)]
                    return log, errs, left, s.steps
                finally:
                    t.close()
                    st._training_query_map.clear()

        def on(res, choices):
            log, errs, left, steps = res
            rec.step(steps)
            rec.state((str(case), tuple(choices)))
            rec.outcome(tuple(log))
            w = f"{case} schedule {choices}: "
            if errs or len(log) != W - case["ended"] or any(r != "end" for _, r in log):
                rec.fail("end", w + f"workers ended with {log} {errs}")
                return False
            if left:
                rec.fail("release", w + f"all workers ended, but the shared segments {left} still exist")
                return False
            return True

        try:
            n, done = sched.explore(one, case["bound"], limit=40000, on_run=on)
            rec.trace(n)
            if not done and not rec.fails:
                rec.cap(f"{case}: limit reached")
        finally:
            st._mdc._connection.close() if hasattr(st._mdc, "_connection") else None
            env.rmtree(d)


class Ids:
    """torch's worker info while several simulated workers run as tasks of the scheduler"""
    seed, dataset = 0, None

    def __init__(self, ids):
        self.ids = ids
        self.num_workers = len(ids)

    @property
    def id(self):
        return self.ids[sched._tls.task.id]


class Loader:
    """real data loaders with real worker processes, for the torch and the Hugging Face data set"""

    name = "loaders"
    wall_limit = 300

    def setup(self):
        self.w = world.world()

    def cases(self, tier):
        for kind in ("torch", "hf"):
            for W in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
                for batch in (None, 2):
                    for m in ("arbitrary", "strict", "best-effort"):
                        for keyid in ((False, True) if kind == "torch" else (True,)):
                            for split in ((False,) if kind == "torch" else (True, False) if W else (True,)):
                                yield {"kind": kind, "workers": W, "batch": batch, "mix": m, "keyid": keyid, "split": split}

    def run(self, case, rec):
        import multiprocessing as mp
        import torch
        from mixtera.core.client.mixtera_client import QueryExecutionArgs, ResultStreamingArgs
        from mixtera.utils.feedback import handle_mixtera_feedback

        W, kind = case["workers"], case["kind"]
        table, selected, _ = build(self.w, TEXTS[case["mix"]], "single")
        d = env.fresh_dir("stub")
        st = jobs.stub(d)
        st._query_cache.enabled = False
        job = job_id()
        before = set(os.listdir("/dev/shm"))
        mp.current_process()._config["daemon"] = False
        try:
            mix = jobs.mixture(MIX[case["mix"]][0])
            q, qa, sa = jobs.TableQuery(self.w, job, table, "q"), QueryExecutionArgs(mixture=mix, num_workers=W), ResultStreamingArgs(job_id=job)
            if kind == "torch":
                from mixtera.torch import MixteraTorchDataset

                ds = MixteraTorchDataset(st, q, qa, sa, return_key_id=case["keyid"])
            else:
                from mixtera.hf import MixteraHFDataset

                ds = MixteraHFDataset(st, q, qa, sa)
                if case["split"]:  # as training frameworks do
                    from datasets.distributed import split_dataset_by_node

                    ds = split_dataset_by_node(ds, 0, 1)
            mine = {x for x in set(os.listdir("/dev/shm")) - before if job in x}
            dl = torch.utils.data.DataLoader(ds, batch_size=case["batch"], num_workers=W, collate_fn=(lambda b: list(b)) if case["batch"] else (lambda b: b))
            got = []
            step = 0
            for b in dl:
                got += b if case["batch"] else [b]
                step += 1
                handle_mixtera_feedback(dl, step, [1.0, 2.0], [1, 2], 0, 0)
                rec.step()
                gone = [x for x in mine if not shm_exists(x)]
                if gone and not W and not case["batch"] and len(got) < len(selected):
                    rec.fail("release", f"{case}: {gone} are gone before the data ended")
                    return
            # the same job on the client's own streams
            st2 = jobs.stub(env.fresh_dir("stub"))
            st2._query_cache.enabled = False
            q2 = jobs.TableQuery(self.w, job, table, "q")
            assert st2.execute_query(q2, QueryExecutionArgs(mixture=jobs.mixture(MIX[case["mix"]][0]), num_workers=W))
            import dataclasses

            want = {i: [] for i in range(max(1, W))}
            text2key = {}
            drain = {i: st2.stream_results(dataclasses.replace(sa, worker_id=i)) for i in want}
            total = []
            while drain:
                for i in sorted(drain):
                    x = next(drain[i], None)
                    if x is None:
                        del drain[i]
                    else:
                        text2key[x[2]] = x[1]
                        total.append(x[2])
            if kind == "hf":
                got = [(x["key_id"], x["text"]) for x in got]
            texts = [x[1] if case["keyid"] else x for x in got]
            if sorted(texts) != sorted(total):
                rec.fail("samples", f"{case}: the loader hands over {sorted(texts)}, the job contains {sorted(total)}")
                return
            if W <= 1 and texts != total:
                rec.fail("order", f"{case}: the loader hands over {texts}, the job's order is {total}")
                return
            if case["keyid"]:
                bad = [(k, t) for k, t in got if text2key[t] != k]
                if bad:
                    rec.fail("keys", f"{case}: wrong domain ids {bad}, expected {text2key}")
                    return
            left = [x for x in mine if shm_exists(x)]
            if left or not mine:
                rec.fail("release", f"{case}: shared segments left: {left} of {mine}")
                return
            rec.state(str(case))
            rec.outcome(tuple(texts))
            rec.trace()
        finally:
            for x in set(os.listdir("/dev/shm")) - before:
                if job in x:
                    os.unlink("/dev/shm/" + x)
            st._mdc._connection.close() if hasattr(st._mdc, "_connection") else None
            env.rmtree(d)


HARNESSES = [Loader(), Explore(), Finish()]
